"""Sampled Bezier points lie on the cubic in order"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.bezier import bez
from checks.common import mk_point, mk_transform, cubic, affine

FORMS = ['pairs', 'points', 'mixed', 'tuple']


def ctrl(h, form):
    xy = [(h.real('x%d' % i), h.real('y%d' % i)) for i in range(4)]
    if form == 'pairs':
        return xy, list(xy)
    if form == 'tuple':
        return xy, tuple(Point(*p) for p in xy)
    if form == 'points':
        return xy, [Point(*p) for p in xy]
    return xy, [Point(*xy[0]), xy[1], PointRelative(xy[2][0], xy[2][1], Point(0, 0)), Vector(*xy[3]).p]


@harness(bounds='all control points, 1 to 6 steps, every input and output form', params=[dict(form=f) for f in FORMS])
def samples(h, form):
    xy, raw = ctrl(h, form)
    n = h.choice('steps', [1, 2, 3, 4, 5, 6])
    pts = bez(raw, steps=n, as_xy=True)
    h.check('one more point than steps', len(pts) == n + 1)
    h.check('starts at the first control point', h.eq(pts[0], xy[0]))
    h.check('ends at the last control point', h.eq(pts[-1], xy[3]))
    for k, p in enumerate(pts):
        h.check('pairs', len(p) == 2)
        h.check('sample on the cubic', h.eq(p, cubic(xy, h.frac(k, n))))
    flat = bez(raw, n)
    h.check('flat form lists the same coordinates', h.eq(flat, [v for p in pts for v in p]))
    h.check('flat form is flat', len(flat) == 2 * n + 2)
    h.check('same result again', h.eq(bez(raw, n, True), pts))


@harness(bounds='all control points, 20 and 80 steps (the values the package draws with)', params=[dict(n=20), dict(n=80)])
def drawing_steps(h, n):
    xy, raw = ctrl(h, 'points')
    pts = bez(raw, as_xy=True) if n == 80 else bez(raw, steps=n, as_xy=True)
    h.check('one more point than steps', len(pts) == n + 1)
    h.check('end points', h.and_(h.eq(pts[0], xy[0]), h.eq(pts[-1], xy[3])))
    h.check('samples on the cubic', h.and_(*[h.eq(p, cubic(xy, h.frac(k, n))) for k, p in enumerate(pts)]))


@harness(bounds='all control points within any box, 1 to 6 steps')
def inside_hull(h):
    xy, raw = ctrl(h, 'pairs')
    n = h.choice('steps', [1, 2, 3, 4, 5, 6])
    xl, yl, xh, yh = [h.real(s) for s in ('xl', 'yl', 'xh', 'yh')]
    for x, y in xy:
        h.assume(h.and_(xl <= x, x <= xh, yl <= y, y <= yh))
    for x, y in bez(raw, n, True):
        h.check('sample inside any box around the control points', h.and_(h.le(xl, x), h.le(x, xh), h.le(yl, y), h.le(y, yh)))


@harness(bounds='all control points, all affine maps, 1 to 6 steps')
def affine_invariant(h):
    xy, raw = ctrl(h, 'points')
    n = h.choice('steps', [1, 2, 3, 4, 5, 6])
    t = mk_transform(h, 't')
    a = bez(t.transform_pts(raw), n, True)
    h.check('samples of the transformed curve are the transformed samples',
            h.eq(a, [affine(t.as_6tuple(), *p) for p in bez(raw, n, True)]))


@harness(bounds='all control points')
def wrong_count(h):
    xy, raw = ctrl(h, 'points')
    h.check('three control points are rejected', h.raises(ValueError, lambda: bez(raw[:3], 2)))
    h.check('five control points are rejected', h.raises(ValueError, lambda: bez(raw + raw[:1], 2)))
