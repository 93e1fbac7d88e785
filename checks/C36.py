"""Offsetting moves each control location by the requested distance"""
import math
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.colors import PenBrush
from checks.common import mk_point


def direction(h, name, lo=None):
    """A vector of arbitrary direction and length, with its unit vector"""
    a = h.angle(name)
    length = h.real(name + '.len', lo)
    h.assume(length > 0)
    c, s = math.cos(math.radians(a)), math.sin(math.radians(a))
    return Vector(length * c, length * s), c, s


def two_directions(h):
    """Two vectors of arbitrary direction and length with their unit vectors, given by the line halfway between them and
    their angle from it (every pair of directions can be written like that)"""
    b, f = h.angle('halfway'), h.angle('half')
    c, s = math.cos(math.radians(b)), math.sin(math.radians(b))
    cf, sf = math.cos(math.radians(f)), math.sin(math.radians(f))
    u, v = (c * cf - s * sf, s * cf + c * sf), (c * cf + s * sf, s * cf - c * sf)
    n, m = h.real('dl.len'), h.real('dr.len')
    h.assume(h.and_(n > 0, m > 0))
    return Vector(n * u[0], n * u[1]), u, Vector(m * v[0], m * v[1]), v, cf, sf


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


@harness(bounds='all points, all pairs of directions of any length whose unit vectors have a cross product of at least 1e-9, all distances within the limit')
def angled(h):
    p = mk_point(h, 'p')
    dl, u, dr, v, cf, sf = two_directions(h)
    off = h.real('off')
    h.assume(h.or_(2 * cf * sf >= 1e-9, 2 * cf * sf <= -1e-9))
    # the corner moves by off / sin(half the angle between the directions)
    limit = ElemCurve.OFFSET_PT_LIMIT
    h.assume(h.and_(off <= limit * abs(sf) * (1 - 1e-9), -off <= limit * abs(sf) * (1 - 1e-9)))
    q = ElemCurve.offset_pt(dl, p, dr, off)
    (px, py), (qx, qy) = p.xy(), q.xy()
    w = (qx - px, qy - py)
    h.check('distance to the left line', h.eq(cross(w, u), off))
    h.check('distance to the right line', h.eq(cross(w, v), -off))


@harness(bounds='all points, all pairs of directions of any length whose unit vectors have a cross product of at least 1e-9, all distances beyond the limit')
def limited(h):
    p = mk_point(h, 'p')
    dl, u, dr, v, cf, sf = two_directions(h)
    off = h.real('off')
    h.assume(h.or_(2 * cf * sf >= 1e-9, 2 * cf * sf <= -1e-9))
    limit = ElemCurve.OFFSET_PT_LIMIT
    h.assume(h.or_(off >= limit * abs(sf) * (1 + 1e-9), -off >= limit * abs(sf) * (1 + 1e-9)))
    q = ElemCurve.offset_pt(dl, p, dr, off)
    (px, py), (qx, qy) = p.xy(), q.xy()
    w = (qx - px, qy - py)
    h.check('moved by the limit', h.eq(w[0] * w[0] + w[1] * w[1], limit ** 2))
    h.check('same distance from both lines', h.eq(cross(w, u), -cross(w, v)))
    h.check('same side as the distance', h.and_(h.le(0, cross(w, u) * off), h.le(cross(w, v) * off, 0)))


@harness(bounds='all points, straight runs of any direction and lengths, all distances')
def straight(h):
    p = mk_point(h, 'p')
    dl, lc, ls = direction(h, 'dl')
    m = h.real('m')
    h.assume(m < 0)
    off = h.real('off')
    q = ElemCurve.offset_pt(dl, p, Vector(m * lc, m * ls), off)
    (px, py), (qx, qy) = p.xy(), q.xy()
    h.check('perpendicular by the distance', h.eq((qx - px, qy - py), (off * ls, -off * lc)))


@harness(bounds='all points, a zero direction on either or both sides, all distances')
def zero(h):
    p = mk_point(h, 'p')
    d = Vector(h.real('x'), h.real('y'))
    which = h.choice('which', ['left', 'right', 'both'])
    dl = d if which == 'right' else Vector(0, 0)
    dr = d if which == 'left' else Vector(0, 0)
    h.check('left in place', h.eq(ElemCurve.offset_pt(dl, p, dr, h.real('off')).xy(), p.xy()))


KINDS = ['sharp', 'very-smooth', 'smooth']
# edges of convex polygons as (numerator x, numerator y, denominator) of unit directions, counter-clockwise
SHAPES = {
    'upright rectangle': [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1)],
    'turned rectangle': [(3, 4, 5), (-4, 3, 5), (-3, -4, 5), (4, -3, 5)],
    'right triangle': [(1, 0, 1), (-4, 3, 5), (0, -1, 1)],
    'sharp triangle': [(1, 0, 1), (-12, 5, 13), (-12, -5, 13), ],
    'trapezoid': [(1, 0, 1), (0, 1, 1), (-4, 3, 5), (0, -1, 1)],
    'pentagon': [(1, 0, 1), (3, 4, 5), (-3, 4, 5), (-1, 0, 1), (0, -1, 1)],
}


@harness(bounds='convex polygons with given edge directions (turned and upright rectangles, triangles, trapezoid, pentagon), arbitrary edge lengths, position, '
                'straight handles of any fraction of the edges up to 0.49, corners of every kind, both orientations, every starting corner, distances -15..15',
         params=[dict(shape=s, ccw=o) for s in SHAPES for o in (True, False)], time=150)
def polygon(h, shape, ccw):
    dirs = [(h.frac(x, d), h.frac(y, d)) for x, y, d in SHAPES[shape]]
    lens = [h.real('len%d' % i, 1e-3) for i in range(len(dirs))]
    h.assume(h.and_(*[h.eq(sum(l * d[i] for l, d in zip(lens, dirs)), 0) for i in (0, 1)]))
    f, off = h.real('f', 1e-3, 0.49), h.real('off', -15, 15)
    x, y = h.real('x'), h.real('y')
    pts = []
    for l, d in zip(lens, dirs):
        pts.append((x, y))
        x, y = x + l * d[0], y + l * d[1]
    n = len(pts)
    cps = []
    for i, (px, py) in enumerate(pts):
        d, e, l, m = dirs[i - 1], dirs[i], lens[i - 1], lens[i]
        cps.append(ControlPoint(Point(px, py), Vector(-f * l * d[0], -f * l * d[1]), Vector(f * m * e[0], f * m * e[1]), KINDS[i % 3]))
    start = h.choice('start', range(n))
    cps = cps[start:] + cps[:start]
    if not ccw:
        cps = ControlPoint.reverse_list(cps)
    e = ElemCurve('e', PenBrush('red', 'blue'), cps, True)
    o = e.offset(off)
    h.check('as many control points, closed, same pens', len(o.control_points) == n and o.closed and o.penbrush == e.penbrush)
    out = [(c.c.xy(), c.l.xy(), c.r.xy()) for c in o.control_points]

    def dist(p, i):
        """Signed distance of p inward from the line of edge i"""
        i %= n
        return (p[1] - pts[i][1]) * dirs[i][0] - (p[0] - pts[i][0]) * dirs[i][1]
    # corner i lies between edges i-1 and i: all corners in order, from any start and either way round
    alts = []
    for rev in (False, True):
        for k in range(n):
            at = [(k - q if rev else k + q) % n for q in range(n)]
            conj = [[c.kind for c in o.control_points] == [KINDS[i % 3] for i in at]]
            for q, (c, l, r) in enumerate(out):
                i = at[q]
                a, b = (r, l) if rev else (l, r)
                conj += [h.eq(dist(c, i - 1), off), h.eq(dist(c, i), off), h.eq(dist(a, i - 1), off), h.eq(dist(b, i), off)]
            alts.append(h.and_(*conj))
    h.check('every corner and handle moved by the distance from its edges, of its own kind', h.or_(*alts))


@harness(bounds='open and closed curves of two arbitrary control points, arbitrary translation: bookkeeping of the result', params=[dict(kind=k) for k in ('curve', 'open')])
def bookkeeping(h, kind):
    from x7.geom.transform import Transform
    from checks.common import mk_elem, snap
    e = mk_elem(h, kind, xform=Transform().translate(h.real('tx'), h.real('ty')), cps=2)
    for c in e.control_points:
        c.dl, c.dr = Vector(0, 0), Vector(0, 0)
    s0 = snap(e)
    o = e.offset(h.real('off'))
    h.check('original unchanged', h.eq(snap(e), s0))
    h.check('name, pens, closedness', o.name == e.name + '_o' and o.penbrush == e.penbrush and o.closed == e.closed)
    h.check('no own transform left', h.eq(o.xform.as_6tuple(), Transform().as_6tuple()))
    got = [(c.c.xy(), c.kind) for c in o.control_points]
    want = [(e.xform.transform(*c.c.xy()), c.kind) for c in e.control_points]
    h.check('control points without handles stay where they are drawn', h.or_(h.eq(got, want), h.eq(got, want[::-1])))


@harness(bounds='closed curves of two control points (lenses) whose handles span upright rectangles of arbitrary sides and position, both orientations, either start, '
                'plain, mirrored, scaled and turned by their own transform, distances -10..10',
         params=[dict(own=o) for o in ('none', 'moved', 'mirrored', 'scaled', 'turned')])
def lens(h, own):
    from x7.geom.transform import Transform
    x, y = h.real('x'), h.real('y')
    w, lo, hi, off = h.real('w', 1e-3), h.real('lo', 1e-3), h.real('hi', 1e-3), h.real('off', -10, 10)
    m = {'none': None, 'moved': (1, 0, h.real('tx'), 0, 1, h.real('ty')), 'mirrored': (-1, 0, h.real('tx'), 0, 1, h.real('ty')),
         'scaled': (2, 0, h.real('tx'), 0, -3, h.real('ty')), 'turned': (0, -1, h.real('tx'), 1, 0, h.real('ty'))}[own]
    cps = [ControlPoint(Point(x, y), Vector(0, hi), Vector(0, -lo), 'sharp'), ControlPoint(Point(x + w, y), Vector(0, -lo), Vector(0, hi), 'smooth')]
    if h.choice('start', [0, 1]):
        cps = cps[1:] + cps[:1]
    if h.choice('way', ['ccw', 'cw']) == 'cw':
        cps = ControlPoint.reverse_list(cps)
    e = ElemCurve('e', PenBrush('red', 'blue'), cps, True, m and Transform(m))
    o = e.offset(off)
    at = e.xform.transform
    a, b = at(x, y - lo), at(x + w, y + hi)
    xl, xh, yl, yh = min(a[0], b[0]) + off, max(a[0], b[0]) - off, min(a[1], b[1]) + off, max(a[1], b[1]) - off
    h.check('as many control points, closed, same pens, drawn in place', len(o.control_points) == 2 and o.closed and o.penbrush == e.penbrush
            and h.eq(o.xform.as_6tuple(), (1, 0, 0, 0, 1, 0)))
    c, d = at(x, y), at(x + w, y)
    if own == 'turned':
        ends = {'sharp': (c[0], c[1] + off), 'smooth': (d[0], d[1] - off)}
        lens_of = {'sharp': [(xl, yl), (xh, yl)], 'smooth': [(xl, yh), (xh, yh)]}
    else:
        s = 1 if own in ('none', 'moved', 'scaled') else -1
        ends = {'sharp': (c[0] + s * off, c[1]), 'smooth': (d[0] - s * off, d[1])}
        l, r = [(xl, yl), (xl, yh)], [(xh, yl), (xh, yh)]
        lens_of = {'sharp': l if s == 1 else r, 'smooth': r if s == 1 else l}
    for cp in o.control_points:
        h.check('control points inward by the distance', h.eq(cp.c.xy(), ends[cp.kind]))
        p, q = cp.l.xy(), cp.r.xy()
        u, v = lens_of[cp.kind]
        h.check('handles inward by the distance', h.or_(h.eq([p, q], [u, v]), h.eq([p, q], [v, u])))


@harness(bounds='open and closed curves of 4 to 9 control points of mixed kinds without handles, one of them, any, anywhere: every control point stays, of its own kind',
         params=[dict(kind=k, n=n) for k in ('curve', 'open') for n in (4, 7, 8, 9)])
def long_bookkeeping(h, kind, n):
    from checks.common import snap, spaced
    e = ElemCurve('e', PenBrush('red'), spaced(h, 'p', n, ('sharp', 'very-smooth', 'smooth', 'sharp', 'smooth', 'smooth', 'very-smooth'), False), kind == 'curve')
    for c in e.control_points:
        c.dl, c.dr = Vector(0, 0), Vector(0, 0)
    s0 = snap(e)
    o = e.offset(h.real('off'))
    h.check('original unchanged', h.eq(snap(e), s0))
    got = [(c.c.xy(), c.kind) for c in o.control_points]
    want = [(c.c.xy(), c.kind) for c in e.control_points]
    h.check('control points without handles stay where they are drawn, of their own kind', h.or_(h.eq(got, want), h.eq(got, want[::-1])))
