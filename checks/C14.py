"""All ways of mapping points through a transform agree"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.transform import Transform, Transformer
from checks.common import mk_transform, mk_point, affine


@harness(bounds='all six matrix entries, all points of every kind')
def single(h):
    t = mk_transform(h, 't')
    m = t.as_6tuple()
    p = mk_point(h, 'p')
    x, y = p.xy()
    e = affine(m, x, y)
    h.check('transform', h.eq(t.transform(x, y), e))
    h.check('transform gives a pair', isinstance(t.transform(x, y), tuple) and len(t.transform(x, y)) == 2)
    q = t.transform_pt(p)
    h.check('transform_pt gives a point', isinstance(q, Point))
    h.check('transform_pt', h.eq(q, e))
    q = t.transform_pt(p, as_pt=False)
    h.check('transform_pt as pair gives a pair', isinstance(q, tuple) and len(q) == 2)
    h.check('transform_pt as pair', h.eq(q, e))
    h.check('point unchanged', h.eq(p, (x, y)))
    h.check('transform unchanged', h.eq(t.as_6tuple(), m))


@harness(bounds='all six matrix entries, lists of 1 to 3 points or pairs', params=[dict(n=1), dict(n=2), dict(n=3)])
def lists(h, n):
    t = mk_transform(h, 't')
    m = t.as_6tuple()
    form = h.choice('form', ['points', 'relative', 'pairs'])
    xy = [(h.real('x%d' % i), h.real('y%d' % i)) for i in range(n)]
    if form == 'points':
        pts = [Point(*q) for q in xy]
    elif form == 'relative':
        base = Point(h.real('bx'), h.real('by'))
        pts = [PointRelative.fromxy(q[0], q[1], base) for q in xy]
    else:
        pts = list(xy)
    e = [affine(m, *q) for q in xy]
    r = t.transform_pts(pts)
    h.check('one result per point, in order', len(r) == n)
    h.check('transform_pts', h.eq(r, e))
    if form == 'pairs':
        h.check('pairs in, pairs out', all(isinstance(q, tuple) and len(q) == 2 for q in r))
    else:
        h.check('points in, points out', all(type(q) is Point for q in r))
    f = t.transform_pts(pts, flatten=True)
    h.check('flattened length', len(f) == 2 * n)
    h.check('flattened', h.eq(f, [v for q in e for v in q]))
    h.check('input list unchanged', h.eq([tuple(q) if form == 'pairs' else q.xy() for q in pts], xy))
    h.check('transform unchanged', h.eq(t.as_6tuple(), m))


@harness(bounds='all six matrix entries, 1 to 3 points through the array interface', params=[dict(n=1), dict(n=2), dict(n=3)])
def arrays(h, n):
    t = mk_transform(h, 't')
    m = t.as_6tuple()
    xy = [(h.real('x%d' % i), h.real('y%d' % i)) for i in range(n)]
    a = Transformer.points_to_np_points(xy)
    h.check('array form is one column per point', a.shape == (3, n))
    r = t.transform_np_pts(a)
    h.check('array rows', h.eq([(q[0], q[1]) for q in r], [affine(m, *q) for q in xy]))
    o = Transformer.xy_to_np_point(*xy[0])
    h.check('single point array', o.shape == (3, 1))
    h.check('single point', h.eq(list(t.transform_np_pts(o)[0])[:2], affine(m, *xy[0])))


@harness(bounds='any non-linear transformer that displaces points by an arbitrary map of up to 2 points')
def generic_transformer(h):
    """The base-class entry points on a transformer defined only by transform_np_pts (documented contract: rows of x, y, 1)"""
    k, l = h.real('k'), h.real('l')

    class Bend(Transformer):
        LINEAR = False

        def transform_np_pts(self, np_pts):
            return [(x + k * y * y, y + l * x * y, 1) for x, y, z in np_pts.T]
    t = Bend()
    xy = [(h.real('x%d' % i), h.real('y%d' % i)) for i in range(2)]
    e = [(x + k * y * y, y + l * x * y) for x, y in xy]
    h.check('transform', h.eq(t.transform(*xy[0]), e[0]))
    h.check('transform_pt', h.eq(t.transform_pt(Point(*xy[1])), e[1]))
    h.check('transform_pts of pairs', h.eq(t.transform_pts(xy), e))
    h.check('transform_pts of points', h.eq(t.transform_pts([Point(*q) for q in xy]), e))
    h.check('flattened', h.eq(t.transform_pts(xy, flatten=True), [v for q in e for v in q]))


@harness(bounds='all sextuples; the identity')
def construct(h):
    m = tuple(h.real(n) for n in 'abcdef')
    x, y = h.real('x'), h.real('y')
    h.check('entries come back', h.eq(Transform(m).as_6tuple(), m))
    h.check('list of entries', h.eq(Transform(list(m)).transform(x, y), affine(m, x, y)))
    for i in (Transform(), Transform.identity(), Transform(m).reset()):
        h.check('identity', h.eq(i.transform(x, y), (x, y)))


@harness(bounds='lists of 7 to 12 points, all coordinates and maps', params=[dict(n=n) for n in (7, 9, 12)])
def long_lists(h, n):
    t = mk_transform(h, 't')
    m = t.as_6tuple()
    pts = [(h.real('x%d' % i), h.real('y%d' % i)) for i in range(n)]
    k = h.choice('twin', [None, 0, 1, 6, n - 1])
    if k is not None:
        pts[k] = pts[k - 1]
    want = [affine(m, x, y) for x, y in pts]
    h.check('every point', h.eq([tuple(p) for p in t.transform_pts([Point(*p) for p in pts])], want))
    h.check('as pairs', h.eq(t.transform_pts(pts), want))
    h.check('flattened', h.eq(t.transform_pts(pts, flatten=True), [v for q in want for v in q]))
