"""Box union is the least enclosing box"""
from symx.harness import harness
from x7.geom.geom import *


def mk_box(h, name, none=True):
    if none and h.choice(name + '.none', [0, 1]):
        return BBox(None)
    return raw_box(h, name)


def raw_box(h, name):
    x1, y1, x2, y2 = [h.real('%s.%s' % (name, n)) for n in ('x1', 'y1', 'x2', 'y2')]
    h.assume(h.and_(x1 <= x2, y1 <= y2))
    return BBox(x1, y1, x2, y2)


def inside(h, a, b):
    """a inside b (a, b with coordinates)"""
    return h.and_(h.le(b.xl, a.xl), h.le(a.xh, b.xh), h.le(b.yl, a.yl), h.le(a.yh, b.yh))


@harness(bounds='all pairs of boxes, degenerate and coordinate-less included')
def union2(h):
    a, b = mk_box(h, 'a'), mk_box(h, 'b')
    ea, eb = a.as_tuple(), b.as_tuple()
    u = a + b
    h.check('commutative', h.eq(u, b + a))
    h.check('idempotent', h.eq(a + a, a))
    if a.is_none and b.is_none:
        h.check('union of nothing is nothing', u.is_none)
    else:
        for o in (a, b):
            if not o.is_none:
                h.check('contains both operands', inside(h, o, u))
        c = [o for o in (a, b) if not o.is_none]
        for n in ('xl', 'yl', 'xh', 'yh'):
            h.check('every edge comes from an operand', h.or_(*[h.eq(getattr(u, n), getattr(o, n)) for o in c]))
    h.check('union is a new box', u is not a and u is not b)
    u.xl, u.yl, u.xh, u.yh = 1000, 1000, 2000, 2000
    h.check('operands are unchanged and not aliased', h.and_(h.eq(a.as_tuple(), ea), h.eq(b.as_tuple(), eb)))


@harness(bounds='all triples of boxes, degenerate and coordinate-less included', merge=True)
def union3(h):
    a, b, c = mk_box(h, 'a'), mk_box(h, 'b'), mk_box(h, 'c')
    h.check('associative', h.eq((a + b) + c, a + (b + c)))


@harness(bounds='all triples of boxes')
def least(h):
    a, b, c = raw_box(h, 'a'), raw_box(h, 'b'), raw_box(h, 'c')
    h.assume(inside(h, a, c))
    h.assume(inside(h, b, c))
    h.check('contained in every box that contains both', inside(h, a + b, c))
    h.check('by the library predicate as well', bool(c.contains(a + b)))


@harness(bounds='all boxes (also coordinate-less) and two points of any kind')
def grow(h):
    a = mk_box(h, 'a')
    px, py = h.real('px'), h.real('py')
    p = Point(px, py) if h.choice('pk', [0, 1]) else PointRelative.fromxy(px, py, Point(h.real('bx'), h.real('by')))
    old = a.copy()
    a.grow(p)
    h.check('contains the point', h.and_(h.le(a.xl, px), h.le(px, a.xh), h.le(a.yl, py), h.le(py, a.yh)))
    if old.is_none:
        h.check('growing nothing gives the point', h.eq(a, (px, py, px, py)))
    else:
        h.check('contains the old box', inside(h, old, a))
        h.check('no larger than needed', h.eq(a, old + BBox(px, py, px, py)))
    h.check('point is unchanged', h.eq(p.xy(), (px, py)))
    qx, qy = h.real('qx'), h.real('qy')
    a.grow(Point(qx, qy))
    b = old.copy()
    b.grow(Point(qx, qy))
    b.grow(p)
    h.check('order of growing does not matter', h.eq(a, b))


@harness(bounds='union with something that is not a box')
def not_a_box(h):
    a = raw_box(h, 'a')
    h.check('adding a point is rejected', h.raises(TypeError, lambda: a + Point(1, 2)))


@harness(bounds='unions of 7 and 10 boxes, all fixed but one, any, that may be anywhere or nothing; boxes grown by as many points', merge=True, params=[dict(n=n) for n in (7, 10)])
def many(h, n):
    k = h.choice('which', range(n))
    boxes = [BBox(i, -i, i + 1 + i % 3, 2 - i) for i in range(n)]
    boxes[k] = mk_box(h, 'a')
    before = [b.as_tuple() for b in boxes]
    u, g = BBox(None), BBox(None)
    for b in boxes:
        u = u + b
        if not b.is_none:
            g.grow(b.p1)
            g.grow(Point(b.xh, b.yh))
    some = [b for b in boxes if not b.is_none]
    for b in some:
        h.check('contains all', inside(h, b, u))
    for name in ('xl', 'yl', 'xh', 'yh'):
        h.check('every edge comes from one', h.or_(*[h.eq(getattr(u, name), getattr(b, name)) for b in some]))
    h.check('grown alike', h.eq(g, u))
    h.check('operands unchanged', all(h.eq(b.as_tuple(), q) for b, q in zip(boxes, before)))
