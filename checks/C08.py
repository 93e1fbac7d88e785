"""Box predicates are mutually consistent"""
from symx.harness import harness
from x7.geom.geom import *


def solid(h, name):
    x1, y1, x2, y2 = [h.real('%s.%s' % (name, n)) for n in ('x1', 'y1', 'x2', 'y2')]
    h.assume(h.and_(x1 < x2, y1 < y2))
    return BBox(x1, y1, x2, y2)


def co_contains(h, a, b):
    return h.and_(a.xl <= b.xl, b.xh <= a.xh, a.yl <= b.yl, b.yh <= a.yh)


def co_overlap(h, a, b):
    return h.and_(a.xl < b.xh, b.xl < a.xh, a.yl < b.yh, b.yl < a.yh)


def co_meet(h, a, b):
    return h.and_(a.xl <= b.xh, b.xl <= a.xh, a.yl <= b.yh, b.yl <= a.yh)


@harness(bounds='all pairs of boxes with positive area')
def overlap_and_touch(h):
    a, b = solid(h, 'a'), solid(h, 'b')
    ov, vo = bool(a.overlaps(b)), bool(b.overlaps(a))
    h.check('overlap is symmetric', ov == vo)
    h.check('overlap agrees with the coordinates', h.iff(ov, co_overlap(h, a, b)))
    to = bool(a.touches(b))
    h.check('touching is symmetric', to == bool(b.touches(a)))
    h.check('touching: common boundary but no common area', h.iff(to, h.and_(co_meet(h, a, b), h.not_(co_overlap(h, a, b)))))
    h.check('never both overlapping and touching', not (ov and to))
    h.check('overlaps itself, does not touch itself', bool(a.overlaps(a)) and not bool(a.touches(a)))


@harness(bounds='all pairs of boxes with positive area')
def touch_side(h):
    a, b = solid(h, 'a'), solid(h, 'b')
    ts = bool(a.touches_side(b))
    xs, ys = h.or_(h.eq(a.xl, b.xh), h.eq(a.xh, b.xl)), h.or_(h.eq(a.yl, b.yh), h.eq(a.yh, b.yl))
    xo, yo = h.and_(a.xl < b.xh, b.xl < a.xh), h.and_(a.yl < b.yh, b.yl < a.yh)
    h.check('sharing a side: common boundary of positive length', h.iff(ts, h.or_(h.and_(xs, yo), h.and_(ys, xo))))
    h.check('symmetric', ts == bool(b.touches_side(a)))
    if ts:
        h.check('sharing a side is touching', bool(a.touches(b)) and not bool(a.overlaps(b)))


@harness(bounds='all pairs of boxes with positive area')
def containment(h):
    a, b = solid(h, 'a'), solid(h, 'b')
    c = bool(a.contains(b))
    h.check('containment agrees with the coordinates', h.iff(c, co_contains(h, a, b)))
    h.check('contains itself', bool(a.contains(a)))
    if c:
        h.check('contained boxes overlap', bool(a.overlaps(b)))
        h.check('the intersection is the contained box', h.eq(a.intersection(b), b))
        if b.contains(a):
            h.check('mutual containment means equal', h.eq(a, b))
    else:
        i = a.intersection(b)
        h.check('otherwise the intersection is not the other box', i.is_none or h.not_(h.eq(i, b)))


def any_box(h, name):
    x1, y1, x2, y2 = [h.real('%s.%s' % (name, n)) for n in ('x1', 'y1', 'x2', 'y2')]
    h.assume(h.and_(x1 <= x2, y1 <= y2))
    return BBox(x1, y1, x2, y2)


@harness(bounds='all pairs of boxes, also flat ones and single points: containment and intersection', merge=True)
def flat_boxes(h):
    a, b = any_box(h, 'a'), any_box(h, 'b')
    c, d = bool(a.contains(b)), bool(b.contains(a))
    h.check('containment agrees with the coordinates', h.iff(c, co_contains(h, a, b)))
    h.check('contains itself', bool(a.contains(a)))
    h.check('empty means without area', h.iff(bool(a.is_empty), h.eq(a.area(), 0)) and not a.is_none)
    if c and d:
        h.check('mutual containment means equal', h.eq(a, b) and bool(a == b))
    i = a.intersection(b)
    h.check('symmetric', h.eq(i, b.intersection(a)))
    if i.is_none:
        h.check('coordinate-less only when disjoint', h.not_(co_meet(h, a, b)))
    else:
        h.check('common part', h.eq(i.as_tuple(), (max(a.xl, b.xl), max(a.yl, b.yl), min(a.xh, b.xh), min(a.yh, b.yh))))
    if c:
        h.check('the intersection is the contained box', h.eq(i, b))
    h.check('intersection with itself', h.eq(a.intersection(a), a))
    h.check('meets itself as it meets an equal box', bool(a.overlaps(a)) == bool(a.overlaps(a.copy())) == bool(a.copy().overlaps(a)))
    h.check('touches itself as it touches an equal box', bool(a.touches(a)) == bool(a.touches(a.copy())))


@harness(bounds='all triples of boxes with positive area')
def containment_transitive(h):
    a, b, c = solid(h, 'a'), solid(h, 'b'), solid(h, 'c')
    h.assume(a.contains(b))
    h.assume(b.contains(c))
    h.check('containment is transitive', bool(a.contains(c)))


@harness(bounds='all pairs of boxes with positive area, every point')
def intersection(h):
    a, b = solid(h, 'a'), solid(h, 'b')
    ea, eb = a.as_tuple(), b.as_tuple()
    i = a.intersection(b)
    j = b.intersection(a)
    h.check('symmetric', h.eq(i, j))
    if i.is_none:
        h.check('coordinate-less only when disjoint', h.not_(co_meet(h, a, b)))
    else:
        h.check('not disjoint', co_meet(h, a, b))
        h.check('inside both', h.and_(co_contains(h, a, i), co_contains(h, b, i)))
        px, py = h.real('px'), h.real('py')
        both = h.and_(a.xl <= px, px <= a.xh, a.yl <= py, py <= a.yh, b.xl <= px, px <= b.xh, b.yl <= py, py <= b.yh)
        h.check('contains every common point', h.implies(both, h.and_(h.le(i.xl, px), h.le(px, i.xh), h.le(i.yl, py), h.le(py, i.yh))))
        h.check('positive area exactly when overlapping', h.iff(co_overlap(h, a, b), h.lt(0, i.area())))
    h.check('operands unchanged', h.and_(h.eq(a, ea), h.eq(b, eb)))
    i.xl, i.yl, i.xh, i.yh = 1, 2, 3, 4
    h.check('result is independent', h.and_(h.eq(a, ea), h.eq(b, eb)))


@harness(bounds='all boxes with positive area, points of every kind')
def points(h):
    a = solid(h, 'a')
    px, py = h.real('px'), h.real('py')
    p = Point(px, py) if h.choice('pk', [0, 1]) else PointRelative.fromxy(px, py, Point(h.real('bx'), h.real('by')))
    ins, bor = bool(a.contains_pt(p)), bool(a.touches_pt(p))
    h.check('inside means strictly inside', h.iff(ins, h.and_(a.xl < px, px < a.xh, a.yl < py, py < a.yh)))
    onx = h.and_(h.or_(h.eq(px, a.xl), h.eq(px, a.xh)), a.yl < py, py < a.yh)
    ony = h.and_(h.or_(h.eq(py, a.yl), h.eq(py, a.yh)), a.xl < px, px < a.xh)
    h.check('on the border means on an open side', h.iff(bor, h.or_(onx, ony)))
    h.check('never both', not (ins and bor))


@harness(bounds='the box with no coordinates against any box or point')
def none_boxes(h):
    a, n = solid(h, 'a'), BBox(None)
    p = Point(h.real('px'), h.real('py'))
    h.check('nothing contains or touches no point', not n.contains_pt(p) and not n.touches_pt(p))
    for x, y in ((a, n), (n, a), (n, n)):
        h.check('nothing touches nothing', not x.touches(y) and not x.touches_side(y))
        h.check('intersection with nothing is nothing', x.intersection(y).is_none)
