"""Boxes are normalised, however they are built"""
from symx.harness import harness
from x7.geom.geom import *


def is_min(h, m, a, b):
    return h.and_(h.le(m, a), h.le(m, b), h.or_(h.eq(m, a), h.eq(m, b)))


def is_max(h, m, a, b):
    return h.and_(h.le(a, m), h.le(b, m), h.or_(h.eq(m, a), h.eq(m, b)))


@harness(bounds='all real coordinates in any order; all constructor forms; absolute and relative corner points')
def construction(h):
    x1, y1, x2, y2 = [h.real(n) for n in ('x1', 'y1', 'x2', 'y2')]
    form = h.choice('form', ['numbers', 'tuple', 'points', 'named points', 'one named', 'relative points', 'copy', 'sorted items'])
    if form == 'numbers':
        b = BBox(x1, y1, x2, y2)
    elif form == 'tuple':
        b = BBox((x1, y1, x2, y2))
    elif form == 'points':
        b = BBox(Point(x1, y1), Point(x2, y2))
    elif form == 'named points':
        b = BBox(Point(x1, y1, 'p'), Point(x2, y2, h.choice('other name', ['p', 'q'])))
    elif form == 'one named':
        b = BBox(Point(x1, y1, 'p'), Point(x2, y2)) if h.choice('which', [0, 1]) else BBox(Point(x1, y1), Point(x2, y2, 'p'))
    elif form == 'relative points':
        base = Point(h.real('bx'), h.real('by'))
        b = BBox(PointRelative.fromxy(x1, y1, base), PointRelative.fromxy(x2, y2, base))
    elif form == 'copy':
        b = BBox(x1, y1, x2, y2).copy()
    else:
        b = BBox(0, 0, 1, 1)
        for i, v in enumerate((x1, y1, x2, y2)):
            b[i] = v
        b.sort()
    h.check('low edges are the minimum', h.and_(is_min(h, b.xl, x1, x2), is_min(h, b.yl, y1, y2)))
    h.check('high edges are the maximum', h.and_(is_max(h, b.xh, x1, x2), is_max(h, b.yh, y1, y2)))
    h.check('a box with coordinates is not none', not b.is_none)
    xl, yl, xh, yh = b.xl, b.yl, b.xh, b.yh
    h.check('tuple, iteration and indexing agree', h.eq((b.as_tuple(), list(b), [b[i] for i in range(4)]),
                                                        ((xl, yl, xh, yh), [xl, yl, xh, yh], [xl, yl, xh, yh])))
    h.check('width and height', h.and_(h.eq(b.width, xh - xl), h.eq(b.height, yh - yl), h.eq(b.size(), (xh - xl, yh - yl))))
    h.check('size is not negative', h.and_(h.le(0, b.width), h.le(0, b.height), h.le(0, b.area())))
    h.check('area', h.eq(b.area(), (xh - xl) * (yh - yl)))
    h.check('corners', h.eq((b.p1, b.p2, b.pll, b.plh, b.phl, b.phh),
                            ((xl, yl), (xh, yh), (xl, yl), (xl, yh), (xh, yl), (xh, yh))))
    h.check('corners are points', all(isinstance(p, Point) for p in (b.p1, b.p2, b.pll, b.plh, b.phl, b.phh, b.center)))
    h.check('centre', h.eq(b.center, ((xl + xh) / 2, (yl + yh) / 2)))
    h.check('empty exactly when the area is zero', h.iff(bool(b.is_empty), h.or_(h.eq(xl, xh), h.eq(yl, yh))))


@harness(bounds='the box with no coordinates; arbitrary grown point')
def none_box(h):
    b = BBox(None)
    h.check('none and empty', b.is_none and b.is_empty)
    h.check('zero size and area', b.width == 0 and b.height == 0 and b.area() == 0 and tuple(b.size()) == (0, 0))
    for n in ('p1', 'p2', 'pll', 'plh', 'phl', 'phh', 'center'):
        h.check('%s is an error' % n, h.raises(ValueError, lambda: getattr(b, n)))
    h.check('coordinates are None', b.as_tuple() == (None, None, None, None))


@harness(bounds='malformed constructor arguments with arbitrary numbers')
def bad_forms(h):
    a, b = h.real('a'), h.real('b')
    for label, fn in (('one number', lambda: BBox(a)), ('two numbers', lambda: BBox(a, b)), ('one point', lambda: BBox(Point(a, b))),
                      ('point and number', lambda: BBox(Point(a, b), b))):
        h.check('%s is rejected' % label, h.raises(TypeError, fn))


@harness(bounds='all corner values including zeros')
def zero_corners(h):
    x, y = h.real('x'), h.real('y')
    b = BBox(x, y, 0, 0)
    h.check('zeros are coordinates', h.and_(is_min(h, b.xl, x, 0), is_max(h, b.xh, x, 0), is_min(h, b.yl, y, 0), is_max(h, b.yh, y, 0)))
    c = BBox(0, 0, x, y)
    h.check('order of corners does not matter', h.eq(b, c))
