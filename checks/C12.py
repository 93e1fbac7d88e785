"""Signed polygon area is correct and orientation-aware"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.transform import Transform
from checks.common import mk_point


def poly(h, n):
    return [Point(h.real('x%d' % i), h.real('y%d' % i)) for i in range(n)]


def shoelace(pts):
    t = 0
    for i in range(len(pts)):
        (x1, y1), (x2, y2) = pts[i].xy(), pts[(i + 1) % len(pts)].xy()
        t = t + x1 * y2 - x2 * y1
    return t / 2


@harness(bounds='all polygons of 1 to 6 vertices', params=[dict(n=n) for n in (1, 2, 3, 4, 5, 6)])
def area(h, n):
    p = poly(h, n)
    a = polygon_area(p)
    h.check('shoelace sum', h.eq(a, shoelace(p)))
    h.check('reversal negates', h.eq(polygon_area(p[::-1]), -a))
    h.check('translation invariant', h.eq(polygon_area([q + Vector(h.real('dx'), h.real('dy')) for q in p]), a))
    k = h.choice('start', range(n))
    h.check('starting vertex does not matter', h.eq(polygon_area(p[k:] + p[:k]), a))
    m = [h.real(c) for c in 'abcdef']
    t = Transform(tuple(m))
    h.check('scales with the determinant', h.eq(polygon_area(t.transform_pts(p)), a * (m[0] * m[4] - m[1] * m[3])))
    h.check('points unchanged', h.eq(p, [(h.real('x%d' % i), h.real('y%d' % i)) for i in range(n)]))


@harness(bounds='polygons of 3 to 5 vertices with one vertex (the same point again) anywhere else in the list too, all coordinates', params=[dict(n=n) for n in (3, 4, 5)])
def area_repeated(h, n):
    p = poly(h, n)
    i, j = h.choice('which', range(n)), h.choice('where', range(n + 1))
    p.insert(j, p[i])
    if h.choice('twice', [0, 1]):
        p.append(p[0])
    h.check('shoelace sum', h.eq(polygon_area(p), shoelace(p)))
    h.check('reversal negates', h.eq(polygon_area(p[::-1]), -shoelace(p)))
    h.check('as a tuple', h.eq(polygon_area(tuple(p)), shoelace(p)))


@harness(bounds='triangles with relative and computed vertices, all coordinates')
def area_kinds(h):
    p = [mk_point(h, 'p'), mk_point(h, 'q'), Point(h.real('x'), h.real('y'))]
    h.check('shoelace sum', h.eq(polygon_area(p), shoelace(p)))


@harness(bounds='all rectangles and right triangles')
def orientation(h):
    x, y = h.real('x'), h.real('y')
    w, t = h.real('w'), h.real('t')
    h.assume(h.and_(w > 0, t > 0))
    sq = [Point(x, y), Point(x + w, y), Point(x + w, y + t), Point(x, y + t)]
    h.check('counter-clockwise rectangle', h.eq(polygon_area(sq), w * t))
    h.check('clockwise rectangle', h.eq(polygon_area(sq[::-1]), -w * t))
    h.check('counter-clockwise is positive', h.lt(0, polygon_area(sq[:3])))


@harness(bounds='polygons of 8 to 13 vertices, one vertex, any, possibly the one before again', params=[dict(n=n) for n in (8, 10, 13)])
def area_long(h, n):
    p = poly(h, n)
    k = h.choice('twin', [None] + list(range(n)))
    if k is not None:
        p[k] = p[k - 1]
    h.check('shoelace sum', h.eq(polygon_area(p), shoelace(p)))
    h.check('reversal negates', h.eq(polygon_area(p[::-1]), -shoelace(p)))
