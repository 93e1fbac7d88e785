"""Rounding is coordinate-wise to the nearest representable value"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.bezier import ControlPoint
from checks.common import mk_point, maybe_same


def near(h, r, x, n):
    """r is a multiple of 10**-n within half a step of x"""
    p = 10 ** n
    k = r * p
    whole = h.eq(round(k), k)
    return h.and_(whole, h.le(2 * (k - x * p), 1), h.le(-1, 2 * (k - x * p)))


def how(h, v, n):
    return v.round(n) if h.choice('how', ['method', 'builtin']) == 'method' else round(v, n)


DIGITS = [0, 1, 2]


@harness(bounds='all coordinates, 0-2 digits, every point kind')
def points(h):
    n = h.choice('n', DIGITS)
    p = mk_point(h, 'p')
    x, y = p.xy()
    r = how(h, p, n)
    h.check('rounding gives a point', isinstance(r, BasePoint))
    rx, ry = r.xy()
    h.check('x is the nearest multiple', near(h, rx, x, n))
    h.check('y is the nearest multiple', near(h, ry, y, n))
    h.check('original untouched', h.eq(p.xy(), (x, y)))
    h.check('new object', r is not p)


@harness(bounds='all coordinates, 0-2 digits')
def points_twice(h):
    n = h.choice('n', DIGITS)
    p = Point(h.real('x'), h.real('y'), 'nm')
    r = how(h, p, n)
    h.check('rounding twice is rounding once', h.eq(r.round(n), r))
    h.check('independent of the other coordinate', h.eq(Point(p.x, 0).round(n).x, r.x))
    h.check('independent of the other coordinate (y)', h.eq(Point(0, p.y).round(n).y, r.y))
    h.check('name is kept', r.name == 'nm')


@harness(bounds='all coordinates, 0-2 digits')
def vectors(h):
    n = h.choice('n', DIGITS)
    v = Vector(h.real('x'), h.real('y'))
    x, y = v.xy()
    r = how(h, v, n)
    h.check('rounding gives a vector', isinstance(r, Vector))
    rx, ry = r.xy()
    h.check('x is the nearest multiple', near(h, rx, x, n))
    h.check('y is the nearest multiple', near(h, ry, y, n))
    h.check('rounding twice is rounding once', h.eq(r.round(n), r))
    h.check('original untouched', h.eq(v.xy(), (x, y)))


@harness(bounds='all coordinates, 0-2 digits')
def difference_vectors(h):
    n = h.choice('n', DIGITS)
    p = Point(h.real('px'), h.real('py'))
    q = maybe_same(h, p, lambda: Point(h.real('qx'), h.real('qy')))
    v = VectorRelative(p, q)
    r = how(h, v, n)
    h.check('rounding gives a difference vector', isinstance(r, VectorRelative))
    h.check('its ends are the rounded ends', h.eq(r.xy(), (p.round(n) - q.round(n)).xy()))
    h.check('rounding twice is rounding once', h.eq(r.round(n).xy(), r.xy()))
    h.check('original untouched', h.eq(v.xy(), (p.x - q.x, p.y - q.y)))


@harness(bounds='all boxes, 0-2 digits')
def boxes(h):
    n = h.choice('n', DIGITS)
    u = [h.real('u%d' % i) for i in range(4)]
    b = BBox(*u)
    e = b.as_tuple()
    r = round(b, n)
    h.check('rounding gives a box', isinstance(r, BBox))
    for i, nm in enumerate(('xl', 'yl', 'xh', 'yh')):
        h.check('%s is the nearest multiple' % nm, near(h, getattr(r, nm), e[i], n))
    h.check('still normalised', h.and_(h.le(r.xl, r.xh), h.le(r.yl, r.yh)))
    h.check('original untouched', h.eq(b, e))


@harness(bounds='all control points, 0-2 digits')
def control_points(h):
    n = h.choice('n', DIGITS)
    kind = h.choice('kind', ['smooth', 'sharp', 'very-smooth'])
    u = [h.real('u%d' % i) for i in range(6)]
    cp = ControlPoint(Point(u[0], u[1]), Vector(u[2], u[3]), Vector(u[4], u[5]), kind)
    r = cp.round(n)
    h.check('rounding gives a control point of the same kind', isinstance(r, ControlPoint) and r.kind == kind)
    got = r.c.xy() + r.dl.xy() + r.dr.xy()
    for i in range(6):
        h.check('component %d is the nearest multiple' % i, near(h, got[i], u[i], n))
    h.check('original untouched', h.eq(cp.c.xy() + cp.dl.xy() + cp.dr.xy(), u))
