"""Point/vector arithmetic is an affine algebra"""
from symx.harness import harness
from x7.geom.geom import *
from checks.common import mk_point, mk_vector, related_point, related_vector, POINT_KINDS, VECTOR_KINDS


@harness(bounds='all real coordinates; every pair of point kinds (absolute, relative, computed), also a point with itself, with a point depending on it, with the one it depends on and with another one depending on that')
def point_minus_point(h):
    p = mk_point(h, 'p')
    q = related_point(h, p, 'q')
    (px, py), (qx, qy) = p.xy(), q.xy()
    v = p - q
    h.check('point - point is a vector', isinstance(v, Vector) and not isinstance(v, BasePoint))
    h.check('point - point coordinates', h.eq(v, (px - qx, py - qy)))
    h.check('point - point is a plain vector', h.eq(v, Vector(px - qx, py - qy)) and v == Vector(px - qx, py - qy))
    w = p - q
    w.setxy(5, 6)
    h.check('a difference can be set on its own', h.and_(h.eq(w, (5, 6)), h.eq(v, (px - qx, py - qy)), h.eq(p - q, (px - qx, py - qy))))
    m = p.mid(q)
    h.check('midpoint is a point', isinstance(m, BasePoint))
    h.check('midpoint is the average', h.eq(m, ((px + qx) / 2, (py + qy) / 2)))
    h.check('q + (p - q) = p', h.eq(q + v, (px, py)))
    n = -p
    h.check('negated point', h.and_(isinstance(n, BasePoint), h.eq(n, (-px, -py))))
    h.check('operands unchanged', h.and_(h.eq(p, (px, py)), h.eq(q, (qx, qy))))
    h.check('adding two points is rejected', h.raises(TypeError, lambda: p + q))


@harness(bounds='all real coordinates; every point kind with every vector kind')
def point_and_vector(h):
    p = mk_point(h, 'p')
    v = mk_vector(h, 'v')
    (px, py), (vx, vy) = p.xy(), v.xy()
    for name, r, want in (('p + v', p + v, (px + vx, py + vy)), ('v + p', v + p, (px + vx, py + vy)),
                          ('p - v', p - v, (px - vx, py - vy))):
        h.check('%s is a point' % name, isinstance(r, BasePoint))
        h.check('%s coordinates' % name, h.eq(r, want))
        h.check('%s is independent' % name, r is not p)
    h.check('(p + v) - v = p', h.eq((p + v) - v, (px, py)))
    h.check('operands unchanged', h.and_(h.eq(p, (px, py)), h.eq(v, (vx, vy))))
    h.check('vector of a point', h.and_(isinstance(p.v, Vector), h.eq(p.v, (px, py))))


@harness(bounds='all real coordinates and scalars (non-zero divisors); every pair of vector kinds, also a vector with itself and with one between shared points')
def vector_space(h):
    u = mk_vector(h, 'u')
    v = related_vector(h, u, 'v')
    k = h.real('k')
    (ux, uy), (vx, vy) = u.xy(), v.xy()
    for name, r, want in (('u + v', u + v, (ux + vx, uy + vy)), ('u - v', u - v, (ux - vx, uy - vy)),
                          ('u * k', u * k, (ux * k, uy * k)), ('k * u', k * u, (ux * k, uy * k)),
                          ('-u', -u, (-ux, -uy))):
        h.check('%s is a vector' % name, isinstance(r, Vector))
        h.check('%s coordinates' % name, h.eq(r, want))
    h.assume(k != 0)
    r = u / k
    h.check('u / k is a vector', isinstance(r, Vector))
    h.check('u / k coordinates', h.eq(r * k, (ux, uy)))
    h.check('operands unchanged', h.and_(h.eq(u, (ux, uy)), h.eq(v, (vx, vy))))


@harness(bounds='all real coordinates; every vector kind')
def vector_to_point(h):
    v = mk_vector(h, 'v')
    vx, vy = v.xy()
    h.check('vector as point', h.and_(isinstance(v.p, Point), h.eq(v.p, (vx, vy))))
    h.check('coordinates by attribute and iteration', h.eq((v.x, v.y, list(v)), (vx, vy, [vx, vy])))


@harness(bounds='all real vectors; zero scalar and zero divisor')
def scalar_edge(h):
    v = mk_vector(h, 'v')
    h.check('division by zero is an error', h.raises(ZeroDivisionError, lambda: v / 0))
    h.check('times zero is zero', h.eq(v * 0, (0, 0)))
    h.check('v - v is zero', h.eq(v - v, (0, 0)))


@harness(bounds='all real coordinates; each point kind plus two vectors')
def associativity(h):
    p = mk_point(h, 'p')
    u = Vector(h.real('ux'), h.real('uy'))
    v = Vector(h.real('vx'), h.real('vy'))
    h.check('(p + u) + v = p + (u + v)', h.eq((p + u) + v, p + (u + v)))
    h.check('p - (u + v) = (p - u) - v', h.eq(p - (u + v), (p - u) - v))
