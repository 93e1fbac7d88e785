"""Vector metrics agree with Euclidean geometry"""
import math
from symx.harness import harness
from x7.geom.geom import *
from checks.common import mk_point, mk_vector, related_vector


@harness(bounds='all real vectors, plain and difference vectors, also a vector with itself')
def products(h):
    u, w = mk_vector(h, 'u'), mk_vector(h, 'w', ['plain'])
    v = related_vector(h, u, 'v')
    (ux, uy), (vx, vy) = u.xy(), v.xy()
    k = h.real('k')
    h.check('dot product', h.eq(u.dot(v), ux * vx + uy * vy))
    h.check('dot is symmetric', h.eq(u.dot(v), v.dot(u)))
    h.check('dot is linear', h.eq(u.dot(v * k + w), k * u.dot(v) + u.dot(w)))
    h.check('cross product', h.eq(u.cross(v), ux * vy - uy * vx))
    h.check('cross is antisymmetric', h.eq(u.cross(v), -v.cross(u)))
    h.check('cross is linear', h.eq(u.cross(v * k + w), k * u.cross(v) + u.cross(w)))
    h.check('normal is 90 degrees clockwise', h.eq(u.normal(), (uy, -ux)))
    h.check('normal is a vector', isinstance(u.normal(), Vector))
    h.check('dot with own normal is zero', h.eq(u.dot(u.normal()), 0))
    h.check('normal keeps the length', h.eq(u.normal().length(), u.length()))
    h.check('dot^2 + cross^2 = |u|^2 |v|^2',
            h.eq(u.dot(v) ** 2 + u.cross(v) ** 2, u.dot(u) * v.dot(v)))
    h.check('operands unchanged', h.and_(h.eq(u, (ux, uy)), h.eq(v, (vx, vy))))


@harness(bounds='all real vectors, plain and difference vectors')
def length(h):
    u = mk_vector(h, 'u')
    x, y = u.xy()
    l = u.length()
    h.check('length squared is dot with itself', h.eq(l * l, x * x + y * y))
    h.check('length is not negative', h.le(0, l))
    h.check('length zero only for the zero vector', h.iff(h.eq(l, 0), h.and_(h.eq(x, 0), h.eq(y, 0))))
    h.check('truth value', h.iff(bool(u), h.or_(h.ne(x, 0), h.ne(y, 0))))
    k = h.real('k')
    h.check('length scales with |k|', h.eq((u * k).length() * 1, l * abs(k)))


@harness(bounds='all non-zero real vectors')
def unit(h):
    u = mk_vector(h, 'u')
    x, y = u.xy()
    h.assume(h.or_(x != 0, y != 0))
    n = u.unit()
    h.check('unit vector is a vector', isinstance(n, Vector))
    h.check('unit vector has length one', h.eq(n.length(), 1))
    h.check('unit vector is parallel', h.eq(n.cross(u), 0))
    h.check('unit vector has the same direction', h.eq(n.dot(u), u.length()))
    h.check('operand unchanged', h.eq(u, (x, y)))


@harness(bounds='the zero vector in every form')
def unit_of_zero(h):
    a = h.real('a')
    b = h.real('b')
    for v in (Vector(0, 0), Vector(a - a, b - b), VectorRelative(Point(a, b), Point(a, b)), Vector()):
        h.check('unit of zero vector is an error', h.raises(ZeroDivisionError, v.unit))
        h.check('zero vector is false', not v)
        h.check('zero vector has length 0', h.eq(v.length(), 0))


@harness(bounds='all real vectors and all angles')
def rotation(h):
    u = mk_vector(h, 'u')
    v = mk_vector(h, 'v', ['plain'])
    a = h.angle('a')
    b = h.angle('b')
    x, y = u.xy()
    ru, rv = u.rotate(a), v.rotate(a)
    c, s = math.cos(math.radians(a)), math.sin(math.radians(a))
    h.check('rotation result is a vector', isinstance(ru, Vector))
    h.check('rotation matrix (counter-clockwise)', h.eq(ru, (c * x - s * y, s * x + c * y)))
    h.check('rotation keeps dot products', h.eq(ru.dot(rv), u.dot(v)))
    h.check('rotation keeps cross products', h.eq(ru.cross(rv), u.cross(v)))
    h.check('rotation composes additively', h.eq(u.rotate(a).rotate(b), u.rotate(a + b)))
    h.check('rotation by the negative angle undoes it', h.eq(ru.rotate(-a), (x, y)))
    h.check('operand unchanged', h.eq(u, (x, y)))


@harness(bounds='all real vectors, whole quarter turns and turns')
def quarter_turns(h):
    u = mk_vector(h, 'u')
    x, y = u.xy()
    h.check('0 degrees', h.eq(u.rotate(0), (x, y)))
    h.check('90 degrees counter-clockwise', h.eq(u.rotate(90), (-y, x)))
    h.check('-90 degrees is the normal', h.eq(u.rotate(-90), u.normal()))
    h.check('180 degrees', h.eq(u.rotate(180), (-x, -y)))
    h.check('360 degrees', h.eq(u.rotate(360), (x, y)))


@harness(bounds='all non-zero real vectors (plain and difference) in any quadrant')
def heading(h):
    u = mk_vector(h, 'u')
    x, y = u.xy()
    h.assume(h.or_(x != 0, y != 0))
    a = u.angle()
    l = u.length()
    c, s = math.cos(math.radians(a)), math.sin(math.radians(a))
    h.check('heading direction', h.and_(h.eq(l * c, x), h.eq(l * s, y)))
    h.check('heading range', h.and_(h.lt(-180, a), h.le(a, 180)))


@harness(bounds='the four axis directions with any positive length')
def heading_axes(h):
    k = h.real('k')
    h.assume(k > 0)
    h.check('east', h.eq(Vector(k, 0).angle(), 0))
    h.check('north', h.eq(Vector(0, k).angle(), 90))
    h.check('west', h.eq(Vector(-k, 0).angle(), 180))
    h.check('south', h.eq(Vector(0, -k).angle(), -90))
    h.check('diagonal', h.eq(Vector(k, k).angle(), 45))
