"""Equality, closeness and copies of geometric values behave as values"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.bezier import ControlPoint
from checks.common import mk_point, related_point


def build(kind, v, name=None):
    """An object of the given kind from 6 numbers"""
    a, b, c, d, e, f = v
    if kind == 'point':
        return Point(a, b, name)
    if kind == 'relative':
        return PointRelative(a, b, Point(c, d), name)
    if kind == 'computed':
        return PointCalc(PointRelative(a, b, Point(c, d)), e, name)
    if kind == 'relative of relative':
        return PointRelative(a, b, PointRelative(c, d, Point(e, f)), name)
    if kind == 'vector':
        return Vector(a, b)
    if kind == 'difference':
        return VectorRelative(Point(a, b), Point(c, d))
    if kind == 'box':
        return BBox(a, b, c, d)
    if kind == 'line':
        return Line(Point(a, b), Vector(c, d))
    if kind == 'line by difference':
        return Line(Point(a, b), VectorRelative(Point(c, d), Point(e, f)))
    if kind == 'line from difference':
        return Line(PointRelative(a, b, Point(c, d)), Vector(e, f))
    if kind == 'control':
        return ControlPoint(Point(a, b), Vector(c, d), Vector(e, f), name or 'smooth')


COMPONENTS = dict([('line by difference', 6), ('line from difference', 6), ('relative of relative', 6)], point=2, relative=4, computed=5, vector=2, difference=4, box=4, line=4, control=6)
NAMED = ('point', 'relative', 'relative of relative', 'computed', 'control')


@harness(bounds='two objects of the same kind, every kind, all component values, equal or different names/kinds')
def equality(h):
    kind = h.choice('kind', sorted(COMPONENTS))
    n = COMPONENTS[kind]
    u = [h.real('u%d' % i) for i in range(6)]
    v = [h.real('v%d' % i) for i in range(6)]
    names = (None, None)
    if kind in NAMED:
        names = h.choice('names', [(None, None), ('corner', 'corner'), ('corner', None), ('corner', 'sharp')])
    if kind == 'box':
        h.assume(h.and_(u[0] <= u[2], u[1] <= u[3], v[0] <= v[2], v[1] <= v[3]))
    a, b = build(kind, u, names[0]), build(kind, v, names[1])
    r, s = a == b, b == a
    r, s = bool(r), bool(s)
    h.check('equality is symmetric', r == s)
    same = h.and_(*[h.eq(x, y) for x, y in zip(u[:n], v[:n])])
    if names[0] != names[1]:
        h.check('different names or kinds are different', not r)
    else:
        h.check('equal exactly when all components agree', h.iff(r, same))
    h.check('equality is reflexive', h.and_(bool(a == a), bool(build(kind, u, names[0]) == a)))
    h.check('inequality is the opposite', (a != b) == (not r))


@harness(bounds='one object of every kind against one of every other kind with the same numbers')
def class_matters(h):
    ks = sorted(COMPONENTS)
    ka = h.choice('ka', ks)
    kb = h.choice('kb', ks)
    u = [h.real('u%d' % i) for i in range(6)]
    a, b = build(ka, u), build(kb, u)
    if ka != kb:
        h.check('objects of different classes are not equal', not (a == b) and not (b == a))
    else:
        h.check('objects of the same class are equal', a == b)
    h.check('not equal to a tuple, a number or nothing', not (a == (u[0], u[1])) and not (a == 0) and not (a == None))  # noqa


@harness(bounds='lines whose origin or direction depends on other points against plain ones of the same place: different while the kinds of their parts differ')
def line_parts(h):
    a, b, c, d, e, f = [h.real('u%d' % i) for i in range(6)]
    p, q = Line(Point(a, b), Vector(c - e, d - f)), Line(Point(a, b), VectorRelative(Point(c, d), Point(e, f)))
    h.check('directions as given', h.eq(p.direction.xy(), q.direction.xy()))
    h.check('kind of direction', not p == q and not q == p)
    r, s = Line(Point(a + c, b + d), Vector(e, f)), Line(PointRelative(a, b, Point(c, d)), Vector(e, f))
    h.check('kind of origin', not r == s and not s == r)


@harness(bounds='dependent points on a plain point against ones on a relative point of the same place, and control points of the same parts: different')
def point_parts(h):
    a, b, c, d, e, f = [h.real('u%d' % i) for i in range(6)]
    p, q = PointRelative(a, b, Point(c + e, d + f)), PointRelative(a, b, PointRelative(c, d, Point(e, f)))
    h.check('same place', h.eq(p.xy(), q.xy()))
    h.check('kind of base', not p == q and not q == p)
    k = h.real('k')
    r, s = PointCalc(p, k), PointCalc(q, k)
    h.check('computed from another kind', not r == s and not s == r)
    m, n = Vector(c, d), Vector(e, f)
    c1 = ControlPoint(q, m, n, 'smooth')
    for o in ('smooth', 'sharp', 'very-smooth'):
        c2 = ControlPoint(q, m, n, o)       # of the very same parts
        h.check('kinds of control points', bool(c1 == c2) == bool(c1.close(c2)) == (o == 'smooth'))
    c3 = ControlPoint(p, m, n, 'smooth')
    h.check('other kind of point', not c1 == c3 and bool(c1.close(c3)))


@harness(bounds='two points or two vectors of any kind, all coordinates, all positive tolerances')
def closeness(h):
    kind = h.choice('kind', ['point', 'relative', 'computed', 'vector', 'difference'])
    u = [h.real('u%d' % i) for i in range(6)]
    v = [h.real('v%d' % i) for i in range(6)]
    a, b = build(kind, u), build(kind, v)
    t = h.real('tol')
    h.assume(t > 0)
    (ax, ay), (bx, by) = a.xy(), b.xy()
    d2 = (ax - bx) * (ax - bx) + (ay - by) * (ay - by)
    c = bool(a.close(b, t))
    h.check('close exactly when the distance is below the tolerance', h.iff(c, h.lt(d2, t * t)))
    h.check('closeness is symmetric', bool(b.close(a, t)) == c)
    h.check('close to itself', bool(a.close(a, t)) and bool(a.close(a)))


@harness(bounds='a point of any kind against itself, one depending on it, the one it depends on and another depending on that; all coordinates, all positive tolerances')
def closeness_related(h):
    a = mk_point(h, 'a')
    b = related_point(h, a, 'b')
    t = h.real('tol')
    h.assume(t > 0)
    (ax, ay), (bx, by) = a.xy(), b.xy()
    d2 = (ax - bx) * (ax - bx) + (ay - by) * (ay - by)
    c = bool(a.close(b, t))
    h.check('close exactly when the distance is below the tolerance', h.iff(c, h.lt(d2, t * t)))
    h.check('closeness is symmetric', bool(b.close(a, t)) == c)
    r = bool(a == b)
    h.check('equality is symmetric', bool(b == a) == r)
    h.check('equal points are at one place', h.implies(r, h.eq((ax, ay), (bx, by))))
    h.check('points of different kinds are different', not r or type(a) is type(b))


@harness(bounds='two control points, all values, all positive tolerances, every kind of control point')
def closeness_control(h):
    part = h.choice('part', ['c', 'dl', 'dr'])
    u = [h.real('u%d' % i) for i in range(6)]
    dx, dy, t = h.real('dx'), h.real('dy'), h.real('tol')
    h.assume(t > 0)
    v = list(u)
    i = dict(c=0, dl=2, dr=4)[part]
    v[i], v[i + 1] = v[i] + dx, v[i + 1] + dy
    k = h.choice('k', ['smooth', 'sharp', 'very-smooth'])
    a, b = build('control', u, k), build('control', v, k)
    c = bool(a.close(b, t))
    h.check('close exactly when each part is within the tolerance', h.iff(c, h.lt(dx * dx + dy * dy, t * t)))
    h.check('symmetric', bool(b.close(a, t)) == c)
    for o in ('smooth', 'sharp', 'very-smooth'):
        if o != k:
            h.check('different kinds are not close', not a.close(build('control', u, o), t))


@harness(bounds='unnamed originals of every kind; later mutation of copy or original')
def copies(h):
    kind = h.choice('kind', ['point', 'relative', 'computed', 'vector', 'difference', 'box', 'control'])
    u = [h.real('u%d' % i) for i in range(6)]
    if kind == 'box':
        h.assume(h.and_(u[0] <= u[2], u[1] <= u[3]))
    a = build(kind, u)
    c = a.copy()
    h.check('copy is a new object of the same class', c is not a and type(c) is type(a))
    h.check('copy equals the original', a == c)
    victim, other = (a, c) if h.choice('victim', [0, 1]) else (c, a)
    x, y = h.real('x'), h.real('y')
    if kind in ('point', 'vector'):
        victim.setxy(x, y)
        h.check('other keeps its value', h.eq(other, (u[0], u[1])))
    elif kind == 'relative':
        victim.dx, victim.dy = x, y
        h.check('other keeps its offset', h.eq((other.dx, other.dy), (u[0], u[1])))
        h.check('other keeps its place', h.eq(other.xy(), (u[0] + u[2], u[1] + u[3])))
    elif kind == 'computed':
        victim.scale = x
        h.check('other keeps its scale', h.eq(other.scale, u[4]))
    elif kind == 'difference':
        victim._p1.setxy(x, y)
        victim._p2.setxy(y, x)
        h.check('other keeps its value', h.eq(other.xy(), (u[0] - u[2], u[1] - u[3])))
    elif kind == 'box':
        victim.grow(Point(x, y))
        h.check('other keeps its edges', h.eq(other, (u[0], u[1], u[2], u[3])))
    else:
        victim.c.setxy(x, y)
        victim.dl.setxy(x, y)
        victim.dr.setxy(x, y)
        victim.kind = 'sharp'
        h.check('other keeps its parts', h.and_(h.eq(other.c, (u[0], u[1])), h.eq(other.dl, (u[2], u[3])), h.eq(other.dr, (u[4], u[5])),
                                                 other.kind == 'smooth'))


@harness(bounds='names of copied points')
def copy_names(h):
    p = PointRelative(h.real('a'), h.real('b'), Point(0, 0), 'n')
    h.check('a named relative point keeps its name', p.copy() == p)
    q = PointCalc(p, h.real('s'), 'm')
    h.check('a named computed point keeps its name', q.copy() == q)
    h.check('an empty box copies', BBox(None).copy() == BBox(None) and BBox(None).copy().is_none)
