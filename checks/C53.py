"""Test-support matchers judge geometric values by closeness"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.bezier import ControlPoint
from x7.geom.model import *
from x7.geom.transform import Transform
from x7.geom import testing as X
from x7.testing.support import Pickler
from checks.common import mk_elem, snap, ELEM_KINDS
from checks.C33 import mk_pen, mk_x

def case():
    return X.TestCaseGeomExtended()


FINE = 10**11     # distances are compared in small units: replays compare floats with an absolute tolerance
TOLS = ['default', 'places', 'delta']


def tolerance(h, tol):
    """(arguments, largest difference that has to be accepted, smallest that has to be refused)"""
    if tol == 'default':
        return {}, h.frac(49, 10**9), h.frac(51, 10**9)
    if tol == 'places':
        n = h.choice('places', [0, 1, 3])
        return {'places': n}, h.frac(49, 10**(2 + n)), h.frac(51, 10**(2 + n))
    d = h.real('delta', 0, nz=True)
    return {'delta': d}, d, d


def verdicts(h, name, tc, a, b, args, diffs, ok, bad):
    """The comparison of a and b, whose components differ by diffs"""
    ok, bad, diffs = ok * FINE, bad * FINE, [d * FINE for d in diffs]
    near = h.and_(*[h.and_(h.le(-ok, d), h.le(d, ok)) for d in diffs])
    far = h.or_(*[h.or_(h.lt(d, -bad), h.lt(bad, d)) for d in diffs])
    r = tc.almostEqual(a, b, **args)
    said = r is True
    h.check(name + ': true or a message', said or isinstance(r, str) and len(r) > 0)
    h.check(name + ': close values accepted', h.implies(near, said))
    h.check(name + ': different values refused', h.implies(far, not said))
    try:
        tc.assertAlmostEqual(a, b, **args)
        passed = True
    except AssertionError as err:
        passed = False
        h.check(name + ': failure explains', len(str(err)) > 0)
    h.check(name + ': assertion agrees', passed == said)


@harness(bounds='all pairs of points and of vectors, default tolerance, 0/1/3 places or any delta', params=[dict(kind=k, tol=t) for k in ('point', 'vector') for t in TOLS])
def xy(h, kind, tol):
    cls = Point if kind == 'point' else Vector
    args, ok, bad = tolerance(h, tol)
    x, y, dx, dy = (h.real(k) for k in ('x', 'y', 'dx', 'dy'))
    verdicts(h, kind, case(), cls(x, y), cls(x + dx, y + dy), args, [dx, dy], ok, bad)


@harness(bounds='dependent points against equal and against shifted ones of the same class', params=[dict(tol=t) for t in TOLS])
def dependent(h, tol):
    args, ok, bad = tolerance(h, tol)
    o = Point(h.real('ox'), h.real('oy'))
    x, y, dx, dy = (h.real(k) for k in ('x', 'y', 'dx', 'dy'))
    verdicts(h, 'relative point', case(), PointRelative(x, y, o), PointRelative(x + dx, y + dy, o), args, [dx, dy], ok, bad)


@harness(bounds='all pairs of control points that differ in one coordinate and possibly in kind, default tolerance, 0/1/3 places or any delta',
         params=[dict(which=w, tol=t) for w in range(6) for t in TOLS], time=100)
def control_points(h, which, tol):
    args, ok, bad = tolerance(h, tol)
    v = [h.real(k) for k in ('cx', 'cy', 'lx', 'ly', 'rx', 'ry')]
    w = list(v)
    d = h.real('d')
    w[which] = w[which] + d
    j, k = h.choice('j', ['smooth', 'sharp', 'very-smooth']), h.choice('k', ['smooth', 'sharp', 'very-smooth'])
    mk = lambda q, kind: ControlPoint(Point(q[0], q[1]), Vector(q[2], q[3]), Vector(q[4], q[5]), kind)
    a, b = mk(v, j), mk(w, k)
    tc = case()
    if j == k:
        verdicts(h, 'control point', tc, a, b, args, [d], ok, bad)
        verdicts(h, 'control points in a list', tc, [a, a], [a, b], args, [d], ok, bad)
    else:
        h.check('different kinds refused', isinstance(tc.almostEqual(a, b, **args), str))


@harness(bounds='all pairs of points, vectors: a mismatch is explained as close exactly for close values', params=[dict(kind=k) for k in ('point', 'vector')])
def explain_xy(h, kind):
    cls = Point if kind == 'point' else Vector
    x, y, dx, dy = (h.real(k) for k in ('x', 'y', 'dx', 'dy'))
    tc = case()
    a, b = cls(x, y), cls(x + dx, y + dy)
    m = [m for m in tc.matchers if isinstance(a, m.kind)]
    h.check('one matcher', len(m) == 1)
    close, msg = m[0].explain_mismatch(a, b)
    h.check('close exactly for close values', h.iff(close, h.lt((dx * dx + dy * dy) * FINE * FINE, 1)))
    r = tc.matchExact(a, b)
    h.check('exact match exactly for equal values', h.iff(r is True, h.and_(h.eq(dx * FINE, 0), h.eq(dy * FINE, 0))))
    if r is not True:
        h.check('explained', isinstance(r, str) and ('Close' if close else 'Diff ') in r)


@harness(bounds='all pairs of control points that differ in one part and possibly in kind', params=[dict(which=w) for w in ('c', 'dl', 'dr')])
def explain_cp(h, which):
    v = [h.real(k) for k in ('cx', 'cy', 'lx', 'ly', 'rx', 'ry')]
    dx, dy = h.real('dx'), h.real('dy')
    w = list(v)
    i = {'c': 0, 'dl': 2, 'dr': 4}[which]
    w[i], w[i + 1] = w[i] + dx, w[i + 1] + dy
    j, k = h.choice('j', ['smooth', 'sharp', 'very-smooth']), h.choice('k', ['smooth', 'sharp', 'very-smooth'])
    mk = lambda q, kind: ControlPoint(Point(q[0], q[1]), Vector(q[2], q[3]), Vector(q[4], q[5]), kind)
    a, b = mk(v, j), mk(w, k)
    tc = case()
    m = [m for m in tc.matchers if isinstance(a, m.kind)]
    h.check('one matcher', len(m) == 1)
    close, msg = m[0].explain_mismatch(a, b)
    h.check('close exactly for close values', h.iff(close, h.and_(h.lt((dx * dx + dy * dy) * FINE * FINE, 1), j == k)))
    r = tc.matchExact(a, b)
    h.check('exact match exactly for equal values', h.iff(r is True, h.and_(h.eq(dx * FINE, 0), h.eq(dy * FINE, 0), j == k)))
    if r is not True:
        h.check('explained', isinstance(r, str) and ('Close' if close else 'Diff ') in r)


def reloaded(h, data, prefix=''):
    p = Pickler(X.TestCaseGeomExtended.PICKLERS)
    text = p.do_pickle(data, prefix)
    h.check('readable', not text.startswith('pickled('))
    return h.evaluate(text, p.vars_for_load())


@harness(bounds='every kind of element with arbitrary coordinates, alone, in lists, in dictionaries and as traversal results',
         params=[dict(kind=k, how=w) for k in ELEM_KINDS for w in ('alone', 'list', 'dict', 'traversal')], time=100)
def pickled_elems(h, kind, how):
    e = mk_elem(h, kind, 'e', mk_x(h, 'x'), mk_pen(h, 'width'))
    f = ElemRectangle('f', mk_pen(h, 'color'), Point(h.real('fx'), h.real('fy')), Point(1, 2))
    eq = lambda a, b: h.check('equal', a == b and h.eq(snap(a), snap(b)))
    prefix = h.choice('prefix', ['', '    ', '        '])
    if how == 'alone':
        eq(reloaded(h, e, prefix), e)
    elif how == 'list':
        r = reloaded(h, [e, f, e], prefix)
        h.check('list', isinstance(r, list) and len(r) == 3)
        for a, b in zip(r, [e, f, e]):
            eq(a, b)
    elif how == 'dict':
        r = reloaded(h, {'b': e, 'a': [f]}, prefix)
        h.check('dict', set(r) == {'a', 'b'} and len(r['a']) == 1)
        eq(r['b'], e)
        eq(r['a'][0], f)
    else:
        t = mk_x(h, 't')
        r = reloaded(h, [('e', e, t), ('f', f, Transform())], prefix)
        h.check('tuples', isinstance(r, list) and [x[0] for x in r] == ['e', 'f'])
        eq(r[0][1], e)
        eq(r[1][1], f)
        h.check('transforms', r[0][2] == t and r[1][2] == Transform())


@harness(bounds='points, vectors, boxes, control points and transforms with arbitrary coordinates, alone and in containers')
def pickled_values(h):
    x, y, z, w = (h.real(k) for k in 'xyzw')
    data = [Point(x, y), Vector(z, w), BBox(x, y, z, w), ControlPoint(Point(x, y), Vector(z, w), Vector(w, z), 'sharp'), mk_x(h, 't'),
            mk_pen(h, 'width'), mk_pen(h, 'rgb')]
    for d in data:
        h.check('equal', reloaded(h, d) == d)
    r = reloaded(h, {'k': data, 'l': tuple(data)})
    h.check('in a list', r['k'] == data)
    h.check('in a tuple', r['l'] == tuple(data))


@harness(bounds='lists, dictionaries and traversal results of 9 elements and 9 values with arbitrary coordinates', params=[dict(how=w) for w in ('list', 'dict', 'traversal', 'values')])
def pickled_many(h, how):
    es = [mk_elem(h, 'rect' if i % 2 else 'curve', 'e%d' % i, mk_x(h, 'x') if i == 4 else None, cps=1) for i in range(9)]
    k = h.choice('twin', [None, 1, 7, 8])
    if k:
        es[k] = es[k - 1]
    if how == 'values':
        data = [(Point if i % 2 else Vector)(h.real('x%d' % i), h.real('y%d' % i)) for i in range(9)]
        if k:
            data[k] = data[k - 1]
        r = reloaded(h, data)
        h.check('all of them', len(r) == 9 and [type(a) for a in r] == [type(a) for a in data] and h.eq([a.xy() for a in r], [a.xy() for a in data]))
        return
    if how == 'list':
        r = reloaded(h, list(es))
    elif how == 'dict':
        d = reloaded(h, {'k%d' % i: e for i, e in enumerate(es)})
        h.check('keys', set(d) == {'k%d' % i for i in range(9)})
        r = [d['k%d' % i] for i in range(9)]
    else:
        t = [mk_x(h, 't%d' % i) if i in (0, 8) else Transform() for i in range(9)]
        q = reloaded(h, [('n%d' % i, e, x) for i, (e, x) in enumerate(zip(es, t))])
        h.check('names and transforms', [a[0] for a in q] == ['n%d' % i for i in range(9)] and all(a[2] == x for a, x in zip(q, t)))
        r = [a[1] for a in q]
    h.check('all of them', len(r) == 9 and all(a == b for a, b in zip(r, es)) and h.eq([snap(a) for a in r], [snap(b) for b in es]))
