"""Decomposing a transform loses nothing"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.transform import Transform
from checks.common import compose, affine, IDENTITY


FINE = 1e12      # replays compare with a tolerance, so small entries are compared after scaling


def entry(h, n, zeros):
    v = h.real(n)
    if h.choice(n + '.zero', [0, 1]):
        zeros.add(n)
        return 0.0
    h.assume(h.or_(v >= 1e-12, v <= -1e-12))
    return v


def general(h):
    zeros = set()
    m = (entry(h, 'a', zeros), entry(h, 'b', zeros), h.real('c'), entry(h, 'd', zeros), entry(h, 'e', zeros), h.real('f'))
    upright = {'b', 'd'} <= zeros or {'a', 'e'} <= zeros
    return Transform(m), m, upright


@harness(bounds='all matrices whose linear entries are zero or at least 1e-12 in size')
def split(h):
    t, m, upright = general(h)
    a, b, c, d, e, f = m
    s, r = t.simplify()
    h.check('both parts are transforms', isinstance(s, Transform) and isinstance(r, Transform))
    ms, mr = s.as_6tuple(), r.as_6tuple()
    h.check('composition of the parts is the original', h.eq(compose(ms, mr), m))
    h.check('not even a small entry is lost', h.eq([v * FINE for v in compose(ms, mr)], [v * FINE for v in m]))
    h.check('by the library as well', h.eq(s.copy().compose(r).as_6tuple(), m))
    h.check('residual has no translation', h.eq((mr[2], mr[5]), (0, 0)))
    h.check('simple part keeps boxes upright', h.or_(h.and_(h.eq(ms[1], 0), h.eq(ms[3], 0)), h.and_(h.eq(ms[0], 0), h.eq(ms[4], 0))))
    h.check('simple part is simple', bool(s.is_simple()))
    if t.is_simple():
        h.check('simple transform leaves an identity residual', h.eq(mr, IDENTITY))
        h.check('and is its own simple part', h.eq(ms, m))
    h.check('original unchanged', h.eq(t.as_6tuple(), m))
    s.translate(1, 2).scale(3, 4)
    r.translate(1, 2)
    h.check('parts do not alias the original', h.eq(t.as_6tuple(), m))


@harness(bounds='all matrices whose linear entries are zero or at least 1e-12 in size')
def predicate(h):
    t, m, upright = general(h)
    h.check('simple exactly when boxes stay upright', bool(t.is_simple()) == upright)


@harness(bounds='all translations and scalings (factors zero or at least 1e-3 in size) in any order, of an exact quarter-turn matrix')
def simple_family(h):
    t = Transform(h.choice('turn', [(1, 0, 0, 0, 1, 0), (0, -1, 0, 1, 0, 0), (0, 1, 0, -1, 0, 0), (-1, 0, 0, 0, -1, 0)]))
    for i in range(2):
        x, y = h.real('x%d' % i), h.real('y%d' % i)
        if h.choice('op%d' % i, ['translate', 'scale']) == 'translate':
            t.translate(x, y)
        else:
            for v in (x, y):
                h.assume(h.or_(v == 0, v >= 1e-3, v <= -1e-3))
            t.scale(x, y)
    h.check('is simple', bool(t.is_simple()))
    s, r = t.simplify()
    h.check('residual is the identity', h.eq(r.as_6tuple(), IDENTITY))
    h.check('simple part is everything', h.eq(s.as_6tuple(), t.as_6tuple()))
