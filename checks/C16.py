"""Composition order of transforms is as documented"""
import math
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.transform import Transform, Matrix
from checks.common import mk_transform, affine, compose, IDENTITY


def cs(a):
    return math.cos(math.radians(a)), math.sin(math.radians(a))


@harness(bounds='all matrices, all parameters, one operation', params=[dict(op=o) for o in (
    'translate', 'scale', 'rotate', 'rotate_ccw', 'rotate_about', 'compose', 'compose_outer', 'compose_matrix', 'compose_outer_matrix')])
def order(h, op):
    t = mk_transform(h, 't')
    m = t.as_6tuple()
    p, q = h.real('p'), h.real('q')
    if op == 'translate':
        r = t.translate(p, q)
        e = compose((1, 0, p, 0, 1, q), m)
    elif op == 'scale':
        r = t.scale(p, q)
        e = compose((p, 0, 0, 0, q, 0), m)
    elif op == 'rotate':
        a = h.angle('a')
        c, s = cs(a)
        r = t.rotate(a)
        e = compose((c, s, 0, -s, c, 0), m)
    elif op == 'rotate_ccw':
        a = h.angle('a')
        c, s = cs(a)
        r = t.rotate_ccw(a)
        e = compose((c, -s, 0, s, c, 0), m)
    elif op == 'rotate_about':
        a = h.angle('a')
        c, s = cs(a)
        where = h.choice('centre', ['any', 'same', 'origin', 'on axis'])
        q = {'any': q, 'same': p, 'origin': 0, 'on axis': 0}[where]
        p = 0 if where == 'origin' else p
        r = t.rotate_about(a, Point(p, q))
        e = compose(compose((1, 0, p, 0, 1, q), (c, s, 0, -s, c, 0)), compose((1, 0, -p, 0, 1, -q), m))
    else:
        o = mk_transform(h, 'o')
        n = o.as_6tuple()
        arg = Matrix([[n[0], n[1], n[2]], [n[3], n[4], n[5]], [0, 0, 1]]) if op.endswith('matrix') else o
        r = t.compose_outer(arg) if 'outer' in op else t.compose(arg)
        e = compose(n, m) if 'outer' in op else compose(m, n)
        h.check('other transform unchanged', h.eq(o.as_6tuple(), n))
    h.check('update returns the transform itself', r is t)
    h.check('matrix of the composition', h.eq(t.as_6tuple(), e))
    x, y = h.real('x'), h.real('y')
    h.check('points follow', h.eq(t.transform(x, y), affine(e, x, y)))


@harness(bounds='all matrices and points')
def laws(h):
    t, u, v = mk_transform(h, 't'), mk_transform(h, 'u'), mk_transform(h, 'v')
    x, y = h.real('x'), h.real('y')
    both = t.copy().compose(u)
    h.check('compose applies the other first', h.eq(both.transform(x, y), t.transform(*u.transform(x, y))))
    p, q = h.real('p'), h.real('q')
    for twice in (t.copy(), t.copy().push(), t.copy().translate(p, q)):
        other = twice.copy()
        h.check('composed with itself acts twice', h.eq(twice.compose(twice).transform(x, y), other.transform(*other.transform(x, y))))
    twice = t.copy()
    h.check('composed with itself on the outside acts twice', h.eq(twice.compose_outer(twice).transform(x, y), t.transform(*t.transform(x, y))))
    both = t.copy().compose_outer(u)
    h.check('compose_outer applies the other last', h.eq(both.transform(x, y), u.transform(*t.transform(x, y))))
    h.check('associative', h.eq(t.copy().compose(u).compose(v).as_6tuple(), t.copy().compose(u.copy().compose(v)).as_6tuple()))
    h.check('identity on either side', h.and_(h.eq(t.copy().compose(Transform()).as_6tuple(), t.as_6tuple()),
                                              h.eq(Transform.identity().compose(t).as_6tuple(), t.as_6tuple()),
                                              h.eq(t.copy().compose_outer(Transform()).as_6tuple(), t.as_6tuple())))


@harness(bounds='all matrices; all parameters; three chained updates')
def chain(h):
    a = h.angle('a')
    c, s = cs(a)
    p, q, k, l, x, y = [h.real(n) for n in ('p', 'q', 'k', 'l', 'x', 'y')]
    t = Transform().scale(k, l).rotate(a).translate(p, q)
    h.check('chained updates act one after the other', h.eq(
        t.transform(x, y), (c * k * x + s * l * y + p, -s * k * x + c * l * y + q)))
    n = Transform().translate(p, q)
    n.compose(Transform().rotate_ccw(a))
    n.compose(Transform().scale(k, l))
    h.check('inner composition builds from the outside', h.eq(
        n.transform(x, y), (c * k * x - s * l * y + p, s * k * x + c * l * y + q)))


@harness(bounds='all matrices; mutation of copy or original by any update')
def copies(h):
    t = mk_transform(h, 't')
    m = t.as_6tuple()
    if h.choice('pushed', [0, 1]):
        t.push()
    c = t.copy()
    h.check('copy is another object', c is not t)
    h.check('copy is equal', bool(c == t))
    h.check('copy has the same matrix', h.eq(c.as_6tuple(), m))
    first, other = (t, c) if h.choice('which', [0, 1]) else (c, t)
    p, q = h.real('p'), h.real('q')
    op = h.choice('op', ['translate', 'scale', 'compose', 'outer', 'reset', 'set_matrix', 'entry', 'push', 'pop'])
    if op == 'translate':
        first.translate(p, q)
    elif op == 'scale':
        first.scale(p, q)
    elif op == 'compose':
        first.compose(Transform((p, q, 1, 2, 3, 4)))
    elif op == 'outer':
        first.compose_outer(Transform((p, q, 1, 2, 3, 4)))
    elif op == 'reset':
        first.reset()
    elif op == 'set_matrix':
        first.set_matrix(Transform((p, q, 1, 2, 3, 4)))
    elif op == 'entry':
        first._mat.ndmat[0][2] = p
    elif op == 'push':
        first.push()
        first.translate(p, q)
    else:
        first.push()
        first.pop()
    h.check('the other one is unchanged', h.eq(other.as_6tuple(), m))


@harness(bounds='copies made 0..2 pushes deep, all matrices; copy and original pushed, changed and popped in any order')
def copies_of_pushed(h):
    from x7.geom.transform import EmptyStackError
    t = mk_transform(h, 't')
    depth = h.choice('depth', [0, 1, 2])
    before = []
    for i in range(depth):
        before.append(t.as_6tuple())
        t.push().translate(h.real('d%d' % i), i)
    now = t.as_6tuple()
    c = t.copy()
    h.check('copy is equal', bool(c == t) and h.eq(c.as_6tuple(), now))
    c.push()
    c.scale(h.real('s'), 2)
    if h.choice('order', ['copy first', 'original first']) == 'copy first':
        c.pop()
        h.check('copy is back where it was', h.eq(c.as_6tuple(), now))
    h.check('original where it was', h.eq(t.as_6tuple(), now))
    for m in reversed(before):
        t.pop()
        h.check('original unwinds as it was pushed', h.eq(t.as_6tuple(), m))
    h.check('and no further', h.raises(EmptyStackError, t.pop))
    if c.stack:
        c.pop()
    h.check('copy is back where it was', h.eq(c.as_6tuple(), now))


@harness(bounds='all matrices: set_matrix copies, reset gives the identity, equality is entry-wise')
def assignment(h):
    t, o = mk_transform(h, 't'), mk_transform(h, 'o')
    m, n = t.as_6tuple(), o.as_6tuple()
    h.check('equality is entry-wise', h.iff(bool(t == o), h.eq(m, n)))
    t.set_matrix(o)
    h.check('set_matrix takes the matrix', h.eq(t.as_6tuple(), n))
    h.check('and is equal to it', bool(t == o))
    o.translate(h.real('p'), 1)
    h.check('set_matrix does not alias', h.eq(t.as_6tuple(), n))
    h.check('reset gives the identity', h.eq(t.reset().as_6tuple(), IDENTITY))
    h.check('not equal to something else', not t == 3)
    t.translate(h.real('p'), 1)
    h.check('identity of a fresh transform is not shared', h.eq(Transform().as_6tuple(), IDENTITY))
    x = Transform((1, 0, 0, 0, 1, 0))
    h.check('explicit identity equals the default one', bool(x == Transform()))


@harness(bounds='chains of 12 updates of every sort, any translations and any first matrix; decided after each')
def long_chain(h):
    t = mk_transform(h, 't')
    m = t.as_6tuple()
    x, y = h.real('x'), h.real('y')
    for i in range(12):
        p, q = h.real('p%d' % i), h.real('q%d' % i)
        k = (i + h.choice('from', [0, 1])) % 5
        n = (1, 1, p, 0, 1, q)
        if k == 0:
            t.translate(p, q)
            m = compose((1, 0, p, 0, 1, q), m)
        elif k == 1:
            t.scale(2, -1)
            m = compose((2, 0, 0, 0, -1, 0), m)
        elif k == 2:
            t.compose(Transform(n))
            m = compose(m, n)
        elif k == 3:
            t.compose_outer(Transform(n))
            m = compose(n, m)
        else:
            t.push().scale(5, p)
            t.pop()
        h.check('matrix of the composition', h.eq(t.as_6tuple(), m))
        h.check('points follow', h.eq(t.transform(x, y), affine(m, x, y)))
