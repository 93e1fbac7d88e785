"""Push and pop restore the exact transform, even when errors escape"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.transform import Transform, EmptyStackError
from checks.common import mk_transform, compose, IDENTITY


def update(h, t, n, kinds):
    """One update; returns the expected matrix"""
    m = t.as_6tuple()
    k = h.choice('kind%s' % n, kinds)
    p, q = h.real('p%s' % n), h.real('q%s' % n)
    if k == 'translate':
        t.translate(p, q)
        return compose((1, 0, p, 0, 1, q), m)
    if k == 'scale':
        t.scale(p, q)
        return compose((p, 0, 0, 0, q, 0), m)
    if k == 'compose':
        t.compose(Transform((p, q, 1, 2, 3, 4)))
        return compose(m, (p, q, 1, 2, 3, 4))
    if k == 'outer':
        t.compose_outer(Transform((p, q, 1, 2, 3, 4)))
        return compose((p, q, 1, 2, 3, 4), m)
    if k == 'set':
        t.set_matrix(Transform((p, q, 1, 2, 3, 4)))
        return p, q, 1, 2, 3, 4
    t.reset()
    return IDENTITY


KINDS = ['translate', 'compose', 'set', 'reset']


def history(h, steps, first=None):
    t = mk_transform(h, 't')
    stack = []
    cur = t.as_6tuple()
    for i in range(steps):
        op = first if (first and i == 0) else h.choice('op%d' % i, ['update', 'push', 'pop', 'query'])
        if op == 'update':
            cur = update(h, t, i, KINDS)
        elif op == 'push':
            h.check('push returns the transform', t.push() is t)
            stack.append(cur)
        elif op == 'query':
            x, y = h.real('x%d' % i), h.real('y%d' % i)
            t.transform(x, y)
        elif stack:
            t.pop()
            cur = stack.pop()
        else:
            h.check('pop of nothing is an error', h.raises(EmptyStackError, t.pop))
        h.check('matrix is the one expected at this point', h.eq(t.as_6tuple(), cur))
        h.check('depth', len(t.stack) == len(stack))
    while stack:
        t.pop()
        h.check('matrix pushed comes back exactly', h.eq(t.as_6tuple(), stack.pop()))
    h.check('and then nothing is left', h.raises(EmptyStackError, t.pop))


@harness(bounds='every sequence of 4 operations (push, pop, any update, query), all matrices and parameters, then unwinding',
         paths=10000, time=120)
def sequences(h):
    history(h, 4)


@harness(bounds='every sequence of 6 operations (push, pop, any update, query), all matrices and parameters, then unwinding',
         paths=100000, time=300, tier='thorough', params=[dict(first=f) for f in ('update', 'push', 'pop', 'query')])
def sequences6(h, first):
    history(h, 6, first)


class Oops(Exception):
    pass


class Worse(EmptyStackError):
    pass


ERRORS = [Oops, EmptyStackError, Worse, KeyboardInterrupt, SystemExit, StopIteration, GeneratorExit, IndexError, ValueError, TypeError,
          ZeroDivisionError, AttributeError, AssertionError, RuntimeError, NotImplementedError, MemoryError, OSError]


@harness(bounds='one or two nested with-blocks, all matrices, every usual class of exception raised or coming from a failed pop')
def errors(h):
    t = mk_transform(h, 't')
    m = t.as_6tuple()
    kind = h.choice('error', ERRORS + ['pop'])
    deep = h.choice('deep', [1, 2])
    p, q = h.real('p'), h.real('q')
    given = None
    if kind != 'pop':
        given = kind('x')
    got = None
    try:
        with t.push():
            t.translate(p, q)
            if deep == 2:
                with t.push():
                    t.scale(p, q)
                    if given is None:
                        Transform().pop()
                    raise given
            if given is None:
                Transform().pop()
            raise given
    except BaseException as e:
        if given is None and not isinstance(e, EmptyStackError) or given is not None and e is not given:
            raise
        got = e
    h.check('the error escapes', got is not None)
    h.check('the matrix is restored', h.eq(t.as_6tuple(), m))
    h.check('nothing is left pushed', not t.stack)


@harness(bounds='with-blocks nested to depth 2, all matrices and updates, an exception at any place or none', paths=10000)
def blocks(h):
    t = mk_transform(h, 't')
    m = t.as_6tuple()
    at = h.choice('fail', ['no', 'before', 'inner', 'after', 'base'])
    oops = Oops('x')
    raised = None
    try:
        with t.push() as u:
            h.check('with gives the transform', u is t)
            n = update(h, t, 'a', KINDS)
            if at == 'before':
                raise oops
            with t.push().scale(h.real('s'), 2):
                update(h, t, 'b', ['translate', 'set'])
                if at == 'inner':
                    raise oops
                if at == 'base':
                    raise KeyboardInterrupt()
            h.check('inner block restores', h.eq(t.as_6tuple(), n))
            if at == 'after':
                raise oops
    except Oops as e:
        raised = e
    except KeyboardInterrupt as e:
        raised = e
    h.check('an escaping exception is propagated', (raised is not None) == (at != 'no'))
    h.check('and is the one raised', at in ('no', 'base') or raised is oops)
    h.check('outer block restores', h.eq(t.as_6tuple(), m))
    h.check('nothing is left pushed', not t.stack)


@harness(bounds='entering a block or popping with nothing pushed')
def empty(h):
    t = mk_transform(h, 't')
    m = t.as_6tuple()
    h.check('pop of nothing', h.raises(EmptyStackError, t.pop))

    def enter():
        with t:
            h.fail('body of a block entered with nothing pushed')
    h.check('enter without push', h.raises(EmptyStackError, enter))
    h.check('matrix survives the error', h.eq(t.as_6tuple(), m))
    with t.push():
        t.translate(1, 2)
    h.check('enter again without push', h.raises(EmptyStackError, enter))
    h.check('matrix is restored', h.eq(t.as_6tuple(), m))


@harness(bounds='two transforms used alternately')
def separate(h):
    t, u = mk_transform(h, 't'), mk_transform(h, 'u')
    m, n = t.as_6tuple(), u.as_6tuple()
    t.push()
    c = t.copy()
    u.push()
    update(h, t, 1, KINDS)
    update(h, u, 2, KINDS)
    h.check('a copy does not share the stack', not (c.stack is t.stack))
    t.pop()
    h.check('first', h.eq(t.as_6tuple(), m))
    u.pop()
    h.check('second', h.eq(u.as_6tuple(), n))
    h.check('both are empty', not t.stack and not u.stack)


@harness(bounds='up to 24 pushes with updates in between, all popped again; and blocks nested to depth 16', params=[dict(how=w) for w in ('push', 'blocks')])
def deep(h, how):
    t = mk_transform(h, 't')
    if how == 'push':
        seen = []
        for i in range(24):
            seen.append(t.as_6tuple())
            t.push()
            h.check('depth', len(t.stack) == i + 1)
            if i % 3 == 2:
                t.set_matrix(Transform((h.real('a%d' % i), 1, 2, 3, 4, h.real('f%d' % i))))
            else:
                t.translate(h.real('x%d' % i), i)
        for m in reversed(seen):
            t.pop()
            h.check('matrix pushed comes back exactly', h.eq(t.as_6tuple(), m))
        h.check('and then nothing is left', h.raises(EmptyStackError, t.pop))
        return

    at = h.choice('fail at', [None, 15, 7])

    def enter(i):
        m = t.as_6tuple()
        if i == 16:
            return
        try:
            with t.push().translate(h.real('x%d' % i), 1):
                if at == i:
                    raise Oops('x')
                enter(i + 1)
        finally:
            h.check('restored on the way out', h.eq(t.as_6tuple(), m) and len(t.stack) == i)
    h.check('the error escapes', h.raises(Oops, lambda: enter(0)) if at is not None else enter(0) is None)
    h.check('nothing is left pushed', not t.stack)
