"""Untransform inverts transform after any history"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.transform import Transform
from checks.common import mk_transform, affine, det, compose

OPS = ['translate', 'scale', 'rotate', 'rotate_ccw', 'rotate_about', 'compose', 'compose_outer', 'compose_matrix',
       'scale_bbox', 'scale_bbox_keep', 'set_matrix', 'reset', 'push_scale_pop', 'with_block']


def apply(h, t, op, n):
    r = lambda s, **k: h.real('%s%d' % (s, n), **k)
    if op == 'translate':
        t.translate(r('dx'), r('dy'))
    elif op == 'scale':
        t.scale(r('sx', nz=True), r('sy', nz=True))
    elif op == 'rotate':
        t.rotate(h.angle('rot%d' % n))
    elif op == 'rotate_ccw':
        t.rotate_ccw(h.angle('rot%d' % n))
    elif op == 'rotate_about':
        t.rotate_about(h.angle('rot%d' % n), Point(r('cx'), r('cy')))
    elif op == 'compose':
        t.compose(mk_transform(h, 'o%d' % n, True))
    elif op == 'compose_outer':
        t.compose_outer(mk_transform(h, 'o%d' % n, True))
    elif op == 'compose_matrix':
        t.compose(mk_transform(h, 'o%d' % n, True)._mat)
    elif op in ('scale_bbox', 'scale_bbox_keep'):
        w, g, tw, tg = [r(s, lo=1) for s in ('w', 'g', 'tw', 'tg')]
        x, y, tx, ty = [r(s) for s in ('x', 'y', 'tx', 'ty')]
        t.scale_bbox(BBox(x, y, x + w, y + g), BBox(tx, ty, tx + tw, ty + tg), op == 'scale_bbox_keep')
    elif op == 'set_matrix':
        t.set_matrix(mk_transform(h, 'o%d' % n, True))
    elif op == 'reset':
        t.reset()
    elif op == 'push_scale_pop':
        t.push()
        t.scale(r('sx', nz=True), r('sy', nz=True)).translate(r('dx'), r('dy'))
        if h.choice('inner%d' % n, [0, 1]):
            t.untransform(1, 2)
        t.pop()
    else:
        with t.push():
            t.compose(mk_transform(h, 'o%d' % n, True))
            if h.choice('inner%d' % n, [0, 1]):
                t.untransform(1, 2)


def invariant(h, t):
    m = t.as_6tuple()
    h.assume(det(m) != 0)
    x, y = h.real('x'), h.real('y')
    h.check('untransform undoes transform', h.eq(t.untransform(*t.transform(x, y)), (x, y)))
    h.check('transform undoes untransform', h.eq(t.transform(*t.untransform(x, y)), (x, y)))
    h.check('matrix unchanged', h.eq(t.as_6tuple(), m))


@harness(bounds='all invertible matrices, one update of each kind with and without an earlier inverse query, then all points',
         params=[dict(op=o) for o in OPS])
def one_update(h, op):
    t = mk_transform(h, 't', True)
    if h.choice('query', [0, 1]):
        t.untransform(3, 4)
    apply(h, t, op, 1)
    invariant(h, t)


@harness(bounds='all invertible matrices, every pair of updates with inverse queries in between; compared with a fresh transform',
         params=[dict(op=o) for o in OPS])
def two_updates(h, op):
    t = mk_transform(h, 't', True)
    if h.choice('query0', [0, 1]):
        t.untransform(3, 4)
    apply(h, t, op, 1)
    if h.choice('query1', [0, 1]):
        h.assume(det(t.as_6tuple()) != 0)
        t.untransform(3, 4)
    apply(h, t, h.choice('op2', OPS), 2)
    h.assume(det(t.as_6tuple()) != 0)
    x, y = h.real('x'), h.real('y')
    h.check('untransform answers for the current matrix', h.eq(t.untransform(x, y), Transform(t.as_6tuple()).untransform(x, y)))


@harness(bounds='all invertible matrices; within 0 to 2 pushes and after popping again, updated from another transform that has or has not been asked for its inverse')
def given(h):
    t, o = mk_transform(h, 't', True), mk_transform(h, 'o', True)
    depth = h.choice('depth', [0, 1, 2])
    for i in range(depth):
        t.push()
        if i == 0 and depth == 2:
            t.translate(h.real('dx'), h.real('dy'))
    if h.choice('asked', [0, 1]):
        t.untransform(3, 4)
    how = h.choice('other', ['as made', 'asked', 'asked, changed', 'asked, pushed'])
    if how != 'as made':
        o.untransform(5, 6)
    if how == 'asked, changed':
        o.translate(h.real('ox'), h.real('oy'))
    elif how == 'asked, pushed':
        o.push()
        o.scale(2, 3)
    {'set': t.set_matrix, 'compose': t.compose, 'outer': t.compose_outer}[h.choice('op', ['set', 'compose', 'outer'])](o)
    x, y = h.real('x'), h.real('y')

    def right(label, u):
        h.check('untransform undoes transform (%s)' % label, h.eq(u.transform(*u.untransform(x, y)), (x, y)))
    right('updated', t)
    right('the other', o)
    right('a copy', t.copy())
    for i in range(depth):
        t.pop()
        right('popped', t)


SHORT = ['translate', 'scale', 'rotate', 'compose', 'compose_outer', 'set_matrix', 'reset', 'push_scale_pop', 'with_block']


@harness(bounds='every sequence of three updates, inverse queries anywhere', params=[dict(op=o) for o in SHORT],
         time=300, paths=20000)
def three_updates(h, op):
    t = mk_transform(h, 't', True)
    for i, o in enumerate((op, None, None)):
        if h.choice('query%d' % i, [0, 1]):
            h.assume(det(t.as_6tuple()) != 0)
            t.untransform(3, 4)
        apply(h, t, o or h.choice('op%d' % i, SHORT), i + 1)
    h.assume(det(t.as_6tuple()) != 0)
    x, y = h.real('x'), h.real('y')
    h.check('untransform answers for the current matrix', h.eq(t.untransform(x, y), Transform(t.as_6tuple()).untransform(x, y)))


@harness(bounds='the identity (as made, reset, popped), translations and all invertible matrices; point objects, lists of 1 to 3 points or pairs')
def forms(h):
    which = h.choice('matrix', ['any', 'none', 'reset', 'popped', 'translation'])
    t = mk_transform(h, 't', True) if which in ('any', 'reset') else Transform()
    if which == 'reset':
        t.reset()
    elif which == 'popped':
        t.push()
        t.compose(mk_transform(h, 't', True))
        t.pop()
    elif which == 'translation':
        t.translate(h.real('tx'), h.real('ty'))
    n = h.choice('n', [1, 2, 3])
    xy = [(h.real('x%d' % i), h.real('y%d' % i)) for i in range(n)]
    e = [t.untransform(*q) for q in xy]
    pts = [Point(*q) for q in xy] if h.choice('points', [0, 1]) else list(xy)
    r = t.untransform_pts(pts)
    h.check('one result per point', len(r) == n)
    h.check('untransform_pts agrees with untransform', h.eq(r, e))
    h.check('pairs, whatever the matrix', all(isinstance(q, tuple) and len(q) == 2 for q in r))
    h.check('a list of its own', r is not pts)
    if isinstance(pts[0], Point):
        h.check('the points are untouched', h.eq(pts, xy))
    q = t.untransform_pt(Point(*xy[0]))
    h.check('untransform_pt gives a point', isinstance(q, Point))
    h.check('untransform_pt agrees with untransform', h.eq(q, e[0]))
    h.check('untransform is the inverse', h.eq(t.transform_pts(r), xy))


@harness(bounds='all singular matrices')
def singular(h):
    a, b, c, f, k = [h.real(n) for n in 'abcfk']
    import numpy as np
    t = Transform((a, b, c, k * a, k * b, f)) if h.choice('row', [0, 1]) else Transform((a, k * a, c, b, k * b, f))
    try:
        t.untransform(1, 2)
    except Exception as e:
        h.check('singular matrix is reported as such', isinstance(e, np.linalg.LinAlgError))
    else:
        h.fail('singular matrix has no inverse')


@harness(bounds='copies of transforms with a cached inverse')
def copies(h):
    t = mk_transform(h, 't', True)
    if h.choice('query', [0, 1]):
        t.untransform(1, 2)
    c = t.copy()
    x, y = h.real('x'), h.real('y')
    h.check('copy answers like the original', h.eq(c.untransform(x, y), t.untransform(x, y)))
    apply(h, c, h.choice('op', OPS), 1)
    h.assume(det(c.as_6tuple()) != 0)
    h.check('changed copy answers for its own matrix', h.eq(c.untransform(x, y), Transform(c.as_6tuple()).untransform(x, y)))
    h.check('original still answers for its own matrix', h.eq(t.untransform(*t.transform(x, y)), (x, y)))


@harness(bounds='histories of 12 updates of given linear parts and arbitrary translations, the inverse asked for before all, every second or no update; decided after each')
def long_history(h):
    t, ask = Transform((2, 1, h.real('c'), 0, 3, h.real('f'))), h.choice('ask', ['always', 'second', 'never'])
    x, y = h.real('x'), h.real('y')
    for i in range(12):
        if ask == 'always' or ask == 'second' and i % 2:
            t.untransform(1, 2)
        p, q = h.real('p%d' % i), h.real('q%d' % i)
        if i % 6 == 5:
            with t.push():
                t.set_matrix(Transform((1, 2, p, 3, 4, q)))
                t.untransform(1, 2)
        elif i % 6 == 3:
            t.set_matrix(Transform((1, i, p, -1, 2, q)))
        elif i % 6 == 2:
            t.compose_outer(Transform((0, 1, p, -1, 0, q)))
        elif i % 6 == 4:
            t.compose(Transform((1, 1, p, 0, 1, q)))
        elif i % 2:
            t.scale(2, -1)
        else:
            t.translate(p, q)
        m = t.as_6tuple()
        h.check('untransform undoes transform', h.eq(t.untransform(*affine(m, x, y)), (x, y)))
        h.check('matrix unchanged', h.eq(t.as_6tuple(), m))


@harness(bounds='10 pushes on top of each other, each updated by given linear parts and arbitrary translations, the inverse asked for before all, every second or no pop; decided after each pop', merge=True)
def deep_stack(h):
    ask, style = h.choice('ask', ['always', 'second', 'never']), h.choice('style', ['translate', 'compose', 'nothing'])
    t = Transform((2, 1, h.real('c'), 0, 3, h.real('f')))
    x, y = h.real('x'), h.real('y')
    had = []
    for i in range(10):
        had.append(t.as_6tuple())
        t.push()
        if style == 'translate':
            t.translate(h.real('p%d' % i), 1)
        elif style == 'compose' and i % 3:
            t.compose(Transform((0, 1, h.real('p%d' % i), -1, 0, 2)))
    for i in reversed(range(10)):
        if ask == 'always' or ask == 'second' and i % 2:
            t.untransform(1, 2)
        t.pop()
        h.check('pop gives back the matrix pushed', h.eq(t.as_6tuple(), had[i]))
        h.check('untransform undoes transform', h.eq(t.untransform(*affine(had[i], x, y)), (x, y)))


@harness(bounds='12 points at once, of arbitrary or whole-number coordinates, with a matrix of given linear part and arbitrary translation', params=[dict(whole=w) for w in (False, True)])
def many_points(h, whole):
    t = Transform((2, 1, h.real('c'), 0, 3, h.real('f')))
    m = t.as_6tuple()
    pts = [(i, 3 - i * i) if whole else (h.real('x%d' % i), h.real('y%d' % i)) for i in range(12)]
    h.check('every point', h.eq(t.untransform_pts([affine(m, *p) for p in pts]), pts))
    h.check('as one by one', h.eq(t.untransform_pts(pts), [t.untransform(*p) for p in pts]))
    h.check('back again', h.eq(t.transform_pts(t.untransform_pts(pts)), pts))
