"""Traversal visits every element once with its full transform"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.colors import PenBrush, PensByShape
from x7.geom.transform import Transform
from checks.common import mk_elem, mk_transform, snap, compose, path_parts, mk_dc, IDENTITY

PB = PenBrush('red')


def leaves(e, root, m):
    """What deep iteration should give, in order"""
    here = root + '.' + e.name if root else e.name
    if isinstance(e, Group):
        m = compose(m, e.xform.as_6tuple())
        return [x for k in e.elems.values() for x in leaves(k, here, m)]
    if isinstance(e, ElemWithHoles):
        m = compose(m, e.xform.as_6tuple())
        return leaves(e.outside, here + '.outside', m) + [x for k in e.inside for x in leaves(k, here + '.inside', m)]
    return [(here, e, m)]


def mk_tree(h, shape, name='g'):
    """Group from a nested list: 'r' rectangle, 'c' curve, 'w' shape with a hole, list = group (sharing member names)"""
    elems = []
    for i, s in enumerate(shape):
        n = '%s%d' % (name, i)
        if isinstance(s, list):
            elems.append(mk_tree(h, s, n))
        elif s in 'wv':
            pb = PenBrush('red', 'blue')
            elems.append(ElemWithHoles(n, pb, mk_elem(h, 'rect', n + 'o'), [mk_elem(h, 'rect', n + ('i' if s == 'w' else '.i.j'))], xform=mk_transform(h, n + 'x')))
        else:
            elems.append(mk_elem(h, 'rect' if s == 'r' else 'curve', n, cps=1, xform=mk_transform(h, n + 'x')))
    return Group(name, PB, elems=elems, xform=mk_transform(h, name + 'x'))


SHAPES = [[], ['r'], ['r', 'c'], [['r']], [['r', 'c'], 'r'], ['c', ['r', ['c', 'r']], 'r'], [[], ['r'], [[]]], ['w'], ['r', 'w', ['w']], ['v', 'w'], [[['w', 'c'], 'r'], ['c']]]


def run_deep(h, e, start, how):
    m0 = start.as_6tuple() if start else IDENTITY
    depth = len(start.stack) if start else 0
    root = h.choice('root', ['root', None]) if isinstance(e, (Group, ElemWithHoles)) else 'root'
    want = leaves(e, root, m0)
    it = e.iter_elems(root, start)
    if how == 'list':
        got = [(n, x, t.as_6tuple()) for n, x, t in list(it)]
    else:
        got = []
        for n, x, t in it:
            got.append((n, x, t.as_6tuple()))
            t.as_6tuple()
    h.check('as many as there are leaves', len(got) == len(want))
    for (n, x, t), (n2, x2, t2) in zip(got, want):
        h.check('qualified name', n == n2)
        h.check('the element itself', x is x2)
        h.check('accumulated transform', h.eq(t, t2))
    if start:
        h.check('start as before', h.eq(start.as_6tuple(), m0) and len(start.stack) == depth)


@harness(bounds='trees of groups of depth up to 4 with arbitrary transforms of every group and element, with and without an arbitrary starting transform, '
                'used step by step or collected', params=[dict(shape=s, how=w) for s in range(len(SHAPES)) for w in ('steps', 'list')])
def deep(h, shape, how):
    start = None
    from_own = h.choice('start', [0, 1, 2])
    if from_own == 1:
        start = mk_transform(h, 'm')
        start.push().translate(h.real('px'), h.real('py'))
    g = mk_tree(h, SHAPES[shape])
    if from_own == 2:       # the transform the group holds itself
        start = g.xform
    s0 = snap(g)
    run_deep(h, g, start, how)
    h.check('model as before', h.eq(snap(g), s0))
    if not start:
        h.check('the same again', len(list(g.iter_elems())) == len(leaves(g, None, IDENTITY)))


@harness(bounds='single elements and shapes with holes, arbitrary transforms', params=[dict(kind=k) for k in ('curve', 'open', 'rect', 'ellipse', 'rrect', 'holes')])
def single(h, kind):
    e = mk_elem(h, kind, cps=1, xform=mk_transform(h, 'x'))
    run_deep(h, e, mk_transform(h, 'm'), h.choice('how', ['steps', 'list']))


@harness(bounds='the same element as member of two groups, and hidden groups: everything is visited', params=[dict(how=w) for w in ('shared', 'hidden', 'twice', 'not in a row')])
def unusual(h, how):
    e = mk_elem(h, 'rect', 'e')
    a, b = Group('a', PB, elems=[e], xform=mk_transform(h, 'xa')), Group('b', PB, elems=[e], xform=mk_transform(h, 'xb'))
    if how == 'hidden':
        a.hidden = True
    if how == 'twice':
        a.elems['again'] = e
        b.elems = {'a': a, 'first': e, 'then': e}
    elif how == 'not in a row':
        a.elems = {'x': e, 'y': mk_elem(h, 'curve', 'c', cps=1), 'z': e}
        b = a
        run_deep(h, Group('g', PB, elems={'a': a, 'b': b, 'c': b}), None, 'list')
        return
    run_deep(h, Group('g', PB, elems=[a, b], xform=mk_transform(h, 'xg')), mk_transform(h, 'm'), 'list')


def rename(s, name):
    return [s[0], name] + s[2:]


@harness(bounds='groups and shapes with holes with members of several kinds, arbitrary transforms', params=[dict(what=w) for w in ('group', 'nested', 'holes', 'empty')])
def shallow(h, what):
    x = mk_transform(h, 'x')
    if what == 'holes':
        e = mk_elem(h, 'holes', 'w', x, cps=1)
        e.outside.xform, e.inside[0].xform = mk_transform(h, 'xo'), mk_transform(h, 'xi')
        e.outside.name, e.inside[0].name = h.choice('outside name', ['o', 'x.o', '']), h.choice('inside name', ['i', 'x.i', 'root.w.inside.i', ''])
        members = [('outside.', e.outside), ('inside.', e.inside[0])]
    else:
        ms = {'group': ['c', 'c'], 'nested': ['c', ['c', 'r']], 'empty': []}[what]
        e = mk_tree(h, ms, 'w')
        x = e.xform
        members = [('', m) for m in e.elems.values()]
    e.name = h.choice('name', ['w', '', 'w.w'])
    start = mk_transform(h, 'm') if h.choice('start', [0, 1]) else None
    root = h.choice('root', ['root', None])
    m0 = start.as_6tuple() if start else IDENTITY
    full = compose(m0, x.as_6tuple())
    s0 = snap(e)
    got = list(e.iter_elems_transformed(root, start))
    h.check('one per direct member', len(got) == len(members))
    base = 'root.' + e.name if root else e.name
    for g, (p, m) in zip(got, members):
        h.check('name', g.name == base + '.' + p + m.name)
        h.check('a new element', g is not m and type(g) is type(m))
        h.check('transformed by everything around', h.eq(rename(snap(g), ''), rename(snap(m.transform(Transform(full))), '')))
        a, b = path_parts(g.paths(mk_dc(None, 2))), path_parts(m.paths(mk_dc(Transform(full), 2)))
        h.check('draws what the member draws in place', len(a) == len(b) and all(p[0] == q[0] and p[1] == q[1] for p, q in zip(a, b))
                and h.eq([p[2] for p in a], [q[2] for q in b]))
    h.check('model as before', h.eq(snap(e), s0))
    if start:
        h.check('start as before', h.eq(start.as_6tuple(), m0) and not start.stack)


@harness(bounds='builders iterate their group')
def builder(h):
    b = GroupBuilder('g', PensByShape())
    r = b.rect('r', Point(h.real('x'), h.real('y')), Point(h.real('u'), h.real('v')))
    s = b.group('s').ellipse('e', Point(h.real('x'), h.real('y')), Point(h.real('u'), h.real('v')))
    b.the_group.xform = mk_transform(h, 'x')
    got = [(n, e, t.as_6tuple()) for n, e, t in b.iter_elems('root')]
    x = b.the_group.xform.as_6tuple()
    h.check('names', [g[0] for g in got] == ['root.g.r', 'root.g.s.e'])
    h.check('elements', got[0][1] is r and got[1][1] is s)
    h.check('transforms', h.eq([g[2] for g in got], [x, x]))
    c = GroupBuilder('g', PensByShape())
    c.curve('c', [ControlPoint(Point(h.real('x'), h.real('y')), Vector(1, 2), Vector(3, h.real('u')))])
    c.the_group.xform = mk_transform(h, 'x')
    h.check('shallow too', [e.name for e in c.iter_elems_transformed('q')] == ['q.g.c'])


@harness(bounds='groups and shapes holding the same transform object as their members', params=[dict(how=w) for w in ('group', 'holes', 'nested')])
def shared_transform(h, how):
    x = mk_transform(h, 'x')
    a, b = mk_elem(h, 'curve', 'a', x, cps=1), mk_elem(h, 'curve', 'b', x, cps=1)
    if how == 'holes':
        e = ElemWithHoles('w', PenBrush('red', 'blue'), a, [b], xform=x)
    else:
        e = Group('w', PB, elems=[a, b], xform=x)
    if how == 'nested':
        e = Group('v', PB, elems=[e, mk_elem(h, 'curve', 'c', x, cps=1)], xform=x)
    start = mk_transform(h, 'm') if h.choice('start', [0, 1]) else None
    m0 = start.as_6tuple() if start else IDENTITY
    s0 = snap(e)
    run_deep(h, e, start, h.choice('how', ['steps', 'list']))
    h.check('model as before', h.eq(snap(e), s0) and not x.stack)
    full = compose(m0, x.as_6tuple())
    members = [e.outside] + e.inside if how == 'holes' else list(e.elems.values())
    got = list(e.iter_elems_transformed('root', start))
    h.check('one per direct member', len(got) == len(members))
    for g, m in zip(got, members):
        h.check('transformed by everything around', h.eq(rename(snap(g), ''), rename(snap(m.transform(Transform(full))), '')))
    h.check('model as before', h.eq(snap(e), s0) and not x.stack)


@harness(bounds='chains of groups of depth 8 and groups of 12 members with arbitrary transforms, with and without a starting transform', params=[dict(how=w) for w in ('deep', 'wide', 'holes')])
def large(h, how):
    start = mk_transform(h, 'm') if h.choice('start', [0, 1]) and how != 'deep' else None
    if how == 'wide':
        e = mk_tree(h, ['r', 'c'] * 6)
    elif how == 'holes':
        es = [mk_elem(h, 'rect', 'i%d' % i) for i in range(9)]
        e = Group('g', PB, elems=[ElemWithHoles('w', PenBrush('red', 'blue'), es[0], es[1:], xform=mk_transform(h, 'x'))])
    else:
        e = Group('i', PB, elems=[mk_elem(h, 'rect', 'r')])
        for d in range(7):
            e = Group('g%d' % d, PB, elems=[mk_elem(h, 'rect', 'r%d' % d), e], xform=Transform((1 + d % 2, d % 3 - 1, h.real('x%d' % d), 1, 2, 3)))
    run_deep(h, e, start, 'list')
