"""A group draws exactly its visible members, in order, under its transform"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.colors import PenBrush, PensByShape
from x7.geom.drawing import DrawingContext
from x7.geom.transform import Transform
from checks.common import mk_elem, mk_transform, mk_dc, path_parts, ctl_parts, compose, ELEM_KINDS, FakeImage, fake_images


NAMES = ['r', '_r', '', 'R', '0', 'hidden', '__', ' ', '-r', 'None', '#', 'r#2', 'outside']


@harness(bounds='members with names of any sort, alone or after another, elements or groups, arbitrary coordinates and transforms', merge=True)
def names(h):
    n = h.choice('name', NAMES)
    t, m = mk_transform(h, 't'), mk_transform(h, 'm')
    e = Group(n, PenBrush('default'), elems={n: leaf(h, 'r')}) if h.choice('group', [False, True]) else leaf(h, 'r')
    es = {'first': leaf(h, 'b'), n: e} if h.choice('second', [False, True]) else {n: e}
    g = Group(h.choice('own name', ['g', '_g', '']), PenBrush('default'), False, t, es)
    mt = compose(m.as_6tuple(), t.as_6tuple())
    compare(h, 'all', g, mk_dc(m, 2), expect([(x, mt) for x in es.values()]))


def leaf(h, name):
    return ElemRectangle(name, PenBrush(name[0] == 'a' and 'red' or 'blue'), Point(h.real(name + '.x'), h.real(name + '.y')),
                         Point(h.real(name + '.u'), h.real(name + '.v')))


def expect(items):
    """What drawing (element, matrix) pairs one by one gives"""
    paths, ctls = [], []
    for e, m in items:
        dc = mk_dc(Transform(m), 2)
        paths += path_parts(e.paths(dc))
        ctls += ctl_parts(e.control_paths(dc))
    return paths, ctls


def compare(h, what, g, dc, want):
    paths, ctls = path_parts(g.paths(dc)), ctl_parts(g.control_paths(dc))
    h.check(what + ': number of paths', len(paths) == len(want[0]) and len(ctls) == len(want[1]))
    for a, b in zip(paths, want[0]):
        h.check(what + ': pens in order', a[0] == b[0] and a[1] == b[1])
        h.check(what + ': paths in order', h.eq(a[2], b[2]))
    for a, b in zip(ctls, want[1]):
        h.check(what + ': control paths in order', h.eq(a, b))


@harness(bounds='groups of any two kinds of element, group transform, context and coordinates arbitrary', params=[dict(kind=k) for k in ELEM_KINDS], time=150, merge=True)
def members(h, kind):
    t, m = mk_transform(h, 't'), mk_transform(h, 'm')
    es = [leaf(h, 'b'), mk_elem(h, kind, 'k'), leaf(h, 'a')]
    g = Group('g', PenBrush('default'), False, t, es if h.choice('as', ['list', 'dict']) == 'list' else {e.name: e for e in es})
    mt = compose(m.as_6tuple(), t.as_6tuple())
    compare(h, 'all', g, mk_dc(m, 2), expect([(e, mt) for e in es]))
    late = leaf(h, 'aa')
    g.add('aa', late)
    compare(h, 'added', g, mk_dc(m, 2), expect([(e, mt) for e in es + [late]]))


@harness(bounds='the same element, or group, several times in a group: drawn as often, arbitrary coordinates and transforms', merge=True)
def repeated(h):
    t, m = mk_transform(h, 't'), mk_transform(h, 'm')
    a, b = leaf(h, 'a'), leaf(h, 'b')
    order = h.choice('order', ['aa', 'aba', 'aab', 'gg', 'gag', 'aga'])
    u = mk_transform(h, 'u')
    inner = Group('inner', PenBrush('default'), False, u, [a, b])
    g = Group('g', PenBrush('default'), False, t, {str(i): {'a': a, 'b': b, 'g': inner}[c] for i, c in enumerate(order)})
    mt = compose(m.as_6tuple(), t.as_6tuple())
    mu = compose(mt, u.as_6tuple())
    items = []
    for c in order:
        items += [(a, mu), (b, mu)] if c == 'g' else [({'a': a, 'b': b}[c], mt)]
    compare(h, 'repeated', g, mk_dc(m, 2), expect(items))


@harness(bounds='three levels of nested groups with arbitrary transforms, every combination of hidden groups, hidden at construction, later or through the builder',
         params=[dict(how=w) for w in ('made', 'later', 'builder')], time=150)
def nested(h, how):
    ts = [mk_transform(h, 't%d' % i) for i in range(3)]
    m = mk_transform(h, 'm')
    hide = [h.choice('hide%d' % i, [False, True]) for i in range(3)]
    a, b, c, d = (leaf(h, n) for n in 'abcd')
    pens = PensByShape()
    if how == 'builder':
        top = GroupBuilder('top', pens)
        top.add('a', a)
        mid = top.group('mid')
        mid.add('b', b)
        low = mid.group('low')
        low.add('c', c)
        top.add('d', d)
        gs = [x.the_group for x in (top, mid, low)]
        for x, t, k in zip((top, mid, low), ts, hide):
            x.the_group.xform = t
            if k:
                x.hide()
    else:
        pb = PenBrush('default')
        flags = hide if how == 'made' else [False] * 3
        low = Group('low', pb, flags[2], ts[2], [c])
        mid = Group('mid', pb, flags[1], ts[1], [b, low])
        gs = [Group('top', pb, flags[0], ts[0], [a, mid, d]), mid, low]
        if how == 'later':
            for g, k in zip(gs, hide):
                g.hidden = k
    m0 = compose(m.as_6tuple(), ts[0].as_6tuple())
    m1 = compose(m0, ts[1].as_6tuple())
    m2 = compose(m1, ts[2].as_6tuple())
    items = [] if hide[0] else [(a, m0)] + ([] if hide[1] else [(b, m1)] + ([] if hide[2] else [(c, m2)])) + [(d, m0)]
    dc = mk_dc(m, 2)
    compare(h, 'visible', gs[0], dc, expect(items))
    h.check('context as it was', h.eq(dc.matrix.as_6tuple(), m.as_6tuple()) and len(dc.matrix.stack) == 0)
    for g in gs:
        g.hidden = False
    compare(h, 'shown again', gs[0], mk_dc(m, 2), expect([(a, m0), (b, m1), (c, m2), (d, m0)]))


@harness(bounds='pictures of nested groups: painted in order, hidden groups not at all, by the group or its builder',
         params=[dict(via=v) for v in ('group', 'builder')], time=100)
def painted(h, via):
    with fake_images():
        b = GroupBuilder('top', PensByShape())
        b.the_group.xform = mk_transform(h, 't')
        b.add('a', leaf(h, 'a'))
        sub = b.group('sub')
        sub.add('b', leaf(h, 'b'))
        b.add('c', leaf(h, 'c'))
        hide = h.choice('hide', ['nothing', 'sub', 'top'])
        if hide == 'sub':
            sub.hide()
        if hide == 'top':
            b.hide()
        m = mk_transform(h, 'm')

        def picture(*es):
            out = []
            for e, x in es:
                dc = DrawingContext(FakeImage('RGBA', (10, 10)), Transform(x))
                e.draw(dc)
                out += dc.layer.content
            return out
        mt = compose(m.as_6tuple(), b.the_group.xform.as_6tuple())
        es = b.the_group.elems
        want = picture(*[(e, mt) for e in (es['a'], sub.lookup('b'), es['c']) if hide != 'top' and not (hide == 'sub' and e.name == 'b')])
        got = picture((b if via == 'builder' else b.the_group, m.as_6tuple()))
        h.check('as many operations', len(got) == len(want) and bool(want) == (hide != 'top'))
        for x, y in zip(got, want):
            h.check('same operation', x[0] == y[0] and x[2] == y[2] and h.eq(x[1], y[1]))


@harness(bounds='groups of 12 rectangles and a hidden group with arbitrary coordinates, names in any of three orders, members replaced or not', params=[dict(order=o) for o in ('up', 'down', 'mixed')])
def many(h, order):
    k = 12
    names = ['n%d' % {'up': i, 'down': k - i, 'mixed': i * 7 % k}[order] for i in range(k)]
    es = [leaf(h, n) for n in names]
    hidden = Group('hidden', PenBrush('default'), hidden=True, elems=[leaf(h, 'x')])
    g = Group('g', PenBrush('default'), xform=mk_transform(h, 't'), elems=es[:5] + [hidden] + es[5:])
    if h.choice('replaced', [False, True]):
        new = leaf(h, 'a new one')
        h.check('replaced', g.replace(es[3], new) == 1)
        es[3] = new
    m = mk_transform(h, 'm')
    mt = compose(m.as_6tuple(), g.xform.as_6tuple())
    compare(h, 'many', g, mk_dc(m, 2), expect([(e, mt) for e in es]))
