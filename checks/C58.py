"""Group builders create what was asked for in the style asked for"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.colors import PenBrush, PensByShape, Pen
from x7.geom.transform import Transform
from checks.common import mk_elem, mk_cp, mk_transform, snap, path_parts, mk_dc, same_cyclic

KINDS = ['edge', 'filled', 'clear', 'edge_filled', 'edge_clear']


def mk_pens(h, n, tag):
    """A set of pens which differ in every kind"""
    return PensByShape(edge=PenBrush(('red%d' % n, h.real(tag + '.w'))), filled=PenBrush(None, 'tan%d' % n), clear=PenBrush(None, (0, 0, 0, n)),
                       edge_filled=PenBrush('blue%d' % n, 'grey%d' % n), edge_clear=PenBrush(('cyan%d' % n, 1), (0, 0, n, 0)))


def mk(h, b, what, name, *args):
    """Build one element and give it with what it should consist of, except for its style"""
    p, q = Point(h.real(name + '.px'), h.real(name + '.py')), Point(h.real(name + '.qx'), h.real(name + '.qy'))
    if what == 'curve':
        cps = [mk_cp(h, name + '.c%d' % i, ('smooth', 'sharp')) for i in range(2)]
        return b.curve(name, cps, *args), [(c.c.xy(), c.dl.xy(), c.dr.xy(), c.kind) for c in cps]
    if what == 'rrect':
        r = h.real(name + '.radius', 0)
        return b.rrect(name, p, q, r, *args), [p.xy(), q.xy(), r]
    return getattr(b, what)(name, p, q, *args), [p.xy(), q.xy()]


def geometry(e):
    if isinstance(e, ElemCurve):
        return [(c.c.xy(), c.dl.xy(), c.dr.xy(), c.kind) for c in e.control_points]
    return [e.p1.xy(), e.p2.xy()] + ([e.radius] if isinstance(e, ElemRectangleRounded) else [])


TYPES = dict(rect=ElemRectangle, ellipse=ElemEllipse, rrect=ElemRectangleRounded, curve=ElemCurve)


@harness(bounds='every kind of element with arbitrary coordinates, style by default, by kind or by pen, on a new group or one with members; any default kind', time=100,
         params=[dict(what=w) for w in TYPES])
def built(h, what):
    pens = mk_pens(h, 1, 'pens')
    default = h.choice('default', [None] + KINDS)
    old = mk_elem(h, 'rect', 'old')
    given = Group('mine', PenBrush('red'), elems=[old], xform=mk_transform(h, 'x')) if h.choice('group given', [0, 1]) else None
    k = {} if default is None else dict(shape_kind=default)
    b = GroupBuilder('g', pens, group=given, **k)
    h.check('works on the group given', (b.the_group is given) if given is not None else (b.the_group.name == 'g' and not b.the_group.elems))
    before = list(b.the_group.elems.items())
    pen = PenBrush('yellow', 'tan')
    style = h.choice('style', [None, 'pen'] + KINDS)
    e, want = mk(h, b, what, 'n', *([] if style is None else [pen if style == 'pen' else style]))
    h.check('kind and name', type(e) is TYPES[what] and e.name == 'n')
    h.check('geometry', h.eq(geometry(e), want))
    h.check('no transform of its own', e.xform == Transform())
    pb = pen if style == 'pen' else pens[style or default or 'edge']
    h.check('style', e.penbrush == pb)
    h.check('closed', e.closed is (pb.filled if what == 'curve' else True))
    h.check('added last', list(b.the_group.elems.items()) == before + [('n', e)] and b.lookup('n') is e)
    h.check('name taken: not lost', b.the_group.elems['n'] is e)
    h.check('unknown kind refused', h.raises(ValueError, lambda: mk(h, b, what, 'm', 'edges')))
    h.check('nothing added by a refusal', list(b.the_group.elems) == [n for n, x in before] + ['n'])


@harness(bounds='curves closed or not as asked for, in every style')
def closed(h):
    pens = mk_pens(h, 1, 'pens')
    b = GroupBuilder('g', pens)
    style = h.choice('style', KINDS + ['pen', 'filling pen'])
    arg = {'pen': PenBrush('red'), 'filling pen': PenBrush('red', 'tan')}.get(style, style)
    filled = (pens[arg] if isinstance(arg, str) else arg).filled
    how = h.choice('closed', [None, True, False])
    cps = [mk_cp(h, 'c%d' % i, ('smooth',)) for i in range(2)]
    if filled and how is False:
        h.check('open shapes are not filled', h.raises(AssertionError, lambda: b.curve('c', cps, arg, closed=how)))
        h.check('nothing added', not b.the_group.elems)
        return
    e = b.curve('c', cps, arg, closed=how)
    h.check('closed', e.closed is (filled if how is None else how))
    h.check('as many paths', len(e.paths(mk_dc(None, 2))) == 1)


@harness(bounds='three levels of builders, pens and default kind given or inherited on each', params=[dict(what=w) for w in ('rect', 'rrect')])
def inherited(h, what):
    pens, kind = mk_pens(h, 0, 'pens'), h.choice('kind', [None, 'filled'])
    b = GroupBuilder('g', pens, **({} if kind is None else dict(shape_kind=kind)))
    kind = kind or 'edge'
    builders = [(b, pens, kind)]
    for i in (1, 2):
        own = mk_pens(h, i, 'pens%d' % i) if h.choice('own pens%d' % i, [0, 1]) else None
        sk = h.choice('own kind%d' % i, [None, 'edge', 'edge_filled'])
        parent = b
        b = parent.group('s%d' % i, pens_by_shape=own, shape_kind=sk) if i == 1 else parent.group('s%d' % i, own, sk)
        h.check('a member of its parent', parent.lookup('s%d' % i) is b.the_group and b.the_group.name == 's%d' % i)
        pens, kind = own or pens, sk or kind
        builders.append((b, pens, kind))
    for b, pens, kind in builders:
        e, want = mk(h, b, what, 'e')
        h.check('inherited style', e.penbrush == pens[kind])
        h.check('in its own group', b.the_group.elems['e'] is e)
        f, want = mk(h, b, what, 'f', 'edge_clear')
        h.check('inherited pens', f.penbrush == pens['edge_clear'])
    h.check('found from the top', builders[0][0].lookup('s1.s2.e') is builders[2][0].the_group.elems['e'])


@harness(bounds='rectangles of any corners rotated about their centre by any angle', merge=True)
def rotated(h):
    b = GroupBuilder('g', PensByShape())
    e = b.rect('r', Point(h.real('px'), h.real('py')), Point(h.real('qx'), h.real('qy')))
    s0 = snap(e)
    a = h.angle('a')
    show = h.choice('show', [False, True])
    n = b.rotate_about_center(e, a, show, extra='x')
    h.check('added', b.lookup('r_rx') is n and b.lookup('r') is e)
    c, d = e.bbox().center.xy(), n.xform.transform_pt(n.p1.mid(n.p2)).xy()
    h.check('same centre', h.eq(c, d))
    h.check('original unchanged', h.eq(snap(e), s0))
    h.check('same style', n.penbrush == e.penbrush and n.closed == e.closed)
    h.check('centre marked when asked for', list(b.the_group.elems) == ['r', 'r_rx'] + (['r_cx'] if show else []))
    if show:
        m = b.lookup('r_cx')
        h.check('mark at the centre', h.eq((m.p1.xy(), m.p2.xy()), ((c[0] - 1, c[1] - 1), (c[0] + 1, c[1] + 1))))


@harness(bounds='curves with an own transform rotated about their centre by any angle: every control point')
def rotated_curve(h):
    import math
    b = GroupBuilder('g', PensByShape())
    e = b.curve('c', [ControlPoint(Point(h.real('x'), h.real('y')), Vector(0, 0), Vector(0, 0)),
                      ControlPoint(Point(h.real('u'), h.real('v')), Vector(0, 0), Vector(0, 0))])
    e.xform = Transform((2, 0, h.real('tx'), 0, 3, h.real('ty')))
    a = h.angle('a')
    ox, oy = e.bbox().center.xy()
    n = b.rotate_about_center(e, a)
    h.check('a curve', type(n) is ElemCurve and n.name == 'c_r')
    r = Transform().rotate(a)
    for p, q in zip(e.control_points, n.control_points):
        x, y = e.xform.transform(*p.c.xy())
        dx, dy = r.transform(x - ox, y - oy)
        h.check('rotated about the centre', h.eq(n.xform.transform(*q.c.xy()), (ox + dx, oy + dy)))


@harness(bounds='groups and shapes with holes, own transforms on both levels (any translation, unequal scale), rotated about their centre by any angle: every corner',
         params=[dict(kind=k) for k in ('group', 'holes', 'nested', 'curve')], merge=True)
def rotated_compound(h, kind):
    def box(n):
        x, y = h.real(n + 'x'), h.real(n + 'y')
        w = lambda px, py: ControlPoint(Point(px, py), Vector(0, 0), Vector(0, 0))
        if kind == 'rect':
            return ElemRectangle(n, PenBrush('red'), Point(x, y), Point(x + 2, y + 3))
        return ElemCurve(n, PenBrush('red'), [w(x, y), w(x + 2, y), w(x + 2, y + 3)])
    own = lambda n: Transform((2, 0, h.real(n + 'tx'), 0, 3, h.real(n + 'ty'))) if h.choice(n + 'own', [0, 1]) else Transform()
    e = box('a')
    e.xform = own('a')
    if kind in ('group', 'nested'):
        e = Group('e', PenBrush('red'), elems=[e], xform=own('e'))
        if kind == 'nested':
            e = Group('f', PenBrush('red'), elems=[e], xform=own('f'))
    elif kind == 'holes':
        e = ElemWithHoles('e', PenBrush('red'), e, [], xform=own('e'))
    b = GroupBuilder('g', PensByShape())
    pts = [p for q in e.as_curves() for p in (q.xform.transform(*c.c.xy()) for c in q.control_points)]
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    ox, oy = (min(xs) + max(xs)) / 2, (min(ys) + max(ys)) / 2
    s0 = snap(e)
    a = h.angle('a')
    n = b.rotate_about_center(e, a)
    h.check('added', list(b.the_group.elems.values()) == [n] and n.name == e.name + '_r' and type(n) is type(e) and n.penbrush == e.penbrush)
    r = Transform().rotate(a)
    got = [p for q in n.as_curves() for p in (q.xform.transform(*c.c.xy()) for c in q.control_points)]
    want = []
    for x, y in pts:
        dx, dy = r.transform(x - ox, y - oy)
        want.append((ox + dx, oy + dy))
    h.check('rotated about the centre', same_cyclic(h, got, want))
    h.check('original unchanged', h.eq(snap(e), s0))


@harness(bounds='builders on two levels, each hidden or not beforehand, either hidden')
def hidden(h):
    b = GroupBuilder('g', PensByShape())
    s = b.group('s')
    r = s.rect('r', Point(h.real('px'), h.real('py')), Point(h.real('qx'), h.real('qy')))
    t = s.group('t')
    all3 = (b, s, t)
    before = [bool(h.choice('hidden%d' % i, [0, 1])) for i in range(3)]
    for x, v in zip(all3, before):
        x.the_group.hidden = v
    s0 = snap(r)
    k = h.choice('which', [0, 1, 2])
    all3[k].hide()
    want = [v or i == k for i, v in enumerate(before)]
    h.check('only the group asked for is hidden', [x.the_group.hidden for x in all3] == want)
    h.check('shapes unchanged', h.eq(snap(r), s0))
    h.check('draws what is not hidden', len(b.the_group.paths(mk_dc(None, 2))) == (0 if want[0] or want[1] else 1))


@harness(bounds='points, dumps, iteration and replacement go to the group; elements added and built mixed')
def delegates(h):
    g = Group('g', PenBrush('red'))
    b = GroupBuilder('b', PensByShape(), group=g)
    x, y = h.real('x'), h.real('y')
    p = b.point('p', x, y)
    h.check('point', h.eq(p.xy(), (x, y)) and g.lookup_pt('p') is p and b.lookup_pt('p') is p and p.name == 'p')
    q = PointRelative(1, 2, p)
    h.check('other points', b.add_pt('q', q) is q and g.points['q'] is q)
    e = mk_elem(h, 'curve', 'e', cps=1)
    b.add('first', e)
    r = b.rect('r', p, q)
    h.check('members', list(g.elems.items()) == [('first', e), ('r', r)] and e.name == 'first')
    h.check('points of built shapes are fixed', h.eq((r.p1.xy(), r.p2.xy()), ((x, y), (x + 1, y + 2))))
    p.setxy(h.real('u'), h.real('v'))
    h.check('and stay', h.eq((r.p1.xy(), r.p2.xy()), ((x, y), (x + 1, y + 2))))
    c = b.curve('c', [ControlPoint(p, Vector(1, 0), Vector(0, 1))])
    p.setxy(h.real('s'), h.real('t'))
    h.check('curves follow their points', h.eq(c.control_points[0].c.xy(), (h.real('s'), h.real('t'))))
    h.check('dumps the group', b.dump().output() == g.dump().output())
    h.check('iterates the group', [(n, z) for n, z, t in b.iter_elems()] == [(n, z) for n, z, t in g.iter_elems()])
    new = mk_elem(h, 'rect', 'new')
    h.check('replaces in the group', b.replace(c, new) == 1 and g.lookup('new') is new)
    h.check('pens need to be given by shape', h.raises(TypeError, lambda: GroupBuilder('g', PenBrush('red'))))


@harness(bounds='builders that make 12 elements of any coordinates, some of one name, in groups of their own or 7 levels deep', params=[dict(how=w) for w in ('wide', 'deep')])
def many(h, how):
    pens = mk_pens(h, 1, 'pens')
    b = GroupBuilder('g', pens)
    if how == 'wide':
        made = [mk(h, b, sorted(TYPES)[i % len(TYPES)], 'n' if i % 4 == 3 else 'n%d' % i) for i in range(12)]
        h.check('all of them, in order', len(b.the_group.elems) == 12 and all(x is e for x, (e, w) in zip(b.the_group.elems.values(), made)))
        h.check('geometry', h.eq([geometry(e) for e, w in made], [w for e, w in made]))
        h.check('names', len(set(e.name for e, w in made)) == 12 and all(b.lookup(e.name) is e for e, w in made))
        h.check('style', all(e.penbrush == pens['edge'] for e, w in made))
        return
    chain = [b]
    for i in range(7):
        chain.append(chain[-1].group('s%d' % i, shape_kind='filled') if i == 3 else chain[-1].group('s%d' % i))
    for i, s in enumerate(chain):
        e, w = mk(h, s, 'rect', 'r')
        h.check('inherited style', e.penbrush == pens['edge' if i < 4 else 'filled'])
        h.check('found from the top', b.lookup('.'.join(['s%d' % k for k in range(i)] + ['r'])) is e)
