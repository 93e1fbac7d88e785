"""Transforming an element transforms everything it draws"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.colors import PenBrush
from x7.geom.transform import Transform
from checks.common import mk_elem, mk_transform, mk_dc, path_parts, ctl_parts, same_cyclic, compose, det, snap, same_handles, decent, shared_parts, mk_long, mk_many


def compare(h, e, t, m, ctx=None, stride=None):
    """Draw e under t and e.transform(t) under nothing (or both under a context matrix)"""
    before = snap(e)
    depth = len(t.stack)
    f = e.transform(t)
    h.check('matrix left as it was', h.eq(t.as_6tuple(), m) and len(t.stack) == depth)
    h.check('original left as it was', h.eq(snap(e), before))
    h.check('a new element of the same kind', f is not e and type(f) is type(e))
    h.check('name, pens and closedness kept', f.name == e.name and f.penbrush == e.penbrush and f.closed == e.closed)
    mc = m if ctx is None else compose(ctx, m)
    a, b = mk_dc(Transform(mc), 2), mk_dc(None if ctx is None else Transform(ctx), 2)
    pa, pb = path_parts(e.paths(a)), path_parts(f.paths(b))
    h.check('same number of paths', len(pa) == len(pb))
    for x, y in zip(pa, pb):
        h.check('same pens', x[0] == y[0] and x[1] == y[1])
        if stride is None:
            h.check('same path', h.eq(x[2], y[2]))
        else:
            h.check('both closed', h.eq(x[2][0], x[2][-1]) and h.eq(y[2][0], y[2][-1]))
            h.check('same outline', same_cyclic(h, x[2][:-1], y[2][:-1], stride))
    ca, cb = ctl_parts(e.control_paths(a)), ctl_parts(f.control_paths(b))
    h.check('same number of control paths', len(ca) == len(cb))
    for x, y in zip(ca, cb):
        if stride is None:
            h.check('same control path', h.eq(x, y))
        else:
            h.check('same control points', same_handles(h, x, y))
    return f


@harness(bounds='open and closed curves of 1 to 3 control points of every kind, own transform and matrix arbitrary (also singular)',
         params=[dict(kind=k, n=n) for k in ('curve', 'open') for n in (1, 2, 3)])
def curve(h, kind, n):
    x, t = mk_transform(h, 'x'), mk_transform(h, 't')
    e = mk_elem(h, kind, xform=x, cps=n, cp_kinds=['smooth', 'sharp'] if n < 3 else ['very-smooth'])
    f = compare(h, e, t, t.as_6tuple())
    h.check('kinds of control points kept', [c.kind for c in f.control_points] == [c.kind for c in e.control_points])


@harness(bounds='curves of 2 or 3 control points that are one object or share points or handles, own transform and matrix arbitrary', params=[dict(n=2), dict(n=3)])
def curve_shared(h, n):
    x, t = mk_transform(h, 'x'), mk_transform(h, 't')
    compare(h, shared_parts(h, 'e', n, x, h.choice('closed', [True, False])), t, t.as_6tuple())


def entries(h, name, pattern):
    """Matrix with the linear entries named in pattern (of abde) non-zero and the others exactly zero"""
    v = {}
    for n in 'abde':
        if n in pattern:
            v[n] = h.real('%s.%s' % (name, n))
            h.assume(h.or_(v[n] >= 1e-6, v[n] <= -1e-6))
        else:
            v[n] = 0
    return v['a'], v['b'], h.real(name + '.c'), v['d'], v['e'], h.real(name + '.f')


DIAG, ANTI, FULL = 'ae', 'bd', 'abde'
TWO_CORNER = [('own', FULL, FULL)] + [('plain', None, m) for m in (DIAG, ANTI, FULL, 'abd', 'abe', 'ade', 'bde')] + \
             [('simple', x, m) for x in (DIAG, ANTI) for m in (DIAG, ANTI)]


def run_two_corner(h, kind, how, xp, mp, similar=False):
    m = entries(h, 't', mp)
    x = None if xp is None else entries(h, 'x', xp)
    t = Transform(m)
    if how == 'own':
        decent(h, compose(m, x))
        for v in [compose(m, x)[i] for i in (0, 1, 3, 4)]:
            h.assume(v != 0)
    elif mp in (FULL,):
        h.assume(det(m) != 0)
    e = mk_elem(h, kind, xform=None if x is None else Transform(x))
    if kind != 'rect':
        (ax, ay), (bx, by) = e.p1.xy(), e.p2.xy()
        h.assume(h.and_(ax <= bx, ay <= by) if h.choice('order', [0, 1]) else h.and_(ax > bx, ay <= by))
    compare(h, e, t, m, stride=1 if kind == 'rect' else 20)


@harness(bounds='rectangles with arbitrary corners, own transform and matrix with combined linear entries zero or at least 1e-6, invertible')
def rectangle(h):
    x, t = mk_transform(h, 'x'), mk_transform(h, 't')
    m = t.as_6tuple()
    decent(h, compose(m, x.as_6tuple()))
    e = mk_elem(h, 'rect', xform=x)
    compare(h, e, t, m, stride=1)


@harness(bounds='ellipses with arbitrary corners; invertible matrices whose linear entries are zero (every pattern) or at least 1e-6, own transform '
                'none, upright with an upright matrix, or general with a general matrix', merge=True,
         params=[dict(how=a, xp=b, mp=c) for a, b, c in TWO_CORNER])
def ellipse(h, how, xp, mp):
    run_two_corner(h, 'ellipse', how, xp, mp)


@harness(bounds='rounded rectangles with arbitrary non-degenerate corners and radius; invertible non-upright matrices, and upright ones scaling both axes alike',
         merge=True, time=150,
         params=[dict(how=a, xp=b, mp=c) for a, b, c in [('own', FULL, FULL), ('plain', None, DIAG), ('plain', None, ANTI), ('plain', None, FULL), ('plain', None, 'abd')]])
def rounded(h, how, xp, mp):
    m = entries(h, 't', mp)
    x = None if xp is None else entries(h, 'x', xp)
    t = Transform(m)
    if how == 'own':
        decent(h, compose(m, x))
        for v in [compose(m, x)[i] for i in (0, 1, 3, 4)]:
            h.assume(v != 0)
    elif mp == FULL:
        h.assume(det(m) != 0)
    else:
        u, v = [m[i] for i in ((0, 4) if mp == DIAG else (1, 3))]
        if mp in (DIAG, ANTI):
            h.assume(h.or_(u == v, u == -v))
    e = mk_elem(h, 'rrect', xform=None if x is None else Transform(x))
    (ax, ay), (bx, by) = e.p1.xy(), e.p2.xy()
    h.assume(h.and_(ax < bx, ay < by) if h.choice('order', [0, 1]) else h.and_(ax > bx, ay < by))
    compare(h, e, t, m, stride=20)


@harness(bounds='groups of a rectangle and a curve, and shapes, open or closed, with one curved hole or none and an open or closed outside; own transform and matrix arbitrary (also singular)',
         params=[dict(kind='group'), dict(kind='holes')])
def composite(h, kind):
    x, t = mk_transform(h, 'x'), mk_transform(h, 't')
    e = mk_elem(h, kind, xform=x)
    if kind == 'group' and h.choice('closed', [0, 1]):
        e.closed = True
    if kind == 'holes':
        e.closed = bool(h.choice('closed', [1, 0]))
        n = h.choice('holes', [1, 0])
        if n and h.choice('same', [0, 1]):      # a hole just like the outside
            e.inside[0] = e.outside.copy()
        shut = h.choice('outside closed', [1, 0])
        e = ElemWithHoles(e.name, e.penbrush if shut and e.closed else PenBrush('red', None), e.outside, e.inside[:n], e.closed, e.xform)
        e.outside.closed = bool(shut)
        f = compare(h, e, t, t.as_6tuple())
        mine = [id(c) for m in [e.outside] + e.inside for c in [m]]
        h.check('own outside and holes', not any(id(c) in mine for c in [f.outside] + f.inside) and f.inside is not e.inside)
        h.check('as many holes', len(f.inside) == n and f.outside.closed == e.outside.closed)
        return
    compare(h, e, t, t.as_6tuple())


@harness(bounds='a group within a group, own transforms and matrix arbitrary, each group hidden or not')
def nested(h):
    t = mk_transform(h, 't')
    inner = mk_elem(h, 'group', 'i', mk_transform(h, 'xi'))
    inner.hidden = bool(h.choice('inner hidden', [0, 1]))
    holes = mk_elem(h, 'holes', 'h', mk_transform(h, 'xh'))
    outer = Group('o', PenBrush('red'), bool(h.choice('outer hidden', [0, 1])), mk_transform(h, 'xo'), [inner, holes],
                  {'p': Point(h.real('px'), h.real('py'))})
    f = compare(h, outer, t, t.as_6tuple())
    h.check('hidden stays hidden, named points stay', f.hidden == outer.hidden and sorted(f.points) == ['p'])


@harness(bounds='every element kind, matrix and context matrix arbitrary; drawn within a context that has its own matrix', params=[dict(kind=k) for k in ('curve', 'open', 'group', 'holes')])
def in_context(h, kind):
    t, k = mk_transform(h, 't'), mk_transform(h, 'k')
    e = mk_elem(h, kind, xform=mk_transform(h, 'x'))
    compare(h, e, t, t.as_6tuple(), k.as_6tuple())


@harness(bounds='curves and members of groups whose control points depend on other points')
def dependent_points(h):
    from x7.geom.bezier import ControlPoint
    base = Point(h.real('bx'), h.real('by'))
    cps = [ControlPoint(PointRelative(h.real('dx'), h.real('dy'), base), Vector(h.real('lx'), h.real('ly')), Vector(h.real('rx'), h.real('ry'))),
           ControlPoint(base, Vector(h.real('ux'), h.real('uy')), Vector(h.real('vx'), h.real('vy')))]
    e = ElemCurve('e', PenBrush('red'), cps, True, mk_transform(h, 'x'))
    t = mk_transform(h, 't')
    compare(h, e, t, t.as_6tuple())
    h.check('original still follows its base', e.control_points[0].c.base is base and e.control_points[1].c is base)


@harness(bounds='every element kind transformed by the identity: like a copy', params=[dict(kind=k) for k in ('curve', 'open', 'rect', 'ellipse', 'rrect', 'group', 'holes')])
def identity(h, kind):
    e = mk_elem(h, kind, radius=1)
    before = snap(e)
    f = e.transform(Transform())
    h.check('equal snapshot', h.eq(snap(f), before))
    h.check('equal', bool(e == f))


@harness(bounds='elements transformed by the very transform object they hold; all values', merge=True, time=120,
         params=[dict(kind=k) for k in ('curve', 'open', 'rect', 'group', 'holes')])
def by_own(h, kind):
    m = entries(h, 'x', DIAG if kind == 'rect' else FULL)
    x = Transform(m)
    e = mk_elem(h, kind, xform=x)
    same = mk_elem(h, kind, xform=Transform(m))     # the same values by name
    f, g = e.transform(x), same.transform(Transform(m))
    h.check('as by an equal transform', h.eq(snap(f), snap(g)))
    h.check('left as they were', h.eq(snap(e), snap(same)) and h.eq(x.as_6tuple(), m) and not x.stack)


@harness(bounds='shapes whose two holes are one object or equal, and whose outside is also a hole; arbitrary transforms', params=[dict(how=w) for w in ('one', 'equal', 'outside')])
def equal_holes(h, how):
    x, t = mk_transform(h, 'x'), mk_transform(h, 't')
    o, i = mk_elem(h, 'curve', 'o', mk_transform(h, 'xo')), mk_elem(h, 'curve', 'i', mk_transform(h, 'xi'))
    e = ElemWithHoles('w', PenBrush('red', 'blue'), o, {'one': [i, i], 'equal': [i, i.copy()], 'outside': [o, i]}[how], xform=x)
    f = compare(h, e, t, t.as_6tuple())
    h.check('as many holes', len(f.inside) == 2)


@harness(bounds='curves of 8 control points of mixed kinds, one of them, any, possibly in the place of the one before; own transform and matrix arbitrary', params=[dict(closed=True), dict(closed=False)])
def long_curve(h, closed):
    t = mk_transform(h, 't')
    e = ElemCurve('e', PenBrush('red'), mk_long(h, 'p', 8), closed, mk_transform(h, 'x') if h.choice('own', [0, 1]) else None)
    f = compare(h, e, t, t.as_6tuple())
    h.check('kinds of control points kept', [c.kind for c in f.control_points] == [c.kind for c in e.control_points])


@harness(bounds='groups of 12 members and shapes with 9 holes; matrix arbitrary', params=[dict(kind='group'), dict(kind='holes')])
def many_members(h, kind):
    t, es = mk_transform(h, 't'), mk_many(h, 'm', 10 if kind == 'holes' else 12, ('curve', 'open'))
    e = Group('g', PenBrush('red'), elems=es) if kind == 'group' else ElemWithHoles('w', PenBrush('red', None), es[0], es[1:])
    compare(h, e, t, t.as_6tuple())
