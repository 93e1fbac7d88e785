"""Converting elements to curves keeps the outline"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.colors import PenBrush
from x7.geom.transform import Transform
from checks.common import mk_elem, mk_cp, mk_transform, snap, compose, path_pts, mk_dc, segment, cubic, cp_parts, shared_parts, mk_long, mk_many


def check_outline(h, e, c, outer, ctx=None):
    """Curve c (drawn in context ctx only) traces what e draws inside the transforms outer (outermost first)"""
    m = ctx.as_6tuple() if ctx else Transform().as_6tuple()
    inner = m
    for x in outer:
        inner = compose(inner, x.as_6tuple())
    a = mk_dc(Transform(inner), 20)
    b = mk_dc(Transform(m), 20)
    pe, pc = e.paths(a), c.paths(b)
    h.check('one path each', len(pe) == 1 and len(pc) == 1)
    h.check('same pens and closedness', pe[0].penbrush == pc[0].penbrush and pe[0].closed == pc[0].closed)
    x, y = path_pts(pe[0]), path_pts(pc[0])
    if isinstance(e, ElemRectangle):
        # the curve passes straight from corner to corner
        h.check('20 samples per side', len(y) == 20 * (len(x) - 1) + 1)
        h.check('corners in order', h.eq(x, y[::20]))
        for k in range(len(x) - 1):
            (ax, ay), (bx, by) = x[k], x[k + 1]
            for j in (1, 10, 19):
                px, py = y[20 * k + j]
                h.check('straight between them', h.eq((px - ax) * (by - ay), (py - ay) * (bx - ax)))
    else:
        h.check('same outline', h.eq(x, y))


def check_curve(h, e, c, outer=()):
    h.check('a plain curve with no transform of its own', type(c) is ElemCurve and h.eq(c.xform.as_6tuple(), Transform().as_6tuple()))
    h.check('name, pens and closedness kept', c.name == e.name and c.penbrush == e.penbrush and c.closed == e.closed)
    check_outline(h, e, c, outer)


@harness(bounds='every kind of element with arbitrary coordinates and transform (curves of 1 to 3 control points)', merge=True,
         params=[dict(kind=k, n=n) for k in ('curve', 'open') for n in (1, 2, 3)] + [dict(kind=k, n=0) for k in ('rect', 'ellipse')])
def single(h, kind, n):
    e = mk_elem(h, kind, xform=mk_transform(h, 'x'), cps=n, cp_kinds=('smooth', 'sharp') if n < 3 else ('smooth',))
    s0 = snap(e)
    cs = e.as_curves()
    h.check('one curve', len(cs) == 1)
    if kind == 'open' and n == 1:       # nothing is drawn
        h.check('still open', cs[0].closed is e.closed is False and cs[0].name == e.name and cs[0].penbrush == e.penbrush)
    else:
        check_curve(h, e, cs[0])
    if kind in ('curve', 'open'):
        h.check('kinds of control points kept', [c.kind for c in cs[0].control_points] == [c.kind for c in e.control_points])
    h.check('original as before', h.eq(snap(e), s0))
    for c in cs[0].control_points:
        c.c.setxy(h.real('q'), h.real('q'))
        c.dl.setxy(h.real('q'), h.real('q'))
    h.check('independent of the original', h.eq(snap(e), s0))


@harness(bounds='curves of 2 or 3 control points that are one object or share points or handles, arbitrary transform', params=[dict(n=2), dict(n=3)])
def single_shared(h, n):
    e = shared_parts(h, 'e', n, mk_transform(h, 'x'), h.choice('closed', [True, False]))
    cs = e.as_curves()
    h.check('one curve', len(cs) == 1)
    check_curve(h, e, cs[0])


@harness(bounds='rounded rectangles with arbitrary corners, radius and transform', merge=True, params=[dict(order=o) for o in range(4)])
def rounded(h, order):
    e = mk_elem(h, 'rrect', xform=mk_transform(h, 'x'))
    (ax, ay), (bx, by) = e.p1.xy(), e.p2.xy()
    h.assume(h.and_(ax < bx if order & 1 else ax > bx, ay < by if order & 2 else ay > by))
    cs = e.as_curves()
    h.check('one curve', len(cs) == 1)
    check_curve(h, e, cs[0])


@harness(bounds='groups of depth up to 3 with arbitrary transforms everywhere', params=[dict(depth=d) for d in (1, 2, 3)], merge=True)
def group(h, depth):
    want = []
    g = None
    xs = []
    for d in range(depth):
        elems = [mk_elem(h, 'open', 'o%d' % d, cps=2, xform=mk_transform(h, 'xo%d' % d)), mk_elem(h, 'rect', 'r%d' % d, xform=mk_transform(h, 'xr%d' % d))]
        x = mk_transform(h, 'xg%d' % d)
        want = [([x] + o, e) for o, e in [([], e) for e in elems[:1]] + want + [([], elems[1])]]
        g = Group('g%d' % d, PenBrush('green'), elems=[elems[0]] + ([g] if g else []) + [elems[1]], xform=x)
    s0 = snap(g)
    cs = g.as_curves()
    h.check('one curve per element', len(cs) == len(want))
    for (o, e), c in zip(want, cs):
        check_curve(h, e, c, o)
    h.check('original as before', h.eq(snap(g), s0))
    h.check('no control points of its own', h.raises(ValueError, lambda: g.as_digi_points()))


@harness(bounds='shapes with 0 to 2 holes, inside a group or not, arbitrary transforms', params=[dict(n=n, grouped=g) for n in (0, 1, 2) for g in (0, 1)], merge=True)
def holes(h, n, grouped):
    members = [mk_elem(h, k, 'm%d' % i, cps=2, xform=mk_transform(h, 'xm%d' % i)) for i, k in enumerate(['curve', 'rect', 'curve'][:n + 1])]
    x = mk_transform(h, 'x')
    e = ElemWithHoles('w', PenBrush('red', 'blue'), members[0], members[1:], xform=x)
    outer = [x]
    if grouped:
        outer = [mk_transform(h, 'xg')] + outer
        e = Group('g', PenBrush('green'), elems=[e], xform=outer[0])
    s0 = snap(e)
    cs = e.as_curves()
    h.check('one curve per member', len(cs) == len(members))
    for m, c in zip(members, cs):
        check_curve(h, m, c, outer)
    h.check('original as before', h.eq(snap(e), s0))
    h.check('no control points of its own', h.raises(ValueError, lambda: e.as_digi_points()))


@harness(bounds='groups and shapes whose members hold the same transform object as they do, or one of their own in common', params=[dict(how=w) for w in ('group and member', 'members', 'all', 'holes')])
def shared_transform(h, how):
    x = mk_transform(h, 'x')
    a, b = mk_elem(h, 'open', 'a', xform=x), mk_elem(h, 'curve', 'b', xform=None if how == 'group and member' else x)
    if how == 'holes':
        g = ElemWithHoles('g', PenBrush('red', None), a, [b], True, x)
    else:
        g = Group('g', PenBrush('red'), elems=[a, b], xform=None if how == 'members' else x)
    s0 = snap(g)
    cs = g.as_curves()
    h.check('one curve per element', len(cs) == 2)
    for e, c in zip((a, b), cs):
        check_curve(h, e, c, [] if how == 'members' else [x])
    h.check('original as before', h.eq(snap(g), s0))


@harness(bounds='groups of 10 members and shapes with 9 holes, in a group of their own or not; curves of 8 control points; arbitrary coordinates and outer transforms',
         params=[dict(how=w) for w in ('group', 'nested', 'holes', 'long')], merge=True)
def many(h, how):
    x, y = mk_transform(h, 'x'), mk_transform(h, 'y')
    if how == 'long':
        es = [ElemCurve('e', PenBrush('red'), mk_long(h, 'p', 8), True)]
        c, = es[0].as_curves()
        check_curve(h, es[0], c)
        h.check('kinds of control points kept', [q.kind for q in c.control_points] == [q.kind for q in es[0].control_points])
        return
    es = mk_many(h, 'm', 10, ('curve', 'open'))
    g = ElemWithHoles('w', PenBrush('red', None), es[0], es[1:], xform=x) if how == 'holes' else Group('g', PenBrush('red'), elems=es, xform=x)
    outer = [x]
    if how != 'group':
        g, outer = Group('o', PenBrush('green'), elems=[g], xform=y), [y, x]
    cs = g.as_curves()
    h.check('one curve per element', len(cs) == len(es))
    for e, c in zip(es, cs):
        check_curve(h, e, c, outer)
