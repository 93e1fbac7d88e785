"""Shapes with holes draw every edge once and fill once"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.model import ImagePath
from x7.geom.colors import Pen, Brush, PenBrush
from x7.geom.transform import Transform
from checks.common import mk_elem, mk_transform, snap, compose, path_pts, mk_dc, outline, path_parts

PENS = {'both': ('red', 'blue'), 'pen only': (('red', 3), None), 'brush only': (None, 'blue'), 'neither': (None, None)}


def mk_hole(h, kind, name):
    x = mk_transform(h, name + 'x')
    if kind == 'two':
        return Group(name, PenBrush('green'), elems=[mk_elem(h, 'rect', name + 'a'), mk_elem(h, 'curve', name + 'b', cps=1)], xform=x)
    if kind == 'three':
        return Group(name, PenBrush('green'), elems=[mk_elem(h, 'rect', name + 'a'), mk_hole(h, 'two', name + 'c')], xform=x)
    if kind == 'none':
        return Group(name, PenBrush('green'), xform=x)
    if kind == 'hidden':
        return Group(name, PenBrush('green'), hidden=True, elems=[mk_elem(h, 'rect', name + 'a')], xform=x)
    return mk_elem(h, kind, name, x, cps=2)


def drawn(h, e, m):
    """Outlines element e draws under matrix m, from its members' own paths"""
    return [(p.closed, path_pts(p)) for p in e.paths(mk_dc(Transform(m), 2))]


@harness(bounds='outside curve or rectangle, 0 to 3 holes (closed or open) drawing none, one, two or three paths, all pens, arbitrary transforms of shape, outside, holes and context',
         params=[dict(pens=p, kinds=k) for p in PENS for k in [(), ('rect',), ('two',), ('none', 'curve'), ('curve', 'two'), ('three', 'rect'), ('rect', 'hidden', 'two'), ('open',), ('open', 'rect')]])
def paths(h, pens, kinds):
    pb = PenBrush(*PENS[pens])
    outside = mk_elem(h, h.choice('outside', ['curve', 'rect']), 'o', mk_transform(h, 'xo'), cps=2)
    inside = [mk_hole(h, k, 'i%d' % i) for i, k in enumerate(kinds)]
    same = h.choice('same', ['none', 'names', 'one']) if len(kinds) > 1 else 'none'
    if same == 'names':
        for i in [outside] + inside:
            i.name = 'hole'
    elif same == 'one':
        inside[-1] = inside[0]
    e = ElemWithHoles('w', pb, outside, inside, xform=mk_transform(h, 'x'))
    ctx = mk_transform(h, 'k')
    m = compose(ctx.as_6tuple(), e.xform.as_6tuple())
    want_out = drawn(h, outside, m)
    want_in = [q for i in inside for q in drawn(h, i, m)]
    s0 = snap(e)
    got = e.paths(mk_dc(ctx, 2))
    h.check('model as before', h.eq(snap(e), s0))
    edges = got
    if pb.brush:
        fill, edges = got[0], got[1:]
        h.check('one fill path first, brush only', fill.penbrush.brush == pb.brush and fill.penbrush.pen is None and fill.closed)
        pts = list(want_out[0][1])
        end = pts[-1]
        for c, q in want_in:
            pts += q + [end]
        h.check('fill runs along the outside, then each hole and back', h.eq(path_pts(fill), pts))
    h.check('every edge once', len(edges) == len(want_out) + len(want_in))
    for p, (c, q) in zip(edges, want_out + want_in):
        h.check('edges with the pen only', p.penbrush.pen == pb.pen and p.penbrush.brush is None)
        h.check('closed as before', p.closed == c)
        h.check('edge in place', h.eq(path_pts(p), q))


@harness(bounds='nested: a hole that is itself a shape with a hole')
def nested(h):
    pb = PenBrush(*PENS[h.choice('pens', ['both', 'pen only'])])
    inner = mk_elem(h, 'holes', 'n', mk_transform(h, 'xn'), cps=1)
    outside = mk_elem(h, 'rect', 'o', mk_transform(h, 'xo'))
    e = ElemWithHoles('w', pb, outside, [inner], xform=mk_transform(h, 'x'))
    m = e.xform.as_6tuple()
    want = drawn(h, outside, m) + drawn(h, inner, m)
    got = e.paths(mk_dc(None, 2))
    edges = got[1:] if pb.brush else got
    h.check('every edge once', len(edges) == len(want))
    h.check('in place', h.eq([path_pts(p) for p in edges], [q for c, q in want]))
    h.check('pens', all(p.penbrush.brush is None and p.penbrush.pen == pb.pen for p in edges))


@harness(bounds='control paths of shape with 0 to 3 holes follow all transforms', params=[dict(kinds=k) for k in [(), ('rect',), ('two', 'curve'), ('rect', 'rect', 'three'), ('open', 'hidden')]])
def control(h, kinds):
    outside = mk_elem(h, h.choice('outside', ['curve', 'rect']), 'o', mk_transform(h, 'xo'), cps=2)
    inside = [mk_hole(h, k, 'i%d' % i) for i, k in enumerate(kinds)]
    e = ElemWithHoles('w', PenBrush('red', 'blue'), outside, inside, xform=mk_transform(h, 'x'))
    ctx = mk_transform(h, 'k')
    m = compose(ctx.as_6tuple(), e.xform.as_6tuple())
    flat = lambda cps: [[(q.c.xy(), q.l.xy(), q.r.xy()) if isinstance(q, ControlPoint) else q.xy() if hasattr(q, 'xy') else tuple(q) for q in p.points] for p in cps]
    want = flat([p for i in [outside] + inside for p in i.control_paths(mk_dc(Transform(m), 2))])
    got = flat(e.control_paths(mk_dc(ctx, 2)))
    h.check('as many', len(got) == len(want))
    h.check('in place', h.eq(got, want))


@harness(bounds='members take the pens of the shape when it is made; paths extended with arbitrary points')
def parts(h):
    o, i = mk_elem(h, 'rect', 'o'), mk_elem(h, 'curve', 'i', cps=1)
    pb = PenBrush('cyan', 'tan')
    e = ElemWithHoles('w', pb, o, [i])
    h.check('pens of members', o.penbrush == pb and i.penbrush == pb and e.penbrush == pb)
    h.check('closed', e.closed is True)
    a = [(h.real('ax%d' % k), h.real('ay%d' % k)) for k in range(2)]
    b = [(h.real('bx%d' % k), h.real('by%d' % k)) for k in range(3)]
    p = Path(pb, True, ImagePath.Path(a))
    src = ImagePath.Path(b)
    p.extend(src)
    h.check('open extension', h.eq(path_pts(p), a + b))
    p.extend(src, closed=True)
    h.check('closed extension returns', h.eq(path_pts(p), a + b + b + [b[-1]]))
    h.check('added points unchanged', h.eq([tuple(q) for q in src.tolist()], b))
    h.check('closed must be a truth value', h.raises(TypeError, lambda: Path(pb, 1, src)))


@harness(bounds='shapes with 6 to 9 holes, all pens, arbitrary coordinates', params=[dict(n=n, pens=p) for n in (6, 7, 9) for p in ('both', 'pen only')])
def many_holes(h, n, pens):
    pb = PenBrush(*PENS[pens])
    outside = mk_elem(h, 'rect', 'o')
    inside = [mk_elem(h, 'rect' if i % 2 else 'curve', 'i%d' % i, cps=1) for i in range(n)]
    k = h.choice('twin', [None, 1, 5, n - 1])
    if k:
        inside[k] = inside[k - 1]
    e = ElemWithHoles('w', pb, outside, inside, xform=mk_transform(h, 'x'))
    m = e.xform.as_6tuple()
    want = drawn(h, outside, m) + [q for i in inside for q in drawn(h, i, m)]
    got = e.paths(mk_dc(None, 2))
    if pb.brush:
        fill, got = got[0], got[1:]
        pts = list(want[0][1])
        for c, q in want[1:]:
            pts += q + [want[0][1][-1]]
        h.check('fill runs along the outside, then each hole and back', h.eq(path_pts(fill), pts))
    h.check('every edge once', len(got) == len(want) and h.eq([path_pts(p) for p in got], [q for c, q in want]))
