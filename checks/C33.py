"""Dumped models evaluate back to equal models"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom import model as M, geom as G, colors as C, transform as X
from x7.geom.colors import Pen, Brush, PenBrush
from x7.geom.transform import Transform
from checks.common import mk_elem, mk_transform, mk_cp, mk_point, mk_vector, snap, cp_parts, mk_long, mk_many

PENS = ['color', 'width', 'scaled', 'fill only', 'both', 'rgb']


def ns():
    out = {}
    for m in (G, M, C, X):
        for n in m.__all__:
            out[n] = getattr(m, n)
    return out


def mk_pen(h, kind, name='w'):
    if kind == 'color':
        return PenBrush('red')
    if kind == 'width':
        return PenBrush(('red', h.real(name, 0)))
    if kind == 'scaled':
        return PenBrush(Pen('blue', h.real(name, None, 0)), 'grey')
    if kind == 'fill only':
        return PenBrush(None, Brush((1, 2, 3, 0)))
    if kind == 'both':
        return PenBrush(Pen(Brush('blue')), Brush("it's"))
    return PenBrush((h.int(name + 'r', 0, 255), 2, 3), (4, 5, 6))


def mk_x(h, name):
    """An arbitrary transform that is not the identity (first entry at least 2)"""
    return Transform((h.real(name + '.a', 2), *[h.real('%s.%s' % (name, n)) for n in 'bcdef']))


def check_dump(h, e):
    s0 = snap(e)
    for use_vars in (True, False):
        dc = DumpContext(use_vars=use_vars)
        h.check('dump returns its context', e.dump(dc) is dc)
        text = dc.output()
        h.check('dumping leaves the element', h.eq(snap(e), s0))
        d = h.run_text(text, {})
        f = d['model']
        h.check('a new element', f is not e and type(f) is type(e))
        h.check('consists of the same, in the same order', h.eq(snap(f), s0))
        h.check('equal', f == e)
        h.check('dumping needs no imports beyond those listed', all(i in text.split('\n') for i in dc.imports))
    dc = DumpContext(use_vars=False)
    e.dump(dc)
    f = h.evaluate(dc.output(just_lines=True), ns())
    h.check('lines alone evaluate to an equal element', f == e and h.eq(snap(f), s0))


@harness(bounds='curves of 1 to 3 control points, arbitrary coordinates, kinds, with and without own transform, every form of pen',
         params=[dict(kind=k, n=n) for k in ('curve', 'open') for n in (1, 2, 3)])
def curve(h, kind, n):
    x = mk_transform(h, 'x') if h.choice('own', [0, 1]) else None
    pens = PENS if kind == 'curve' else ['color', 'width']
    e = mk_elem(h, kind, xform=x, cps=n, pb=mk_pen(h, h.choice('pen', pens)), cp_kinds=('smooth', 'sharp', 'very-smooth') if n < 3 else ('sharp',))
    check_dump(h, e)


@harness(bounds='curves of two control points with every kind of point and vector (absolute, relative, scaled, difference)')
def curve_points(h):
    e = ElemCurve('c', PenBrush('red'), [mk_cp(h, 'a', ('sharp',), ('abs', 'rel', 'calc'), ('plain', 'relative')), mk_cp(h, 'b', ('smooth',))])
    dc = DumpContext(use_vars=h.choice('vars', [True, False]))
    f = h.run_text(e.dump(dc).output(), {})['model']
    h.check('same', h.eq([cp_parts(c) for c in f.control_points], [cp_parts(c) for c in e.control_points]))
    h.check('same kinds of point', [type(c.c) for c in f.control_points] == [type(c.c) for c in e.control_points])
    h.check('equal', f == e)


@harness(bounds='rectangles, ellipses and rounded rectangles: arbitrary corners, radius, names and transform, every form of pen',
         params=[dict(kind=k) for k in ('rect', 'ellipse', 'rrect')])
def two_corner(h, kind):
    x = mk_transform(h, 'x') if h.choice('own', [0, 1]) else None
    e = mk_elem(h, kind, h.choice('name', ['e', "it's", '', 'a b\n"c"']), x, mk_pen(h, h.choice('pen', PENS)))
    check_dump(h, e)


@harness(bounds='groups of depth up to 3, hidden or not, closed or not, with and without transform, points and members of every kind', params=[dict(flags=f) for f in range(4)])
def group(h, flags):
    inner = Group('in', mk_pen(h, 'width'), hidden=bool(flags & 1), xform=mk_x(h, 'xi'), closed=bool(flags & 2),
                  elems=[mk_elem(h, 'rrect', 'r'), mk_elem(h, 'open', 'c')])
    k = h.choice('members', [0, 1, 2])
    elems = [[], [inner], [mk_elem(h, 'ellipse', 'zz'), inner, mk_elem(h, 'group', 'aa', mk_x(h, 'xg'))]][k]
    outer = Group('out', PenBrush('green'), hidden=bool(flags & 2), xform=mk_transform(h, 'xo') if flags & 1 else None, elems=elems)
    if h.choice('points', [0, 1]):
        outer.add_pt('p1', Point(h.real('px'), h.real('py')))
        outer.add_pt('p2', PointRelative(h.real('qx'), h.real('qy'), outer.lookup_pt('p1')))
    check_dump(h, outer)


@harness(bounds='shapes with 0 to 2 holes of various kinds, each with its own transform, on its own and inside a group',
         params=[dict(n=n) for n in (0, 1, 2)])
def holes(h, n):
    pen = mk_pen(h, h.choice('pen', ['both', 'scaled']))
    outside = mk_elem(h, h.choice('out', ['curve', 'rect']), 'o', xform=mk_x(h, 'xo'))
    inside = [mk_elem(h, k, 'i%d' % i, xform=mk_x(h, 'xi%d' % i)) for i, k in enumerate(['curve', 'rrect'][:n])]
    e = ElemWithHoles('w', pen, outside, inside, xform=mk_transform(h, 'x'))
    if h.choice('grouped', [0, 1]):
        e = Group('g', PenBrush('red'), elems=[e, mk_elem(h, 'rect', 'r')])
    check_dump(h, e)


@harness(bounds='an outside or hole that is itself a shape with a hole or a group')
def nested_holes(h):
    inner = mk_elem(h, 'holes', 'in', xform=mk_x(h, 'xi'))
    other = mk_elem(h, 'curve', 'o')
    a, b = (inner, other) if h.choice('where', [0, 1]) else (other, inner)
    pb = PenBrush('red', 'blue')
    inner.outside.penbrush = pb
    inner.inside[0].penbrush = pb
    check_dump(h, ElemWithHoles('w', pb, a, [b], xform=mk_transform(h, 'x')))


LOOKALIKES = [(1, 1.004), (0, 0.001), (100, 100.00001), (-0.5, -0.5000001), (1e-3, 2e-3)]


@harness(bounds='groups of elements whose transforms or pens differ only in far decimals (%r), arbitrary corners' % (LOOKALIKES,),
         params=[dict(what=w) for w in ('transform', 'pen', 'both')])
def lookalikes(h, what):
    u, v = LOOKALIKES[h.choice('numbers', list(range(len(LOOKALIKES))))]
    where = h.choice('entry', range(6)) if what != 'pen' else 2

    def mk(n, w):
        m = [1, 0, 0, 0, 1, 0]
        if what != 'pen':
            m[where] += w
        return mk_elem(h, 'rect', n, xform=Transform(tuple(m)), pb=PenBrush(Pen('red', w if what != 'transform' else 1), 'blue'))
    es = [mk('a', u), mk('b', v), mk('c', u)]
    e = Group('g', PenBrush('red'), elems=es if h.choice('nested', [0, 1]) else [es[0], Group('s', PenBrush('red'), elems=es[1:])])
    check_dump(h, e)


@harness(bounds='element kinds defined outside the package with imports of their own, alone, repeated and in groups, all coordinates')
def own_kinds(h):
    from checks.own_elems import OwnRectangle, OwnCurve
    r = OwnRectangle('r', mk_pen(h, 'width'), Point(h.real('ax'), h.real('ay')), Point(h.real('bx'), h.real('by')))
    c = OwnCurve('c', PenBrush('red'), [mk_cp(h, 'c0', ('smooth',)), ControlPoint(Point(h.real('qx'), 2), Vector(1, 2), Vector(3, 4))], False)
    k = h.choice('what', ['rectangle', 'curve', 'both', 'nested', 'repeated'])
    e = r if k == 'rectangle' else c if k == 'curve' else Group('g', PenBrush('blue'), elems=[r, c])
    if k == 'nested':
        e = Group('o', PenBrush('green'), elems=[e, mk_elem(h, 'rect', 'z')])
    if k == 'repeated':
        e = Group('g', PenBrush('blue'), elems=[r, OwnRectangle('s', PenBrush('blue'), r.p2, r.p1), c])
    for use_vars in (True, False):
        text = e.dump(DumpContext(use_vars=use_vars)).output()
        f = h.run_text(text, {})['model']
        h.check('equal', f == e and h.eq(snap(f), snap(e)))
        for need in [x for t in ((r,) if k == 'rectangle' else (c,) if k == 'curve' else (r, c)) for x in t.ELEM_IMPORTS]:
            h.check('its imports, once', text.split('\n').count(need) == 1)
    h.check('the next dump starts afresh', OwnCurve.ELEM_IMPORTS[0] not in DumpContext().imports and DumpContext().output is not None)


@harness(bounds='models built with a builder, with nested builder groups, shapes of every kind and named points')
def builder(h):
    b = GroupBuilder('model', C.PensByShape())
    p, q = b.point('p', h.real('px'), h.real('py')), Point(h.real('qx'), h.real('qy'))
    sub = b.group('sub', shape_kind='filled')
    sub.rect('r', Point(h.real('rx'), 1), q)
    sub.ellipse('e', q, Point(1, 2))
    b.rrect('rr', q, Point(3, 4), h.real('rad', 0))
    b.curve('c', [mk_cp(h, 'c0', ('smooth',)), ControlPoint(q, Vector(1, 2), Vector(3, 4))], 'edge')
    dc = b.dump()
    f = h.run_text(dc.output(), {})['model']
    h.check('equal', f == b.the_group)
    h.check('points', h.eq(f.lookup_pt('p').xy(), p.xy()))


@harness(bounds='points, vectors, boxes, lines, control points, transforms, pens and brushes, all values',
         params=[dict(kind=k) for k in ('point', 'vector', 'bbox', 'line', 'cp', 'transform', 'pen', 'brush', 'penbrush')])
def values(h, kind):
    n = ns()
    if kind == 'point':
        v = mk_point(h, 'v')
        if h.choice('named', [0, 1]):
            v.name = "it's"
        parts = lambda o: o.xy()
    elif kind == 'vector':
        v = mk_vector(h, 'v')
        parts = lambda o: o.xy()
    elif kind == 'bbox':
        v = BBox(h.real('a'), h.real('b'), h.real('c'), h.real('d')) if h.choice('none', [0, 1]) else BBox(None)
        parts = lambda o: [o.xl, o.yl, o.xh, o.yh]
    elif kind == 'line':
        v = Line(mk_point(h, 'o'), mk_vector(h, 'd'))
        parts = lambda o: [o.origin.xy(), o.direction.xy()]
    elif kind == 'cp':
        v = mk_cp(h, 'cp', points=('abs', 'rel', 'calc'), vectors=('plain', 'relative'))
        parts = cp_parts
    elif kind == 'transform':
        v = mk_transform(h, 't')
        parts = lambda o: o.as_6tuple()
    elif kind == 'pen':
        v = Pen(h.choice('c', ['red', (1, 2, 3), (1, 2, 3, 4)]), h.real('w'))
        parts = lambda o: [o.width]
    elif kind == 'brush':
        v = Brush(h.choice('c', ['red', (1, 2, 3), 5, "it's"]))
        parts = lambda o: []
    else:
        v = mk_pen(h, h.choice('p', PENS))
        parts = lambda o: [o.pen.width] if o.pen else []
    w = h.evaluate(repr(v), n)
    h.check('same kind', type(w) is type(v))
    h.check('same values', h.eq(parts(w), parts(v)))
    h.check('equal', w == v)


@harness(bounds='shapes and groups that hold one element twice or two equal ones; arbitrary coordinates and transforms', params=[dict(how=w) for w in ('one', 'equal', 'name', 'outside')])
def equal_parts(h, how):
    o, i = mk_elem(h, 'curve', 'o', mk_x(h, 'xo')), mk_elem(h, 'rect', 'i', mk_x(h, 'xi'))
    j = mk_elem(h, 'rect', 'j', mk_x(h, 'xj'))
    j.name = 'i'
    inside = {'one': [i, i], 'equal': [i, i.copy()], 'name': [i, j], 'outside': [o, i]}[how]
    e = ElemWithHoles('w', PenBrush('red', 'blue'), o, inside, xform=mk_transform(h, 'x'))
    if h.choice('grouped', [0, 1]):
        e = Group('g', PenBrush('red'), elems=[e, mk_elem(h, 'rect', 'r')])
    check_dump(h, e)


@harness(bounds='curves of 8 control points of mixed kinds, one of them, any, possibly in the place of the one before, or all of them alike; arbitrary coordinates')
def long_curve(h):
    closed = h.choice('closed', [True, False])
    if h.choice('alike', [0, 1]):
        x, y = h.real('x'), h.real('y')
        cps = [ControlPoint(Point(x, y), Vector(1, y), Vector(y, 1)) for i in range(8)]
    else:
        cps = mk_long(h, 'p', 8)
    check_dump(h, ElemCurve('e', PenBrush('red'), cps, closed))


@harness(bounds='groups of 12 members and shapes with 9 holes, arbitrary coordinates', params=[dict(kind='group'), dict(kind='holes')])
def many_members(h, kind):
    es = mk_many(h, 'm', 12 if kind == 'group' else 10)
    k = h.choice('alike', [None, 0, 5, 9])
    if k is not None:       # one like the one before it in all but the name
        es[k] = es[k - 1].copy()
        es[k].name = 'm%d' % k
    check_dump(h, Group('g', PenBrush('red'), elems=es) if kind == 'group' else ElemWithHoles('w', PenBrush('red', None), es[0], es[1:]))
