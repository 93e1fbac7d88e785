"""An operation that is refused changes nothing"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.bezier import ControlPoint
from x7.geom.model import *
from x7.geom.model import GeomInternalError
from x7.geom.colors import PenBrush, Pen, Brush, PensByShape
from x7.geom.transform import Transform
from checks.common import ELEM_KINDS, mk_elem, mk_transform, snap, mk_warp, cp_parts, mk_cp


def refused(h, exc, fn):
    """Whether fn raises exc"""
    h.check('refused', h.raises(exc, fn))


@harness(bounds='vectors, points, lines, boxes and control points of any coordinates; every operation that has no answer', merge=True)
def values(h):
    x, y, u, v = (h.real(k) for k in 'xyuv')
    p, q, w = Point(x, y, 'p'), Point(u, v), Vector(u, v)
    r, d, e, z = PointRelative(u, v, p), VectorRelative(p, q), BBox(None), Vector(0, 0)
    ln, lm, ld = Line(p, w), Line(q, w * 2), Line(p, z)
    b = BBox(x, y, x + 1, y + 2)
    cp = ControlPoint(p, w, z)
    lst = [(x, y), u, 'a']
    cases = dict(
        unit=(ZeroDivisionError, lambda: z.unit()), over=(ZeroDivisionError, lambda: w / 0), set=(NotImplementedError, lambda: d.setxy(u, v)),
        setv=(NotImplementedError, lambda: d.set(w)), p1=(ValueError, lambda: e.p1), p2=(ValueError, lambda: e.p2), pll=(ValueError, lambda: e.pll),
        plh=(ValueError, lambda: e.plh), phl=(ValueError, lambda: e.phl), phh=(ValueError, lambda: e.phh), centre=(ValueError, lambda: e.center),
        contains=(ValueError, lambda: b.contains(e)), contained=(ValueError, lambda: e.contains(b)), overlaps=(ValueError, lambda: b.overlaps(e)),
        overlapped=(ValueError, lambda: e.overlaps(b)), item=(IndexError, lambda: b[4]), grow=(AttributeError, lambda: b.grow(None)),
        growpair=(AttributeError, lambda: b.grow((u, v))), plus=(TypeError, lambda: b + p), corners=(TypeError, lambda: BBox(x, y)),
        three=(TypeError, lambda: BBox(x, y, u)), meet=(ParallelLineError, lambda: ln.intersection(lm)), closest=(ZeroDivisionError, lambda: ld.closest(q)),
        parse=(ValueError, lambda: Point.parse(lst)), sets=(AttributeError, lambda: p.set((u, v))), restores=(AttributeError, lambda: p.restore(None)),
        vset=(AttributeError, lambda: w.set(3)), names=(AttributeError, lambda: p.restore(5)),
        cprestore=(AttributeError, lambda: cp.restore(None)), iter=(TypeError, lambda: len(p)))
    state = lambda: [p.xy(), q.xy(), w.xy(), r.xy(), d.xy(), z.xy(), list(e), list(b), ln.p1.xy(), ln.p2.xy(), lm.p2.xy(), ld.p2.xy(), cp_parts(cp)]
    how = h.choice('how', sorted(cases))
    s0 = state()
    exc, fn = cases[how]
    refused(h, exc, fn)
    h.check('nothing changed', h.eq(state(), s0) and p.name == 'p' and lst[2] == 'a' and len(lst) == 3)


@harness(bounds='all transforms, with things pushed and inverted before; every operation that cannot be done', merge=True)
def transforms(h):
    t = mk_transform(h, 't', True)
    t.push()
    t.translate(h.real('u'), h.real('v'))
    t.untransform(1, 2)
    flat = BBox(1, 2, 1, 5)
    low = BBox(1, 2, 4, 2)
    ok = BBox(0, 0, h.real('w', 1), 2)
    how_s = h.choice('never pushed', ['identity', 'moved', 'any', 'scaled', 'turned'])
    s = Transform({'identity': (1, 0, 0, 0, 1, 0), 'moved': (1, 0, h.real('sx'), 0, 1, h.real('sy')), 'any': [h.real('s' + k) for k in 'abcdef'],
                   'scaled': (h.real('sa'), 0, 0, 0, h.real('se'), 0), 'turned': (0, -1, h.real('sx'), 1, 0, h.real('sy'))}[how_s])
    s1 = s.as_6tuple()
    cases = dict(
        narrow=(ZeroDivisionError, lambda: t.scale_bbox(flat, ok)), low=(ZeroDivisionError, lambda: t.scale_bbox(low, ok)),
        aspect=(ZeroDivisionError, lambda: t.scale_bbox(flat, ok, True)), aspect_low=(ZeroDivisionError, lambda: t.scale_bbox(low, ok, True)),
        none=(Exception, lambda: t.scale_bbox(BBox(None), ok)), target=(Exception, lambda: t.scale_bbox(ok, BBox(None))),
        aspect_target=(Exception, lambda: t.scale_bbox(ok, BBox(None), True)),
        compose=(AttributeError, lambda: t.compose(None)), outer=(AttributeError, lambda: t.compose_outer(None)), about=(TypeError, lambda: t.rotate_about(90, None)),
        set=(AttributeError, lambda: t.set_matrix(None)), translate=(TypeError, lambda: t.translate(1)), scale=(TypeError, lambda: t.scale(2)),
        points=(Exception, lambda: t.transform_pts([None])), point=(Exception, lambda: t.transform_pt(None)), back=(Exception, lambda: t.untransform_pts([1])),
        pop=(Exception, lambda: s.pop()), enter=(Exception, lambda: s.__enter__()))
    how = h.choice('how', sorted(cases))
    s0 = t.as_6tuple()
    back = t.untransform(3, 4)
    exc, fn = cases[how]
    refused(h, exc, fn)
    h.check('nothing changed', h.eq(t.as_6tuple(), s0) and h.eq(s.as_6tuple(), s1))
    h.check('the way back neither', h.eq(t.untransform(3, 4), back))
    t.pop()
    h.check('pushed as before', h.eq(t.as_6tuple(), [h.real('t.' + k) for k in 'abcdef']))


def model(h):
    a, b, c = mk_elem(h, 'rect', 'a'), mk_elem(h, 'curve', 'b', cps=1), mk_elem(h, 'curve', 'c', cps=1)
    d = mk_elem(h, 'rect', h.choice('name', ['d', '']))
    g = Group('g', PenBrush('red'), elems=[b, a], points={'p': Point(1, 2)})
    m = Group('m', PenBrush('red'), elems=[a, g, c], points={'p': Point(3, 4)})
    return a, b, c, d, g, m


@harness(bounds='groups of depth 2 with shared members, any coordinates; names in use or with dots, elements replaced where a name is in use on the way')
def groups(h):
    a, b, c, d, g, m = model(h)
    n = mk_elem(h, 'curve', 'b', cps=2)     # a name used in g only
    o = mk_elem(h, 'curve', 'x.y', cps=1)
    k = ElemWithHoles('k', PenBrush('red'), Group('kg', PenBrush('red'), elems=[b, a]), [a])
    m.add('k', k)
    f = mk_elem(h, 'rect', 'f')
    two = Group('two', PenBrush('red'), elems={'f': f, 'e': f, 'z': c})
    cases = dict(
        add=(ValueError, lambda: m.add('x.y', d)), point=(AssertionError, lambda: m.add_pt('p', Point(5, 6))), point_dot=(AssertionError, lambda: m.add_pt('p.q', Point(5, 6))),
        lookup=(KeyError, lambda: m.lookup('d')), deep=(KeyError, lambda: m.lookup('g.d')), beyond=(ValueError, lambda: m.lookup('a.b')),
        lookup_pt=(KeyError, lambda: m.lookup_pt('q')),
        replace=(ValueError, lambda: m.replace(a, n)), replace_dot=(ValueError, lambda: m.replace(a, o)), replace_here=(ValueError, lambda: g.replace(a, n)),
        replace_holes=(ValueError, lambda: k.replace(a, n)), replace_both=(ValueError, lambda: two.replace(f, d)),
        curves=(ValueError, lambda: m.as_digi_points()), box=(ValueError, lambda: m.bbox_int_update(BBox(0, 0, 1, 1))),
        members=(TypeError, lambda: Group('z', PenBrush('red'), elems=5)), twice=(ValueError, lambda: Group('z', PenBrush('red'), elems=[o])),
        empty=(GeomInternalError, lambda: Group('z', PenBrush('red')).bbox()))
    given = [Point(7, 8, nm) for nm in ('own', None, 'p')]
    for i, q in enumerate(given):
        cases['given%d' % i] = (AssertionError, lambda q=q: m.add_pt('p', q))
        cases['given_dot%d' % i] = (AssertionError, lambda q=q: m.add_pt('a.q', q))
    how = h.choice('how', sorted(cases))
    state = lambda: [[(q.xy(), q.name) for q in given], snap(m), snap(two), snap(d), snap(n), snap(o), [x is y for x, y in zip([m.elems['a'], g.elems['a'], k.inside[0], k.outside.elems['a']], [a] * 4)],
                     list(two.elems)]
    s0 = state()
    exc, fn = cases[how]
    refused(h, exc, fn)
    h.check('nothing changed', h.eq(state(), s0))


@harness(bounds='restoring a curve from one with another number of control points, any coordinates, names, pens and transforms; boxes given to curves',
         params=[dict(n=n, k=k) for n in (1, 2, 3, 9) for k in (1, 2, 3, 8) if n != k])
def curves(h, n, k):
    a = mk_elem(h, 'curve', 'a', mk_transform(h, 'x'), cps=n)
    b = mk_elem(h, 'open', 'b', mk_transform(h, 'y'), PenBrush('blue'), cps=k)
    s0, s1 = snap(a), snap(b)
    refused(h, GeomInternalError, lambda: a.restore(b))
    h.check('nothing changed', h.eq([snap(a), snap(b)], [s0, s1]))
    refused(h, ValueError, lambda: a.bbox_int_update(BBox(0, 0, 1, 1)))
    h.check('still nothing changed', h.eq(snap(a), s0))


class Stop(Exception):
    pass


@harness(bounds='elements of every kind transformed by something that fails at any of its points', params=[dict(kind=k) for k in ELEM_KINDS], merge=True)
def failing_transforms(h, kind):
    x = Transform((2, 0, h.real('x'), 0, 3, h.real('y')))
    if kind == 'rrect':
        e = ElemRectangleRounded('e', PenBrush('red', 'blue'), Point(1, 2), Point(7, 9), 2, xform=x)
    else:
        e = mk_elem(h, kind, 'e', x)
    left = [h.choice('left', [0, 1, 3, 5])]

    def fn(px, py):
        if not left[0]:
            raise Stop()
        left[0] -= 1
        return px * px, py
    w = mk_warp(fn)
    s0 = snap(e)
    try:
        e.transform(w)
    except Exception as exc:
        if type(exc).__module__.startswith('symx'):
            raise
    h.check('nothing changed', h.eq(snap(e), s0))
    if kind not in ('group', 'holes'):
        left[0] = 9
        h.check('nor later', h.eq(snap(e), s0))


@harness(bounds='pens, brushes and shape styles asked for what they do not have')
def pens(h):
    w = h.real('w', 0)
    p = PenBrush(Pen('red', w), 'blue')
    s = PensByShape().replace_width(w)
    before = repr(s)
    cases = dict(both=(ValueError, lambda: p.replace(pen=Pen('green', 1), width=2)), shape=(ValueError, lambda: s['triangle']),
                 builder=(TypeError, lambda: GroupBuilder('g', p)))
    how = h.choice('how', sorted(cases))
    exc, fn = cases[how]
    refused(h, exc, fn)
    h.check('nothing changed', p.pen.width == w and p.pen.brush.color == 'red' and p.brush.color == 'blue' and p == PenBrush(Pen('red', w), 'blue'))
    h.check('styles', repr(s) == before)


@harness(bounds='builders asked for shapes of names in use, with dots or of unknown style, any coordinates')
def builders(h):
    b = GroupBuilder('b', PensByShape())
    p, q = Point(h.real('x'), h.real('y')), Point(h.real('u'), h.real('v'))
    r = b.rect('r', p, q)
    sub = b.group('s')
    n = mk_elem(h, 'rect', '')
    b.point('p', 1, 2)
    cps = [ControlPoint(p, Vector(1, 2), Vector(3, 4))]
    cases = dict(
        rect=(ValueError, lambda: b.rect('a.b', p, q)), style=(ValueError, lambda: b.rect('t', p, q, shape_kind='no such')),
        curve=(ValueError, lambda: b.curve('a.b', cps)), ellipse=(ValueError, lambda: b.ellipse('a.b', p, q)), rrect=(ValueError, lambda: b.rrect('a.b', p, q, 2)),
        group=(ValueError, lambda: b.group('a.b')), add=(ValueError, lambda: b.add('a.b', r)), nameless=(ValueError, lambda: b.add('a.b', n)), point=(AssertionError, lambda: b.point('p', 5, 6)),
        opened=(AssertionError, lambda: b.curve('t', cps, shape_kind=PenBrush('red', 'blue'), closed=False)),
        lookup=(KeyError, lambda: b.lookup('t')), lookup_pt=(KeyError, lambda: b.lookup_pt('t')))
    how = h.choice('how', sorted(cases))
    state = lambda: [snap(b.the_group), snap(n), b.name, b.hidden, b.default_shape_kind, r is b.the_group.elems['r'], [cp_parts(c) for c in cps]]
    s0 = state()
    exc, fn = cases[how]
    refused(h, exc, fn)
    h.check('nothing changed', h.eq(state(), s0))


@harness(bounds='animations of points that cannot be animated, of models that do not hold the curve, and with timing functions that fail; any coordinates and times')
def animations(h):
    from x7.geom import anim as A
    p, q = Point(h.real('x'), h.real('y')), Point(h.real('u'), h.real('v'))
    r = PointRelative(1, 2, p)
    a, b, c = mk_elem(h, 'curve', 'a', cps=1), mk_elem(h, 'curve', 'b', cps=1), mk_elem(h, 'curve', 'c', cps=2)
    n = mk_elem(h, 'rect', 'n')
    m = Group('m', PenBrush('red'), elems=[a, Group('g', PenBrush('red'), elems=[n])])
    t = h.real('t')

    fine = []

    def late(s, *k):
        if fine:
            return (s, s) if k else s
        raise Stop()
    gen, lin, mor = A.AnimationGeneric(q, late), A.AnimationLinearFunc(q, p, late), A.Morph(Group('z', PenBrush('red'), elems=[b]), b, a, late)
    mul = A.MorphMultiStep(Group('z', PenBrush('red'), elems=[b]), b, [(1.0, a)], late, force=False)
    # nothing updated, or updated up to some time before
    for k in (gen, lin, mor, mul):
        if h.choice('before', [False, True]):
            fine.append(1)
            k.update(h.frac(1, 3))
            fine.clear()
    cases = dict(
        generic=(ValueError, lambda: A.AnimationGeneric(r, lambda s, o, x: (1, 2))), linear=(ValueError, lambda: A.AnimationLinear(r, q)),
        target=(AssertionError, lambda: A.AnimationLinear(p, (1, 2))), circle=(ValueError, lambda: A.AnimationCircular(r, 3, 1)),
        wave=(ValueError, lambda: A.AnimationSinusoidal(r, q)), absent=(A.MorphError, lambda: A.Morph(m, b, a, lambda s: s)),
        sizes=(A.MorphError, lambda: A.Morph(m, a, c, lambda s: s, force=False)), steps=(A.MorphError, lambda: A.MorphMultiStep(m, b, [(1.0, a)], lambda s: s, force=False)),
        update=(NotImplementedError, lambda: A.Animation(p).update(t)), fails=(Stop, lambda: gen.update(t)), fails_linear=(Stop, lambda: lin.update(t)),
        fails_morph=(Stop, lambda: mor.update(t)), fails_steps=(Stop, lambda: mul.update(t)))
    how = h.choice('how', sorted(cases))
    state = lambda: [p.xy(), q.xy(), r.dx, r.dy, snap(m), snap(a), snap(b), snap(c), m.elems['a'] is a, snap(mor.morph), snap(mul.morph)]
    s0 = state()
    exc, fn = cases[how]
    refused(h, exc, fn)
    h.check('nothing changed', h.eq(state(), s0))


@harness(bounds='elements made with pens they cannot have, any coordinates, kinds and pens of members', params=[dict(kind=k) for k in ELEM_KINDS])
def makers(h, kind):
    a = mk_elem(h, kind, 'a', mk_transform(h, 'x'), radius=2)
    b = mk_elem(h, 'curve', 'b', pb=PenBrush('blue', 'tan'))
    g = Group('g', PenBrush('red'), elems=[b])
    p, q = Point(h.real('px'), h.real('py')), Point(h.real('qx'), h.real('qy'))
    fill, cps, pts, ins = PenBrush('red', 'pink'), [mk_cp(h, 'c')], {'p': p}, [a, b]
    mem = {'a': a, 'g': g}
    x = Transform().translate(1, 2)
    cases = dict(
        holes=lambda: ElemWithHoles('w', fill, a, [b], closed=False, xform=x), holes_in=lambda: ElemWithHoles('w', fill, b, [a, g], False),
        list=lambda: ElemWithHoles('w', fill, g, ins, closed=False), curve=lambda: ElemCurve('w', fill, cps, False, x),
        group=lambda: Group('w', fill, elems=mem, points=pts, closed=False, xform=x))
    how = h.choice('how', sorted(cases))
    state = lambda: [snap(a), snap(b), snap(g), p.xy(), q.xy(), [cp_parts(c) for c in cps], len(cps), list(pts), ins[0] is a, ins[1] is b, list(mem), len(ins),
                     x.as_6tuple(), fill == PenBrush('red', 'pink')]
    s0 = state()
    refused(h, AssertionError, cases[how])
    h.check('nothing changed', h.eq(state(), s0))
