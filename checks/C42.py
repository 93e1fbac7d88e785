"""Morphing interpolates control points and can be undone"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.anim import Morph, MorphError
from x7.geom.colors import PenBrush
from checks.common import mk_cp, mk_elem, mk_transform, cp_parts, snap, POINT_KINDS, mk_long
from checks.C26 import segs_of, halves, chord2

WHERE = ['top', 'nested', 'hole', 'among others']


def curve(h, name, n, closed, xform=None, kinds=('smooth',), points=('abs',)):
    return ElemCurve(name, PenBrush('red', 'blue' if closed else None), [mk_cp(h, '%s%d' % (name, i), kinds, points) for i in range(n)], closed, xform)


def mk_model(h, src, where):
    rect = lambda n: ElemRectangle(n, PenBrush('red'), Point(h.real(n + 'a'), h.real(n + 'b')), Point(h.real(n + 'c'), h.real(n + 'd')))
    if where == 'top':
        return Group('m', PenBrush('red'), elems=[src])
    if where == 'nested':
        return Group('m', PenBrush('red'), elems=[rect('r1'), Group('g', PenBrush('red'), elems=[src], xform=mk_transform(h, 'gx'))])
    if where == 'hole':
        src.penbrush = PenBrush('tan')
        return Group('m', PenBrush('red'), elems=[ElemWithHoles('w', PenBrush('tan'), rect('r1'), [src])])
    return Group('m', PenBrush('red'), elems=[rect('r1'), src, rect('r2')])


def spot(m, where):
    """The element at the place where the source was put"""
    if where == 'nested':
        return list(list(m.elems.values())[1].elems.values())[0]
    if where == 'hole':
        return list(m.elems.values())[0].inside[0]
    return list(m.elems.values())[0 if where == 'top' else 1]


def lerp(t, a, b):
    return [tuple((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])) for p, q in zip(x, y)) for x, y in zip(a, b)]


def parts(c):
    return [cp_parts(p) for p in c.control_points]


def hidden(h, c):
    h.check('hidden: moved off-screen', h.eq(parts(c), [((1e6, 1e6), (0, 0), (0, 0))] * len(c.control_points)))


@harness(bounds='source and target curves of 1..3 control points (absolute, relative, calculated points), open and closed, arbitrary transform; at the top, nested or as a hole; '
                'two updates at arbitrary progress or hidden; then restored', paths=6000,
         params=[dict(n=n, where=w, dep=d) for n, d in ((1, True), (2, False), (3, False)) for w in WHERE])
def morph(h, n, where, dep):
    closed = h.choice('closed', [True, False]) if n > 1 and where != 'hole' else True
    src = curve(h, 's', n, closed, mk_transform(h, 'sx'), points=POINT_KINDS if dep else ('abs',))
    tgt = curve(h, 't', n, closed, mk_transform(h, 'tx'), points=POINT_KINDS if dep else ('abs',))
    model = mk_model(h, src, where)
    if where == 'hole':
        src = spot(model, where)
    if where == 'top' and h.choice('into itself', [False, True]):
        tgt = src
    s0, t0, m0 = snap(src), snap(tgt), snap(model)
    a, b, x = parts(src), parts(tgt), src.xform.as_6tuple()
    vals = []

    def t_func(t):
        vals.append(t)
        return None if len(vals) in hide else h_u * t + h_v
    h_u, h_v = h.real('u'), h.real('v')
    hide = h.choice('hide', [(), (1,), (2,), (1, 2)])
    m = Morph(model, src, tgt, t_func, force=h.choice('force', [True, False]))
    c = spot(model, where)
    h.check('the model shows the morphing curve', c is m.morph and c is not src and c is not tgt)
    h.check('it starts as the source', h.eq(snap(c), s0))
    for k in (1, 2):
        t = h.real('t%d' % k)
        m.update(t)
        h.check('still the same curve', spot(model, where) is c)
        if k in hide:
            hidden(h, c)
        else:
            h.check('interpolated', h.eq(parts(c), lerp(h_u * t + h_v, a, b)))
        h.check('everything else as the source', h.eq(c.xform.as_6tuple(), x) and c.closed == closed and c.name == src.name and c.penbrush == src.penbrush)
    h.check('source and target untouched', h.eq(snap(src), s0) and h.eq(snap(tgt), t0))
    m.restore()
    h.check('source back in place', spot(model, where) is src)
    h.check('model as before', h.eq(snap(model), m0))


@harness(bounds='progress 0 and 1 reached exactly, curves of 1..3 control points of any kind', params=[dict(n=n) for n in (1, 2, 3)])
def ends(h, n):
    ks = ('smooth', 'sharp') if n < 3 else ('smooth',)
    src, tgt = curve(h, 's', n, True, kinds=ks), curve(h, 't', n, True)
    model = mk_model(h, src, 'top')
    a, b = parts(src), parts(tgt)
    m = Morph(model, src, tgt, lambda t: t)
    m.update(h.real('t'))
    m.update(0)
    h.check('source at 0', h.eq(parts(m.morph), a))
    m.update(1)
    h.check('target at 1', h.eq(parts(m.morph), b))


def split_once(h, old, old_kinds, new, closed):
    """new segments are old ones with a longest one halved"""
    half = h.frac(1, 2)
    alts = []
    for k in range(len(old)):
        es = old[:k] + halves(old[k], half) + old[k + 1:]
        for r in [0, len(old)] if closed and k == len(old) - 1 else [0]:
            alts.append(h.eq(new, es[r:] + es[:r]))
    return h.or_(*alts)


@harness(bounds='source and target differ by one control point (1 to 3), open or closed; shapes compared segment by segment (control points on a line)',
         params=[dict(n=n, closed=c) for n, c in ((1, True), (2, True), (2, False))])
def equalised(h, n, closed):
    def line(name, k):
        return ElemCurve(name, PenBrush('red'), [ControlPoint(Point(h.real('%sx%d' % (name, i)), 0), Vector(h.real('%sl%d' % (name, i)), h.real('%sm%d' % (name, i))),
                                                              Vector(h.real('%sr%d' % (name, i)), h.real('%so%d' % (name, i)))) for i in range(k)], closed)
    more = h.choice('longer', ['source', 'target'])
    src, tgt = line('s', n + (more == 'source')), line('t', n + (more == 'target'))
    short, long = (tgt, src) if more == 'source' else (src, tgt)
    old, olong = segs_of(short.control_points, closed), snap(long)
    model = mk_model(h, src, 'among others')
    if h.choice('force', [True, False]):
        m = Morph(model, src, tgt, lambda t: t)
        h.check('same number', len(src.control_points) == len(tgt.control_points) == len(m.morph.control_points) == n + 1)
        h.check('longer one untouched', h.eq(snap(long), olong))
        h.check('shape of shorter one kept', split_once(h, old, None, segs_of(short.control_points, closed), closed))
        t = h.real('t')
        m.update(t)
        h.check('interpolated', h.eq(parts(m.morph), lerp(t, parts(src), parts(tgt))))
    else:
        m0 = snap(model)
        h.check('refused', h.raises(MorphError, lambda: Morph(model, src, tgt, lambda t: t, force=False)))
        h.check('model untouched', h.eq(snap(model), m0))


@harness(bounds='source not in the model')
def missing(h):
    src, tgt, other = curve(h, 's', 2, True), curve(h, 't', 2, True), curve(h, 'o', 2, True)
    model = mk_model(h, other, h.choice('where', WHERE))
    m0 = snap(model)
    h.check('refused', h.raises(MorphError, lambda: Morph(model, src, tgt, lambda t: t)))
    h.check('model untouched', h.eq(snap(model), m0))


@harness(bounds='source and target of 7 to 9 control points, open and closed, one of them, any, possibly in the place of the one before', params=[dict(n=n) for n in (7, 9)])
def long_curves(h, n):
    closed = h.choice('closed', [True, False])
    src = ElemCurve('s', PenBrush('red', 'blue' if closed else None), mk_long(h, 's', n, ('smooth',)), closed)
    tgt = curve(h, 't', n, closed)
    model = mk_model(h, src, 'among others')
    a, b, m0 = parts(src), parts(tgt), snap(model)
    m = Morph(model, src, tgt, lambda t: t)
    for t in (h.real('t1'), 1, 0):
        m.update(t)
        h.check('interpolated', h.eq(parts(m.morph), lerp(t, a, b)))
    h.check('source and target untouched', h.eq((parts(src), parts(tgt)), (a, b)))
    m.restore()
    h.check('model as before', h.eq(snap(model), m0))


@harness(bounds='8 updates of a morph of 2 control points at any progress, hidden at some, restored, and the same curves morphed again', params=[dict(where=w) for w in WHERE])
def many_updates(h, where):
    src, tgt = curve(h, 's', 2, True), curve(h, 't', 2, True)
    model = mk_model(h, src, where)
    if where == 'hole':
        src = spot(model, where)
    a, b, m0 = parts(src), parts(tgt), snap(model)
    ts = [h.real('t%d' % i) for i in range(8)]
    for again in range(2):
        show = [True]
        m = Morph(model, src, tgt, lambda t: t if show[0] else None)
        for i, t in enumerate(ts):
            show[0] = i % 4 != 1 + again
            m.update(t)
            if show[0]:
                h.check('interpolated', h.eq(parts(m.morph), lerp(t, a, b)))
            else:
                hidden(h, m.morph)
        h.check('source and target untouched', h.eq((parts(src), parts(tgt)), (a, b)))
        m.restore()
        h.check('model as before', spot(model, where) is src and h.eq(snap(model), m0))
