"""Multi-step morphing passes through every target at its time"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.anim import MorphMultiStep, MorphError
from x7.geom.colors import PenBrush
from checks.common import mk_cp, mk_transform, cp_parts, snap, same_cyclic
from checks.C26 import segs_of
from checks.C42 import mk_model, spot, curve, lerp, parts, hidden, split_once, WHERE


def rotations(h, got, want):
    """Same control points up to where the list starts"""
    mark, alts = h.mark(), []
    for k in range(max(len(want), 1)):
        r = h.eq(got, want[k:] + want[:k])
        if r is True:
            h.reset(mark)
            return True
        alts.append(r)
    h.reset(mark)
    return h.or_(*alts)


def expect(h, t, times, shapes):
    """Piecewise linear interpolation through shapes at times 0 and times"""
    ts = [0] + list(times)
    if t < 0:
        return shapes[0]
    for i in range(1, len(ts)):
        if t < ts[i]:
            return lerp((t - ts[i - 1]) / (ts[i] - ts[i - 1]), shapes[i - 1], shapes[i])
    return shapes[-1]


@harness(bounds='1 or 2 targets at arbitrary strictly increasing positive times, curves of 1 to 2 control points, open and closed, two updates at arbitrary times or hidden, placed at the top, nested, as a hole; control points as given (force off)',
         params=[dict(k=k, n=n, where=w) for k in (1, 2) for n in (1, 2) for w in (WHERE if k == 1 else ['top'])])
def steps(h, k, n, where):
    closed = h.choice('closed', [True, False]) if n > 1 and where != 'hole' else True
    src = curve(h, 's', n, closed, mk_transform(h, 'sx'))
    tgts = [curve(h, 'g%d' % i, n, closed) for i in range(k)]
    if where == 'top':
        same = h.choice('one curve', ['none', 'targets' if k > 1 else 'source'])
        if same != 'none':
            tgts[-1] = tgts[0] if same == 'targets' else src
    times = [h.real('time%d' % i) for i in range(k)]
    for a, b in zip([0] + times, times):
        h.assume(h.lt(a, b))
    model = mk_model(h, src, where)
    if where == 'hole':
        src = spot(model, where)
    s0, g0, m0, x = snap(src), [snap(g) for g in tgts], snap(model), src.xform.as_6tuple()
    shapes = [parts(src)] + [parts(g) for g in tgts]
    calls = []

    def t_func(t):
        calls.append(t)
        return None if len(calls) in hide else 2 * t
    hide = h.choice('hide', [(), (1,), (2,)])
    m = MorphMultiStep(model, src, list(zip(times, tgts)), t_func, force=False)
    c = spot(model, where)
    h.check('the model shows the morphing curve', c is m.morph and c is not src and all(c is not g for g in tgts))
    for j in (1, 2):
        t = h.real('t%d' % j)
        m.update(t)
        if j in hide:
            hidden(h, c)
        else:
            h.check('interpolated between neighbours', h.eq(parts(c), expect(h, 2 * t, times, shapes)))
        h.check('everything else as the source', h.eq(c.xform.as_6tuple(), x) and c.closed == closed and c.name == src.name and c.penbrush == src.penbrush)
    h.check('source and targets untouched', h.eq(snap(src), s0) and h.eq([snap(g) for g in tgts], g0))
    m.restore()
    h.check('source back in place', spot(model, where) is src and h.eq(snap(model), m0))


@harness(bounds='exactly at the times of 1 to 3 and 7 targets, before the start and after the end; any positive times', params=[dict(k=k) for k in (1, 2, 3, 7)], merge=True)
def exact(h, k):
    src = curve(h, 's', 1, True)
    tgts = [curve(h, 'g%d' % i, 1, True) for i in range(k)]
    times = [h.real('time%d' % i) for i in range(k)]
    for a, b in zip([0] + times, times):
        h.assume(h.lt(a, b))
    model = mk_model(h, src, 'top')
    m = MorphMultiStep(model, src, list(zip(times, tgts)), lambda t: t, force=False)
    shapes = [parts(src)] + [parts(g) for g in tgts]
    c = spot(model, 'top')
    order = h.choice('order', ['up', 'down'])
    seq = list(zip([0] + times, shapes))
    for t, s in (seq if order == 'up' else seq[::-1]):
        m.update(t)
        h.check('each target at its time', h.eq(parts(c), s))
    t = h.real('t')
    h.assume(h.lt(t, 0))
    m.update(t)
    h.check('first shape before', h.eq(parts(c), shapes[0]))
    m.update(times[-1] - t)
    h.check('last shape after', h.eq(parts(c), shapes[-1]))


@harness(bounds='control points aligned by force: closed curves of 2 control points on a line and open ones keep their shape, one target', time=120, merge=True,
         params=[dict(closed=c, n=n) for c in (True, False) for n in (2, 3)])
def forced(h, closed, n):
    def line(name):
        return ElemCurve(name, PenBrush('red'), [ControlPoint(Point(h.real('%sx%d' % (name, i)), 0), Vector(h.real('%sl%d' % (name, i)), 0),
                                                              Vector(h.real('%sr%d' % (name, i)), 0)) for i in range(n)], closed)
    src, tgt = line('s'), line('g')
    a, b = parts(src), parts(tgt)
    s0 = snap(src)
    T = h.real('time')
    h.assume(h.lt(0, T))
    model = mk_model(h, src, 'top')
    m = MorphMultiStep(model, src, [(T, tgt)], lambda t: t)
    c = spot(model, 'top')
    same = (lambda x, y: rotations(h, x, y)) if closed else h.eq
    m.update(0)
    p0 = parts(c)
    h.check('source shape at 0', same(p0, a))
    m.update(T)
    p1 = parts(c)
    h.check('target shape at its time', same(p1, b))
    t = h.real('t', 0)
    h.assume(h.le(t, T))
    m.update(t)
    h.check('linear in between', h.eq(parts(c), lerp(t / T, p0, p1)))
    h.check('source untouched', h.eq(snap(src), s0))
    m.restore()
    h.check('restored', spot(model, 'top') is src)


@harness(bounds='a target or the source shorter by one control point (on a line)', params=[dict(closed=c, more=x) for c in (True, False) for x in ('source', 'target')])
def equalised(h, closed, more):
    n = 2 - closed

    def line(name, k):
        return ElemCurve(name, PenBrush('red'), [ControlPoint(Point(h.real('%sx%d' % (name, i)), 0), Vector(h.real('%sl%d' % (name, i)), 0),
                                                              Vector(h.real('%sr%d' % (name, i)), 0)) for i in range(k)], closed)
    src, tgt = line('s', n + (more == 'source')), line('g', n + (more == 'target'))
    s0 = snap(src)
    segs = segs_of(src.control_points, closed), segs_of(tgt.control_points, closed)
    model = mk_model(h, src, 'among others')
    T = h.real('time')
    h.assume(h.lt(0, T))
    m = MorphMultiStep(model, src, [(T, tgt)], lambda t: t, force=False)
    c = spot(model, 'among others')
    h.check('same number', len(c.control_points) == n + 1)
    for t, s, longer in ((0, segs[0], more == 'source'), (T, segs[1], more == 'target')):
        m.update(t)
        new = segs_of(c.control_points, closed)
        h.check('shape at its time', h.eq(new, s) if longer else split_once(h, s, None, new, closed))
    h.check('source untouched', h.eq(snap(src), s0))
    m.restore()
    h.check('restored', spot(model, 'among others') is src)


@harness(bounds='source not in the model')
def missing(h):
    src, tgt, other = curve(h, 's', 1, True), curve(h, 't', 1, True), curve(h, 'o', 1, True)
    model = mk_model(h, other, h.choice('where', WHERE))
    m0 = snap(model)
    h.check('refused', h.raises(MorphError, lambda: MorphMultiStep(model, src, [(1, tgt)], lambda t: t, force=False)))
    h.check('model untouched', h.eq(snap(model), m0))


@harness(bounds='curves of 8 control points and 5 targets at given times, all coordinates, updated at any time; control points as given', merge=True, params=[dict(at=a) for a in range(6)])
def long_steps(h, at):
    src = curve(h, 's', 8, True)
    tgts = [curve(h, 'g%d' % i, 8, True) for i in range(5)]
    times = [1, 2, 4, 5, 7]
    model = mk_model(h, src, 'among others')
    a = [parts(src)] + [parts(g) for g in tgts]
    m = MorphMultiStep(model, src, list(zip(times, tgts)), lambda t: t, force=False)
    lo, hi = ([0] + times)[at], (times + [9])[at]
    t = h.real('t', lo, hi)
    h.assume(h.lt(t, hi))
    m.update(t)
    h.check('interpolated between neighbours', h.eq(parts(m.morph), lerp((t - lo) / h.frac(hi - lo, 1), a[at], a[at + 1]) if at < 5 else a[5]))
    h.check('source and targets untouched', h.eq([parts(src)] + [parts(g) for g in tgts], a))
