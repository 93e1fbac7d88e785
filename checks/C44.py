"""Timing functions have the documented shape"""
import math
from symx.harness import harness
from x7.geom.anim import Animation


def ramp(t, s, e):
    return 0 if t <= s else 1 if t >= e else (t - s) / (e - s)


@harness(bounds='all 0 <= start < end <= 1, all times (also outside 0..1); scalar and pair arguments', merge=True)
def ramps(h):
    which = h.choice('which', ['up', 'down'])
    if h.choice('args', ['default', 'given']) == 'given':
        s, e = h.real('s', 0, 1), h.real('e', 0, 1)
        h.assume(h.lt(s, e))
        f = (Animation.ramp_up if which == 'up' else Animation.ramp_down)(s, e)
    else:
        s, e = h.frac(1, 4), h.frac(3, 4)
        f = Animation.ramp_up() if which == 'up' else Animation.ramp_down()
    want = lambda t: ramp(t, s, e) if which == 'up' else 1 - ramp(t, s, e)
    if h.choice('form', ['scalar', 'pair']) == 'scalar':
        t = h.real('t')
        h.check('ramp', h.eq(f(t), want(t)))
    else:
        t, u = h.real('t'), h.real('u')
        r = f((t, u))
        h.check('pair', isinstance(r, tuple) and len(r) == 2)
        h.check('ramp per coordinate', h.and_(h.eq(r[0], want(t)), h.eq(r[1], want(u))))


@harness(bounds='1..4 points at increasing times, one of the times possibly twice (a jump), all values and times',
         params=[dict(n=n, jump=j) for n in (1, 2, 3, 4) for j in range(n)])
def interpolate(h, n, jump):
    ts, vs = [h.real('t%d' % i) for i in range(n)], [h.real('v%d' % i) for i in range(n)]
    if jump:
        ts[jump] = ts[jump - 1]
    for i, (a, b) in enumerate(zip(ts, ts[1:])):
        if i + 1 != jump:
            h.assume(h.lt(a, b))
    f = Animation.interpolate(list(zip(ts, vs)))

    def want(t):
        if t <= ts[0]:
            return vs[0]
        for i in range(1, n):
            if i != jump and t <= ts[i]:
                return vs[i - 1] + (vs[i] - vs[i - 1]) * (t - ts[i - 1]) / (ts[i] - ts[i - 1])
        return vs[-1]
    t = h.real('t')
    if jump:
        h.assume(h.ne(t, ts[jump]))
    h.check('value', h.eq(f(t), want(t)))
    for i, (a, b) in enumerate(zip(ts, vs)):
        if not jump or i not in (jump - 1, jump):
            h.check('through the points', h.eq(f(a), b))
    r = f((t, ts[0] - 1))
    h.check('pair', isinstance(r, tuple) and h.eq(r[0], want(t)) and h.eq(r[1], vs[0]))


@harness(bounds='all times, frequencies, offsets, scales, shifts; defaults',
         params=[dict(fn=f) for f in ('sin', 'cos', 'periodic', 'sin_cos')])
def periodic(h, fn):
    full = h.choice('args', ['defaults', 'frequency', 'offset', 'all', 'keywords'])
    fr = h.real('freq') if full in ('frequency', 'all', 'keywords') else 1
    off = h.real('off') if full in ('offset', 'all', 'keywords') else 0
    sc, sh = (h.real('scale'), h.real('shift')) if full in ('all', 'keywords') else (1, 0)
    trig = []

    def my(x):
        trig.append(x)
        return 3 * x
    if full == 'keywords':
        k = dict(frequency=fr, offset=off, scale=sc, shift=sh)
        a = ()
    else:
        k = {}
        a = {'defaults': (), 'frequency': (fr,), 'offset': (1.0, off), 'all': (fr, off, sc, sh)}[full]
    f = getattr(Animation, fn)(*((my,) if fn == 'periodic' else ()) + a, **k)
    for name in ('t1', 't2'):
        t = h.real(name)
        x = 2 * math.pi * fr * t + math.radians(off)
        got = f(t)
        if fn == 'sin_cos':
            h.check('sine and cosine', h.eq(tuple(got), (math.sin(x) * sc + sh, math.cos(x) * sc + sh)))
        else:
            w = math.sin(x) if fn == 'sin' else math.cos(x) if fn == 'cos' else 3 * x
            h.check('function of frequency times t plus offset', h.eq(got, w * sc + sh))


@harness(bounds='all values and thresholds; arbitrary quadratic timing functions')
def hide_if(h):
    a, b, c, t = [h.real(n) for n in 'abct']
    f = lambda x: a + b * x + c * x * x
    if h.choice('args', ['default', 'given']) == 'given':
        th = h.real('th')
        g = Animation.hide_if(f, th)
    else:
        th, g = 0, Animation.hide_if(f)
    r = g(t)
    if r is None:
        h.check('hidden only below', h.lt(f(t), th))
    else:
        h.check('kept only from threshold', h.le(th, f(t)))
        h.check('value kept', h.eq(r, f(t)))


@harness(bounds='identities and combinations of two functions')
def combine(h):
    t, u, a, b = [h.real(n) for n in 'tuab']
    h.check('identity', h.eq(Animation.identity()(t), t))
    h.check('identity of a pair', h.eq(Animation.identity()((t, u)), (t, u)))
    h.check('identity pair', h.eq(Animation.identity_xy()((t, u)), (t, u)))
    h.check('identity of scalar', h.eq(Animation.identity_xy()(t), (t, t)))
    h.check('per coordinate', h.eq(Animation.xy(lambda x: a * x, lambda x: x + b)(t), (a * t, t + b)))
    h.check('defaults', h.eq(Animation.xy()(t), (t, t)))
    h.check('only y', h.eq(Animation.xy(y_func=lambda x: a * x)(t), (t, a * t)))


@harness(bounds='7 and 9 points at given times, none, one or two of the times twice (jumps, also at the ends), all values, all times', params=[dict(n=n) for n in (7, 9)])
def long_interpolate(h, n):
    jumps = h.choice('jumps', [()] + [(k,) for k in range(1, n)] + [(2, n - 2)])
    ts, at = [], 0
    for i in range(n):
        at += 0 if i in jumps or i == 0 else 1 + i % 3
        ts.append(at)
    vs = [h.real('v%d' % i) for i in range(n)]
    f = Animation.interpolate(list(zip(ts, vs)))
    t = h.real('t', -1, at + 1)
    h.assume(h.and_(*[h.ne(t, ts[k]) for k in jumps]))
    w = vs[0] if t <= ts[0] else vs[-1]
    if t > ts[0]:
        for i in range(1, n):
            if i not in jumps and t <= ts[i]:
                w = vs[i - 1] + (vs[i] - vs[i - 1]) * (t - ts[i - 1]) / (ts[i] - ts[i - 1])
                break
    h.check('value', h.eq(f(t), w))
    for i, (a, b) in enumerate(zip(ts, vs)):
        if i not in jumps and i + 1 not in jumps:
            h.check('through the points', h.eq(f(a), b))
