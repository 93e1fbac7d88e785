"""Animated points follow their formula from the original position"""
import math
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.anim import *
from checks.common import mk_point

KINDS = ['linear', 'linear func', 'sinusoidal', 'circular', 'generic']


def mk_anim(h, kind, p, n=''):
    """An animation of point p, and the textbook position at time t given the original position"""
    if kind in ('linear', 'linear func', 'sinusoidal'):
        target = mk_point(h, n + 'target')
    else:
        target = None
    if kind == 'linear':
        return AnimationLinear(p, target), lambda t, ox, oy: (ox + t * (target.x - ox), oy + t * (target.y - oy))
    if kind == 'linear func':
        form = h.choice(n + 'func', ['scalar', 'pair'])
        a, b, c = [h.real(n + 'f%d' % i) for i in range(3)]
        if form == 'scalar':
            f = lambda t: a + b * t + c * t * t
            return (AnimationLinearFunc(p, target, f),
                    lambda t, ox, oy: (ox + f(t) * (target.x - ox), oy + f(t) * (target.y - oy)))
        f = lambda t: (a + b * t, c * t * t)
        return (AnimationLinearFunc(p, target, f),
                lambda t, ox, oy: (ox + (a + b * t) * (target.x - ox), oy + c * t * t * (target.y - oy)))
    if kind == 'sinusoidal':
        form = h.choice(n + 'args', ['default', 'frequency', 'both'])
        fr = h.real(n + 'freq') if form != 'default' else 1
        off = h.real(n + 'off') if form == 'both' else 0
        a = (AnimationSinusoidal(p, target) if form == 'default' else AnimationSinusoidal(p, target, fr) if form == 'frequency'
             else AnimationSinusoidal(p, target, frequency=fr, offset=off))

        def pos(t, ox, oy):
            s = (1 - math.cos(2 * math.pi * fr * t + math.radians(off))) / 2
            return ox + s * (target.x - ox), oy + s * (target.y - oy)
        return a, pos
    if kind == 'circular':
        r, fr = h.real(n + 'r'), h.real(n + 'freq')
        off = h.real(n + 'off') if h.choice(n + 'args', ['default', 'offset']) == 'offset' else 0
        a = AnimationCircular(p, r, fr, off) if not isinstance(off, int) else AnimationCircular(p, r, fr)

        def pos(t, ox, oy):
            th = 2 * math.pi * fr * t + off
            return ox + r * math.sin(th), oy + r * math.cos(th)
        return a, pos
    u, v, w = [h.real(n + 'g%d' % i) for i in range(3)]
    seen = []

    def f(t, orig, point):
        seen.append((t, orig.xy(), point))
        return orig.x * u + t * v, orig.y + w * t * t
    a = AnimationGeneric(p, f)
    a.seen = seen
    return a, lambda t, ox, oy: (ox * u + t * v, oy + w * t * t)


@harness(bounds='all points, targets (absolute, relative, calculated), times, frequencies, offsets, radii, easing coefficients; two updates and a move of the point in between',
         params=[dict(kind=k) for k in KINDS])
def formula(h, kind):
    p = Point(h.real('x'), h.real('y'))
    ox, oy = p.xy()
    if h.choice('twice', ['animated once', 'other animation first']) == 'other animation first':
        # the original is where the point is when the animation is made
        AnimationLinear(p, Point(h.real('zx'), h.real('zy'))).update(h.real('zt'))
        ox, oy = p.xy()
    a, pos = mk_anim(h, kind, p)
    h.check('making it moves nothing', h.eq(p.xy(), (ox, oy)))
    t1, t2 = h.real('t1'), h.real('t2')
    a.update(t1)
    h.check('first update', h.eq(p.xy(), pos(t1, ox, oy)))
    if h.choice('between', ['nothing', 'point moved']) == 'point moved':
        p.setxy(h.real('mx'), h.real('my'))
    a.update(t2)
    h.check('second update', h.eq(p.xy(), pos(t2, ox, oy)))
    h.check('same point', a.point is p)
    if kind == 'generic':
        h.check('function called with time, original and point',
                len(a.seen) == 2 and all(s[2] is p and h.eq(s[1], (ox, oy)) for s in a.seen) and h.eq([s[0] for s in a.seen], [t1, t2]))


@harness(bounds='times 0 and 1; target may move after the animation was made')
def ends(h):
    kind = h.choice('kind', ['linear', 'sinusoidal'])
    p, target = Point(h.real('x'), h.real('y')), Point(h.real('tx'), h.real('ty'))
    o = p.xy()
    a = AnimationLinear(p, target) if kind == 'linear' else AnimationSinusoidal(p, target)
    a.update(h.real('t'))
    a.update(0)
    h.check('original at 0', h.eq(p.xy(), o))
    target.setxy(h.real('ux'), h.real('uy'))
    tt = target.xy()
    a.update(1 if kind == 'linear' else h.frac(1, 2))
    h.check('target reached', h.eq(p.xy(), tt))
    h.check('target not moved', h.eq(target.xy(), tt))
    if kind == 'sinusoidal':
        a.update(1)
        h.check('and back', h.eq(p.xy(), o))


@harness(bounds='per-coordinate times for linear animation')
def pairs(h):
    p, target = Point(h.real('x'), h.real('y')), mk_point(h, 'target')
    ox, oy = p.xy()
    a = AnimationLinear(p, target)
    tx, ty = h.real('a'), h.real('b')
    a.update((tx, ty))
    h.check('per coordinate', h.eq(p.xy(), (ox + tx * (target.x - ox), oy + ty * (target.y - oy))))


@harness(bounds='relative and calculated points and vectors cannot be animated')
def only_plain(h):
    p, t = mk_point(h, 'p', ['rel', 'calc']), Point(h.real('tx'), h.real('ty'))
    xy = p.xy()
    f = lambda *a: (0, 0)
    h.check('refused', h.raises(ValueError, lambda: AnimationLinear(p, t)))
    h.check('refused', h.raises(ValueError, lambda: AnimationLinearFunc(p, t, f)))
    h.check('refused', h.raises(ValueError, lambda: AnimationSinusoidal(p, t)))
    h.check('refused', h.raises(ValueError, lambda: AnimationCircular(p, 1, 1)))
    h.check('refused', h.raises(ValueError, lambda: AnimationGeneric(p, f)))
    h.check('unmoved', h.eq(p.xy(), xy))


@harness(bounds='a holder of 0..3 animations, updated twice')
def holder(h):
    hold = AnimationHolder()
    n = h.choice('n', [0, 1, 2, 3])
    ps = [Point(h.real('x%d' % i), h.real('y%d' % i)) for i in range(n)]
    ts = [Point(h.real('u%d' % i), h.real('v%d' % i)) for i in range(n)]
    o = [p.xy() for p in ps]
    for p, t in zip(ps, ts):
        hold.add(AnimationLinear(p, t))
    for t in (h.real('t1'), h.real('t2')):
        hold.update(t)
        for p, q, (ox, oy) in zip(ps, ts, o):
            h.check('all updated', h.eq(p.xy(), (ox + t * (q.x - ox), oy + t * (q.y - oy))))


@harness(bounds='a holder whose animations build on one another: a point animated twice, a target moved by another animation, in any order, updated twice', merge=True)
def holder_order(h):
    hold = AnimationHolder()
    p, q = Point(h.real('x'), h.real('y')), Point(h.real('qx'), h.real('qy'))
    u, v = Point(h.real('ux'), h.real('uy')), Point(h.real('vx'), h.real('vy'))
    o, oq = p.xy(), q.xy()
    anims = [AnimationLinear(p, q), AnimationLinear(q, u), AnimationLinear(p, v)]
    order = h.choice('order', [(0, 1), (1, 0), (0, 2), (2, 0), (0, 1, 2), (2, 1, 0), (1, 0, 2), (0, 1, 0)])
    for i in order:
        hold.add(anims[i])
    mix = lambda t, a, b: (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
    pp, qq = o, oq
    for t in (h.real('t1'), h.real('t2')):
        hold.update(t)
        for a in order:
            if a == 1:
                qq = mix(t, oq, u.xy())
            else:
                pp = mix(t, o, qq if a == 0 else v.xy())
        h.check('one after the other, in the order added', h.eq((p.xy(), q.xy()), (pp, qq)))


@harness(bounds='a holder of 6 to 12 animations, each of a point of its own, or two or more of one point, updated twice', params=[dict(n=n) for n in (6, 8, 12)])
def many_held(h, n):
    hold = AnimationHolder()
    ps = [Point(h.real('x%d' % i), h.real('y%d' % i)) for i in range(n)]
    ts = [Point(h.real('u%d' % i), h.real('v%d' % i)) for i in range(n)]
    k, j = h.choice('shared', [(None, 0), (1, 0), (n - 1, 0), (n - 1, n - 2), (n - 2, 2), (5, 4)])
    if k is not None:       # the later one moves the same point
        ps[k] = ps[j]
    twice = h.choice('one held twice', [None, 0, n - 1])
    o = [p.xy() for p in ps]
    anims = [AnimationLinear(p, t) for p, t in zip(ps, ts)]
    order = list(range(n)) + ([] if twice is None else [twice])
    for i in order:
        hold.add(anims[i])
    for t in (h.real('t1'), h.real('t2')):
        hold.update(t)
        want = {}
        for i in order:
            want[id(ps[i])] = (o[i][0] + t * (ts[i].x - o[i][0]), o[i][1] + t * (ts[i].y - o[i][1]))
        h.check('all updated, in the order added', h.eq([p.xy() for p in ps], [want[id(p)] for p in ps]))


@harness(bounds='7 updates of one animation at any times, some of them equal, the point or the target moved in between or not', params=[dict(kind=k) for k in KINDS])
def many_updates(h, kind):
    p = Point(h.real('x'), h.real('y'))
    ox, oy = p.xy()
    a, pos = mk_anim(h, kind, p) if kind in ('circular', 'generic') else (None, None)
    target = Point(h.real('gx'), h.real('gy'))
    if kind == 'linear':
        a, pos = AnimationLinear(p, target), lambda t, ox, oy: (ox + t * (target.x - ox), oy + t * (target.y - oy))
    elif kind == 'linear func':
        a, pos = AnimationLinearFunc(p, target, lambda t: 3 * t), lambda t, ox, oy: (ox + 3 * t * (target.x - ox), oy + 3 * t * (target.y - oy))
    elif kind == 'sinusoidal':
        def pos(t, ox, oy):
            s = (1 - math.cos(2 * math.pi * t)) / 2
            return ox + s * (target.x - ox), oy + s * (target.y - oy)
        a = AnimationSinusoidal(p, target)
    ts = [h.real('t%d' % i) for i in range(4)]
    moved = h.choice('moved', ['nothing', 'point', 'target'])
    for i, t in enumerate([ts[0], ts[1], ts[1], ts[2], ts[0], 0, ts[3]]):
        if moved == 'point' and i % 3 == 2:
            p.setxy(h.real('mx%d' % i), 1)
        if moved == 'target' and i % 3 == 2:
            target.setxy(h.real('mx%d' % i), 1)
        a.update(t)
        h.check('where the formula says', h.eq(p.xy(), pos(t, ox, oy)))
    h.check('original remembered', h.eq(a.orig.xy(), (ox, oy)))
