"""Generated outlines have the documented geometry"""
import math
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.utils import arc, circle, cross, plus, path_rotate, path_rotate_ccw, path_translate, path_to_xy, path_from_xy, check_point_list
from checks.common import mk_point, mk_vector


def on(h, deg, r, c):
    a = math.radians(deg)
    return c[0] + r * math.cos(a), c[1] + r * math.sin(a)


def mk_centre(h):
    if h.choice('centre', ['default', 'given']) == 'default':
        return {}, (0, 0)
    c = mk_point(h, 'c')
    return dict(c=c), c.xy()


@harness(bounds='all radii and centres, all real angles used as given, 1..4, 7 and 12 steps', params=[dict(n=n) for n in (1, 2, 3, 4, 7, 12)])
def plain(h, n):
    r, sa, ea = h.real('r'), h.real('sa'), h.real('ea')
    k, c = mk_centre(h)
    got = arc(r, sa, ea, steps=n, direction='none', **k)
    want = [on(h, sa + (ea - sa) * h.frac(i, n), r, c) for i in range(n + 1)]
    h.check('equally spaced', h.eq(got, want))
    for x, y in got:
        h.check('at the radius', h.eq((x - c[0]) ** 2 + (y - c[1]) ** 2, r * r))


@harness(bounds='all radii and centres; any start angle; sweep of any real angle from 0 up to a full turn, whole turns added to both angles; 1..3 and 8 steps; both directions',
         params=[dict(n=n, way=w) for n in (1, 2, 3, 8) for w in ('ccw', 'cw', 'default')])
def directed(h, n, way):
    r, sa, d = h.real('r'), h.real('sa', 0), h.real('d', 0)
    h.assume(h.and_(h.lt(sa, 360), h.lt(d, 360)))
    i, j = h.int('turns.start'), h.int('turns.end')     # any start angle is one in [0, 360) and whole turns
    k, c = mk_centre(h)
    if way != 'default':
        k['direction'] = way
    sweep = -d if way == 'cw' else d
    got = arc(r, sa + 360 * i, sa + sweep + 360 * j, steps=n, **k)
    want = [on(h, sa + sweep * h.frac(i, n), r, c) for i in range(n + 1)]
    h.check('from start to end in the direction asked for', h.eq(got, want))


@harness(bounds='any start angle, sweep of 0..4 degrees, one step per degree by default', params=[dict(way=w) for w in ('ccw', 'cw', 'none')], paths=500)
def default_steps(h, way):
    r, sa, d = h.real('r'), h.real('sa', 0), h.real('d', 0, 4)
    h.assume(h.lt(sa, 360))
    sweep = -d if way == 'cw' else d
    got = arc(r, sa, sa + sweep, direction=way)
    n = len(got) - 1
    h.check('steps of at most a degree', h.le(d, n))
    h.check('one step per degree', h.le(n, d + 1))
    h.check('on the arc', h.eq(got, [on(h, sa + sweep * h.frac(i, n), r, (0, 0)) for i in range(n + 1)]))


@harness(bounds='all radii and centres, 360 steps')
def circles(h):
    r = h.real('r')
    k, c = mk_centre(h)
    got = circle(r, **k)
    h.check('360 steps', len(got) == 361)
    for i in (0, 30, 45, 90, 135, 180, 225, 270, 300, 315, 360):
        h.check('at its angle', h.eq(got[i], on(h, i, r, c)))
    h.check('closed', h.eq(got[0], got[-1]))
    for x, y in got[:91:10]:
        h.check('at the radius', h.eq((x - c[0]) ** 2 + (y - c[1]) ** 2, r * r))


@harness(bounds='all radii and centres')
def marks(h):
    r = h.real('r')
    k, c = mk_centre(h)
    for fn, diag in ((cross, True), (plus, False)):
        got = fn(r, **k)
        h.check('five points through the centre', len(got) == 5 and h.eq(got[2], c))
        a, b, m, d, e = got
        h.check('arms are centred', h.eq(((a[0] + b[0]) / 2, (a[1] + b[1]) / 2), c) and h.eq(((d[0] + e[0]) / 2, (d[1] + e[1]) / 2), c))
        for p in (a, b, d, e):
            x, y = p[0] - c[0], p[1] - c[1]
            h.check('arms have the radius', h.eq(x * x + y * y, r * r))
            h.check('direction of arms', h.eq(x * x, y * y) if diag else h.eq(x * y, 0))
        h.check('arms are square to each other', h.eq((b[0] - a[0]) * (e[0] - d[0]) + (b[1] - a[1]) * (e[1] - d[1]), 0))


@harness(bounds='paths of 0..3, 8 and 11 points (the first plain, relative or calculated), any angle, result as points or pairs', params=[dict(n=n) for n in (0, 1, 2, 3, 8, 11)])
def rotate(h, n):
    pts = [mk_point(h, 'p%d' % i, ['abs', 'rel', 'calc'] if i == 0 else ['abs']) for i in range(n)]
    xy = [p.xy() for p in pts]
    a = h.angle('a')
    c, s = math.cos(math.radians(a)), math.sin(math.radians(a))
    for fn, sn in ((path_rotate_ccw, s), (path_rotate, -s)):
        want = [(c * x - sn * y, sn * x + c * y) for x, y in xy]
        got, gpt = fn(pts, a), fn(pts, a, as_pt=True)
        h.check('pairs', all(isinstance(g, tuple) for g in got) and h.eq(got, want))
        h.check('points', all(isinstance(g, Point) for g in gpt) and h.eq([g.xy() for g in gpt], want))
    h.check('path untouched', h.eq([p.xy() for p in pts], xy))
    for i in range(min(n, 1)):
        f = pts[0]
        (f if type(f) is Point else f.base if isinstance(f, PointRelative) else f.base.base).setxy(h.real('nx'), h.real('ny'))
        h.check('results stay', h.eq([got, [g.xy() for g in gpt]], [want, want]))


@harness(bounds='paths of 0..3, 8 and 11 points, any displacement given as point or vector; conversions both ways', params=[dict(n=n) for n in (0, 1, 2, 3, 8, 11)])
def translate(h, n):
    pts = [mk_point(h, 'p%d' % i, ['abs', 'rel', 'calc'] if i == 0 else ['abs']) for i in range(n)]
    xy = [p.xy() for p in pts]
    d = mk_point(h, 'd') if h.choice('by', ['point', 'vector']) == 'point' else mk_vector(h, 'd')
    dx, dy = d.xy()
    want = [(x + dx, y + dy) for x, y in xy]
    got, gpt = path_translate(pts, d), path_translate(pts, d, as_pt=True)
    h.check('pairs', all(isinstance(g, tuple) for g in got) and h.eq(got, want))
    h.check('points', all(isinstance(g, BasePoint) for g in gpt) and h.eq([g.xy() for g in gpt], want))
    h.check('path untouched', h.eq([p.xy() for p in pts], xy))
    to = path_to_xy(pts)
    h.check('to pairs', all(isinstance(g, tuple) for g in to) and h.eq(to, xy))
    back = path_from_xy(to)
    h.check('from pairs', all(type(p) is Point for p in back) and h.eq([p.xy() for p in back], xy))
    for i in range(min(n, 1)):
        f = pts[0]
        (f if type(f) is Point else f.base if isinstance(f, PointRelative) else f.base.base).setxy(h.real('nx'), h.real('ny'))
        h.check('results stay', h.eq([got, [g.xy() for g in gpt], to, [p.xy() for p in back]], [want, want, xy, xy]))
    check_point_list(pts)
    h.check('pairs are no points', n == 0 or h.raises(ValueError, lambda: check_point_list(to)))
    h.check('mixtures are no points', h.raises(ValueError, lambda: check_point_list(pts + [(1, 2)])))
    h.check('vectors are no points', h.raises(ValueError, lambda: check_point_list([Vector(1, 2)] + pts)))
