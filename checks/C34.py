"""Ellipses are ellipses"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.model import make_ellipse_cps, make_ellipse_p1p2_cps
from x7.geom.colors import PenBrush
from checks.common import segment, cubic, mk_dc, path_pts, same_handles, same_cyclic, mk_point, outline, IDENTITY

LOW, HIGH = 1 - 3e-4, 1 + 3e-4


def triples(cps):
    return [[c.c.xy(), c.l.xy(), c.r.xy()] for c in cps]


def make(h, how):
    """Control points with the centre and radii they should have"""
    if how == 'circle':
        c, r = mk_point(h, 'c'), h.real('r')
        return make_ellipse_cps(c, r), c.xy(), r, r
    if how == 'radii':
        c, rx, ry = mk_point(h, 'c'), h.real('rx'), h.real('ry')
        return make_ellipse_cps(c, rx, ry), c.xy(), rx, ry
    p, q = mk_point(h, 'p', ['abs']), mk_point(h, 'q', ['abs'])
    (px, py), (qx, qy) = p.xy(), q.xy()
    cps = make_ellipse_p1p2_cps(p, q) if how == 'corners' else ElemEllipse('e', PenBrush('red'), p, q).make_control_points()
    w, v = h.frac(1, 2) * (px - qx), h.frac(1, 2) * (py - qy)
    return cps, (h.frac(1, 2) * (px + qx), h.frac(1, 2) * (py + qy)), abs(w), abs(v)


HOW = [dict(how=w) for w in ('circle', 'radii', 'corners', 'element')]


@harness(bounds='all centres and radii (circle, two radii, two corners in any order, ellipse element)', params=HOW, merge=True)
def extremes(h, how):
    cps, (cx, cy), rx, ry = make(h, how)
    h.check('four control points', len(cps) == 4)
    got = [c.c.xy() for c in cps]
    want = [(cx + rx, cy), (cx, cy - ry), (cx - rx, cy), (cx, cy + ry)]
    for w in want:
        h.check('passes through every extreme point', h.or_(*[h.eq(g, w) for g in got]))
    h.check('extreme points in cyclic order', same_cyclic(h, got, want))


@harness(bounds='all centres and radii', params=HOW, merge=True)
def symmetric(h, how):
    cps, (cx, cy), rx, ry = make(h, how)
    tr = triples(cps)
    h.check('same left and right', same_handles(h, tr, [[(2 * cx - x, y) for x, y in q] for q in tr]))
    h.check('same above and below', same_handles(h, tr, [[(x, 2 * cy - y) for x, y in q] for q in tr]))


@harness(bounds='all centres and radii: every position of every quarter equals the scaled and moved position on the unit circle curve', params=HOW, merge=True)
def scaled_circle(h, how):
    cps, (cx, cy), rx, ry = make(h, how)
    unit = make_ellipse_cps(Point(0, 0), 1, 1)
    t = h.real('t', 0, 1)
    for i in range(4):
        x, y = cubic(segment(cps[i], cps[(i + 1) % 4]), t)
        u, v = cubic(segment(unit[i], unit[(i + 1) % 4]), t)
        h.check('scaled circle', h.eq((x, y), (cx + rx * u, cy + ry * v)))


@harness(bounds='unit circle, all positions on all quarters', params=[dict(i=i) for i in range(4)])
def deviation(h, i):
    unit = make_ellipse_cps(Point(0, 0), 1, 1)
    t = h.real('t', 0, 1)
    u, v = cubic(segment(unit[i], unit[(i + 1) % 4]), t)
    q = u * u + v * v
    h.check('not further than 0.03 percent inside', h.le(LOW * LOW, q))
    h.check('not further than 0.03 percent outside', h.le(q, HIGH * HIGH))


@harness(bounds='unit circle, all positions: the quarters stay in their quadrants and go round', params=[dict(i=i) for i in range(4)])
def quadrants(h, i):
    unit = make_ellipse_cps(Point(0, 0), 1, 1)
    t = h.real('t', 0, 1)
    a, b = unit[i].c.xy(), unit[(i + 1) % 4].c.xy()
    u, v = cubic(segment(unit[i], unit[(i + 1) % 4]), t)
    h.check('between its extreme points', h.and_(h.le(0, u * (a[0] + b[0])), h.le(0, v * (a[1] + b[1]))))
    h.check('next to each other', h.eq(a[0] * b[0] + a[1] * b[1], 0))


@harness(bounds='all corners: what an ellipse element draws is the scaled circle curve (whose deviation is bounded above) at equally spaced parameters', merge=True)
def drawn(h):
    p, q = mk_point(h, 'p', ['abs']), mk_point(h, 'q', ['abs'])
    e = ElemEllipse('e', PenBrush('red'), p, q)
    (px, py), (qx, qy) = p.xy(), q.xy()
    cx, cy = h.frac(1, 2) * (px + qx), h.frac(1, 2) * (py + qy)
    rx, ry = h.frac(1, 2) * abs(px - qx), h.frac(1, 2) * abs(py - qy)
    m, pts = h.mark(), path_pts(e.paths(mk_dc())[0])
    h.reset(m)
    h.check('closed', h.eq(pts[0], pts[-1]))
    n = len(pts) - 1
    h.check('equally many samples per quarter', n % 4 == 0 and n > 0)
    unit = outline(h, IDENTITY, make_ellipse_cps(Point(0, 0), 1, 1), True, n // 4)
    h.check('the scaled circle', same_cyclic(h, pts[:-1], [(cx + rx * u, cy + ry * v) for u, v in unit[:-1]], n // 4))
