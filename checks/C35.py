"""Rounded rectangles stay inside their box with the right corners"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.model import make_rounded_rect_cps, make_ellipse_cps
from x7.geom.colors import PenBrush
from checks.common import segment, cubic, mk_dc, path_pts, same_handles, same_cyclic, outline, IDENTITY

ORDERS = [(0, 0), (0, 1), (1, 0), (1, 1)]


class Box(object):
    """Corners in any order and a radius, with the lower left and upper right corner and the effective radius"""

    def __init__(self, h, order, how):
        a, b = h.real('x1'), h.real('y1')
        w, v = h.real('w', 0), h.real('h', 0)
        self.xl, self.yl, self.xh, self.yh = a, b, a + w, b + v
        self.w, self.v = w, v
        half_w, half_h = h.frac(1, 2) * w, h.frac(1, 2) * v
        if how == 'zero':
            self.radius = r = 0
        else:
            self.radius = r = h.real('r', 0)
            if how == 'small':
                h.assume(h.and_(r > 0, r < half_w, r < half_h))
            elif how == 'wide':
                h.assume(h.and_(r >= half_h, half_w > half_h, half_h > 0))
                r = half_h
            elif how == 'tall':
                h.assume(h.and_(r >= half_w, half_h > half_w, half_w > 0))
                r = half_w
            elif how == 'square':
                h.assume(h.and_(r >= half_w, w == v, w > 0))
                r = half_w
            elif how == 'flat':
                h.assume(h.or_(w == 0, v == 0))
                r = 0
        self.r = r
        xs = (self.xh, self.xl) if order[0] else (self.xl, self.xh)
        ys = (self.yh, self.yl) if order[1] else (self.yl, self.yh)
        self.p1, self.p2 = Point(xs[0], ys[0]), Point(xs[1], ys[1])

    def cps(self, how):
        if how:
            return ElemRectangleRounded('r', PenBrush('red'), self.p1, self.p2, self.radius).make_control_points()
        return make_rounded_rect_cps(self.p1, self.p2, self.radius)


HOW = ['zero', 'small', 'wide', 'tall', 'square', 'flat']
PARAMS = [dict(order=o, how=w) for o in ORDERS for w in HOW]


def segments(cps):
    return [segment(a, b) for a, b in zip(cps, cps[1:] + cps[:1])]


@harness(bounds='all corners in each order and all radii (zero, smaller than half the shorter side, clipped by either or both sides, flat boxes): '
                'every position of every segment', params=PARAMS, merge=True)
def inside(h, order, how):
    b = Box(h, order, how)
    t = h.real('t', 0, 1)
    for s in segments(b.cps(h.choice('elem', [0, 1]))):
        for x, y in s:
            # handles inside make the whole curve inside (convex hull); fall back to the curve itself otherwise
            if h.and_(b.xl <= x, x <= b.xh, b.yl <= y, y <= b.yh):
                continue
            x, y = cubic(s, t)
            h.check('inside the box', h.and_(h.le(b.xl, x), h.le(x, b.xh), h.le(b.yl, y), h.le(y, b.yh)))
    h.check('has segments', True)


@harness(bounds='all corners in each order and all radii', params=PARAMS, merge=True)
def sides(h, order, how):
    b = Box(h, order, how)
    pts = [c.c.xy() for c in b.cps(0)]
    for i, v in ((0, b.xl), (0, b.xh), (1, b.yl), (1, b.yh)):
        h.check('touches every side', h.or_(*[h.eq(p[i], v) for p in pts]))


@harness(bounds='all corners in each order and all radii: control points in order around the box', params=PARAMS, merge=True)
def corners(h, order, how):
    b, r = Box(h, order, how), None
    r = b.r
    cps = b.cps(0)
    if how == 'flat':
        for c in cps:
            x, y = c.c.xy()
            h.check('no radius fits: control points at the corners', h.and_(h.or_(h.eq(x, b.xl), h.eq(x, b.xh)), h.or_(h.eq(y, b.yl), h.eq(y, b.yh))))
    if how == 'flat':       # nothing to round: every segment lies on the flat box
        for s in segments(cps):
            for x, y in s:
                if h.and_(b.w == 0, b.v == 0):
                    h.check('a single place', h.and_(h.eq(x, b.xl), h.eq(y, b.yl)))
                h.check('handles within the flat box', h.and_(b.xl <= x, x <= b.xh, b.yl <= y, y <= b.yh))
        return
    want = [(b.xl + r, b.yl), (b.xh - r, b.yl), (b.xh, b.yl + r), (b.xh, b.yh - r), (b.xh - r, b.yh), (b.xl + r, b.yh), (b.xl, b.yh - r), (b.xl, b.yl + r)]
    drop = {'small': [], 'zero': [0, 2, 4, 6], 'wide': [2, 6], 'tall': [0, 4], 'square': [0, 2, 4, 6]}[how]
    if how == 'zero':
        h.assume(h.and_(b.w > 0, b.v > 0))
    want = [p for i, p in enumerate(want) if i not in drop]
    h.check('the ends of all arcs, in order', same_cyclic(h, [c.c.xy() for c in cps], want))
    # each segment is a straight side or a quarter of a circle of the radius
    unit = make_ellipse_cps(Point(0, 0), 1, 1)
    k = segment(unit[0], unit[1])           # from (1, 0) to (0, -1)
    arcs = lines = 0
    for s in segments(cps):
        side = [i for i in (0, 1) if h.and_(*[h.eq(p[i], s[0][i]) for p in s])]
        if side:
            lines += 1
            i = 1 - side[0]
            for p in s[1:3]:
                h.check('straight side does not double back', h.le((p[i] - s[0][i]) * (p[i] - s[3][i]), 0))
            continue
        arcs += 1
        alts = []
        for cx, dx in ((b.xl + r, -1), (b.xh - r, 1)):
            for cy, dy in ((b.yl + r, 1), (b.yh - r, -1)):
                arc = [(cx + dx * r * u, cy + dy * r * v) for u, v in k]
                alts += [h.eq(list(s), arc), h.eq(list(s), arc[::-1])]
        h.check('corner is a quarter circle of the radius', h.or_(*alts))
    h.check('as many corners and sides as needed',
            (arcs, lines) == {'small': (4, 4), 'zero': (0, 4), 'wide': (4, 2), 'tall': (4, 2), 'square': (4, 0)}[how])


@harness(bounds='all corners in each order and all radii', params=PARAMS, merge=True)
def symmetric(h, order, how):
    b = Box(h, order, how)
    if how == 'flat':
        return
    tr = [[c.c.xy(), c.l.xy(), c.r.xy()] for c in b.cps(0)]
    if how == 'zero':
        h.assume(h.and_(b.w > 0, b.v > 0))
    h.check('same left and right', same_handles(h, tr, [[(b.xl + b.xh - x, y) for x, y in q] for q in tr]))
    h.check('same above and below', same_handles(h, tr, [[(x, b.yl + b.yh - y) for x, y in q] for q in tr]))


@harness(bounds='all corners in each order: drawn outline follows the control points', params=[dict(order=o, how=w) for o in ORDERS[:2] for w in ('zero', 'small', 'wide', 'square')],
         merge=True)
def drawn(h, order, how):
    b = Box(h, order, how)
    e = ElemRectangleRounded('r', PenBrush('red'), b.p1, b.p2, b.radius)
    cps = b.cps(0)
    m, pts = h.mark(), path_pts(e.paths(mk_dc())[0])
    h.reset(m)
    n = (len(pts) - 1) // len(cps)
    h.check('closed', h.eq(pts[0], pts[-1]))
    h.check('the outline', h.eq(pts, outline(h, IDENTITY, cps, True, n)))
