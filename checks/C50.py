"""Two-point arcs use a centre at the given radius on the requested side"""
import math
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.utils import arc2p

SIDES = {'default': None, '+': 1, '-': -1, '+s': 's', '-s': '-s'}


@harness(bounds='all pairs of distinct points at most a diameter apart and all radii (given by centre, bisector and half opening angle), both sides, 1 or 2 steps',
         params=[dict(n=n, side=s) for n in (1, 2) for s in SIDES], time=120)
def arcs(h, n, side):
    r, cx, cy = h.real('r', 0, nz=True), h.real('cx'), h.real('cy')
    a, b = h.angle('a', 2), h.angle('b', 2)
    ca, sa = math.cos(math.radians(a)), math.sin(math.radians(a))
    cb, sb = math.cos(math.radians(b)), math.sin(math.radians(b))
    # s and e lie at the half opening angle b on either side of the bisector a; any such pair is reached with 0 < b <= 90
    h.assume(h.and_(h.lt(0, sb), h.le(0, cb)))
    positive = SIDES[side] in (None, 1, 's')
    # the centre has to be on the right of s -> e for positive sides
    k = 1 if positive else -1
    at = lambda c, q: (cx + r * (ca * c - sa * q), cy + r * (sa * c + ca * q))
    s, e = at(cb, k * sb), at(cb, -k * sb)
    v = {'s': lambda: h.real('side', 0, nz=True), '-s': lambda: -h.real('side', 0, nz=True)}.get(SIDES[side], lambda: SIDES[side])()
    ps, pe = Point(*s), Point(*e)
    got = arc2p(r, ps, pe, n) if v is None else arc2p(r, ps, pe, steps=n, side=v)
    pts = got[-(n + 1):]
    h.check('all points are pairs', all(isinstance(p, tuple) for p in got))
    h.check('as many points as steps', len(got) in (n + 1, n + 4))
    if len(got) == n + 4:
        h.check('led by end, centre and start', h.eq(got[:3], [e, (cx, cy), s]))
    h.check('starts at the first point', h.eq(pts[0], s))
    h.check('ends at the second point', h.eq(pts[-1], e))
    for x, y in pts:
        h.check('at the radius from the centre on that side', h.eq((x - cx) * (x - cx) + (y - cy) * (y - cy), r * r))
    h.check('points unmoved', h.eq((ps.xy(), pe.xy()), (s, e)))


@harness(bounds='all pairs of points and radii: refused exactly when the points coincide or are further apart than the diameter')
def refused(h):
    r, x, y, d = h.real('r', 0), h.real('x'), h.real('y'), h.real('d')
    # distance along an axis
    s = Point(x, y)
    e = Point(x + d, y) if h.choice('axis', ['x', 'y']) == 'x' else Point(x, y + d)
    side = h.choice('side', [1, -1])
    bad = d == 0 or abs(d) > 2 * r
    if bad:
        h.check('refused', h.raises(ValueError, lambda: arc2p(r, s, e, 1, side)))
    else:
        got = arc2p(r, s, e, 1, side)
        h.check('made', h.eq(got[-1], e.xy()) and h.eq(got[-2], s.xy()))


@harness(bounds='points exactly a diameter apart: centre in the middle')
def diameter(h):
    r, cx, cy = h.real('r', 0, nz=True), h.real('cx'), h.real('cy')
    a = h.angle('a', 2)
    ca, sa = math.cos(math.radians(a)), math.sin(math.radians(a))
    got = arc2p(r, Point(cx - r * ca, cy - r * sa), Point(cx + r * ca, cy + r * sa), 2, h.choice('side', [1, -1]))
    for x, y in got[-3:]:
        h.check('at the radius', h.eq((x - cx) * (x - cx) + (y - cy) * (y - cy), r * r))
