"""Segment intersection is sound and finds every proper crossing"""
from symx.harness import harness
from x7.geom.geom import *


def seg(h, n):
    x, y, dx, dy = [h.real(n + k) for k in ('x', 'y', 'dx', 'dy')]
    return Line(Point(x, y), Vector(dx, dy)), (x, y, dx, dy)


def lo_hi(x, dx):
    return (x, x + dx) if dx >= 0 else (x + dx, x)


@harness(bounds='all pairs of segments', time=100)
def soundness(h):
    a, (ax, ay, adx, ady) = seg(h, 'a')
    b, (bx, by, bdx, bdy) = seg(h, 'b')
    try:
        r = a.segment_intersection(b)
    except ParallelLineError:
        h.check('only parallel segments are reported as parallel', h.eq(adx * bdy - ady * bdx, 0))
        return
    if r is None:
        return
    p, t, s = r
    px, py = p.xy()
    h.check('point lies on the first segment at its fraction', h.eq((px, py), (ax + t * adx, ay + t * ady)))
    h.check('point lies on the second segment at its fraction', h.eq((px, py), (bx + s * bdx, by + s * bdy)))
    h.check('fractions within 0 and 1', h.and_(h.le(0, t), h.le(t, 1), h.le(0, s), h.le(s, 1)))
    h.check('result is a point', isinstance(p, BasePoint))
    h.check('segments unchanged', h.eq((a.origin, a.direction, b.origin, b.direction), ((ax, ay), (adx, ady), (bx, by), (bdx, bdy))))


@harness(bounds='all pairs of segments that cross at interior fractions', time=100)
def completeness(h):
    # second segment chosen through a point of the first: every crossing pair has this form
    ax, ay, adx, ady = [h.real('a' + k) for k in ('x', 'y', 'dx', 'dy')]
    bdx, bdy = h.real('bdx'), h.real('bdy')
    t, s = h.real('t'), h.real('s')
    h.assume(h.and_(t > 0, t < 1, s > 0, s < 1))
    h.assume(adx * bdy - ady * bdx != 0)
    px, py = ax + t * adx, ay + t * ady
    a = Line(Point(ax, ay), Vector(adx, ady))
    b = Line(Point(px - s * bdx, py - s * bdy), Vector(bdx, bdy))
    r = a.segment_intersection(b)
    h.check('a proper crossing is reported', r is not None)
    if r is not None:
        h.check('at the crossing point', h.eq(r[0], (px, py)))
        h.check('with the crossing fractions', h.eq((r[1], r[2]), (t, s)))


@harness(bounds='all pairs of segments with disjoint boxes', time=100)
def disjoint(h):
    a, (ax, ay, adx, ady) = seg(h, 'a')
    b, (bx, by, bdx, bdy) = seg(h, 'b')
    axl, axh = lo_hi(ax, adx)
    bxl, bxh = lo_hi(bx, bdx)
    ayl, ayh = lo_hi(ay, ady)
    byl, byh = lo_hi(by, bdy)
    h.assume(h.or_(axh < bxl, bxh < axl, ayh < byl, byh < ayl))
    h.check('segments with disjoint boxes never intersect', a.segment_intersection(b) is None)


@harness(bounds='all pairs of segments of which one ends on the other, away from its ends, and whose boxes have positive area', time=100)
def touching(h):
    ax, ay, adx, ady = [h.real('a' + k) for k in ('x', 'y', 'dx', 'dy')]
    bdx, bdy = h.real('bdx'), h.real('bdy')
    t, s = h.choice('end', [0, 1]), h.real('s')
    h.assume(h.and_(s > 0, s < 1))
    for v in (adx, ady, bdx, bdy):
        h.assume(v != 0)
    h.assume(adx * bdy - ady * bdx != 0)
    px, py = ax + t * adx, ay + t * ady
    a = Line(Point(ax, ay), Vector(adx, ady))
    b = Line(Point(px - s * bdx, py - s * bdy), Vector(bdx, bdy))
    ends_first = h.choice('the one that ends', ['first', 'second']) == 'first'
    r = a.segment_intersection(b) if ends_first else b.segment_intersection(a)
    h.check('a meeting at an end is reported', r is not None)
    if r is not None:
        h.check('at the meeting point', h.eq(r[0], (px, py)))
        h.check('with the fractions of the meeting', h.eq((r[1], r[2]), (t, s) if ends_first else (s, t)))
