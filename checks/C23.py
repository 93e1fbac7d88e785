"""Splitting a Bezier segment never changes the curve"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.bezier import ControlPoint, bez_split
from checks.common import POINT_KINDS, VECTOR_KINDS, mk_cp, segment, cubic, cp_parts


def traced(h, a, b, l, m, r, t):
    s = h.real('s')
    whole = segment(a, b)
    h.check('left part traces [0, t]', h.eq(cubic(segment(l, m), s), cubic(whole, t * s)))
    h.check('right part traces [t, 1]', h.eq(cubic(segment(m, r), s), cubic(whole, t + (1 - t) * s)))
    h.check('split point is on the curve at t', h.eq(m.c, cubic(whole, t)))
    h.check('outer handles kept', h.and_(h.eq(l.dl, a.dl), h.eq(r.dr, b.dr)))
    h.check('end points kept', h.and_(h.eq(l.c, a.c), h.eq(r.c, b.c)))
    (x, y), (u, v) = m.dl.xy(), m.dr.xy()
    h.check('joins with a continuous tangent', h.and_(h.eq(t * u, -(1 - t) * x), h.eq(t * v, -(1 - t) * y)))
    h.check('three control points', all(isinstance(c, ControlPoint) for c in (l, m, r)))
    h.check('middle point is smooth', m.kind == 'smooth')


@harness(bounds='all control points and handles, all split parameters (also outside 0..1), all evaluation parameters')
def split_at(h):
    a = mk_cp(h, 'a')
    b = a if h.choice('loop', [0, 1]) else mk_cp(h, 'b', ['smooth'])
    t = h.real('t')
    before = cp_parts(a), cp_parts(b), a.kind, b.kind
    l, m, r = bez_split(a, b, t)
    traced(h, a, b, l, m, r, t)
    h.check('inputs not modified', h.eq((cp_parts(a), cp_parts(b), a.kind, b.kind), before))


@harness(bounds='all control points and handles, default split parameter')
def split_half(h):
    a = mk_cp(h, 'a', ['smooth'])
    b = a if h.choice('loop', [0, 1]) else mk_cp(h, 'b', ['smooth'])
    l, m, r = bez_split(a, b)
    traced(h, a, b, l, m, r, h.frac(1, 2))


@harness(bounds='every class of point and vector in the control points, all values')
def any_class(h):
    a = mk_cp(h, 'a', ['smooth'], POINT_KINDS, VECTOR_KINDS)
    b = mk_cp(h, 'b', ['smooth'], POINT_KINDS, ['plain'])
    t = h.real('t')
    before = cp_parts(a), cp_parts(b)
    l, m, r = bez_split(a, b, t)
    traced(h, a, b, l, m, r, t)
    h.check('inputs not modified', h.eq((cp_parts(a), cp_parts(b)), before))


@harness(bounds='all segments, splitting the halves again')
def split_twice(h):
    a, b = mk_cp(h, 'a', ['smooth']), mk_cp(h, 'b', ['smooth'])
    t, u, s = h.real('t'), h.real('u'), h.real('s')
    l, m, r = bez_split(a, b, t)
    whole = segment(a, b)
    if h.choice('side', [0, 1]):
        p, q, w = bez_split(l, m, u)
        h.check('inner split of the left part', h.eq(cubic(segment(q, w), s), cubic(whole, t * (u + (1 - u) * s))))
    else:
        p, q, w = bez_split(m, r, u)
        h.check('inner split of the right part', h.eq(cubic(segment(p, q), s), cubic(whole, t + (1 - t) * (u * s))))


@harness(bounds='all segments and their reversals')
def reversal(h):
    a, b = mk_cp(h, 'a', ['smooth']), mk_cp(h, 'b', ['smooth'])
    t = h.real('t')
    l, m, r = bez_split(a, b, t)
    x, y, z = bez_split(b.reversed(), a.reversed(), 1 - t)
    for p, q in ((l, z), (m, y), (r, x)):
        h.check('splitting the reversed segment mirrors the parts', h.eq(cp_parts(p.reversed()), cp_parts(q)))
