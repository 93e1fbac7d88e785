"""Reported curve intersections match the requested form"""
from symx.harness import harness
import numpy as np
from x7.geom.geom import *
from x7.geom import bezier as B
from x7.geom.bezier import bez_intersect
from checks.common import POINT_KINDS, mk_cp, segment, cubic, cp_parts, library_answers


def mk_curves(h, points=('abs',)):
    cps = [mk_cp(h, n, ['smooth'], points) for n in ('a1', 'a2', 'b1', 'b2')]
    return cps, segment(cps[0], cps[1]), segment(cps[2], cps[3])


def mk_pairs(h, n):
    return [(h.real('s%d' % i, 0, 1), h.real('t%d' % i, 0, 1)) for i in range(n)]


def touching(p):
    return bool(p[0] == 1) and bool(p[1] == 0) or bool(p[0] == 0) and bool(p[1] == 1)


STUB = 'bezier.Curve.intersect (library) answers arbitrary parameter pairs in [0, 1]; Curve evaluation exact'


@harness(bounds='all curves; 0 to 2 (thorough: 3) arbitrary parameter pairs from the library; with and without end points', stubs=STUB,
         params=[dict(n=i) for i in (0, 1, 2)])
def reported(h, n):
    run(h, n)


@harness(bounds='3 arbitrary parameter pairs', stubs=STUB, tier='thorough')
def reported_3(h):
    run(h, 3)


def run(h, n):
    cps, sa, sb = mk_curves(h)
    pairs = mk_pairs(h, n)
    ends = bool(h.choice('endpoints', [0, 1]))
    before = [cp_parts(c) for c in cps]
    expect = [p for p in pairs if ends or not touching(p)]
    asked = []

    def answer(a, b):
        asked.append((a.nodes.T.tolist(), b.nodes.T.tolist()))
        return np.array([[p[0] for p in pairs], [p[1] for p in pairs]])
    with library_answers(answer):
        res = B.bez_intersect_new(*cps, endpoints=ends)
        pts = bez_intersect(*cps, as_points=True, endpoints=ends)
        par = bez_intersect(*cps, endpoints=ends)
    for a, b in asked:
        h.check('library asked about the two curves', h.eq((a, b), (sa, sb)))
    h.check('number of intersections', len(res) == len(expect) and len(pts) == len(expect))
    for (p, t, s), q, e in zip(res, pts, expect):
        h.check('parameters as reported, in order', h.eq((t, s), e))
        h.check('points are points', isinstance(p, Point) and isinstance(q, Point))
        h.check('point is the first curve at its parameter', h.eq(p, cubic(sa, e[0])))
        h.check('point form agrees', h.eq(q, cubic(sa, e[0])))
    if expect:
        h.check('parameter form: parameters of the first and of the second curve',
                h.eq(list(par), [[e[0] for e in expect], [e[1] for e in expect]]))
    else:
        h.check('parameter form empty', len(list(par)) == 0)
    h.check('control points unchanged', h.eq([cp_parts(c) for c in cps], before))


@harness(bounds='all curves; the library gives up', stubs=STUB)
def gives_up(h):
    cps, sa, sb = mk_curves(h)
    ends = bool(h.choice('endpoints', [0, 1]))

    def answer(a, b):
        raise NotImplementedError('too many candidates')
    with library_answers(answer):
        h.check('no intersections', len(B.bez_intersect_new(*cps, endpoints=ends)) == 0)
        h.check('no points', list(bez_intersect(*cps, endpoints=ends, as_points=True)) == [])
        h.check('no parameters', list(bez_intersect(*cps, endpoints=ends)) == [])


@harness(bounds='control points of every class; one parameter pair', stubs=STUB)
def dependent_points(h):
    cps, sa, sb = mk_curves(h, POINT_KINDS[1:])
    s, t = h.real('s', 0, 1), h.real('t', 0, 1)
    with library_answers(lambda a, b: np.array([[s], [t]])):
        res = bez_intersect(*cps, as_points=True, endpoints=True)
    h.check('one point on the first curve', len(res) == 1 and h.eq(res[0], cubic(sa, s)))
