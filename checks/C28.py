"""Breaking up a self-crossing curve keeps every piece of it"""
from symx.harness import harness
import numpy as np
from x7.geom.geom import *
from x7.geom.bezier import ControlPoint, bez_self_intersect
from checks.common import segment, cubic, cp_parts, library_answers

STUB = 'bezier.Curve.intersect (library) answers exactly the assumed crossing and the touching end points'


def piece(seg, u, v):
    """Control points of the part of a cubic between two parameters (blossoming)"""
    def blossom(a, b, c):
        def lerp(p, q, w):
            return ((1 - w) * p[0] + w * q[0], (1 - w) * p[1] + w * q[1])
        p = seg
        for w in (a, b, c):
            p = [lerp(p[i], p[i + 1], w) for i in range(len(p) - 1)]
        return p[0]
    return blossom(u, u, u), blossom(u, u, v), blossom(u, v, v), blossom(v, v, v)


def curve_segs(cps):
    return [segment(a, b) for a, b in zip(cps, cps[1:] + cps[:1])]


def last_handle(seg, where, t):
    """Third control point that makes the cubic pass through a given point at t"""
    s = 1 - t
    a, b, d = seg
    return tuple((where[i] - s * s * s * a[i] - 3 * s * s * t * b[i] - t * t * t * d[i]) / (3 * s * t * t) for i in (0, 1))


def apart(h, *xs):
    """End points and crossing at clearly different x coordinates"""
    for i in range(len(xs)):
        for j in range(i):
            d = xs[i][0] - xs[j][0]
            h.assume(h.or_(d > h.frac(1, 10), d < -h.frac(1, 10)))


def answering(known, touching):
    """known: list of (seg, seg, (s, t))"""
    def answer(a, b):
        na, nb = [[tuple(p) for p in c.nodes.T.tolist()] for c in (a, b)]
        for sa, sb, (s, t) in known:
            if same(na + nb, list(sa) + list(sb)):
                return arr(touching + [(s, t)])
            if same(na + nb, list(sb) + list(sa)):
                return arr(touching + [(t, s)])
        return arr(touching)

    def arr(ps):
        return np.array([[p[0] for p in ps], [p[1] for p in ps]]) if ps else np.array([])
    return answer


def same(a, b):
    return HH.eq([list(p) for p in a], [list(p) for p in b]) is True


def check_pieces(h, res, pieces, n_curves, crossing, label=''):
    h.check('number of replacement curves', len(res) == n_curves)
    segs = [s for cps in res for s in curve_segs(cps)]
    h.check('as many segments as pieces', len(segs) == len(pieces))
    for p in pieces:
        h.check('every piece traced', h.or_(*[h.or_(h.eq(s, p), h.eq(s, p[::-1])) for s in segs]))
    for cps in res:
        for c in cps:
            if h.eq(c.c, crossing) is True:
                h.check('sharp corner at the crossing', c.kind == 'sharp')
        h.check('every curve passes through the crossing', any([h.eq(c.c, crossing) is True for c in cps]))


@harness(bounds='all closed two-point curves whose two segments cross at arbitrary inner parameters (1/20 to 19/20), end points and crossing at different x', stubs=STUB, params=[dict(touch=i) for i in (0, 1)])
def two_segments_cross(h, touch):
    global HH
    HH = h
    s, t = h.real('s', h.frac(1, 20), h.frac(19, 20)), h.real('t', h.frac(1, 20), h.frac(19, 20))
    A, B = (h.real('ax'), h.real('ay')), (h.real('bx'), h.real('by'))
    ar, bl, br = [(h.real(n + 'x'), h.real(n + 'y')) for n in ('ar', 'bl', 'br')]
    S1 = (A, (A[0] + ar[0], A[1] + ar[1]), (B[0] + bl[0], B[1] + bl[1]), B)
    X = cubic(S1, s)
    apart(h, A, B, X)
    al = last_handle((B, (B[0] + br[0], B[1] + br[1]), A), X, t)
    cps = [ControlPoint(Point(*A), Vector(al[0] - A[0], al[1] - A[1]), Vector(*ar)), ControlPoint(Point(*B), Vector(*bl), Vector(*br))]
    S1, S2 = segment(cps[0], cps[1]), segment(cps[1], cps[0])
    before = [cp_parts(c) for c in cps]
    with library_answers(answering([(S1, S2, (s, t))], [(1, 0), (0, 1)] if touch else [])):
        res = bez_self_intersect(cps)
    check_pieces(h, res, [piece(S1, 0, s), piece(S1, s, 1), piece(S2, 0, t), piece(S2, t, 1)], 2, X)
    h.check('each replacement is a loop of two pieces', all(len(c) == 2 for c in res))
    h.check('curve unchanged', h.eq([cp_parts(c) for c in cps], before) and len(cps) == 2)


@harness(bounds='all closed two-point curves of which one segment crosses itself (between its halves, parameters 1/20 to 19/20), end points and crossing at different x', stubs=STUB, params=[dict(which=i) for i in (0, 1)])
def one_segment_loops(h, which):
    global HH
    HH = h
    s, t = h.real('s', h.frac(1, 20), h.frac(19, 20)), h.real('t', h.frac(1, 20), h.frac(19, 20))
    A, B, p1 = [(h.real(n + 'x'), h.real(n + 'y')) for n in ('a', 'b', 'p')]
    u, v = s / 2, (1 + t) / 2
    # choose the third control point so that the cubic passes the same point at u and v
    w = lambda r: ((1 - r) * (1 - r) * (1 - r), 3 * (1 - r) * (1 - r) * r, 3 * (1 - r) * r * r, r * r * r)
    wu, wv = w(u), w(v)
    d = wu[2] - wv[2]
    h.assume(h.or_(d > h.frac(1, 50), d < -h.frac(1, 50)))
    p2 = tuple(((wv[0] - wu[0]) * A[i] + (wv[1] - wu[1]) * p1[i] + (wv[3] - wu[3]) * B[i]) / d for i in (0, 1))
    q1, q2 = [(h.real(n + 'x'), h.real(n + 'y')) for n in ('q', 'r')]
    vec = lambda p, q: Vector(q[0] - p[0], q[1] - p[1])
    cps = [ControlPoint(Point(*A), vec(A, q2), vec(A, p1)), ControlPoint(Point(*B), vec(B, p2), vec(B, q1))]
    if which:
        cps = cps[1:] + cps[:1]
    before = [cp_parts(c) for c in cps]
    loop, other = (segment(cps[which], cps[1 - which]), segment(cps[1 - which], cps[which]))
    X = cubic(loop, u)
    apart(h, A, B, X, cubic(loop, h.frac(1, 2)))
    h1, h2 = piece(loop, 0, h.frac(1, 2)), piece(loop, h.frac(1, 2), 1)
    with library_answers(answering([(h1, h2, (s, t))], [(1, 0)])):
        res = bez_self_intersect(cps)
    half = h.frac(1, 2)
    check_pieces(h, res, [piece(loop, 0, u), piece(loop, u, half), piece(loop, half, v), piece(loop, v, 1), other], 2, X)
    h.check('curve unchanged', h.eq([cp_parts(c) for c in cps], before) and len(cps) == 2)


@harness(bounds='all closed curves of 2, 3 or 8 points the library finds no crossings for', stubs=STUB, params=[dict(n=2), dict(n=3), dict(n=8)])
def no_crossing(h, n):
    global HH
    HH = h
    cps = [ControlPoint(Point(h.real('x%d' % i), h.real('y%d' % i)), Vector(h.real('l%d' % i), h.real('m%d' % i)),
                        Vector(h.real('r%d' % i), h.real('s%d' % i)), h.choice('k%d' % i, ['smooth', 'sharp']) if n < 4 else 'smooth') for i in range(n)]
    before = [cp_parts(c) for c in cps]
    touch = [[], [(1, 0)], [(1, 0), (0, 1)]][h.choice('touch', [0, 1, 2])]
    with library_answers(answering([], touch)):
        res = bez_self_intersect(cps)
    h.check('no replacement', len(res) == 0)
    h.check('curve unchanged', h.eq([cp_parts(c) for c in cps], before) and len(cps) == n)


@harness(bounds='closed curves of 3 or 4 arbitrary control points of which any two segments cross, or of 7 of which some do, at inner parameters (1/20 to 19/20), end points and crossing at different x',
         stubs=STUB, params=[dict(n=n, i=i, j=j) for n in (3, 4) for i in range(n) for j in range(i + 1, n)] + [dict(n=7, i=i, j=j) for i, j in ((0, 6), (2, 5), (5, 6))])
def longer_curves(h, n, i, j):
    global HH
    HH = h
    s, t = h.real('s', h.frac(1, 20), h.frac(19, 20)), h.real('t', h.frac(1, 20), h.frac(19, 20))
    P = [(h.real('x%d' % k), h.real('y%d' % k)) for k in range(n)]
    R = [(P[k][0] + h.real('rx%d' % k), P[k][1] + h.real('ry%d' % k)) for k in range(n)]
    L = [(P[(k + 1) % n][0] + h.real('lx%d' % k), P[(k + 1) % n][1] + h.real('ly%d' % k)) for k in range(n)]
    segs = [(P[k], R[k], L[k], P[(k + 1) % n]) for k in range(n)]
    X = cubic(segs[i], s)
    apart(h, X, *P)
    L[j] = last_handle((P[j], R[j], P[(j + 1) % n]), X, t)
    segs[j] = (P[j], R[j], L[j], P[(j + 1) % n])
    vec = lambda p, q: Vector(q[0] - p[0], q[1] - p[1])
    cps = [ControlPoint(Point(*P[k]), vec(P[k], L[k - 1]), vec(P[k], R[k]), ['smooth', 'sharp'][k % 2]) for k in range(n)]
    before = [cp_parts(c) for c in cps]
    with library_answers(answering([(segs[i], segs[j], (s, t))], [])):
        res = bez_self_intersect(cps)
    pieces = [piece(segs[i], 0, s), piece(segs[i], s, 1), piece(segs[j], 0, t), piece(segs[j], t, 1)] + [segs[k] for k in range(n) if k not in (i, j)]
    check_pieces(h, res, pieces, 2, X)
    h.check('the loop between the crossings on its own', sorted(len(c) for c in res) == sorted([j - i + 1, n - (j - i) + 1]))
    h.check('curve unchanged', h.eq([cp_parts(c) for c in cps], before) and len(cps) == n)


@harness(bounds='closed curves of a model, of two control points, whose segments cross at an arbitrary parameter each, with own transform (any translation; any upright or general matrix for '
                'curves that do not cross), every pen', stubs=STUB + '; plots of the curve left out', params=[dict(cross=i) for i in (0, 1)])
def model_curves(h, cross):
    global HH
    HH = h
    from x7.geom import model as M
    from x7.geom.colors import PenBrush
    from x7.geom.transform import Transform
    from checks.common import mk_transform, affine
    A, B = (h.real('ax'), h.real('ay')), (h.real('bx'), h.real('by'))
    ar, bl, br = [(h.real(n + 'x'), h.real(n + 'y')) for n in ('ar', 'bl', 'br')]
    if cross:
        s, t = h.real('s', h.frac(1, 20), h.frac(19, 20)), h.real('t', h.frac(1, 20), h.frac(19, 20))
        S1 = (A, (A[0] + ar[0], A[1] + ar[1]), (B[0] + bl[0], B[1] + bl[1]), B)
        X = cubic(S1, s)
        apart(h, A, B, X)
        al = last_handle((B, (B[0] + br[0], B[1] + br[1]), A), X, t)
        xf = Transform().translate(h.real('tx'), h.real('ty')) if h.choice('moved', [0, 1]) else None
    else:
        al = (h.real('alx'), h.real('aly'))
        xf = mk_transform(h, 'x')
    cps = [ControlPoint(Point(*A), Vector(al[0] - A[0], al[1] - A[1]), Vector(*ar)), ControlPoint(Point(*B), Vector(*bl), Vector(*br))]
    pb = h.choice('pen', [PenBrush('red'), PenBrush(('red', 2), 'blue')])
    e = M.ElemCurve('c', pb, cps, True, xform=xf)
    m = e.xform.as_6tuple()
    at = lambda p: affine(m, *p)
    S1, S2 = [tuple(at(p) for p in segment(a, b)) for a, b in ((cps[0], cps[1]), (cps[1], cps[0]))]
    before = [cp_parts(c) for c in cps]
    real = M.bez_self_intersect
    M.bez_self_intersect = lambda cps, debug=False: real(cps)
    try:
        with library_answers(answering([(S1, S2, (s, t))] if cross else [], [])):
            res = e.self_intersect()
    finally:
        M.bez_self_intersect = real
    h.check('curve unchanged', h.eq([cp_parts(c) for c in e.control_points], before) and h.eq(e.xform.as_6tuple(), m) and e.name == 'c')
    if not cross:
        h.check('no replacement', len(res) == 0)
        return
    h.check('closed curves in the style of the curve', all(type(r) is M.ElemCurve and r.closed is True and r.penbrush == pb for r in res))
    h.check('names of their own', [r.name for r in res] == ['c_i0', 'c_i1'])
    drawn = [r.control_points_transformed(r.xform) for r in res]
    check_pieces(h, drawn, [piece(S1, 0, s), piece(S1, s, 1), piece(S2, 0, t), piece(S2, t, 1)], 2, at(X))


@harness(bounds='pieces of 1..3 control points each, as many as there are, of an open or closed curve of a model with any transform, pen and number of control points',
         stubs='bez_self_intersect answers the given pieces (decided by the other harnesses)')
def model_pieces(h):
    from x7.geom import model as M
    from x7.geom.colors import PenBrush
    from checks.common import mk_elem, mk_transform, mk_cp, snap
    pb = h.choice('pen', [PenBrush('red'), PenBrush(('red', 2), 'blue')])
    e = mk_elem(h, 'curve', 'c', mk_transform(h, 'x'), pb, cps=h.choice('points', [1, 2]))
    sizes = h.choice('sizes', [(), (1,), (2,), (3,), (1, 1), (1, 2), (2, 3), (1, 2, 3), (8,), (1, 2, 1, 3, 1, 2, 1, 1)])
    pieces = [[mk_cp(h, 'p%d.%d' % (i, k), kinds=['sharp']) for k in range(n)] for i, n in enumerate(sizes)]
    s0 = snap(e)
    want = [[cp_parts(c) for c in p] for p in pieces]
    asked = []
    real = M.bez_self_intersect
    M.bez_self_intersect = lambda cps, debug=False: asked.append([cp_parts(c) for c in cps]) or [list(p) for p in pieces]
    try:
        res = e.self_intersect()
    finally:
        M.bez_self_intersect = real
    h.check('the curve as drawn is broken up', h.eq(asked, [[cp_parts(c) for c in e.control_points_transformed(e.xform)]]))
    h.check('a curve for each piece', len(res) == len(pieces) and all(type(r) is M.ElemCurve and r.closed is True and r.penbrush == pb for r in res))
    h.check('named in order', [r.name for r in res] == ['c_i%d' % i for i in range(len(pieces))])
    for r, w in zip(res, want):
        h.check('drawn as the piece', h.eq([cp_parts(c) for c in r.control_points_transformed(r.xform)], w))
    h.check('curve unchanged', h.eq(snap(e), s0))


def two_handles(A, B, X, t, Y, u):
    """Inner control points of the cubic from A to B which is at X at t and at Y at u"""
    w = lambda r: ((1 - r) ** 3, 3 * (1 - r) * (1 - r) * r, 3 * (1 - r) * r * r, r * r * r)
    a, b = w(t), w(u)
    det = a[1] * b[2] - a[2] * b[1]
    p, q = [], []
    for k in (0, 1):
        e = X[k] - a[0] * A[k] - a[3] * B[k]
        f = Y[k] - b[0] * A[k] - b[3] * B[k]
        p.append((e * b[2] - a[2] * f) / det)
        q.append((a[1] * f - e * b[1]) / det)
    return tuple(p), tuple(q)


@harness(bounds='closed two-point curves whose segments cross twice, in the same or opposite order, at arbitrary inner parameters (1/20 to 19/20) at least 1/20 apart', stubs=STUB, params=[dict(order=o) for o in ('same', 'opposite')])
def two_crossings(h, order):
    global HH
    HH = h
    lo, hi = h.frac(1, 20), h.frac(19, 20)
    s, t, u, v = h.real('s', lo, hi), h.real('t', lo, hi), h.real('u', lo, hi), h.real('v', lo, hi)
    h.assume(u - s > lo)
    h.assume(v - t > lo if order == 'same' else t - v > lo)
    P = [(h.real('x%d' % k), h.real('y%d' % k)) for k in range(2)]
    r, l = [(h.real(n + 'x'), h.real(n + 'y')) for n in 'rl']
    S1 = (P[0], r, l, P[1])
    X, Y = cubic(S1, s), cubic(S1, u)
    apart(h, X, Y, *P)
    p, q = two_handles(P[1], P[0], X, t, Y, v)
    S2 = (P[1], p, q, P[0])
    vec = lambda p, q: Vector(q[0] - p[0], q[1] - p[1])
    cps = [ControlPoint(Point(*P[0]), vec(P[0], q), vec(P[0], r)), ControlPoint(Point(*P[1]), vec(P[1], l), vec(P[1], p))]
    before = [cp_parts(c) for c in cps]
    with library_answers(answering2([(S1, S2, [(s, t), (u, v)])])):
        res = bez_self_intersect(cps)
    h.check('curve unchanged', h.eq([cp_parts(c) for c in cps], before))
    if order == 'opposite':
        t, v = v, t
    pieces = [piece(S1, 0, s), piece(S1, s, u), piece(S1, u, 1), piece(S2, 0, t), piece(S2, t, v), piece(S2, v, 1)]
    segs = [x for c in res for x in curve_segs(c)]
    h.check('as many segments as pieces', len(segs) == len(pieces))
    for p in pieces:
        h.check('every piece traced', h.or_(*[h.or_(h.eq(x, p), h.eq(x, p[::-1])) for x in segs]))


def answering2(known):
    def answer(a, b):
        na, nb = [[tuple(p) for p in c.nodes.T.tolist()] for c in (a, b)]
        for sa, sb, ps in known:
            if same(na + nb, list(sa) + list(sb)):
                return np.array([[p[0] for p in ps], [p[1] for p in ps]])
            if same(na + nb, list(sb) + list(sa)):
                return np.array([[p[1] for p in ps], [p[0] for p in ps]])
        return np.array([])
    return answer
