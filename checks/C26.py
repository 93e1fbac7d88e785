"""Adding a control point never changes the curve"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.model import ElemCurve
from x7.geom.colors import PenBrush
from checks.common import POINT_KINDS, mk_cp, segment, cp_parts

KINDS = ['smooth', 'sharp', 'very-smooth']


def halves(seg, half):
    """de Casteljau at one half: control points of the two halves"""
    mid = lambda p, q: ((p[0] + q[0]) * half, (p[1] + q[1]) * half)
    a, b, c, d = seg
    ab, bc, cd = mid(a, b), mid(b, c), mid(c, d)
    abc, bcd = mid(ab, bc), mid(bc, cd)
    m = mid(abc, bcd)
    return [(a, ab, abc, m), (m, bcd, cd, d)]


def segs_of(cps, closed):
    return [segment(a, b) for a, b in zip(cps, cps[1:] + (cps[:1] if closed else []))]


def chord2(s):
    (ax, ay), (bx, by) = s[0], s[3]
    return (bx - ax) * (bx - ax) + (by - ay) * (by - ay)


def check_added(h, e, cps0, segs, closed, kinds):
    n = len(cps0)
    cps = e.control_points
    h.check('exactly one more control point', len(cps) == n + 1)
    new = segs_of(cps, closed)
    half = h.frac(1, 2)
    ok = []
    for k in range(len(segs)):
        e_segs = segs[:k] + halves(segs[k], half) + segs[k + 1:]
        e_kinds = kinds[:k + 1] + ['smooth'] + kinds[k + 1:]
        longest = h.and_(*[h.le(chord2(s), chord2(segs[k])) for s in segs])
        rots = [0, n] if closed and k == len(segs) - 1 else [0]
        for r in rots:
            es = e_segs[r:] + e_segs[:r]
            ek = e_kinds[r:] + e_kinds[:r]
            if [c.kind for c in cps] == ek:
                ok.append(h.and_(h.eq(new, es), longest))
    h.check('longest drawn segment split in the middle, all others and all kinds kept', h.or_(*ok) if ok else False)
    if not closed:
        h.check('outer handles of an open curve kept', h.eq((cps[0].dl, cps[-1].dr), (cps0[0][1], cps0[-1][2])))


@harness(bounds='curves of 1 to 3 control points, all values, open (2 or more) and closed',
         params=[dict(n=i, closed=c) for i, c in ((1, True), (2, True), (2, False), (3, True), (3, False))])
def add_one(h, n, closed):
    cps = [mk_cp(h, 'p%d' % i, ['smooth']) for i in range(n)]
    cps0, segs = [cp_parts(c) for c in cps], segs_of(cps, closed)
    e = ElemCurve('e', PenBrush('red'), cps, closed)
    e.add_one()
    check_added(h, e, cps0, segs, closed, ['smooth'] * n)
    h.check('name, pens and closedness kept', e.name == 'e' and e.closed is closed and e.penbrush == PenBrush('red'))


@harness(bounds='curves of 2 to 3 control points on a line, all handles, every kind of control point, open and closed',
         params=[dict(n=i, closed=c) for i in (2, 3) for c in (True, False)])
def kinds_kept(h, n, closed):
    kinds = [h.choice('k%d' % i, ['smooth', 'sharp'] if n > 2 else KINDS) for i in range(n)]
    from x7.geom.bezier import ControlPoint
    cps = [ControlPoint(Point(h.real('x%d' % i), 0), Vector(h.real('l%d' % i), h.real('m%d' % i)), Vector(h.real('r%d' % i), h.real('s%d' % i)), k)
           for i, k in enumerate(kinds)]
    cps0, segs = [cp_parts(c) for c in cps], segs_of(cps, closed)
    e = ElemCurve('e', PenBrush('red'), cps, closed)
    e.add_one()
    check_added(h, e, cps0, segs, closed, kinds)


@harness(bounds='curves of 4 control points on a line, all handles, fixed kinds', tier='thorough', time=300,
         params=[dict(closed=c) for c in (True, False)])
def kinds_kept_4(h, closed):
    from x7.geom.bezier import ControlPoint
    kinds = ['smooth', 'sharp', 'very-smooth', 'sharp']
    cps = [ControlPoint(Point(h.real('x%d' % i), 0), Vector(h.real('l%d' % i), h.real('m%d' % i)), Vector(h.real('r%d' % i), h.real('s%d' % i)), k)
           for i, k in enumerate(kinds)]
    cps0, segs = [cp_parts(c) for c in cps], segs_of(cps, closed)
    e = ElemCurve('e', PenBrush('red'), cps, closed)
    e.add_one()
    check_added(h, e, cps0, segs, closed, kinds)


@harness(bounds='curves of 2 control points on a line, two points added', params=[dict(closed=True), dict(closed=False)])
def add_two(h, closed):
    from x7.geom.bezier import ControlPoint
    cps = [ControlPoint(Point(h.real('x%d' % i), 0), Vector(h.real('l%d' % i), 0), Vector(h.real('r%d' % i), 0), 'sharp') for i in range(2)]
    e = ElemCurve('e', PenBrush('red'), cps, closed)
    e.add_one()
    mid = list(e.control_points)
    cps1, segs1, kinds1 = [cp_parts(c) for c in mid], segs_of(mid, closed), [c.kind for c in mid]
    e.add_one()
    check_added(h, e, cps1, segs1, closed, kinds1)


@harness(bounds='control points that depend on other points', params=[dict(closed=True), dict(closed=False)])
def dependent_points(h, closed):
    cps = [mk_cp(h, 'p%d' % i, ['smooth'], POINT_KINDS) for i in range(2)]
    cps0, segs = [cp_parts(c) for c in cps], segs_of(cps, closed)
    e = ElemCurve('e', PenBrush('red'), cps, closed)
    e.add_one()
    check_added(h, e, cps0, segs, closed, ['smooth'] * 2)


@harness(bounds='curves of 7 and 9 control points, one of them, any, far from the others by an arbitrary amount, all its handles; open and closed',
         params=[dict(n=n, closed=c) for n in (7, 9) for c in (True, False)])
def long_curves(h, n, closed):
    from x7.geom.bezier import ControlPoint
    which, far = h.choice('which', range(n)), h.real('far', 50)
    kinds = [KINDS[i % 3] for i in range(n)]
    cps = []
    for i in range(n):
        arb = i in (which, (which + 1) % n)
        cps.append(ControlPoint(Point(2 * i + (far if i == which else 0), i % 2), Vector(h.real('l%d' % i) if arb else -1, 1),
                                Vector(h.real('r%d' % i) if arb else 1, 2), kinds[i]))
    cps0, segs = [cp_parts(c) for c in cps], segs_of(cps, closed)
    e = ElemCurve('e', PenBrush('red'), cps, closed)
    e.add_one()
    check_added(h, e, cps0, segs, closed, kinds)
