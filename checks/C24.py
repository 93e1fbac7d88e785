"""Control points reverse, copy, restore, bound and transform consistently"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.transform import Transform
from x7.geom.bezier import ControlPoint
from checks.common import POINT_KINDS, VECTOR_KINDS, mk_cp, mk_transform, mk_warp, affine, cp_parts, segment, cubic

KINDS = ['smooth', 'sharp', 'very-smooth']


@harness(bounds='one control point of every kind, every class of point and vector, all values')
def reverse(h):
    a = mk_cp(h, 'a', KINDS, POINT_KINDS, VECTOR_KINDS)
    c, dl, dr = cp_parts(a)
    r = a.reversed()
    h.check('handles swapped', h.eq(cp_parts(r), (c, dr, dl)))
    h.check('left and right ends swapped', h.and_(h.eq(r.l, a.r), h.eq(r.r, a.l)))
    h.check('kind kept', r.kind == a.kind)
    h.check('original unchanged', h.eq(cp_parts(a), (c, dl, dr)))
    h.check('reversing twice is the original', h.eq(cp_parts(r.reversed()), (c, dl, dr)) and bool(r.reversed() == a))


@harness(bounds='lists of 0 to 4 control points, all values and parameters')
def reverse_list(h):
    n = h.choice('n', [0, 1, 2, 3, 4])
    cps = [mk_cp(h, 'p%d' % i, ['smooth']) for i in range(n)]
    if n > 1:
        same = h.choice('same', ['none', 'first and last', 'first two'])
        if same != 'none':
            cps[-1 if same == 'first and last' else 1] = cps[0]
    before = [cp_parts(c) for c in cps]
    r = ControlPoint.reverse_list(cps)
    h.check('same number', len(r) == n)
    h.check('original list unchanged', len(cps) == n and h.eq([cp_parts(c) for c in cps], before))
    t = h.real('t')
    for i in range(n - 1):
        h.check('segments traced backwards, in reverse order',
                h.eq(cubic(segment(r[n - 2 - i], r[n - 1 - i]), t), cubic(segment(cps[i], cps[i + 1]), 1 - t)))
    if n:
        h.check('first becomes last', h.eq(cp_parts(r[-1]), (before[0][0], before[0][2], before[0][1])))
        h.check('last becomes first', h.eq(cp_parts(r[0]), (before[-1][0], before[-1][2], before[-1][1])))


@harness(bounds='every class of point and vector, all values', merge=True)
def bounds(h):
    a = mk_cp(h, 'a', ['smooth'], POINT_KINDS, ['plain'])
    bb = a.bbox()
    (x, y), (lx, ly), (rx, ry) = a.c.xy(), a.l.xy(), a.r.xy()
    for u, v in ((x, y), (lx, ly), (rx, ry)):
        h.check('contains point and handle ends', h.and_(h.le(bb.xl, u), h.le(u, bb.xh), h.le(bb.yl, v), h.le(v, bb.yh)))
    h.check('tight', h.and_(h.or_(*[h.eq(bb.xl, q) for q in (x, lx, rx)]), h.or_(*[h.eq(bb.xh, q) for q in (x, lx, rx)]),
                            h.or_(*[h.eq(bb.yl, q) for q in (y, ly, ry)]), h.or_(*[h.eq(bb.yh, q) for q in (y, ly, ry)])))
    h.check('original unchanged', h.eq(a.c.xy(), (x, y)))


@harness(bounds='every class of point and vector, all values; every component changed afterwards')
def copies(h):
    a = mk_cp(h, 'a', KINDS, [k for k in POINT_KINDS if k != 'named'], ['plain'])    # copies of named points differ in the name
    how = h.choice('how', ['copy', 'fixed', 'restore'])
    before = cp_parts(a), a.kind
    if how == 'copy':
        b = a.copy()
        h.check('equal', bool(b == a) and bool(a == b))
    elif how == 'fixed':
        b = a.fixed()
        h.check('fixed gives a plain point', type(b.c) is Point)
    else:
        b = mk_cp(h, 'b')
        b.restore(a)
        h.check('equal', bool(b == a) and bool(a == b))
    h.check('same values', h.eq((cp_parts(b), b.kind), before))
    x, y = h.real('x'), h.real('y')
    p, q = (a, b) if h.choice('changed', [0, 1]) else (b, a)
    if isinstance(p.c, Point):
        p.c.setxy(x, y)
    elif isinstance(p.c, PointRelative):
        p.c.dx, p.c.dy = x, y
    else:
        p.c.scale = x
    p.dl.setxy(x, y)
    p.dr.setxy(y, x)
    p.kind = 'other'
    h.check('changing one does not change the other', h.eq((cp_parts(q), q.kind), before))


@harness(bounds='control points with dependent points and vectors, moved afterwards')
def fixed_is_detached(h):
    base = Point(h.real('bx'), h.real('by'))
    p, q = Point(h.real('px'), h.real('py')), Point(h.real('qx'), h.real('qy'))
    a = ControlPoint(PointRelative(h.real('dx'), h.real('dy'), base), p - q, q - p, 'sharp')
    before = cp_parts(a)
    f = a.fixed()
    base.setxy(h.real('x'), h.real('y'))
    p.setxy(h.real('u'), h.real('v'))
    h.check('fixed control point keeps the values', h.eq(cp_parts(f), before) and f.kind == 'sharp')


@harness(bounds='every class of point and vector, all kinds, all affine maps')
def affine_map(h):
    a = mk_cp(h, 'a', KINDS, POINT_KINDS, VECTOR_KINDS)
    t = mk_transform(h, 't')
    m = t.as_6tuple()
    before = cp_parts(a)
    b = a.transform(t)
    h.check('point mapped', h.eq(b.c, affine(m, *a.c.xy())))
    h.check('left handle end mapped', h.eq(b.l, affine(m, *a.l.xy())))
    h.check('right handle end mapped', h.eq(b.r, affine(m, *a.r.xy())))
    h.check('kind kept', b.kind == a.kind)
    h.check('original and transform unchanged', h.eq((cp_parts(a), t.as_6tuple()), (before, m)))
    c = a.transform(Transform())
    h.check('identity changes nothing', h.eq(cp_parts(c), before))


@harness(bounds='all control points of every kind; a non-linear map sending the three points anywhere', params=[dict(kind=k) for k in KINDS])
def warp(h, kind):
    a = mk_cp(h, 'a', [kind])
    imgs = [(h.real('%sx' % n), h.real('%sy' % n)) for n in 'clr']
    src = [a.c.xy(), a.l.xy(), a.r.xy()]
    for i in range(3):
        for j in range(i):
            h.assume(h.ne(src[i][0], src[j][0]))

    def fn(x, y):
        for s, d in zip(src, imgs):
            if bool(h.eq(x, s[0])):
                return d
        h.fail('mapped something else than the point and its handle ends')
        return imgs[0]
    before = cp_parts(a)
    b = a.transform(mk_warp(fn))
    (cx, cy), (lx, ly), (rx, ry) = imgs
    h.check('point mapped', h.eq(b.c, imgs[0]))
    h.check('kind kept', b.kind == kind)
    h.check('original unchanged', h.eq(cp_parts(a), before))
    (ux, uy), (vx, vy) = b.dl.xy(), b.dr.xy()
    if kind == 'sharp':
        h.check('handle ends mapped', h.eq((b.l, b.r), (imgs[1], imgs[2])))
    else:
        h.check('handles opposite in direction', h.or_(h.and_(h.eq(ux * vy, uy * vx), h.le(ux * vx + uy * vy, 0)),
                                                       h.and_(kind == 'smooth', h.eq(imgs[1], imgs[2]))))
    if kind == 'very-smooth':
        h.check('handles exactly opposite', h.eq((ux, uy), (-vx, -vy)))
        h.check('handles span the mapped handles', h.eq((vx + vx, vy + vy), (rx - lx, ry - ly)))
    if kind == 'smooth':
        sq = lambda x, y: x * x + y * y
        h.check('handle lengths kept', h.and_(h.eq(sq(ux, uy), sq(lx - cx, ly - cy)), h.eq(sq(vx, vy), sq(rx - cx, ry - cy))))


@harness(bounds='a smooth point whose handles stay opposite under a non-linear map')
def warp_keeps_smooth(h):
    """An already consistent smooth point is not disturbed"""
    dx, dy, k = h.real('dx'), h.real('dy'), h.real('k')
    h.assume(h.and_(k > 0, h.or_(dx != 0, dy != 0)))
    a = ControlPoint(Point(h.real('x'), h.real('y')), Vector(-k * dx, -k * dy), Vector(dx, dy))
    ox, oy = h.real('ox'), h.real('oy')
    before = cp_parts(a)
    b = a.transform(mk_warp(lambda x, y: (x + ox, y + oy)))
    h.check('moved without disturbing the handles', h.eq(cp_parts(b), ((before[0][0] + ox, before[0][1] + oy), before[1], before[2])))


@harness(bounds='lists of 6 to 12 control points, one of them, any, possibly the very one before it', params=[dict(n=n) for n in (6, 7, 9, 12)])
def long_list(h, n):
    cps = [mk_cp(h, 'p%d' % i, [KINDS[i % 3]]) for i in range(n)]
    k = h.choice('twin', [None] + list(range(n)))
    if k is not None:
        cps[k] = cps[k - 1]
    before, kinds = [cp_parts(c) for c in cps], [c.kind for c in cps]
    r = ControlPoint.reverse_list(cps)
    h.check('original list unchanged', len(cps) == n and h.eq([cp_parts(c) for c in cps], before))
    h.check('all of them in reverse order, handles swapped', len(r) == n and h.eq([cp_parts(c) for c in r], [(c, b, a) for c, a, b in before[::-1]]))
    h.check('kinds kept', [c.kind for c in r] == kinds[::-1])
