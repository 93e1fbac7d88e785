"""Field construction, scaling, normalising and smoothing are sound"""
import numpy as np
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.vec_field import Mesh, VectorField

STUBS = 'random.uniform returns an arbitrary value of the range (rand_unit)'


def mk_mesh(h, n):
    x0, y0 = h.real('x0'), h.real('y0')
    return Mesh(BBox(x0, y0, x0 + h.real('w', 0, nz=True), y0 + h.real('hh', 0, nz=True)), n)


def values(h, n, only=None):
    return {(i, j): (h.real('u%d%d' % (i, j)), h.real('v%d%d' % (i, j))) if only is None or (i, j) in only else (0, 0)
            for i in range(n) for j in range(n)}


def mk_field(h, n, vals):
    vf = mk_mesh(h, n).zeros()
    for k, (u, v) in vals.items():
        vf.vx[k], vf.vy[k] = u, v
    return vf


def get(vf, k):
    return vf.vx[k], vf.vy[k]


def unchanged(h, vf, vals):
    h.check('original unchanged', h.eq([get(vf, k) for k in vals], [vals[k] for k in vals]))


@harness(bounds='all boxes given by any two corners, 2 to 5, 8 and 11 steps', params=[dict(n=n) for n in (2, 3, 4, 5, 8, 11)])
def mesh(h, n):
    x0, y0, x1, y1 = (h.real(k) for k in ('x0', 'y0', 'x1', 'y1'))
    m = Mesh(BBox(x0, y0, x1, y1), n)
    lo, hi = (min(x0, x1), min(y0, y1)), (max(x0, x1), max(y0, y1))
    h.check('as many steps in each direction', len(m.coord_x) == n and len(m.coord_y) == n)
    for cs, a, b in ((m.coord_x, lo[0], hi[0]), (m.coord_y, lo[1], hi[1])):
        h.check('from the low to the high side', h.eq((cs[0], cs[n - 1]), (a, b)))
        h.check('even steps', h.and_(*[h.eq((cs[i] - a) * (n - 1), (b - a) * i) for i in range(n)]))
    h.check('grid shape', m.x_grid.shape == (n, n) and m.y_grid.shape == (n, n) and tuple(m.x_shape) == (n, n))
    h.check('grid', h.and_(*[h.eq((m.x_grid[i, j], m.y_grid[i, j]), (m.coord_x[j], m.coord_y[i])) for i in range(n) for j in range(n)]))
    h.check('no field', h.and_(*[h.eq(get(m.zeros(), (i, j)), (0, 0)) for i in range(n) for j in range(n)]))
    h.check('mesh of field', m.zeros().mesh is m)


@harness(bounds='2x2, 3x3 and 7x7 meshes, all magnitudes and random numbers', params=[dict(n=2), dict(n=3), dict(n=7)], stubs=STUBS)
def uniform(h, n):
    m = h.real('m', 0)
    mesh = mk_mesh(h, n)
    a = mesh.uniform(m)
    for i in range(n):
        for j in range(n):
            u, v = get(a, (i, j))
            h.check('within the magnitude', h.and_(h.le(-m, u), h.le(u, m), h.le(-m, v), h.le(v, m)))
    h.check('mesh', a.mesh == mesh)


@harness(bounds='all 2x2, 3x3 and 8x8 fields and factors', params=[dict(n=n, one=o) for n in (2, 3, 8) for o in (True, False)])
def scaled(h, n, one):
    vals = values(h, n)
    vf = mk_field(h, n, vals)
    sx = h.real('sx')
    sy = sx if one else h.real('sy')
    r = vf.scaled(sx) if one else vf.scaled(sx, sy)
    for k, (u, v) in vals.items():
        h.check('scaled', h.eq(get(r, k), (sx * u, sy * v)))
    h.check('same mesh', r.mesh == vf.mesh)
    unchanged(h, vf, vals)


@harness(bounds='2x2 fields with 1 to 4 arbitrary vectors, not all zero', params=[dict(some=s) for s in (1, 2, 3)], time=200)
def normalized(h, some):
    ks = [(0, 0), (1, 0), (0, 1), (1, 1)]
    vals = values(h, 2, ks[4 - some:])
    h.assume(h.or_(*[h.ne(w, 0) for k in ks[4 - some:] for w in vals[k]]))
    vf = mk_field(h, 2, vals)
    r = vf.normalized()
    big = r.vx * r.vx + r.vy * r.vy
    h.check('none longer than one', h.and_(*[h.le(big[k], 1) for k in ks]))
    h.check('one of length one', h.or_(*[h.eq(big[k], 1) for k in ks]))
    for k in ks:
        (u, v), (x, y) = vals[k], get(r, k)
        h.check('direction kept', h.and_(h.eq(u * y, v * x), h.le(0, u * x + v * y)))
        # one common factor
        a, b = vals[ks[3]], get(r, ks[3])
        h.check('common factor', h.and_(h.eq(x * a[0], u * b[0]), h.eq(y * a[1], v * b[1])))
    h.check('same mesh', r.mesh == vf.mesh)
    unchanged(h, vf, vals)


@harness(bounds='all uniform fields other than zero on 2x2, 3x3 and 4x4 meshes', params=[dict(n=2), dict(n=3), dict(n=4)], time=100)
def smooth_uniform(h, n):
    u, v = h.real('u'), h.real('v')
    h.assume(h.or_(h.ne(u, 0), h.ne(v, 0)))
    vals = {(i, j): (u, v) for i in range(n) for j in range(n)}
    vf = mk_field(h, n, vals)
    r = vf.smoothed()
    x0, y0 = get(r, (0, 0))
    h.check('unit vectors', h.eq(x0 * x0 + y0 * y0, 1))
    h.check('same direction', h.and_(h.eq(x0 * v, y0 * u), h.le(0, x0 * u + y0 * v)))
    h.check('uniform', h.and_(*[h.eq(get(r, k), (x0, y0)) for k in vals]))
    unchanged(h, vf, vals)


@harness(bounds='2x2 and 3x3 fields of parallel vectors of any length and sign (one not zero): the result is a weighted mean with positive weights, normalised',
         params=[dict(n=2), dict(n=3)], time=200)
def smooth_line(h, n):
    ks = [(i, j) for i in range(n) for j in range(n)]
    some = ks[:2] if n == 3 else ks[1:3]
    w = {k: h.real('w%d%d' % k) for k in some}
    h.assume(h.or_(*[h.ne(x, 0) for x in w.values()]))
    vals = {k: (w.get(k, 0), 0) for k in ks}
    vf = mk_field(h, n, vals)
    r = vf.smoothed()
    h.check('still parallel', h.and_(*[h.eq(r.vy[k], 0) for k in ks]))
    lo, hi = min([*w.values(), 0]), max([*w.values(), 0])
    if lo == 0:
        h.check('not negative', h.and_(*[h.le(0, r.vx[k]) for k in ks]))
    if hi == 0:
        h.check('not positive', h.and_(*[h.le(r.vx[k], 0) for k in ks]))
    h.check('at most one', h.and_(*[h.and_(h.le(r.vx[k], 1), h.le(-1, r.vx[k])) for k in ks]))
    h.check('one of length one', h.or_(*[h.eq(r.vx[k] * r.vx[k], 1) for k in ks]))
    unchanged(h, vf, vals)


@harness(bounds='one arbitrary vector at any place of a 4x4 or 5x5 field, or two arbitrary horizontal ones in a 3x3 field: smoothing the field mirrored, or with its axes swapped, gives the mirrored result',
         params=[dict(n=3), dict(n=4), dict(n=5)], time=200)
def smooth_symmetric(h, n):
    ks = [(i, j) for i in range(n) for j in range(n)]
    if n == 3:
        u, w = h.real('u', 0, nz=True), h.real('w', 0, nz=True)
        vals = {k: (0, 0) for k in ks}
        vals[0, 0], vals[1, 2] = (u, 0), (w, 0)
    else:
        at = h.choice('at', ks)
        vals = {k: (h.real('u', 0, nz=True), 0) if k == at else (0, 0) for k in ks}
    how = h.choice('how', ['upright', 'sideways', 'swap'])
    turn = {'upright': lambda k: (n - 1 - k[0], k[1]), 'sideways': lambda k: (k[0], n - 1 - k[1]), 'swap': lambda k: (k[1], k[0])}[how]
    a, b = mk_field(h, n, vals).smoothed(), mk_field(h, n, {turn(k): v for k, v in vals.items()}).smoothed()
    h.check('alike', h.and_(*[h.eq(get(a, k), get(b, turn(k))) for k in ks]))


@harness(bounds='all 2x2, 3x3 and 7x7 fields', params=[dict(n=2), dict(n=3), dict(n=7)])
def copies(h, n):
    vals = values(h, n)
    vf = mk_field(h, n, vals)
    c = vf.copy()
    h.check('equal', c == vf and vf == c)
    h.check('values', h.eq([get(c, k) for k in vals], [vals[k] for k in vals]))
    k = h.choice('k', list(vals))
    d = h.real('d', nz=True)
    if h.choice('axis', ['x', 'y']) == 'x':
        c.vx[k] = vals[k][0] + d
    else:
        c.vy[k] = vals[k][1] + d
    h.check('not equal after a change', not c == vf and not vf == c)
    unchanged(h, vf, vals)


@harness(bounds='2x2 fields both of whose components are one array, or rows of one array: copies and scaled fields changed afterwards', stubs=STUBS,
         params=[dict(how=k) for k in ('copy', 'one', 'factor', 'smoothed')])
def one_array(h, how):
    ks = [(i, j) for i in (0, 1) for j in (0, 1)]
    a = np.array([[h.real('u00'), h.real('u01')], [h.real('u10'), h.real('u11')]]) if how != 'smoothed' else np.array([[0, 2], [0, 0]])
    vf = VectorField(Mesh(BBox(0, 0, 1, 1), 2), a, a)
    v0 = [a[k] for k in ks]
    r = dict(copy=lambda: vf.copy(), one=lambda: vf.scaled(1), factor=lambda: vf.scaled(h.real('s')), smoothed=lambda: vf.smoothed())[how]()
    x = [r.vx[k] for k in ks]
    h.check('components alike', h.eq(x, [r.vy[k] for k in ks]))
    h.check('as given', how not in ('copy', 'one') or h.eq(x, v0))
    r.vy += 1
    h.check('only one component changed', h.eq([[r.vx[k] for k in ks], [r.vy[k] for k in ks]], [x, [v + 1 for v in x]]))
    h.check('field as before', h.eq([a[k] for k in ks], v0))
    r.vx[0, 1] = 5
    h.check('field still as before', h.eq([a[k] for k in ks], v0))


@harness(bounds='all pairs of boxes, 2 or 3 steps: meshes are equal exactly when box and steps are')
def mesh_equality(h):
    a = [h.real(k) for k in ('a', 'b', 'c', 'd')]
    b = list(a)
    i = h.choice('i', [0, 1, 2, 3])
    b[i] = b[i] + h.real('e')
    n, m = h.choice('n', [2, 3]), h.choice('m', [2, 3])
    p, q = BBox(*a), BBox(*b)
    x, y = Mesh(p, n), Mesh(q, m)
    h.check('equal meshes', (x == y) == (n == m and bool(p == q)))
    h.check('fields on them', (x.zeros() == y.zeros()) == (n == m and bool(p == q)))
    h.check('not a mesh', not x == x.zeros() and not x.zeros() == x)


@harness(bounds='all 2x2 fields with arbitrary vectors; copies, fields scaled by any factor (also one and zero), normalised and smoothed fields, changed one by one or '
                'as a whole', params=[dict(how=k) for k in ('copy', 'one', 'ones', 'zero', 'factor', 'normalized', 'smoothed', 'zeros', 'uniform')], stubs=STUBS)
def aliasing(h, how):
    if how in ('normalized', 'smoothed'):
        # the longest vector has length 5, 1 or 2 (one: nothing to change)
        a, b = h.choice('long', [(3, 4), (1, 0), (0, -2)])
        vals = {(i, j): (0, 0) for i in (0, 1) for j in (0, 1)}
        vals[0, 1] = (a, b)
    else:
        vals = values(h, 2)
    make = dict(copy=lambda f: f.copy(), one=lambda f: f.scaled(1), ones=lambda f: f.scaled(1, 1), zero=lambda f: f.scaled(0),
                factor=lambda f: f.scaled(h.real('s'), 1), normalized=lambda f: f.normalized(), smoothed=lambda f: f.smoothed(),
                zeros=lambda f: f.mesh.zeros(), uniform=lambda f: f.mesh.uniform(h.real('s', 0)))[how]
    state = lambda f: [get(f, k) for k in vals]

    def change(f, tag):
        s0 = state(f)
        if h.choice(tag + 'way', ['one', 'all']) == 'one':
            k = h.choice(tag + 'at', list(vals))
            f.vx[k] = f.vx[k] + 1
            f.vy[k] = f.vy[k] - 2
            want = [(x + 1, y - 2) if i == k else (x, y) for i, (x, y) in zip(vals, s0)]
        else:
            f.vx += 1
            f.vy *= 2
            want = [(x + 1, y * 2) for x, y in s0]
        h.check('each component changed on its own', h.eq(state(f), want))
    vf = mk_field(h, 2, vals)
    r = make(vf)
    h.check('another field on the same mesh', r is not vf and r.mesh == vf.mesh)
    change(r, 'r')
    unchanged(h, vf, vals)
    r = make(vf)
    s0 = state(r)
    change(vf, 'o')
    h.check('result unchanged', h.eq(state(r), s0))
