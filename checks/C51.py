"""Vector fields displace points by the interpolated field"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.transform import Transform
from x7.geom.vec_field import Mesh, VectorField
import numpy as np

STUBS = 'scipy.interpolate.RegularGridInterpolator is modelled as bilinear interpolation (validated against scipy on replay)'


def mk_field(h, n, vals=True):
    """(field, corner x, cell width, corner y, cell height, vx values, vy values) of a random field on an n x n mesh"""
    x0, y0 = h.real('x0'), h.real('y0')
    dx, dy = h.real('dx', 0, nz=True), h.real('dy', 0, nz=True)
    mesh = Mesh(BBox(x0, y0, x0 + dx * (n - 1), y0 + dy * (n - 1)), n)
    vf = mesh.zeros()
    us, vs = {}, {}
    for i in range(n):
        for j in range(n):
            us[i, j], vs[i, j] = h.real('u%d%d' % (i, j)), h.real('v%d%d' % (i, j))
            if vals:
                vf.vx[i, j], vf.vy[i, j] = us[i, j], vs[i, j]
    return vf, x0, dx, y0, dy, us, vs


def blend(a, i, j, s, t):
    return a[i, j] * (1 - s) * (1 - t) + a[i + 1, j] * s * (1 - t) + a[i, j + 1] * (1 - s) * t + a[i + 1, j + 1] * s * t


@harness(bounds='all boxes and field values of 2x2 and 3x3 meshes, each mesh point', params=[dict(n=2), dict(n=3)], stubs=STUBS, time=120)
def mesh_points(h, n):
    vf, x0, dx, y0, dy, us, vs = mk_field(h, n)
    i, j = h.choice('i', list(range(n))), h.choice('j', list(range(n)))
    p = x0 + dx * i, y0 + dy * j
    h.check('mesh coordinates', h.eq((vf.mesh.coord_x[i], vf.mesh.coord_y[j]), p))
    h.check('value of the mesh point', h.eq(vf.lookup(*p), (us[i, j], vs[i, j])))
    h.check('moved by the value of the mesh point', h.eq(vf.transform(*p), (p[0] + us[i, j], p[1] + vs[i, j])))


@harness(bounds='all boxes and field values of 4x4 meshes, each mesh point', params=[dict(n=4)], stubs=STUBS, time=300, tier='thorough')
def mesh_points_4(h, n):
    vf, x0, dx, y0, dy, us, vs = mk_field(h, n)
    i, j = h.choice('i', list(range(n))), h.choice('j', list(range(n)))
    p = x0 + dx * i, y0 + dy * j
    h.check('value of the mesh point', h.eq(vf.lookup(*p), (us[i, j], vs[i, j])))


WAYS = ['pair', 'point', 'point as pair', 'list of pairs', 'list of points', 'flat']


def displaced(h, vf, way, p, q):
    """Where p and q end up, by each of the ways to transform points"""
    if way == 'pair':
        return [vf.transform(*p), vf.transform(*q)]
    if way == 'point':
        a, b = vf.transform_pt(Point(*p)), vf.transform_pt(Point(*q))
        h.check('point', isinstance(a, Point) and isinstance(b, Point))
        return [a.xy(), b.xy()]
    if way == 'point as pair':
        return [vf.transform_pt(Point(*p), as_pt=False), vf.transform_pt(Point(*q), as_pt=False)]
    if way == 'list of pairs':
        r = vf.transform_pts([p, q])
        h.check('pairs', isinstance(r, list) and all(isinstance(x, tuple) and len(x) == 2 for x in r))
        return r
    if way == 'list of points':
        r = vf.transform_pts([Point(*p), Point(*q)])
        h.check('points', isinstance(r, list) and all(isinstance(x, Point) for x in r))
        return [x.xy() for x in r]
    r = vf.transform_pts([Point(*p), q], flatten=True)
    h.check('flat list', len(r) == 4)
    return [(r[0], r[1]), (r[2], r[3])]


@harness(bounds='all boxes and field values of 2x2 and 3x3 meshes, all points of each cell given by their place in the cell, '
                'a second point at a mesh point, every way of transforming points',
         params=[dict(n=n, way=w) for n in (2, 3) for w in WAYS], stubs=STUBS, time=150)
def cells(h, n, way):
    vf, x0, dx, y0, dy, us, vs = mk_field(h, n)
    i, j = h.choice('i', list(range(n - 1))), h.choice('j', list(range(n - 1)))
    s, t = h.real('s', 0, 1), h.real('t', 0, 1)
    p = x0 + dx * (i + s), y0 + dy * (j + t)
    q = x0 + dx * (n - 1), y0
    u, v = blend(us, i, j, s, t), blend(vs, i, j, s, t)
    h.check('interpolated', h.eq(vf.lookup(*p), (u, v)))
    a, b = displaced(h, vf, way, p, q)
    h.check('moved by the field', h.eq(a, (p[0] + u, p[1] + v)))
    h.check('second point moved by the field', h.eq(b, (q[0] + us[n - 1, 0], q[1] + vs[n - 1, 0])))
    h.check('field unchanged', h.and_(*[h.eq((vf.vx[k], vf.vy[k]), (us[k], vs[k])) for k in us]))


@harness(bounds='all boxes with 2x2 and 3x3 meshes, all points', params=[dict(n=n, way=w) for n in (2, 3) for w in WAYS], stubs=STUBS, time=100)
def nothing(h, n, way):
    vf, x0, dx, y0, dy, us, vs = mk_field(h, n, False)
    p = x0 + dx * (n - 1) * h.real('s', 0, 1), y0 + dy * (n - 1) * h.real('t', 0, 1)
    h.check('no displacement', h.eq(vf.lookup(*p), (0, 0)))
    h.check('identity', h.eq(displaced(h, vf, way, p, (x0, y0)), [p, (x0, y0)]))


@harness(bounds='all boxes and field values of 2x2 meshes, points in and outside of the box: outer cells are extended, every way of transforming points',
         params=[dict(way=w) for w in WAYS], stubs=STUBS)
def outside(h, way):
    vf, x0, dx, y0, dy, us, vs = mk_field(h, 2)
    s, t = h.real('s'), h.real('t')
    p = x0 + dx * s, y0 + dy * t
    q = x0 + dx * t, y0 + dy * s
    u, v = blend(us, 0, 0, s, t), blend(vs, 0, 0, s, t)
    h.check('extended', h.eq(vf.lookup(*p), (u, v)))
    a, b = displaced(h, vf, way, p, q)
    h.check('moved by the field', h.eq(a, (p[0] + u, p[1] + v)))
    h.check('second point moved by the field', h.eq(b, (q[0] + blend(us, 0, 0, t, s), q[1] + blend(vs, 0, 0, t, s))))


@harness(bounds='all fields on 2x2 meshes, lists of one to five, 8 and 11 points at once, all places within the box', merge=True,
         params=[dict(n=n) for n in (1, 2, 3, 4, 5, 8, 11)], stubs=STUBS)
def several(h, n):
    vf, x0, dx, y0, dy, us, vs = mk_field(h, 2)
    st = [(h.real('s%d' % i, 0, 1), h.real('t%d' % i, 0, 1)) for i in range(n)]
    pts = [(x0 + dx * s, y0 + dy * t) for s, t in st]
    want = [(p[0] + blend(us, 0, 0, *q), p[1] + blend(vs, 0, 0, *q)) for p, q in zip(pts, st)]
    h.check('pairs', h.eq(list(vf.transform_pts(list(pts))), want))
    r = vf.transform_pts([Point(*p) for p in pts])
    h.check('points', h.eq([p.xy() for p in r], want))
    h.check('flat list', h.eq(list(vf.transform_pts(list(pts), flatten=True)), [v for w in want for v in w]))


@harness(bounds='uniform fields on 2x2 and 3x3 meshes displace every control point by the same vector', params=[dict(n=2), dict(n=3)], stubs=STUBS)
def shift(h, n):
    x0, y0, dx, dy = h.real('x0'), h.real('y0'), h.real('dx', 0, nz=True), h.real('dy', 0, nz=True)
    u, v = h.real('u'), h.real('v')
    mesh = Mesh(BBox(x0, y0, x0 + dx, y0 + dy), n)
    vf = VectorField(mesh, np.full(mesh.x_shape, u), np.full(mesh.x_shape, v))
    x, y = h.real('x'), h.real('y')
    h.check('shifted', h.eq(vf.transform(x, y), (x + u, y + v)))
    h.check('same as translation', h.eq(vf.transform_pt(Point(x, y)).xy(), Transform().translate(u, v).transform(x, y)))


@harness(bounds='all 2x2 fields: fields made by copying, scaling or replacing values look up their own values even after a lookup in the original',
         params=[dict(op=o) for o in ('copy', 'scaled', 'copy and change')], stubs=STUBS)
def derived(h, op):
    vf, x0, dx, y0, dy, us, vs = mk_field(h, 2)
    p = x0 + dx, y0
    vf.lookup(*p)
    if op == 'scaled':
        k, m = h.real('k'), h.real('m')
        h.check('scaled lookup', h.eq(vf.scaled(k, m).lookup(*p), (k * us[1, 0], m * vs[1, 0])))
    else:
        c = vf.copy()
        if op == 'copy':
            h.check('lookup in copy', h.eq(c.lookup(*p), (us[1, 0], vs[1, 0])))
        else:
            k = h.real('k')
            m = h.real('m')
            c.vx[1, 0] = k
            c.vy[1, 0] = m
            h.check('lookup in changed copy', h.eq(c.lookup(*p), (k, m)))
            h.check('own values after changing the copy', h.and_(*[h.eq((vf.vx[q], vf.vy[q]), (us[q], vs[q])) for q in us]))
            vf.vx[0, 0] = vf.vy[0, 0] = k + m + 1
            h.check('values of the copy after changing the original', h.and_(*[h.eq((c.vx[q], c.vy[q]), (k, m) if q == (1, 0) else (us[q], vs[q])) for q in us]))
            h.check('copied once more, values of the copy', h.eq(c.copy().lookup(*p), (k, m)))
    h.check('original lookup', h.eq(vf.lookup(*p), (us[1, 0], vs[1, 0])))
