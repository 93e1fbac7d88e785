"""Box fitting, canvas fitting and rotation about a centre hit their targets"""
import math
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.transform import Transform
from checks.common import mk_transform, affine, compose, det


def box(h, n, positive=True):
    x, y, w, t = [h.real(n + s) for s in ('x', 'y', 'w', 't')]
    h.assume(h.and_(w > 0, t > 0) if positive else h.and_(w >= 0, t >= 0))
    return BBox(x, y, x + w, y + t)


@harness(bounds='all start boxes of non-zero size, all target boxes (also empty ones)')
def fit(h):
    s, g = box(h, 's'), box(h, 'g', False)
    es, eg = s.as_tuple(), g.as_tuple()
    t = Transform()
    h.check('returns the transform itself', t.scale_bbox(s, g) is t)
    h.check('low corner to low corner', h.eq(t.transform(s.xl, s.yl), (g.xl, g.yl)))
    h.check('high corner to high corner', h.eq(t.transform(s.xh, s.yh), (g.xh, g.yh)))
    h.check('mixed corners', h.and_(h.eq(t.transform(s.xl, s.yh), (g.xl, g.yh)), h.eq(t.transform(s.xh, s.yl), (g.xh, g.yl))))
    h.check('boxes unchanged', h.and_(h.eq(s, es), h.eq(g, eg)))


@harness(bounds='all start boxes of non-zero size, all target boxes (also empty ones)')
def fit_keep_aspect(h):
    s, g = box(h, 's'), box(h, 'g', False)
    es, eg = s.as_tuple(), g.as_tuple()
    t = Transform()
    h.check('returns the transform itself', t.scale_bbox(s, g, keep_aspect=True) is t)
    a, b, c, d, e, f = t.as_6tuple()
    h.check('no rotation or skew', h.and_(h.eq(b, 0), h.eq(d, 0)))
    h.check('both axes scaled equally', h.eq(a, e))
    h.check('not mirrored', h.le(0, a))
    xl, yl = t.transform(s.xl, s.yl)
    xh, yh = t.transform(s.xh, s.yh)
    h.check('inside the target', h.and_(h.le(g.xl, xl), h.le(g.yl, yl), h.le(xh, g.xh), h.le(yh, g.yh)))
    h.check('centred', h.eq((xl + xh, yl + yh), (g.xl + g.xh, g.yl + g.yh)))
    h.check('touches the target in one dimension', h.or_(h.and_(h.eq(xl, g.xl), h.eq(xh, g.xh)), h.and_(h.eq(yl, g.yl), h.eq(yh, g.yh))))
    h.check('boxes unchanged', h.and_(h.eq(s, es), h.eq(g, eg)))


@harness(bounds='all boxes, all existing transforms')
def fit_after(h):
    s, g = box(h, 's'), box(h, 'g')
    keep = bool(h.choice('keep', [0, 1]))
    t = mk_transform(h, 't')
    m = t.as_6tuple()
    t.scale_bbox(s, g, keep_aspect=keep)
    f = Transform().scale_bbox(s, g, keep)
    h.check('the fit acts after the existing transform', h.eq(t.as_6tuple(), compose(f.as_6tuple(), m)))


@harness(bounds='all canvas sizes, zooms, origins and points')
def canvas(h):
    w, t, z, ox, oy, x, y = [h.real(n) for n in ('w', 't', 'z', 'ox', 'oy', 'x', 'y')]
    f = Transform.canvas_fit((w, t), z, (ox, oy))
    h.check('x to the right, y down', h.eq(f.transform(x, y), (z * x + ox, t - (z * y + oy))))
    h.check('model origin', h.eq(f.transform(0, 0), (ox, t - oy)))
    h.check('default origin', h.eq(Transform.canvas_fit((w, t), z).transform(x, y), (z * x, t - z * y)))
    h.check('default zoom', h.eq(Transform.canvas_fit((w, t)).transform(x, y), (x, t - y)))
    h.assume(z != 0)
    h.check('invertible', h.eq(f.untransform(*f.transform(x, y)), (x, y)))


@harness(bounds='all angles, all centres (absolute or relative), all points, all existing transforms')
def about(h):
    a = h.angle('a')
    cx, cy = h.real('cx'), h.real('cy')
    x, y = h.real('x'), h.real('y')
    ctr = Point(cx, cy) if h.choice('centre', [0, 1]) else PointRelative.fromxy(cx, cy, Point(h.real('bx'), h.real('by')))
    t = Transform()
    h.check('returns the transform itself', t.rotate_about(a, ctr) is t)
    h.check('centre stays', h.eq(t.transform(cx, cy), (cx, cy)))
    px, py = t.transform(x, y)
    h.check('distance to the centre is kept', h.eq((px - cx) ** 2 + (py - cy) ** 2, (x - cx) ** 2 + (y - cy) ** 2))
    h.check('rotates like rotate', h.eq((px - cx, py - cy), Transform().rotate(a).transform(x - cx, y - cy)))
    h.check('orientation is kept', h.eq(det(t.as_6tuple()), 1))
    h.check('centre unchanged', h.eq(ctr, (cx, cy)))
    u = mk_transform(h, 'u')
    m = u.as_6tuple()
    if h.choice('query', [0, 1]):
        h.assume(det(m) != 0)
        u.untransform(x, y)
    u.rotate_about(a, ctr)
    h.check('acts after the existing transform', h.eq(u.as_6tuple(), compose(t.as_6tuple(), m)))
    h.assume(det(u.as_6tuple()) != 0)
    h.check('inverse follows', h.eq(u.untransform(*u.transform(x, y)), (x, y)))
