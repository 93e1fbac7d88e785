"""Rotations are rigid and the two directions are inverse"""
import math
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.transform import Transform
from checks.common import mk_transform, compose, det, IDENTITY


@harness(bounds='all angles, all points', params=[dict(ccw=0), dict(ccw=1)])
def rigid(h, ccw):
    a, b = h.angle('a'), h.angle('b')
    rot = (lambda t, x: t.rotate_ccw(x)) if ccw else (lambda t, x: t.rotate(x))
    back = (lambda t, x: t.rotate(x)) if ccw else (lambda t, x: t.rotate_ccw(x))
    t = Transform()
    h.check('returns the transform itself', rot(t, a) is t)
    px, py, qx, qy = [h.real(n) for n in ('px', 'py', 'qx', 'qy')]
    p, q = t.transform(px, py), t.transform(qx, qy)
    h.check('distances are kept', h.eq((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2, (px - qx) ** 2 + (py - qy) ** 2))
    h.check('signed areas are kept', h.eq(p[0] * q[1] - p[1] * q[0], px * qy - py * qx))
    h.check('origin stays', h.eq(t.transform(0, 0), (0, 0)))
    h.check('angles add up', h.eq(rot(rot(Transform(), a), b).as_6tuple(), rot(Transform(), a + b).as_6tuple()))
    h.check('the other direction undoes it', h.eq(back(t.copy(), a).as_6tuple(), IDENTITY))
    h.check('the negative angle undoes it', h.eq(rot(t.copy(), -a).as_6tuple(), IDENTITY))
    h.check('a full turn is nothing', h.eq(rot(Transform(), a + 360).as_6tuple(), t.as_6tuple()))
    h.check('widths are kept', h.eq(t.transform_width(3), 3))


@harness(bounds='all angles, all vectors')
def direction(h):
    a = h.angle('a')
    x, y = h.real('x'), h.real('y')
    v = Vector(x, y).rotate(a)
    h.check('counter-clockwise form matches vector rotation', h.eq(Transform().rotate_ccw(a).transform(x, y), v))
    h.check('plain form rotates the other way', h.eq(Transform().rotate(a).transform(x, y), Vector(x, y).rotate(-a)))
    h.check('plain form is the inverse matrix', h.eq(Transform().rotate(a).untransform(x, y), v))
    h.check('quarter turn counter-clockwise', h.eq(Transform().rotate_ccw(90).transform(x, y), (-y, x)))
    h.check('quarter turn of the plain form', h.eq(Transform().rotate(90).transform(x, y), (y, -x)))
    h.check('half turn', h.and_(h.eq(Transform().rotate(180).transform(x, y), (-x, -y)),
                                h.eq(Transform().rotate_ccw(180).transform(x, y), (-x, -y))))


@harness(bounds='all existing transforms, all angles')
def after(h):
    a = h.angle('a')
    t = mk_transform(h, 't')
    m = t.as_6tuple()
    ccw = h.choice('ccw', [0, 1])
    r = Transform()
    (r.rotate_ccw if ccw else r.rotate)(a)
    (t.rotate_ccw if ccw else t.rotate)(a)
    h.check('acts after the existing transform', h.eq(t.as_6tuple(), compose(r.as_6tuple(), m)))
    h.check('determinant unchanged', h.eq(det(t.as_6tuple()), det(m)))
    (t.rotate if ccw else t.rotate_ccw)(a)
    h.check('and is undone', h.eq(t.as_6tuple(), m))
