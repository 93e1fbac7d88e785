"""Width scaling and scale extraction follow the matrix columns"""
import math
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.transform import Transform, Transformer
from checks.common import mk_transform, affine


@harness(bounds='all matrices')
def scales(h):
    t = mk_transform(h, 't')
    m = t.as_6tuple()
    a, b, c, d, e, f = m
    sx, sy = t.scale_vals()
    h.check('two numbers', len(t.scale_vals()) == 2)
    h.check('not negative', h.and_(h.le(0, sx), h.le(0, sy)))
    h.check('length of the image of the unit x step', h.eq(sx * sx, a * a + d * d))
    h.check('length of the image of the unit y step', h.eq(sy * sy, b * b + e * e))
    o, u, v = t.transform(0, 0), t.transform(1, 0), t.transform(0, 1)
    h.check('as seen through transform (x)', h.eq(sx, math.hypot(u[0] - o[0], u[1] - o[1])))
    h.check('as seen through transform (y)', h.eq(sy, math.hypot(v[0] - o[0], v[1] - o[1])))
    h.check('transform unchanged', h.eq(t.as_6tuple(), m))


@harness(bounds='all matrices, all translations, all rotations afterwards')
def invariance(h):
    t = mk_transform(h, 't')
    sx, sy = t.scale_vals()
    op = h.choice('op', ['translate', 'rotate', 'rotate_ccw', 'about'])
    a = h.angle('a')
    if op == 'translate':
        t.translate(h.real('x'), h.real('y'))
    elif op == 'about':
        t.rotate_about(a, Point(h.real('x'), h.real('y')))
    else:
        getattr(t, op)(a)
    tx, ty = t.scale_vals()
    h.check('scales unchanged', h.and_(h.eq(tx * tx, sx * sx), h.eq(ty * ty, sy * sy), h.le(0, tx), h.le(0, ty)))


@harness(bounds='all matrices, all widths')
def width(h):
    t = mk_transform(h, 't')
    m = t.as_6tuple()
    w, k = h.real('w'), h.real('k')
    sx, sy = t.scale_vals()
    h.check('scaled by the average scale', h.eq(t.transform_width(w) * 2, w * (sx + sy)))
    h.check('proportional to the width', h.eq(t.transform_width(k * w), k * t.transform_width(w)))
    h.check('zero width', h.eq(t.transform_width(0), 0))
    h.check('transform unchanged', h.eq(t.as_6tuple(), m))


@harness(bounds='all similarity transforms (mirrored or not), all widths')
def similarity(h):
    k, w = h.real('k'), h.real('w')
    h.assume(k > 0)
    a = h.angle('a')
    t = Transform().scale(k, -k if h.choice('mirror', [0, 1]) else k).rotate(a).translate(h.real('x'), h.real('y'))
    sx, sy = t.scale_vals()
    h.check('both scales are the factor', h.and_(h.eq(sx * sx, k * k), h.eq(sy * sy, k * k), h.le(0, sx), h.le(0, sy)))
    r = t.transform_width(w)
    h.check('width times the factor', h.eq(r, k * w))
    h.assume(w >= 0)
    h.check('general transformers agree on similarities', h.eq(Transformer.transform_width(t, w), r))


@harness(bounds='all axis scalings')
def scaling(h):
    p, q, w = h.real('p'), h.real('q'), h.real('w')
    t = Transform().scale(p, q)
    h.check('absolute factors', h.eq(t.scale_vals(), (abs(p), abs(q))))
    h.check('width', h.eq(t.transform_width(w), w * (abs(p) + abs(q)) / 2))
