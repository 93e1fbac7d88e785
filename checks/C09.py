"""Expanding and transforming boxes stays sound"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.transform import Transform


def box(h):
    x1, y1, x2, y2 = [h.real(n) for n in ('x1', 'y1', 'x2', 'y2')]
    h.assume(h.and_(x1 <= x2, y1 <= y2))
    return BBox(x1, y1, x2, y2)


@harness(bounds='all boxes, all growing and shrinking amounts, one or two amounts')
def expand(h):
    b = box(h)
    e = b.as_tuple()
    ex = h.real('ex')
    if h.choice('amounts', [1, 2]) == 2:
        ey = h.real('ey')
        r = b.expand(ex, ey)
    else:
        ey = ex
        r = b.expand(ex)
    w, t = b.width, b.height
    h.check('still normalised', h.and_(h.le(r.xl, r.xh), h.le(r.yl, r.yh)))
    h.check('edges move outwards by the amount (x)', h.implies(2 * ex >= -w, h.eq((r.xl, r.xh), (b.xl - ex, b.xh + ex))))
    h.check('edges move outwards by the amount (y)', h.implies(2 * ey >= -t, h.eq((r.yl, r.yh), (b.yl - ey, b.yh + ey))))
    h.check('never past the centre (x)', h.implies(2 * ex <= -w, h.eq((r.xl, r.xh), (b.center.x, b.center.x))))
    h.check('never past the centre (y)', h.implies(2 * ey <= -t, h.eq((r.yl, r.yh), (b.center.y, b.center.y))))
    h.check('centre unchanged', h.eq(r.center, b.center))
    h.check('original unchanged', h.eq(b, e))


def transform(h):
    return Transform(tuple(h.real(n) for n in 'abcdef'))


@harness(bounds='all boxes, all affine transforms', time=100)
def transformed(h):
    b = box(h)
    e = b.as_tuple()
    t = transform(h)
    a, bb, c, d, ee, f = t.as_6tuple()
    r = b.transformed(t)
    pts = [(a * x + bb * y + c, d * x + ee * y + f) for x in (b.xl, b.xh) for y in (b.yl, b.yh)]
    for k, (n, i) in enumerate((('xl', 0), ('yl', 1), ('xh', 0), ('yh', 1))):
        v = getattr(r, n)
        for p in pts:
            h.check('contains every transformed corner', h.le(v, p[i]) if n[1] == 'l' else h.le(p[i], v))
        h.check('every edge is reached by a corner', h.or_(*[h.eq(v, p[i]) for p in pts]))
    h.check('box and transform unchanged', h.and_(h.eq(b, e), h.eq(t.as_6tuple(), (a, bb, c, d, ee, f))))


@harness(bounds='all boxes, all affine transforms, all points of the box', time=100, paths=400)
def transformed_inside(h):
    b = box(h)
    t = transform(h)
    s, u = h.real('s', 0, 1), h.real('u', 0, 1)
    # the image of a point of the box is the same convex combination of the images of the corners
    x, y = b.xl + s * b.width, b.yl + u * b.height
    px, py = t.transform(x, y)
    (ax, ay), (bx, by), (cx, cy), (dx, dy) = [t.transform(*p) for p in (b.pll, b.phl, b.plh, b.phh)]
    h.check('image of an inner point is the combination of the corner images', h.eq(
        (px, py), ((1 - s) * (1 - u) * ax + s * (1 - u) * bx + (1 - s) * u * cx + s * u * dx,
                   (1 - s) * (1 - u) * ay + s * (1 - u) * by + (1 - s) * u * cy + s * u * dy)))
    # and such a combination stays between the bounds of the corners
    lo, hi = h.real('lo'), h.real('hi')
    v = [h.real('v%d' % i) for i in range(4)]
    for q in v:
        h.assume(h.and_(lo <= q, q <= hi))
    m = (1 - s) * (1 - u) * v[0] + s * (1 - u) * v[1] + (1 - s) * u * v[2] + s * u * v[3]
    h.check('a combination stays within the bounds', h.and_(h.le(lo, m), h.le(m, hi)))


@harness(bounds='all boxes, translations and scalings')
def transformed_simple(h):
    b = box(h)
    dx, dy, sx, sy = h.real('dx'), h.real('dy'), h.real('sx'), h.real('sy')
    h.check('translation', h.eq(b.transformed(Transform().translate(dx, dy)), (b.xl + dx, b.yl + dy, b.xh + dx, b.yh + dy)))
    r = b.transformed(Transform().scale(sx, sy))
    h.check('scaling scales the size', h.eq(r.size(), (abs(sx) * b.width, abs(sy) * b.height)))


@harness(bounds='expansion of the box with no coordinates; transformation of it')
def none_box(h):
    h.check('transforming nothing is an error', h.raises(ValueError, lambda: BBox(None).transformed(Transform())))
