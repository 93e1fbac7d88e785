"""Shared constructors of symbolic objects"""
from x7.geom.geom import *

POINT_KINDS = ['abs', 'rel', 'calc', 'named', 'deep']
VECTOR_KINDS = ['plain', 'relative', 'own']


def mk_point(h, name, kinds=POINT_KINDS):
    k = h.choice(name + '.kind', kinds)
    if k == 'abs':
        return Point(h.real(name + '.x'), h.real(name + '.y'))
    if k == 'named':        # any two such points share the name
        return Point(h.real(name + '.x'), h.real(name + '.y'), 'p')
    base = Point(h.real(name + '.bx'), h.real(name + '.by'))
    rel = PointRelative(h.real(name + '.dx'), h.real(name + '.dy'), base)
    if k == 'rel':
        return rel
    if k == 'deep':         # a relative point on a relative point
        return PointRelative(h.real(name + '.ex'), h.real(name + '.ey'), rel, 'p')
    return PointCalc(rel, h.real(name + '.scale'))


def mk_vector(h, name, kinds=VECTOR_KINDS):
    k = h.choice(name + '.kind', kinds)
    if k == 'plain':
        return Vector(h.real(name + '.x'), h.real(name + '.y'))
    if k == 'own':          # between a relative point and the point it is relative to
        base = Point(h.real(name + '.ax'), h.real(name + '.ay'))
        return VectorRelative(PointRelative(h.real(name + '.x'), h.real(name + '.y'), base), base)
    return VectorRelative(Point(h.real(name + '.ax'), h.real(name + '.ay')), Point(h.real(name + '.bx'), h.real(name + '.by')))


def maybe_same(h, first, make):
    """Another object from make(), or the first one itself"""
    return first if h.choice('same object', [0, 1]) else make()


def related_point(h, first, name, kinds=POINT_KINDS):
    """Another point of any kind, the first one itself, or one that depends on it or on the point it depends on"""
    how = h.choice(name + '.related', ['apart', 'same', 'on it', 'base', 'beside'])
    base = getattr(first, 'base', None)
    if how == 'same':
        return first
    if how == 'on it':          # relative to the first, or computed from it
        if isinstance(first, PointRelative) and h.choice(name + '.calc', [0, 1]):
            return PointCalc(first, h.real(name + '.scale'))
        return PointRelative(h.real(name + '.dx'), h.real(name + '.dy'), first)
    if how == 'base' and base is not None:
        return base
    if how == 'beside' and base is not None:
        if isinstance(first, PointCalc):
            return PointCalc(base, h.real(name + '.scale'))
        return PointRelative(h.real(name + '.dx'), h.real(name + '.dy'), base)
    return mk_point(h, name, kinds)


def related_vector(h, first, name, kinds=VECTOR_KINDS):
    """Another vector of any kind, the first one itself, or one between the same points"""
    how = h.choice(name + '.related', ['apart', 'same', 'shared'])
    if how == 'same':
        return first
    if how == 'shared' and isinstance(first, VectorRelative):
        return VectorRelative(first._p2, Point(h.real(name + '.x'), h.real(name + '.y')))
    return mk_vector(h, name, kinds)


def mk_transform(h, name, invertible=False):
    """A transform with six arbitrary matrix entries"""
    from x7.geom.transform import Transform
    a, b, c, d, e, f = [h.real('%s.%s' % (name, n)) for n in 'abcdef']
    if invertible:
        h.assume(a * e - b * d != 0)
    return Transform((a, b, c, d, e, f))


def affine(m, x, y):
    """The textbook image of (x, y) under the six-tuple m"""
    a, b, c, d, e, f = m
    return a * x + b * y + c, d * x + e * y + f


def compose(m, n):
    """Six-tuple of: first n, then m"""
    a, b, c, d, e, f = m
    g, i, j, k, l, o = n
    return a * g + b * k, a * i + b * l, a * j + b * o + c, d * g + e * k, d * i + e * l, d * j + e * o + f


def det(m):
    return m[0] * m[4] - m[1] * m[3]


IDENTITY = (1, 0, 0, 0, 1, 0)


def cubic(pts, t):
    """Point at parameter t of the cubic with the four control points pts"""
    s = 1 - t
    w = (s * s * s, 3 * s * s * t, 3 * s * t * t, t * t * t)
    return tuple(sum(k * p[d] for k, p in zip(w, pts)) for d in (0, 1))


def mk_cp(h, name, kinds=('smooth', 'sharp', 'very-smooth'), points=('abs',), vectors=('plain',)):
    """A control point with arbitrary point, handles and kind"""
    from x7.geom.bezier import ControlPoint
    return ControlPoint(mk_point(h, name + '.c', list(points)), mk_vector(h, name + '.dl', list(vectors)),
                        mk_vector(h, name + '.dr', list(vectors)), h.choice(name + '.kind', list(kinds)))


def segment(a, b):
    """The four control points (as pairs) of the cubic from control point a to control point b"""
    (ax, ay), (bx, by) = a.c.xy(), b.c.xy()
    (rx, ry), (lx, ly) = a.dr.xy(), b.dl.xy()
    return (ax, ay), (ax + rx, ay + ry), (bx + lx, by + ly), (bx, by)


def cp_parts(cp):
    return cp.c.xy(), cp.dl.xy(), cp.dr.xy()


def mk_warp(fn):
    """A non-linear transformer mapping (x, y) to fn(x, y)"""
    from x7.geom.transform import Transformer

    class Warp(Transformer):
        LINEAR = False

        def transform_np_pts(self, np_pts):
            return [fn(x, y) + (1,) for x, y in np_pts[:2, :].T.tolist()]
    return Warp()


def mk_dc(t=None, ppc=3, **k):
    """A drawing context on a tiny image"""
    from PIL import Image
    from x7.geom.drawing import DrawingContext
    dc = DrawingContext(Image.new('RGBA', (2, 2)), t, **k)
    dc.points_per_curve = ppc
    return dc


def path_pts(path):
    """The points of a drawn path as a list of pairs"""
    return [tuple(p) for p in path.points.tolist()]


def outline(h, m, cps, closed, n):
    """What a curve of the given control points looks like under matrix m with n samples per segment"""
    out = []
    pairs = list(zip(cps, cps[1:] + (cps[:1] if closed else [])))
    for a, b in pairs:
        seg = [affine(m, *p) for p in segment(a, b)]
        pts = [cubic(seg, h.frac(k, n)) for k in range(n + 1)]
        out.extend(pts[1:] if out else pts)
    return out


class library_answers(object):
    """While active, the curve library's intersection is answered by fn(curve_a, curve_b)"""

    def __init__(self, fn):
        self.fn = fn

    def __enter__(self):
        from x7.geom import bezier as B
        self.cls, self.old = B.BzCurve, B.BzCurve.__dict__.get('intersect')
        fn = self.fn
        B.BzCurve.intersect = lambda a, b, *args, **k: fn(a, b)
        return self

    def __exit__(self, *exc):
        if self.old is None:
            del self.cls.intersect
        else:
            self.cls.intersect = self.old
        return False


def same_cyclic(h, a, b, stride=1):
    """The same closed sequence up to its starting point (a multiple of stride) and its direction"""
    a, b = list(a), list(b)
    n = len(a)
    if n != len(b):
        return False
    mark, alts = h.mark(), []
    for rev in (False, True):
        c = [b[-i] for i in range(n)] if rev else b
        for k in range(0, max(n, 1), stride):
            r = h.eq(a, c[k:] + c[:k])
            if r is True:
                h.reset(mark)
                return True
            alts.append(r)
    h.reset(mark)
    return h.or_(*alts)


ELEM_KINDS = ['curve', 'open', 'rect', 'ellipse', 'rrect', 'group', 'holes']


def mk_elem(h, kind, name='e', xform=None, pb=None, cps=2, cp_kinds=('smooth',), radius=None):
    """An element of the given kind with arbitrary coordinates"""
    from x7.geom import model as M
    from x7.geom.colors import PenBrush
    x = xform
    if kind in ('curve', 'open'):
        closed = kind == 'curve'
        return M.ElemCurve(name, pb or PenBrush('red'), [mk_cp(h, '%s%d' % (name, i), cp_kinds) for i in range(cps)], closed, x)
    if kind in ('rect', 'ellipse', 'rrect'):
        p1, p2 = Point(h.real(name + '.x1'), h.real(name + '.y1')), Point(h.real(name + '.x2'), h.real(name + '.y2'))
        pb = pb or PenBrush('red', 'blue')
        if kind == 'rect':
            return M.ElemRectangle(name, pb, p1, p2, xform=x)
        if kind == 'ellipse':
            return M.ElemEllipse(name, pb, p1, p2, xform=x)
        return M.ElemRectangleRounded(name, pb, p1, p2, h.real(name + '.radius', 0) if radius is None else radius, xform=x)
    if kind == 'group':
        return M.Group(name, pb or PenBrush('green'), xform=x,
                       elems=[mk_elem(h, 'rect', name + 'r'), mk_elem(h, 'curve', name + 'c', cps=cps)])
    if kind == 'holes':
        return M.ElemWithHoles(name, pb or PenBrush('green', 'grey'), mk_elem(h, 'curve', name + 'o', cps=cps),
                               [mk_elem(h, 'curve', name + 'i', cps=cps)], xform=x)
    raise ValueError(kind)


def shared_parts(h, name='e', n=3, xform=None, closed=True):
    """A curve some of whose control points are one object, share their point or their handles"""
    from x7.geom.model import ElemCurve
    from x7.geom.colors import PenBrush
    cps = [mk_cp(h, '%s%d' % (name, i), ('smooth',)) for i in range(n)]
    how = h.choice(name + '.shared', ['control point', 'next control point', 'point', 'all points', 'handles', 'handle'])
    if how == 'control point':
        cps[-1] = cps[0]
    elif how == 'next control point':
        cps[1] = cps[0]
    elif how == 'point':
        cps[1].c = cps[0].c
    elif how == 'all points':
        for cp in cps[1:]:
            cp.c = cps[0].c
    elif how == 'handles':
        for cp in cps:
            cp.dr = cp.dl
    else:
        cps[1].dl = cps[0].dr
    return ElemCurve(name, PenBrush('red'), cps, closed, xform)


def path_parts(paths):
    """Paths as comparable values: pens, closedness, points"""
    return [(p.penbrush, p.closed, path_pts(p)) for p in paths]


def ctl_parts(paths):
    """Control paths as comparable values: centre and handle ends of control points, plain points"""
    return [[[q.c.xy(), q.l.xy(), q.r.xy()] if hasattr(q, 'dl') else [tuple(q)] for q in p.points] for p in paths]


def snap(e):
    """Everything an element consists of"""
    from x7.geom.model import Group, ElemWithHoles, ElemCurve, ElemRectangleRounded
    out = [type(e).__name__, e.name, e.penbrush, e.closed, e.xform.as_6tuple()]
    if isinstance(e, Group):
        out += [e.hidden, list(e.elems), [snap(x) for x in e.elems.values()], [(k, e.points[k].xy()) for k in sorted(e.points)]]
    elif isinstance(e, ElemWithHoles):
        out += [snap(e.outside)] + [snap(x) for x in e.inside]
    elif isinstance(e, ElemCurve):
        out += [[(c.c.xy(), c.dl.xy(), c.dr.xy(), c.kind) for c in e.control_points]]
    else:
        out += [e.p1.xy(), e.p2.xy()] + ([e.radius] if isinstance(e, ElemRectangleRounded) else [])
    return out


def same_handles(h, x, y):
    """Control points up to starting point and direction (handles swap when the direction does)"""
    if len(x) != len(y):
        return False
    n = len(x)
    mark, alts = h.mark(), []
    for rev in (False, True):
        c = [y[-i] for i in range(n)] if rev else y
        if rev:
            c = [[q[0], q[2], q[1]] if len(q) == 3 else q for q in c]
        for k in range(n):
            r = h.eq(x, c[k:] + c[:k])
            if r is True:
                h.reset(mark)
                return True
            alts.append(r)
    h.reset(mark)
    return h.or_(*alts)


def decent(h, m):
    """Linear entries are zero or not tiny (the package treats tiny ones as zero), matrix invertible"""
    for v in (m[0], m[1], m[3], m[4]):
        h.assume(h.or_(v == 0, v >= 1e-6, v <= -1e-6))
    h.assume(det(m) != 0)


class FakeImage(object):
    """An image as the sequence of things drawn onto it"""

    def __init__(self, mode, size, content=(), cropped=None):
        self.mode, self.size, self.content, self.cropped = mode, tuple(size), list(content), cropped
        self.shown = 0

    def convert(self, mode):
        return FakeImage(mode, self.size, self.content, self.cropped)

    def copy(self):
        return FakeImage(self.mode, self.size, self.content, self.cropped)

    def crop(self, box=None):
        return FakeImage(self.mode, self.size, self.content, box if box is None else tuple(box))

    def show(self, *a, **k):
        self.shown += 1


def fake_points(p):
    p = p.tolist() if hasattr(p, 'tolist') else list(p)
    if p and not hasattr(p[0], '__len__') and not hasattr(p[0], 'xy'):
        p = list(zip(p[::2], p[1::2]))
    return [tuple(q.xy()) if hasattr(q, 'xy') else tuple(q) for q in p]


class FakeDraw(object):
    """Stands for PIL's ImageDraw: records what is drawn as (operation, points, colours and widths).  Like there,
    what is given no colour at all is drawn with the default one"""
    INK = 'default ink'

    def __init__(self, im, mode=None):
        self.im = im

    def line(self, xy, fill=None, width=0, joint=None):
        fill = self.INK if fill is None else fill
        self.im.content.append(('line', fake_points(xy), fill, width))

    def polygon(self, xy, fill=None, outline=None, width=1):
        outline = self.INK if fill is None and outline is None else outline
        self.im.content.append(('polygon', fake_points(xy), fill, outline))

    def ellipse(self, xy, fill=None, outline=None, width=1):
        self.im.content.append(('ellipse', fake_points(xy), fill, outline))

    def rectangle(self, xy, fill=None, outline=None, width=1):
        self.im.content.append(('rectangle', fake_points(xy), fill, outline))

    def point(self, xy, fill=None):
        self.im.content.append(('point', fake_points(xy), fill, None))

    def text(self, xy, text, fill=None, **k):
        self.im.content.append(('text', fake_points(xy), fill, text))


class fake_images(object):
    """While active, the package draws onto FakeImages"""

    def __enter__(self):
        import types
        from x7.geom import drawing as D, anim_simple as S, anim as A
        im = types.SimpleNamespace(Image=FakeImage)
        im.new = lambda mode, size, color=0: FakeImage(mode, size, [('background', color)] if color not in (0, (0, 0, 0, 0)) else [])

        def composite(a, b):
            if a.size != b.size or a.mode != 'RGBA' or b.mode != 'RGBA':
                raise ValueError('images do not match')
            return FakeImage('RGBA', a.size, a.content + b.content)
        im.alpha_composite = composite
        dr = types.SimpleNamespace(ImageDraw=FakeDraw, Draw=FakeDraw)
        self.old = [(m, n, getattr(m, n)) for m, n in ((D, 'Image'), (D, 'ImageDraw'), (S, 'Image'), (A, 'Image'))]
        for (m, n, o), v in zip(self.old, (im, dr, im, im)):
            setattr(m, n, v)
        return self

    def __exit__(self, *exc):
        for m, n, o in self.old:
            setattr(m, n, o)
        return False


def mutate(h, e, tag, what, boxes=True):
    """Change an element in place, everything it owns if asked to"""
    from x7.geom.model import ElemCurve, ElemWithHoles, ElemP1P2, ElemRectangleRounded, Group
    from x7.geom.colors import PenBrush
    if what in ('coords', 'all'):
        if isinstance(e, ElemCurve):
            for i, cp in enumerate(e.control_points):
                cp.c.setxy(h.real('%s%dx' % (tag, i)), h.real('%s%dy' % (tag, i)))
                cp.dl.setxy(h.real('%s%dlx' % (tag, i)), h.real('%s%dly' % (tag, i)))
                cp.dr.setxy(h.real('%s%drx' % (tag, i)), h.real('%s%dry' % (tag, i)))
                cp.kind = 'very-smooth' if cp.kind != 'very-smooth' else 'sharp'
        elif isinstance(e, ElemWithHoles):
            for j, m in enumerate([e.outside] + e.inside):
                mutate(h, m, '%sm%d' % (tag, j), 'all', False)
        elif isinstance(e, ElemP1P2):
            if boxes and h.choice(tag + 'how', ['bbox', 'points']) == 'bbox':
                e.bbox_int_update(BBox(h.real(tag + 'xl'), h.real(tag + 'yl'), h.real(tag + 'xh'), h.real(tag + 'yh')))
            else:
                e.p1.setxy(h.real(tag + 'xl'), h.real(tag + 'yl'))
                e.p2.set(Point(h.real(tag + 'xh'), h.real(tag + 'yh')))
            if isinstance(e, ElemRectangleRounded):
                e.radius = h.real(tag + 'rad', 0)
    if what == 'one part':      # any single coordinate pair, or the kind
        if isinstance(e, ElemCurve):
            cp = e.control_points[h.choice(tag + 'which', range(len(e.control_points)))]
            part = h.choice(tag + 'part', ['c', 'dl', 'dr', 'kind', 'new'])
            if part == 'kind':
                cp.kind = 'very-smooth' if cp.kind != 'very-smooth' else 'sharp'
            elif part == 'new':
                cp.dr = Vector(h.real(tag + 'x'), h.real(tag + 'y'))
            else:
                getattr(cp, part).setxy(h.real(tag + 'x'), h.real(tag + 'y'))
        else:
            part = h.choice(tag + 'part', ['p1', 'p2', 'radius'])
            if part != 'radius':
                getattr(e, part).setxy(h.real(tag + 'x'), h.real(tag + 'y'))
            elif hasattr(e, 'radius'):
                e.radius = h.real(tag + 'rad', 0)
    if what in ('xform', 'all'):
        e.xform.translate(h.real(tag + 'tx'), h.real(tag + 'ty')).scale(h.real(tag + 'sx'), h.real(tag + 'sy'))
    if what == 'xform replaced':
        e.xform = mk_transform(h, tag + 'new')
    if what in ('labels', 'all'):
        e.name = e.name + tag
        e.penbrush = PenBrush('orange') if e.penbrush != PenBrush('orange') else PenBrush('pink')
        if isinstance(e, ElemCurve) or isinstance(e, Group):
            e.closed = not e.closed
    if isinstance(e, Group) and what in ('labels', 'all'):
        e.hidden = not e.hidden


LONG = ('smooth', 'sharp', 'very-smooth')


def mk_long(h, name, n, kinds=LONG):
    """A long list of arbitrary control points of mixed kinds; one of them, any or none, in the place of the one before it (the first: of the last)"""
    from x7.geom.bezier import ControlPoint
    cps = [mk_cp(h, '%s%d' % (name, i), (kinds[i % len(kinds)],)) for i in range(n)]
    k = h.choice(name + '.twin', [None] + list(range(n)))
    if k is not None:
        cps[k].c = Point(*cps[k - 1].c.xy())
    return cps


def spaced(h, name, n, kinds=LONG, handles=True):
    """A long list of control points on a fixed zigzag, except one of them, any, which is anywhere and has arbitrary handles"""
    from x7.geom.bezier import ControlPoint
    k = h.choice(name + '.which', range(n))
    return [mk_cp(h, '%s%d' % (name, i), (kinds[i % len(kinds)],)) if i == k else
            ControlPoint(Point(3 * i, i * i % 7), Vector(-1, i % 3) if handles else Vector(0, 0), Vector(2, 1 - i % 2) if handles else Vector(0, 0),
                         kinds[i % len(kinds)]) for i in range(n)]


def mk_many(h, name, n, kinds=('rect', 'curve', 'open')):
    """Many elements with arbitrary coordinates, no transforms"""
    return [mk_elem(h, kinds[i % len(kinds)], '%s%d' % (name, i), cps=1 if kinds[i % len(kinds)] == 'curve' else 2) for i in range(n)]
