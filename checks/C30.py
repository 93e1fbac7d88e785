"""The bounding box of an element encloses everything it draws"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.colors import PenBrush
from x7.geom.transform import Transform
from checks.common import mk_elem, mk_cp, mk_transform, mk_dc, path_pts, affine, shared_parts, POINT_KINDS, spaced


def inside(h, bb, p):
    x, y = p
    return h.and_(h.le(bb.xl, x), h.le(x, bb.xh), h.le(bb.yl, y), h.le(y, bb.yh))


def check_box(h, e, ppc=2, label='every drawn point inside the box'):
    bb = e.bbox()
    for p in e.paths(mk_dc(None, ppc)):
        for q in path_pts(p):
            h.check(label, inside(h, bb, q))
    h.check('centre of the element is the centre of the box',
            h.and_(h.eq(e.center().x * 2, bb.xl + bb.xh), h.eq(e.center().y * 2, bb.yl + bb.yh)))
    return bb


def touches(h, bb, pts):
    h.check('tight', h.and_(h.or_(*[h.eq(bb.xl, x) for x, y in pts]), h.or_(*[h.eq(bb.xh, x) for x, y in pts]),
                            h.or_(*[h.eq(bb.yl, y) for x, y in pts]), h.or_(*[h.eq(bb.yh, y) for x, y in pts])))


@harness(bounds='open and closed curves of 1 to 3 control points, no own transform, 1 to 3 samples per segment', merge=True,
         params=[dict(kind=k, n=n, s=s) for k in ('curve', 'open') for n in (1, 2, 3) for s in (1, 2, 3)])
def curve(h, kind, n, s):
    e = mk_elem(h, kind, cps=n)
    check_box(h, e, s)


@harness(bounds='open and closed curves of 2 or 3 control points that are one object or share points or handles', merge=True, params=[dict(n=2), dict(n=3)])
def curve_shared(h, n):
    check_box(h, shared_parts(h, 'e', n, closed=h.choice('closed', [True, False])), 1 if n == 3 else 2)


@harness(bounds='curves of one and two control points with an arbitrary own transform', merge=True, params=[dict(n=1), dict(n=2)])
def curve_transformed(h, n):
    e = mk_elem(h, 'curve', cps=n, xform=mk_transform(h, 'x'))
    check_box(h, e, 2)


@harness(bounds='rectangles with arbitrary corners, own transform arbitrary or none', merge=True, params=[dict(x=0), dict(x=1)])
def rectangle(h, x):
    e = mk_elem(h, 'rect', xform=mk_transform(h, 'x') if x else None)
    bb = check_box(h, e)
    pts = path_pts(e.paths(mk_dc())[0])
    h.check('box exact for a rectangle', h.and_(*[h.or_(*[h.eq(v, p[i]) for p in pts]) for i, v in enumerate(bb.as_tuple()[:2])] +
                                                [h.or_(*[h.eq(v, p[i]) for p in pts]) for i, v in enumerate(bb.as_tuple()[2:])]))


@harness(bounds='ellipses and rounded rectangles with arbitrary corners, no own transform', merge=True, params=[dict(kind='ellipse'), dict(kind='rrect')])
def rounded(h, kind):
    e = mk_elem(h, kind)
    if kind == 'rrect':
        (ax, ay), (bx, by) = e.p1.xy(), e.p2.xy()
        h.assume(h.and_(ax < bx, ay < by))
    bb = check_box(h, e)
    (ax, ay), (bx, by) = e.p1.xy(), e.p2.xy()
    touches(h, bb, [(ax, ay), (bx, by)])


@harness(bounds='ellipses with arbitrary corners and own transform', merge=True, time=120)
def ellipse_transformed(h):
    e = mk_elem(h, 'ellipse', xform=mk_transform(h, 'x'))
    check_box(h, e)


@harness(bounds='rounded rectangles of arbitrary corners and radius (also none) with arbitrary own transform: the centre; without radius also the box', merge=True)
def rounded_transformed(h):
    r = h.choice('radius', [0, None])
    e = mk_elem(h, 'rrect', xform=mk_transform(h, 'x'), radius=h.real('r', 0) if r is None else r)
    bb = e.bbox()
    h.check('centre of the element is the centre of the box',
            h.and_(h.eq(e.center().x * 2, bb.xl + bb.xh), h.eq(e.center().y * 2, bb.yl + bb.yh)))
    if r == 0:
        check_box(h, e)


@harness(bounds='curves of 1 to 3 control points with straight (zero) handles, no own transform', merge=True,
         params=[dict(n=n, closed=c) for n in (1, 2, 3) for c in (True, False)])
def straight_tight(h, n, closed):
    cps = [ControlPoint(Point(h.real('x%d' % i), h.real('y%d' % i)), Vector(), Vector(), 'sharp') for i in range(n)]
    e = ElemCurve('e', PenBrush('red'), cps, closed)
    bb = check_box(h, e)
    touches(h, bb, [c.c.xy() for c in cps])


@harness(bounds='groups of a rectangle and a curve with arbitrary own transform, nested in a translated or scaled group or not', merge=True,
         params=[dict(nest=n) for n in (0, 1)])
def group(h, nest):
    e = Group('g', PenBrush('red'), xform=mk_transform(h, 'x'), elems=[mk_elem(h, 'rect', 'r'), mk_elem(h, 'curve', 'c', cps=1)])
    if nest:
        e = Group('o', PenBrush('red'), xform=Transform((h.real('sx'), 0, h.real('tx'), 0, h.real('sy'), h.real('ty'))), elems=[e])
    check_box(h, e)


@harness(bounds='a group of one group of one element or group, each with its own translation and scaling, and next to a rectangle or not', merge=True)
def group_single(h):
    def xf(n):
        return Transform((h.real(n + '.sx'), 0, h.real(n + '.tx'), 0, h.real(n + '.sy'), h.real(n + '.ty')))
    e = mk_elem(h, 'rect', 'r')
    for i in range(h.choice('depth', [1, 2])):
        e = Group('i%d' % i, PenBrush('red'), xform=xf('x%d' % i), elems=[e])
    more = {'none': [], 'after': [mk_elem(h, 'rect', 'q')], 'same': [e]}[h.choice('more', ['none', 'after', 'same'])]
    check_box(h, Group('o', PenBrush('red'), xform=xf('xo'), elems=dict(enumerate([e] + more))))


@harness(bounds='groups of two scaled and translated rectangles', merge=True)
def group_of_transformed(h):
    def xf(n):
        return Transform((h.real(n + '.sx'), 0, h.real(n + '.tx'), 0, h.real(n + '.sy'), h.real(n + '.ty')))
    e = Group('g', PenBrush('red'), elems=[mk_elem(h, 'rect', 'r', xform=xf('x')), mk_elem(h, 'rect', 'q', xform=xf('y'))])
    check_box(h, e)


@harness(bounds='a shape with 0 to 2 holes whose box lies within the outside; outside, holes and shape with own translation and scaling',
         merge=True, params=[dict(n=n, which=w) for n in (0, 1, 2) for w in ('outside', 'shape', 'both') if n < 2 or w == 'outside'])
def holes(h, n, which):
    def xf(name, on):
        return Transform((h.real(name + '.sx'), 0, h.real(name + '.tx'), 0, h.real(name + '.sy'), h.real(name + '.ty'))) if on else None
    out = mk_elem(h, 'rect', 'o', xform=xf('xo', which != 'shape'))
    ins = [mk_elem(h, 'rect', 'i%d' % k, xform=xf('xi%d' % k, k == 0 and which == 'outside')) for k in range(n)]
    ob = out.bbox()
    for i in ins:
        b = i.bbox()
        h.assume(h.and_(ob.xl <= b.xl, b.xh <= ob.xh, ob.yl <= b.yl, b.yh <= ob.yh))
    e = ElemWithHoles('e', PenBrush('red', 'blue'), out, ins, xform=xf('x', which != 'outside'))
    check_box(h, e)


@harness(bounds='two-corner elements, all boxes', merge=True, params=[dict(kind=k) for k in ('rect', 'ellipse', 'rrect')])
def update(h, kind):
    x = mk_transform(h, 'x')
    m = x.as_6tuple()
    e = mk_elem(h, kind, xform=x)
    r = e.radius if kind == 'rrect' else 0
    xl, yl, w, t = h.real('xl'), h.real('yl'), h.real('w', 0), h.real('t', 0)
    bb = BBox(xl, yl, xl + w, yl + t)
    e.bbox_int_update(bb)
    h.check('internal box is the requested one', h.eq(e.bbox_int().as_tuple(), (xl, yl, xl + w, yl + t)))
    h.check('own transform and box kept', h.eq((e.xform.as_6tuple(), bb.as_tuple()), (m, (xl, yl, xl + w, yl + t))))
    h.check('radius kept', h.eq(e.radius if kind == 'rrect' else 0, r))
    bb.grow(Point(xl + w + 1, yl))
    h.check('independent of the box afterwards', h.eq(e.bbox_int().as_tuple(), (xl, yl, xl + w, yl + t)))


@harness(bounds='every element kind: asking for the box changes nothing', merge=True, params=[dict(kind=k) for k in ('curve', 'rect', 'ellipse', 'rrect', 'group')])
def pure(h, kind):
    e = mk_elem(h, kind, xform=mk_transform(h, 'x'), radius=1)
    f = e.copy()
    a, b = e.bbox().as_tuple(), e.bbox_int().as_tuple()
    e.center()
    h.check('same boxes again', h.eq((e.bbox().as_tuple(), e.bbox_int().as_tuple()), (a, b)))
    h.check('element unchanged', bool(e == f))


@harness(bounds='empty group')
def empty_group(h):
    from x7.geom.model import GeomInternalError
    h.check('an empty group has no box', h.raises(GeomInternalError, lambda: Group('g', PenBrush('red')).bbox_int()))


@harness(bounds='a group and its members holding one transform object or equal ones, scaling and translation arbitrary', merge=True,
         params=[dict(how=w) for w in ('group and member', 'members', 'all', 'equal')])
def shared_transform(h, how):
    m = (h.real('sx'), 0, h.real('tx'), 0, h.real('sy'), h.real('ty'))
    x = Transform(m)
    y = Transform(m) if how == 'equal' else x
    a, b = mk_elem(h, 'rect', 'a', xform=y), mk_elem(h, 'rect', 'b', xform=None if how == 'group and member' else y)
    check_box(h, Group('g', PenBrush('red'), elems=[a, b], xform=None if how == 'members' else x))


@harness(bounds='curves of 7 to 12 control points, one of them, any, anywhere with arbitrary handles', merge=True, params=[dict(kind=k, n=n) for k in ('curve', 'open') for n in (7, 9, 12)])
def long_curve(h, kind, n):
    e = ElemCurve('e', PenBrush('red'), spaced(h, 'p', n), kind == 'curve')
    check_box(h, e, 1)


@harness(bounds='groups of 5 to 12 members and shapes with as many holes, one of them, any, anywhere', merge=True,
         params=[dict(how=w, n=n) for w in ('group', 'holes') for n in (5, 6, 7, 9, 12)])
def many_members(h, how, n):
    k = h.choice('which', range(n))
    es = [mk_elem(h, 'rect', 'm') if i == k else ElemRectangle('m%d' % i, PenBrush('red'), Point(3 * i % 7, i), Point(3 * i % 7 + 2, i + 1 + i % 3)) for i in range(n)]
    if how == 'group':
        check_box(h, Group('g', PenBrush('red'), elems=es))
        return
    out = ElemRectangle('o', PenBrush('red'), Point(-100, -100), Point(100, 100))
    (ax, ay), (bx, by) = es[k].p1.xy(), es[k].p2.xy()
    h.assume(h.and_(*[h.and_(-100 <= v, v <= 100) for v in (ax, ay, bx, by)]))
    check_box(h, ElemWithHoles('w', PenBrush('red', None), out, es))
