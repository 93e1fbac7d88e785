"""Looking at geometry never changes it, and answers always describe its current state"""
import contextlib
import io
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.bezier import ControlPoint
from x7.geom.model import *
from x7.geom import model as M
from x7.geom import utils as U
from x7.geom.colors import PenBrush, Pen, Brush, PensByShape
from x7.geom.transform import Transform
from checks.common import (ELEM_KINDS, mk_elem, mk_transform, mk_point, mk_vector, mk_cp, mk_dc, snap, mutate, path_parts, ctl_parts,
                           cp_parts, shared_parts)


def shown(e, detail):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        e.display(detail=detail, prefix='> ')
    return out.getvalue()


def rebuilt(e):
    """The same element built from nothing but its coordinates, names and pens"""
    x = Transform(e.xform.as_6tuple())
    if isinstance(e, Group):
        return Group(e.name, e.penbrush, e.hidden, x, {k: rebuilt(v) for k, v in e.elems.items()}, dict(e.points), e.closed)
    if isinstance(e, ElemWithHoles):
        r = ElemWithHoles(e.name, e.penbrush, rebuilt(e.outside), [rebuilt(i) for i in e.inside], xform=x)
        for a, b in zip([r.outside] + r.inside, [e.outside] + e.inside):
            a.penbrush = b.penbrush
        return r
    if isinstance(e, ElemCurve):
        return ElemCurve(e.name, e.penbrush, [ControlPoint(Point(*c.c.xy()), Vector(*c.dl.xy()), Vector(*c.dr.xy()), c.kind)
                                              for c in e.control_points], e.closed, x)
    extra = [e.radius] if isinstance(e, ElemRectangleRounded) else []
    return type(e)(e.name, e.penbrush, Point(*e.p1.xy()), Point(*e.p2.xy()), *extra, xform=x)


def guarded(fn):
    """The answer, or that there is none"""
    try:
        return fn()
    except Exception as e:
        if type(e).__module__.startswith('symx'):
            raise
        return type(e).__name__


TURN = (0, 2, 3, -1, 1, 5)

ELEM_QUERIES = dict(
    bbox=lambda e: e.bbox().as_tuple(),
    bbox_int=lambda e: e.bbox_int().as_tuple(),
    center=lambda e: e.center().xy(),
    paths=lambda e: path_parts(e.paths(mk_dc(Transform(TURN)))),
    control_paths=lambda e: ctl_parts(e.control_paths(mk_dc(Transform(TURN)))),
    as_curves=lambda e: [snap(c) for c in e.as_curves()],
    transform=lambda e: snap(e.transform(Transform(TURN))),
    copy=lambda e: snap(e.copy()),
    iter_elems=lambda e: [(n, t.as_6tuple()) for n, x, t in e.iter_elems('m', Transform())],
    text=lambda e: len(repr(e)) > 0 and len(str(e)) > 0,
    dump=lambda e: len(e.dump(M.DumpContext()).output()) > 0,
    display=lambda e: len(shown(e, 1)) > 0 and len(shown(e, 0)) > 0,
    equal=lambda e: (e == e, e != e, e == 5),
)


@harness(bounds='every kind of element, arbitrary coordinates and transform; every query made twice, then again after any change of '
                'coordinates, transform or labels, and compared with a newly built element',
         params=[dict(kind=k, q=q) for k in ELEM_KINDS for q in sorted(ELEM_QUERIES)],
         merge=True)
def elements(h, kind, q):
    box = kind in ('rect', 'ellipse', 'rrect')
    what = h.choice('what', ['coords'] if box and q == 'transform' else ['coords', 'xform', 'all'])
    if box and q == 'transform':
        x = Transform((2, 0, h.real('x'), 0, 3, h.real('y')))
    else:
        x = mk_transform(h, 'x')
    if kind == 'rrect':
        e = ElemRectangleRounded('e', PenBrush('red', 'blue'), Point(1, 2), Point(7, 9), 2, xform=x)
    else:
        e = mk_elem(h, kind, 'e', x)
    fn = ELEM_QUERIES[q]
    s0 = snap(e)
    a = guarded(lambda: fn(e))
    if not (kind in ('group', 'holes') and q in ('bbox_int', 'bbox', 'center', 'control_paths', 'paths')):
        h.check('answered', not isinstance(a, str))
    h.check('unchanged', h.eq(snap(e), s0))
    h.check('asked again', h.eq(guarded(lambda: fn(e)), a))
    mutate(h, e, 'm', what, False)
    if isinstance(e, Group):
        for i, v in enumerate(e.elems.values()):
            mutate(h, v, 'n%d' % i, what, False)
    s1 = snap(e)
    h.check('after a change', h.eq(guarded(lambda: fn(e)), guarded(lambda: fn(rebuilt(e)))))
    h.check('still unchanged', h.eq(snap(e), s1))


def seg_parts(r):
    return r if r is None else (r[0].xy(), r[1], r[2])


VALUE_QUERIES = dict(
    point=dict(
        xy=lambda v: v.xy(), x=lambda v: v.x, y=lambda v: v.y, v=lambda v: v.v.xy(), fixed=lambda v: v.fixed().xy(),
        copy=lambda v: v.copy().xy(), neg=lambda v: (-v).xy(), plus=lambda v: (v + Vector(1, 2)).xy(), minus=lambda v: (v - Point(3, 1)).xy(),
        rminus=lambda v: (Point(3, 1) - v).xy(), mid=lambda v: v.mid(Point(5, 6)).xy(), iter=lambda v: list(v),
        moved=lambda v: tuple(Transform(TURN).transform_pt(v)), box=lambda v: BBox(v, Point(0, 0)).as_tuple(),
        line=lambda v: Line(v, Vector(1, 1)).midpoint.xy(), text=lambda v: len(repr(v) + str(v)) > 0,
        area=lambda v: polygon_area([v, Point(1, 0), Point(0, 1)]), parse=lambda v: Point.parse([v, 1, 2])),
    vector=dict(
        xy=lambda v: v.xy(), x=lambda v: v.x, y=lambda v: v.y, length=lambda v: v.length(), unit=lambda v: guarded(lambda: v.unit().xy()), p=lambda v: v.p.xy(), copy=lambda v: v.copy().xy(),
        fixed=lambda v: v.fixed().xy(), neg=lambda v: (-v).xy(), plus=lambda v: (v + Vector(1, 2)).xy(), minus=lambda v: (v - Vector(3, 1)).xy(),
        times=lambda v: (v * 3).xy(), rtimes=lambda v: (3 * v).xy(), over=lambda v: (v / 2).xy(), dot=lambda v: v.dot(Vector(2, 3)),
        cross=lambda v: v.cross(Vector(2, 3)), normal=lambda v: v.normal().xy(), rotate=lambda v: v.rotate(90).xy(),
        on_point=lambda v: (Point(1, 1) + v).xy(), text=lambda v: len(repr(v) + str(v)) > 0, truth=lambda v: bool(v)),
    line=dict(
        p1=lambda v: v.p1.xy(), p2=lambda v: v.p2.xy(), mid=lambda v: v.midpoint.xy(), box=lambda v: v.segment_bbox().as_tuple(),
        plus=lambda v: ((v + Vector(1, 2)).p1.xy(), (v + Vector(1, 2)).p2.xy()), minus=lambda v: ((v - Vector(1, 2)).p1.xy(), (v - Vector(1, 2)).p2.xy()),
        parallel=lambda v: v.parallel(Line(Point(0, 0), Vector(1, 2))), closest=lambda v: guarded(lambda: v.closest(Point(3, 4)).xy()),
        meet=lambda v: guarded(lambda: v.intersection(Line(Point(0, 0), Vector(1, 2))).xy()),
        cross=lambda v: guarded(lambda: seg_parts(v.segment_intersection(Line(Point(0, 0), Vector(1, 2))))), text=lambda v: len(repr(v) + str(v)) > 0),
    cp=dict(
        parts=cp_parts, l=lambda v: v.l.xy(), r=lambda v: v.r.xy(), copy=lambda v: cp_parts(v.copy()), reversed=lambda v: cp_parts(v.reversed()),
        fixed=lambda v: cp_parts(v.fixed()), box=lambda v: v.bbox().as_tuple(), moved=lambda v: cp_parts(v.transform(Transform(TURN))),
        text=lambda v: len(repr(v) + str(v)) > 0),
    box=dict(
        tuple=lambda v: v.as_tuple(), iter=lambda v: list(v), items=lambda v: [v[i] for i in range(4)],
        corners=lambda v: [p.xy() for p in (v.p1, v.p2, v.pll, v.plh, v.phl, v.phh)], center=lambda v: v.center.xy(),
        size=lambda v: (v.size(), v.width, v.height, v.area()), plus=lambda v: (v + BBox(0, 0, 1, 1)).as_tuple(),
        rplus=lambda v: (BBox(0, 0, 1, 1) + v).as_tuple(), copy=lambda v: v.copy().as_tuple(), expand=lambda v: v.expand(2, 3).as_tuple(),
        meet=lambda v: v.intersection(BBox(0, 0, 5, 5)).as_tuple(), holds=lambda v: (v.contains(BBox(0, 0, 5, 5)), v.contains_pt(Point(1, 1))),
        touches=lambda v: (v.touches(BBox(0, 0, 5, 5)), v.touches_side(BBox(0, 0, 5, 5)), v.touches_pt(Point(1, 1))),
        overlaps=lambda v: v.overlaps(BBox(0, 0, 5, 5)), moved=lambda v: v.transformed(Transform(TURN)).as_tuple(),
        text=lambda v: len(repr(v) + str(v)) > 0),
)


def mk_value(h, kind):
    """A value, everything it consists of, how to change it, and the same value built anew"""
    if kind == 'point':
        base = Point(h.real('bx'), h.real('by'))
        k = h.choice('k', ['abs', 'rel', 'calc'])
        if k == 'abs':
            return base, lambda: base.xy(), lambda: base.setxy(h.real('nx'), h.real('ny')), lambda: Point(*base.xy())
        rel = PointRelative(h.real('dx'), h.real('dy'), base)
        v = rel if k == 'rel' else PointCalc(rel, h.real('s'))
        state = lambda: [base.xy(), rel.dx, rel.dy] + ([v.scale] if k == 'calc' else [])

        def change():
            base.setxy(h.real('nx'), h.real('ny'))
            rel.dx, rel.dy = h.real('ndx'), h.real('ndy')
            if k == 'calc':
                v.scale = h.real('ns')

        def anew():
            r = PointRelative(rel.dx, rel.dy, Point(*base.xy()))
            return r if k == 'rel' else PointCalc(r, v.scale)
        return v, state, change, anew
    if kind == 'vector':
        if h.choice('k', ['plain', 'difference']) == 'plain':
            v = Vector(h.real('x'), h.real('y'))
            return v, lambda: v.xy(), lambda: v.setxy(h.real('nx'), h.real('ny')), lambda: Vector(*v.xy())
        p, q = Point(h.real('px'), h.real('py')), Point(h.real('qx'), h.real('qy'))
        v = VectorRelative(p, q)

        def change():
            p.setxy(h.real('nx'), h.real('ny'))
            q.set(Point(h.real('mx'), h.real('my')))
        return v, lambda: [p.xy(), q.xy()], change, lambda: VectorRelative(Point(*p.xy()), Point(*q.xy()))
    if kind == 'line':
        o, d = Point(h.real('px'), h.real('py')), Vector(h.real('qx'), h.real('qy'))
        v = Line(o, d)

        def change():
            o.setxy(h.real('nx'), h.real('ny'))
            d.setxy(h.real('mx'), h.real('my'))
        return v, lambda: [v.origin.xy(), v.direction.xy()], change, lambda: Line(Point(*o.xy()), Vector(*d.xy()))
    if kind == 'cp':
        v = ControlPoint(Point(h.real('cx'), h.real('cy')), Vector(h.real('lx'), h.real('ly')), Vector(h.real('rx'), h.real('ry')), 'sharp')

        def change():
            v.c.setxy(h.real('ncx'), h.real('ncy'))
            v.dl = Vector(h.real('nlx'), h.real('nly'))
            v.dr.setxy(h.real('nrx'), h.real('nry'))
            v.kind = 'smooth'
        return v, lambda: [cp_parts(v), v.kind], change, lambda: ControlPoint(Point(*v.c.xy()), Vector(*v.dl.xy()), Vector(*v.dr.xy()), v.kind)
    v = BBox(h.real('a'), h.real('b'), h.real('c'), h.real('d'))

    def change():
        how = h.choice('how', ['grow', 'item', 'attribute'])
        if how == 'grow':
            v.grow(Point(h.real('gx'), h.real('gy')))
        elif how == 'item':
            v[2] = v[0] + h.real('w', 0)
        else:
            v.yh = v.yl + h.real('w', 0)
    return v, lambda: v.as_tuple(), change, lambda: BBox(*v.as_tuple())


@harness(bounds='points, vectors, lines, boxes and control points of every kind, arbitrary coordinates; every query before and after any change',
         params=[dict(kind=k, q=q) for k in sorted(VALUE_QUERIES) for q in sorted(VALUE_QUERIES[k])], merge=True)
def values(h, kind, q):
    v, state, change, anew = mk_value(h, kind)
    fn = VALUE_QUERIES[kind][q]
    s0 = state()
    a = fn(v)
    h.check('unchanged', h.eq(state(), s0))
    h.check('asked again', h.eq(fn(v), a))
    change()
    s1 = state()
    h.check('after a change', h.eq(fn(v), fn(anew())))
    h.check('still unchanged', h.eq(state(), s1))


XFORM_QUERIES = dict(
    tuple=lambda t: t.as_6tuple(), copy=lambda t: t.copy().as_6tuple(),
    point=lambda t: t.transform(2, 3), pt=lambda t: tuple(t.transform_pt(Point(2, 3))),
    pts=lambda t: t.transform_pts([(1, 2), Point(3, 4)], True), back=lambda t: guarded(lambda: t.untransform(2, 3)),
    width=lambda t: t.transform_width(2), scale=lambda t: t.scale_vals(), simple=lambda t: t.is_simple(),
    simplify=lambda t: [x.as_6tuple() for x in t.simplify()], inverse=lambda t: guarded(lambda: [list(r) for r in t.inverse]),
    backs=lambda t: guarded(lambda: t.untransform_pts([(1, 2), (3, 4)])), equal=lambda t: (t == Transform(), Transform() == t, t == t),
    text=lambda t: len(repr(t) + str(t)) > 0, given=lambda t: Transform().compose(t).as_6tuple(),
    box=lambda t: BBox(0, 0, 1, 2).transformed(t).as_tuple(), cp=lambda t: cp_parts(ControlPoint(Point(1, 2), Vector(3, 4), Vector(5, 6)).transform(t)),
)


@harness(bounds='all transforms; every query made before and after any change (moved, scaled, turned, composed, fitted, set, reset, restored), compared with a '
                'newly built transform of the same entries',
         params=[dict(q=q) for q in sorted(XFORM_QUERIES)], merge=True)
def transforms(h, q):
    hows = ['translate', 'scale', 'rotate', 'turn', 'about', 'compose', 'outer', 'fit', 'reset', 'pop', 'block', 'matrix']
    how = h.choice('how', [w for w in hows if not (q in ('scale', 'simple', 'simplify') and w in ('rotate', 'turn', 'about'))])
    few = q in ('scale', 'back', 'backs', 'inverse', 'width', 'simple', 'simplify')
    t = Transform((2, 0, h.real('x'), 0, h.real('s', 1), h.real('y'))) if few else mk_transform(h, 't')
    fn = XFORM_QUERIES[q]
    if how in ('pop', 'block'):
        t.push()
        t.translate(1, 2).scale(3, 4)
    s0 = t.as_6tuple()
    a = fn(t)
    h.check('unchanged', h.eq(t.as_6tuple(), s0))
    h.check('asked again', h.eq(fn(t), a))
    if how == 'translate':
        t.translate(h.real('u'), h.real('v'))
    elif how == 'scale':
        t.scale(h.real('u', 1), h.real('v', 1))
    elif how == 'rotate':
        t.rotate(90)
    elif how == 'compose':
        t.compose(Transform((1, 2, h.real('u'), 3, 4, h.real('v'))))
    elif how == 'turn':
        t.rotate_ccw(90)
    elif how == 'about':
        t.rotate_about(90, Point(h.real('u'), h.real('v')))
    elif how == 'outer':
        t.compose_outer(Transform((1, 2, h.real('u'), 3, 4, h.real('v'))))
    elif how == 'fit':
        t.scale_bbox(BBox(0, 0, 2, 3), BBox(h.real('u'), h.real('v'), h.real('u') + 4, h.real('v') + 4))
    elif how == 'reset':
        t.reset()
    elif how == 'matrix':
        o = Transform((1, 0, h.real('u'), 0, 3, h.real('v')))
        t.set_matrix(o)
        o.translate(5, 6)
    elif how == 'pop':
        t.pop()
    else:
        with t:
            fn(t)
            t.translate(7, 8)
            fn(t)
    s1 = t.as_6tuple()
    h.check('after a change', h.eq(fn(t), fn(Transform(s1))))
    h.check('still unchanged', h.eq(t.as_6tuple(), s1))


@harness(bounds='what copy, transform, as_curves, bbox, center and control points at their transformed place return, for every kind of element: '
                'changing it or the element never changes the other (copies of groups hold the same members), with and without a transform of its own', params=[dict(kind=k) for k in ELEM_KINDS], merge=True)
def results(h, kind):
    x = h.choice('own', [True, False]) and Transform((2, 0, h.real('x'), 0, 3, h.real('y'))) or None
    if kind == 'rrect':
        e = ElemRectangleRounded('e', PenBrush('red', 'blue'), Point(1, 2), Point(7, 9), 2, xform=x)
    else:
        e = mk_elem(h, kind, 'e', x)
    how = h.choice('how', ['copy', 'transform', 'same place', 'as_curves'] + ([] if kind == 'holes' else ['box', 'centre']))
    s0 = snap(e)
    if how in ('box', 'centre'):
        r = e.bbox() if how == 'box' else e.center()
        v = r.as_tuple() if how == 'box' else r.xy()
        if how == 'box':
            r.grow(Point(h.real('gx'), h.real('gy')))
            r.xl = r.xl - 1
        else:
            r.setxy(h.real('gx'), h.real('gy'))
        h.check('element unchanged', h.eq(snap(e), s0))
        q = e.bbox() if how == 'box' else e.center()
        h.check('asked again', h.eq(q.as_tuple() if how == 'box' else q.xy(), v))
        return
    t = Transform(TURN) if how == 'transform' else Transform()
    rs = [e.copy()] if how == 'copy' else e.as_curves() if how == 'as_curves' else [e.transform(t)]
    h.check('transform left alone', t.as_6tuple() == (TURN if how == 'transform' else (1, 0, 0, 0, 1, 0)))
    for i, r in enumerate(rs):
        all_of(h, r, 'r%d' % i, how == 'as_curves')
    h.check('element unchanged', h.eq(snap(e), s0))
    rs = [e.copy()] if how == 'copy' else e.as_curves() if how == 'as_curves' else [e.transform(t)]
    ss = [snap(r) for r in rs]
    all_of(h, e, 'm', how == 'as_curves')
    for r, s in zip(rs, ss):
        h.check('result unchanged', h.eq(snap(r), s))


def all_of(h, e, tag, members=True):
    mutate(h, e, tag, 'all', False)
    if isinstance(e, Group):
        for i, (n, v) in enumerate(sorted(e.elems.items()) if members else []):
            all_of(h, v, '%sg%d' % (tag, i))
        e.add(tag, ElemRectangle(tag, PenBrush('red'), Point(1, 2), Point(3, 4)))
    if isinstance(e, ElemWithHoles):
        e.inside.append(ElemRectangle(tag, PenBrush('red'), Point(1, 2), Point(3, 4)))
    if isinstance(e, ElemCurve):
        e.control_points.append(ControlPoint(Point(1, 2), Vector(0, 0), Vector(0, 0)))


@harness(bounds='a vector, point or control point made from others by any operation: changing it or them never changes the other')
def made(h):
    p, q = Point(h.real('px'), h.real('py')), Point(h.real('qx'), h.real('qy'))
    v, w = Vector(h.real('vx'), h.real('vy')), Vector(h.real('wx'), h.real('wy'))
    c = ControlPoint(p, v, w, 'sharp')
    state = lambda: [p.xy(), q.xy(), v.xy(), w.xy(), cp_parts(c), c.kind]
    make = dict(
        copy=lambda: p.copy(), fixed=lambda: p.fixed(), round=lambda: p.round(2), plus=lambda: p + v, minus=lambda: p - v, mid=lambda: p.mid(q), neg=lambda: -p,
        apart=lambda: p - q, vcopy=lambda: v.copy(), vfixed=lambda: v.fixed(), vplus=lambda: v + w, vminus=lambda: v - w, vtimes=lambda: v * 1,
        vover=lambda: v / 1, vneg=lambda: -v, normal=lambda: v.normal(), vp=lambda: v.p, pv=lambda: p.v, vround=lambda: v.round(2),
        left=lambda: c.l, right=lambda: c.r, relf=lambda: PointRelative(1, 2, p).fixed(), calcf=lambda: PointCalc(PointRelative(1, 2, p), 3).fixed(),
        diff=lambda: VectorRelative(p, q).fixed(), moved=lambda: Transform().transform_pt(p), box=lambda: BBox(p, q).p1, centre=lambda: BBox(p, q).center,
        line=lambda: Line(p, v).p2, cpc=lambda: c.copy(), cpf=lambda: c.fixed(), cpt=lambda: c.transform(Transform()),
        cpround=lambda: c.round(3), unit=lambda: v.unit(), turned=lambda: v.rotate(h.angle('turn')),
        wturn=lambda: v.rotate(h.choice('whole', [0, 360, -720])), half=lambda: v.rotate(h.choice('part', [90, 180])), rtimes=lambda: 1 * v, times=lambda: v * h.real('k'),
        plus0=lambda: p + Vector(0, 0), vplus0=lambda: v + Vector(0, 0), midself=lambda: p.mid(p), round0=lambda: p.round(), vround0=lambda: v.round(),
        closest=lambda: Line(p, v).closest(q), meets=lambda: Line(p, v).intersection(Line(q, w)), turnpt=lambda: Transform().rotate(h.choice('whole', [0, 360])).transform_pt(p),
        back=lambda: Transform().untransform_pt(p),
        closest_own=lambda: Line(p, v).closest(p), meets_own=lambda: Line(p, v).intersection(Line(p, w)), line_mid=lambda: Line(p, Vector(0, 0)).midpoint,
        end=lambda: Line(p, Vector(0, 0)).p2, line_plus=lambda: (Line(p, v) + Vector(0, 0)).p2, apart_own=lambda: p - p, diff_own=lambda: VectorRelative(p, p).fixed(),
        box_own=lambda: BBox(p, p).p2, centre_own=lambda: BBox(p, p).center, calc0=lambda: PointCalc(PointRelative(1, 2, p), 0).fixed(),
        rel0=lambda: PointRelative(0, 0, p).fixed(), fromxy=lambda: PointRelative.fromxy(p.x, p.y, p).fixed(), rel_plus=lambda: PointRelative(0, 0, p) + Vector(0, 0),
        parse=lambda: Point(*Point.parse([p])[0]), cross_own=lambda: Line(p, v).segment_intersection(Line(p, w))[0])
    how = h.choice('how', sorted(make))
    if how in ('unit', 'closest'):
        h.assume(h.or_(v.x != 0, v.y != 0))
    if how in ('closest_own',):
        h.assume(h.or_(v.x != 0, v.y != 0))
    if how in ('meets', 'meets_own', 'cross_own'):
        h.assume(v.x * w.y - v.y * w.x != 0)
    if how == 'cross_own':      # boxes that share an area
        h.assume(h.and_(v.x > 0, v.y > 0, w.x > 0, w.y > 0))
    s0 = state()

    def change(r, tag):
        if isinstance(r, ControlPoint):
            for i, o in enumerate((r.c, r.dl, r.dr)):
                o.setxy(h.real('%s%d' % (tag, i)), i)
            r.kind = 'smooth'
        elif hasattr(r, 'setxy'):
            r.setxy(h.real(tag + 'x'), h.real(tag + 'y'))
    r = make[how]()
    change(r, 'r')
    h.check('sources unchanged', h.eq(state(), s0))
    r = make[how]()
    s1 = cp_parts(r) if isinstance(r, ControlPoint) else tuple(r)
    for i, o in enumerate((p, q, v, w)):
        o.setxy(h.real('n%d' % i), h.real('m%d' % i))
    c.kind = 'smooth'
    h.check('result unchanged', h.eq(cp_parts(r) if isinstance(r, ControlPoint) else tuple(r), s1))


@harness(bounds='transforms made by any constructor, also twice the same, or from another: changing one (any update, push and pop included) never changes another')
def made_transforms(h):
    t = mk_transform(h, 't')
    x, y = h.real('x'), h.real('y')
    make = dict(new=lambda: Transform(), identity=lambda: Transform.identity(), given=lambda: Transform((1, 0, x, 0, 2, y)), copy=lambda: t.copy(),
                fit=lambda: Transform.canvas_fit((4, 5), 2, (x, y)), first=lambda: Transform((1, 0, x, 0, 1, y)).simplify()[1],
                inst=lambda: t.identity(), outer=lambda: Transform().compose_outer(t), inner=lambda: Transform().compose(t),
                whole=lambda: Transform((1, 0, x, 0, 2, y)).simplify()[0], rest=lambda: Transform((1, 1, x, 0, 1, y)).simplify()[1])

    def assigned():
        r = Transform()
        r.set_matrix(t)
        return r
    make['set'] = assigned
    change = dict(translate=lambda r: r.translate(x, 3), scale=lambda r: r.scale(2, y), rotate=lambda r: r.rotate(90), ccw=lambda r: r.rotate_ccw(90),
                  about=lambda r: r.rotate_about(90, Point(x, y)), compose=lambda r: r.compose(Transform((1, 2, x, 3, 4, y))),
                  outer=lambda r: r.compose_outer(Transform((1, 2, x, 3, 4, y))), reset=lambda r: r.reset(), push=lambda r: r.push().translate(x, y),
                  fit=lambda r: r.scale_bbox(BBox(0, 0, 1, 2), BBox(0, 0, 3, 5)), set=lambda r: r.set_matrix(Transform((1, 0, y, 0, 3, x))))
    how = h.choice('how', sorted(make))
    what = h.choice('what', sorted(change))
    m = t.as_6tuple()
    a, b = make[how](), make[how]()
    h.check('made twice: the same', h.eq(a.as_6tuple(), b.as_6tuple()) and a is not b and a is not t)
    s = b.as_6tuple()
    change[what](a)
    h.check('the other one unchanged', h.eq(b.as_6tuple(), s) and not b.stack)
    h.check('the given one unchanged', h.eq(t.as_6tuple(), m) and not t.stack)
    h.check('made again: as before', h.eq(make[how]().as_6tuple(), s))
    if what == 'push':
        a.pop()
        h.check('popped', h.eq(a.as_6tuple(), s))
    s = a.as_6tuple()
    change[what](t)
    h.check('the result unchanged', h.eq(a.as_6tuple(), s) and not a.stack)


@harness(bounds='boxes made from two boxes by any operation (grown by any amount, also nothing; united; common part, also of nested and equal boxes; '
                'copied, rounded, transformed, also not at all; flat ones included): changing it or them never changes the other', merge=True)
def made_boxes(h):
    def mk(n):
        x, y = h.real(n + 'x'), h.real(n + 'y')
        return BBox(x, y, x + h.real(n + 'w', 0), y + h.real(n + 'h', 0))
    a, b = mk('a'), mk('b')
    how = h.choice('how', ['copy', 'expand', 'expand by one', 'expand by nothing', 'union', 'meet', 'inside', 'self', 'itself', 'same place', 'moved', 'round', 'nothing', 'tuple'])
    if how == 'inside':
        h.assume(a.contains(b))
    make = dict(copy=lambda: a.copy(), expand=lambda: a.expand(h.real('ex'), h.real('ey')), union=lambda: a + b, meet=lambda: a.intersection(b),
                inside=lambda: h.choice('which', [0, 1]) and a.intersection(b) or b.intersection(a), self=lambda: a.intersection(a), itself=lambda: a + a,
                moved=lambda: a.transformed(Transform(TURN)), round=lambda: round(a, 2), nothing=lambda: h.choice('which', [0, 1]) and a + BBox(None) or BBox(None) + a,
                tuple=lambda: BBox(a.as_tuple()))
    make['expand by one'] = lambda: a.expand(h.real('ex'))
    make['expand by nothing'] = lambda: h.choice('which', [0, 1]) and a.expand(0) or a.expand(0, 0)
    make['same place'] = lambda: a.transformed(Transform())
    ea, eb = a.as_tuple(), b.as_tuple()

    def change(r, n):
        r.grow(Point(h.real(n + 'gx'), h.real(n + 'gy')))
        r.xl, r.yl = r.xl - 1, r.yl - 2
    r = make[how]()
    if not r.is_none:
        h.check('new box', r is not a and r is not b)
        change(r, 'r')
    h.check('sources unchanged', h.eq((a.as_tuple(), b.as_tuple()), (ea, eb)))
    r = make[how]()
    s = r.as_tuple()
    change(a, 'm')
    change(b, 'n')
    h.check('result unchanged', s[0] is None or h.eq(r.as_tuple(), s))


@harness(bounds='paths of 1..2 points turned or moved by any amount, also nothing, and returned as points: changing them never changes the path and back', merge=True)
def made_paths(h):
    pts = [mk_point(h, 'p%d' % i) if i == 0 else Point(h.real('qx'), h.real('qy')) for i in range(h.choice('n', [1, 2]))]
    how = h.choice('how', ['cw', 'ccw', 'not turned', 'moved', 'moved by nothing', 'moved by no vector'])
    a = h.angle('a')
    d = Point(h.real('dx'), h.real('dy'))
    make = {'cw': lambda: U.path_rotate(pts, a, as_pt=True), 'ccw': lambda: U.path_rotate_ccw(pts, a, as_pt=True),
            'not turned': lambda: h.choice('w', [U.path_rotate, U.path_rotate_ccw])(pts, 0, as_pt=True),
            'moved': lambda: U.path_translate(pts, d, as_pt=True), 'moved by nothing': lambda: U.path_translate(pts, Point(0, 0), as_pt=True),
            'moved by no vector': lambda: U.path_translate(pts, Vector(0, 0), as_pt=True)}[how]
    s = [p.xy() for p in pts]
    r = make()
    h.check('another list, other points', r is not pts and not any(x is y for x in r for y in pts))
    v = [p.xy() for p in r]
    for p in pts:
        base = p
        while not type(base) is Point:
            base = base.base if hasattr(base, 'base') else base.orig
        base.setxy(base.x + 1, base.y + h.real('ny', nz=True))
    h.check('result unchanged', h.eq([p.xy() for p in r], v))
    s = [p.xy() for p in pts]
    for i, p in enumerate(r):
        if type(p) is Point:
            p.setxy(h.real('rx%d' % i), h.real('ry%d' % i))
    r.append(Point(1, 2))
    h.check('path unchanged', h.eq([p.xy() for p in pts], s))


@harness(bounds='elements of every kind made, directly or by a builder, from given points, lists of control points, members and transforms: changing the given corner points, lists or '
                'tables, or the element, never changes the other', merge=True)
def made_elements(h):
    p = PointRelative(h.real('dx'), h.real('dy'), Point(h.real('px'), h.real('py'))) if h.choice('relative', [False, True]) else Point(h.real('px'), h.real('py'))
    q = Point(h.real('qx'), h.real('qy'))
    cps = [mk_cp(h, 'c%d' % i, ('smooth',)) for i in range(2)]
    a, b = mk_elem(h, 'rect', 'a', cps=1), mk_elem(h, 'curve', 'b', cps=1)
    pb = PenBrush('red', 'blue')
    members, table = [a, b], dict(a=a, b=b)
    build = GroupBuilder('built', PensByShape())
    kinds = dict(rect=lambda: ElemRectangle('e', pb, p, q), ellipse=lambda: ElemEllipse('e', pb, p, q), rrect=lambda: ElemRectangleRounded('e', pb, p, q, h.real('r', 0)),
                 curve=lambda: ElemCurve('e', pb, cps), holes=lambda: ElemWithHoles('e', pb, a, [b]), group=lambda: Group('e', pb, elems=members, closed=True),
                 gtable=lambda: Group('e', pb, elems=table, closed=True),
                 brect=lambda: build.rect('e', p, q, pb), bellipse=lambda: build.ellipse('e', p, q, pb), brrect=lambda: build.rrect('e', p, q, h.real('r', 0), pb),
                 bcurve=lambda: build.curve('e', cps, pb))
    how = h.choice('how', sorted(kinds))
    e = kinds[how]()
    s = snap(e)
    n = len(e.elems) if isinstance(e, Group) else 0
    plain = p if isinstance(p, Point) else p.base
    plain.setxy(h.real('nx'), h.real('ny'))
    q.setxy(h.real('mx'), h.real('my'))
    cps.append(mk_cp(h, 'more', ('smooth',)))
    members.append(mk_elem(h, 'rect', 'c', cps=1))
    table['c'] = members[-1]
    h.check('changing what was given leaves the element', h.eq(snap(e), s) and (not n or len(e.elems) == n))
    given = lambda: [p.xy(), q.xy(), len(cps), [cp_parts(c) for c in cps], len(members), sorted(table)]
    g = given()
    if isinstance(e, ElemP1P2):
        e.p1.setxy(h.real('ex'), h.real('ey'))
        e.p2.setxy(h.real('fx'), h.real('fy'))
    elif isinstance(e, ElemCurve):
        e.add_one()
        del e.control_points[0]
        h.check('the list that was given is kept', len(cps) == 3)
        return      # the control points themselves are the given ones
    elif isinstance(e, Group):
        e.add('d', mk_elem(h, 'rect', 'd', cps=1))
        e.replace(a, mk_elem(h, 'rect', 'f', cps=1))
    e.xform.translate(1, 2)
    h.check('changing the element leaves what was given', h.eq(given(), g))


@harness(bounds='two-corner elements made of one point, lines, boxes, vectors and control points made of one object: changing one part leaves the given one, and the parts that are '
                'the element\'s own, alone', merge=True)
def made_of_one(h):
    p = mk_point(h, 'p', ['abs', 'rel', 'named'])
    at = p.xy()
    pb = PenBrush('red')
    kind = h.choice('kind', ['rect', 'ellipse', 'rrect', 'box', 'parsed'])
    if kind == 'box':
        b = BBox(p, p)
        b.grow(Point(at[0] + 1, at[1] - 2))
        h.check('box', h.eq((b.as_tuple(), p.xy()), ((at[0], at[1] - 2, at[0] + 1, at[1]), at)))
        return
    if kind == 'parsed':
        q = Point.parse([p, p])
        h.check('twice', h.eq([tuple(v) for v in q], [at, at]))
        return
    e = dict(rect=lambda: ElemRectangle('e', pb, p, p), ellipse=lambda: ElemEllipse('e', pb, p, p), rrect=lambda: ElemRectangleRounded('e', pb, p, p, 1))[kind]()
    a, b = (e.p1, e.p2) if h.choice('corner', [0, 1]) else (e.p2, e.p1)
    x, y = h.real('x'), h.real('y')
    a.setxy(x, y)
    h.check('only one corner moved', h.eq((a.xy(), b.xy(), p.xy()), ((x, y), at, at)))
    t = e.transform(Transform().translate(1, 2))
    c = e.copy()
    for o in (t, c):
        o.p1.setxy(3, 4)
        o.p2.setxy(5, 6)
    h.check('still', h.eq((a.xy(), b.xy(), p.xy()), ((x, y), at, at)))


@harness(bounds='curves of 2 control points that are one object or share points or handles: answers as for separate equal parts', merge=True,
         params=[dict(q=q) for q in sorted(ELEM_QUERIES)])
def shared(h, q):
    e = shared_parts(h, 'e', 2, Transform((2, 0, h.real('x'), 0, 3, h.real('y'))))
    fn = ELEM_QUERIES[q]
    s0 = snap(e)
    h.check('as with parts of its own', h.eq(guarded(lambda: fn(e)), guarded(lambda: fn(rebuilt(e)))))
    h.check('unchanged', h.eq(snap(e), s0))


@harness(bounds='groups whose members and points are added, replaced, renamed by restoring and looked up in between', merge=True)
def group(h):
    a = mk_elem(h, 'rect', 'a')
    g = Group('g', PenBrush('red'), elems=[a], points={'p': Point(h.real('px'), h.real('py'))})
    o = Group('o', PenBrush('red'), elems=[g])
    ask = lambda: [o.lookup('g') is g, o.lookup('g.a') is g.elems['a'], g.lookup_pt('p').xy(), o.bbox().as_tuple(),
                   [n for n, e, t in o.iter_elems()], len(o.as_curves())]
    ask()
    b = mk_elem(h, 'curve', 'b')
    g.add('b', b)
    h.check('added', h.eq(ask(), [True, True, g.points['p'].xy(), rebuilt(o).bbox().as_tuple(), ['o.g.a', 'o.g.b'], 2]) and o.lookup('g.b') is b)
    n = mk_elem(h, 'rect', 'n')
    h.check('replaced', o.replace(a, n) == 1 and o.lookup('g.n') is n and h.raises(KeyError, lambda: o.lookup('g.a')))
    h.check('box', h.eq(o.bbox().as_tuple(), rebuilt(o).bbox().as_tuple()))
    keep = g.copy()
    g.add('c', mk_elem(h, 'rect', 'c'))
    g.add_pt('q', Point(1, 2))
    h.check('more', o.lookup('g.c') is g.elems['c'] and len(o.as_curves()) == 3)
    g.restore(keep)
    h.check('less', h.raises(KeyError, lambda: o.lookup('g.c')) and h.raises(KeyError, lambda: g.lookup_pt('q')) and len(o.as_curves()) == 2)
    h.check('box again', h.eq(o.bbox().as_tuple(), rebuilt(o).bbox().as_tuple()))
    p = g.lookup_pt('p')
    p.setxy(h.real('nx'), h.real('ny'))
    h.check('points where they are now', h.eq(g.lookup_pt('p').xy(), (h.real('nx'), h.real('ny'))))


@harness(bounds='curves of 8 control points, groups of 9 members and shapes with 8 holes: asked and compared before and after any one part changes, arbitrary coordinates',
         params=[dict(kind=k, part=p) for k in ('curve', 'group', 'holes') for p in (0, 1, 4, 6, 7)])
def many(h, kind, part):
    cps = [mk_cp(h, 'p%d' % i, ('smooth',)) for i in range(8)]
    es = [mk_elem(h, 'rect', 'm%d' % i) for i in range(9)]
    if kind == 'curve':
        e = ElemCurve('e', PenBrush('red'), cps, True)
    elif kind == 'group':
        e = Group('e', PenBrush('red'), elems=es)
    else:
        e = ElemWithHoles('e', PenBrush('red', None), es[-1], es[:-1])
    ask = lambda v: (path_parts(v.paths(mk_dc(None))), [snap(c) for c in v.as_curves()])
    old, was = rebuilt(e), ask(e)
    h.check('equal', bool(e == old) and bool(old == e) and not bool(e != old))
    p = cps[part].c if kind == 'curve' else es[part].p1
    x = h.real('nx')
    h.assume(h.ne(x, p.x))
    p.setxy(x, p.y)
    h.check('no longer equal', not bool(e == old) and not bool(old == e) and bool(e != old))
    h.check('answers follow', h.eq(ask(e), ask(rebuilt(e))) and bool(e == rebuilt(e)))
    h.check('the other keeps its answers', h.eq(ask(old), was))


@harness(bounds='elements of every kind asked 5 times, their coordinates changed before each; arbitrary coordinates',
         params=[dict(kind=k, q=q) for k in ('curve', 'rect', 'group', 'holes') for q in ('bbox', 'paths', 'control_paths', 'as_curves', 'transform', 'copy') if q != 'bbox' or k == 'rect'], merge=True)
def many_times(h, kind, q):
    e = mk_elem(h, kind, 'e', Transform((2, 0, 1, 0, 3, h.real('x'))))
    fn = ELEM_QUERIES[q]
    for i in range(5):
        p = (e.control_points[-1].c if kind == 'curve' else e.p2 if kind == 'rect' else list(e.elems.values())[0].p1 if kind == 'group' else e.inside[0].control_points[0].c)
        p.setxy(h.real('x%d' % i), p.y)
        h.check('after a change', h.eq(guarded(lambda: fn(e)), guarded(lambda: fn(rebuilt(e)))))
