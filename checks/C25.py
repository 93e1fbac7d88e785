"""A Bezier path is the concatenation of its segments"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.bezier import bez_path
from x7.geom.model import ElemCurve
from x7.geom.colors import PenBrush
from x7.geom.transform import Transform
from checks.common import POINT_KINDS, mk_cp, mk_transform, mk_dc, path_pts, outline, affine, compose, cp_parts, shared_parts, mk_long, spaced


def pairs(flat):
    return [tuple(flat[i:i + 2]) for i in range(0, len(flat), 2)]


@harness(bounds='0 to 4 control points, all values, open and closed, all affine maps, 1 to 3 steps', params=[dict(n=i) for i in range(5)])
def flattened(h, n):
    cps = [mk_cp(h, 'p%d' % i, ['smooth']) for i in range(n)]
    closed = bool(h.choice('closed', [0, 1]))
    if n in (2, 3):
        same = h.choice('same', [None, 1, n - 1])
        if same:
            cps[same] = cps[0]
    steps = h.choice('steps', [1, 2, 3])
    t = mk_transform(h, 't')
    m = t.as_6tuple()
    before = [cp_parts(c) for c in cps]
    path = bez_path(t, cps, closed, steps)
    h.check('inputs unchanged', len(cps) == n and h.eq(([cp_parts(c) for c in cps], t.as_6tuple()), (before, m)))
    h.check('coordinates come in pairs', len(path) % 2 == 0)
    pts = pairs(path)
    e = outline(h, m, cps, closed, steps)
    h.check('one sample per step and shared end points once', len(pts) == len(e))
    h.check('samples of the transformed segments in order', h.eq(pts, e))
    if e and closed:
        h.check('closed path ends where it starts', h.eq(pts[-1], pts[0]))
    if e and not closed:
        h.check('open path ends at the last control point', h.eq(pts[-1], affine(m, *cps[-1].c.xy())))
    if e:
        h.check('path starts at the first control point', h.eq(pts[0], affine(m, *cps[0].c.xy())))


@harness(bounds='2 control points of every class, default number of steps')
def default_steps(h):
    cps = [mk_cp(h, 'p%d' % i, ['smooth'], POINT_KINDS) for i in range(2)]
    t = mk_transform(h, 't')
    pts = pairs(bez_path(t, cps, False))
    h.check('twenty steps', len(pts) == 21)
    h.check('samples of the segment', h.eq(pts, outline(h, t.as_6tuple(), cps, False, 20)))


@harness(bounds='curve elements of 0 to 3 control points, open and closed, own transform and drawing matrix arbitrary, 1 to 3 samples per segment',
         params=[dict(n=i) for i in range(4)])
def curve_element(h, n):
    cps = [mk_cp(h, 'p%d' % i, ['smooth', 'sharp']) for i in range(n)]
    closed = bool(h.choice('closed', [0, 1]))
    x, t = mk_transform(h, 'x'), mk_transform(h, 't')
    steps = h.choice('steps', [1, 2, 3])
    dc = mk_dc(t, steps)
    e = ElemCurve('e', PenBrush('red'), cps, closed, x)
    m = compose(t.as_6tuple(), x.as_6tuple())
    paths = e.paths(dc)
    h.check('one path', len(paths) == 1)
    h.check('pens and closedness of the element', paths[0].closed is closed and paths[0].penbrush == e.penbrush)
    h.check('outline under the element transform and the drawing matrix', h.eq(path_pts(paths[0]), outline(h, m, cps, closed, steps)))
    ctl = e.control_paths(dc)
    h.check('one control path', len(ctl) == 1 and len(ctl[0].points) == n)
    for p, q in zip(ctl[0].points, cps):
        h.check('control points transformed', h.eq((p.c, p.l, p.r), [affine(m, *v.xy()) for v in (q.c, q.l, q.r)]))


@harness(bounds='one segment, default drawing resolution (80) and control-point display (10)')
def resolution(h):
    cps = [mk_cp(h, 'p%d' % i, ['smooth']) for i in range(2)]
    e = ElemCurve('e', PenBrush('red'), cps, False)
    dc = mk_dc(None, 80)
    n = 80
    if h.choice('show', [0, 1]):
        dc.show_cps = True
        n = 10
    pts = path_pts(e.paths(dc)[0])
    h.check('number of samples', len(pts) == n + 1)
    h.check('samples of the segment', h.eq(pts, outline(h, (1, 0, 0, 0, 1, 0), cps, False, n)))


@harness(bounds='curve elements of 2 or 3 control points that are one object or share points or handles, own transform and drawing matrix arbitrary, also one and the same',
         params=[dict(n=i) for i in (2, 3)])
def curve_element_shared(h, n):
    x = mk_transform(h, 'x')
    closed = bool(h.choice('closed', [0, 1]))
    e = shared_parts(h, 'e', n, x, closed)
    t = x if h.choice('drawn in its own transform', [0, 1]) else mk_transform(h, 't')
    m = compose(t.as_6tuple(), x.as_6tuple())
    dc = mk_dc(t, 2)
    h.check('outline under the element transform and the drawing matrix', h.eq(path_pts(e.paths(dc)[0]), outline(h, m, e.control_points, closed, 2)))
    ctl = e.control_paths(dc)[0].points
    h.check('control points transformed', h.eq([(p.c, p.l, p.r) for p in ctl], [[affine(m, *v.xy()) for v in (q.c, q.l, q.r)] for q in e.control_points]))


@harness(bounds='7 to 9 control points, all values, one of them, any, possibly in the place of the one before; open and closed, 1 or 2 steps', params=[dict(n=n) for n in (7, 9)])
def long_path(h, n):
    cps, closed, steps = mk_long(h, 'p', n, ('smooth',)), bool(h.choice('closed', [0, 1])), h.choice('steps', [1, 2])
    t = mk_transform(h, 't')
    pts = pairs(bez_path(t, cps, closed, steps))
    want = outline(h, t.as_6tuple(), cps, closed, steps)
    h.check('samples of the transformed segments in order', len(pts) == len(want) and h.eq(pts, want))


@harness(bounds='8 and 13 control points at the default 20 steps, one of them, any, arbitrary, open and closed', params=[dict(n=n) for n in (8, 13)])
def long_default_steps(h, n):
    cps, closed = spaced(h, 'p', n), bool(h.choice('closed', [0, 1]))
    pts = pairs(bez_path(Transform(), cps, closed))
    want = outline(h, (1, 0, 0, 0, 1, 0), cps, closed, 20)
    h.check('samples of the segments in order', len(pts) == len(want) and h.eq(pts, want))


@harness(bounds='curve elements of 8 control points, all values, one of them, any, possibly in the place of the one before')
def long_element(h):
    x, closed = mk_transform(h, 'x'), bool(h.choice('closed', [0, 1]))
    e = ElemCurve('e', PenBrush('red'), mk_long(h, 'p', 8), closed, x)
    h.check('outline', h.eq(path_pts(e.paths(mk_dc(None, 2))[0]), outline(h, x.as_6tuple(), e.control_points, closed, 2)))
    ctl = e.control_paths(mk_dc(None, 2))[0].points
    h.check('every control point', len(ctl) == 8 and h.eq([(p.c, p.l, p.r) for p in ctl], [[affine(x.as_6tuple(), *v.xy()) for v in (q.c, q.l, q.r)] for q in e.control_points]))
