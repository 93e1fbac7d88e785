"""Line projection and intersection are geometrically correct"""
from symx.harness import harness
from x7.geom.geom import *
from checks.common import mk_point, mk_vector


def mk_line(h, name, kinds=('vector', 'point', 'from_pts')):
    o = Point(h.real(name + '.ox'), h.real(name + '.oy'))
    dx, dy = h.real(name + '.dx'), h.real(name + '.dy')
    k = h.choice(name + '.form', kinds)
    if k == 'vector':
        return Line(o, Vector(dx, dy)), (o.x, o.y, dx, dy)
    if k == 'point':
        return Line(o, Point(o.x + dx, o.y + dy)), (o.x, o.y, dx, dy)
    if k == 'from_pts':
        return Line.from_pts(o, Point(o.x + dx, o.y + dy)), (o.x, o.y, dx, dy)
    rel = PointRelative(dx, dy, o)
    return Line(o, VectorRelative(rel, o)), (o.x, o.y, dx, dy)


@harness(bounds='all lines in every form')
def accessors(h):
    l, (ox, oy, dx, dy) = mk_line(h, 'l', ('vector', 'point', 'from_pts', 'relative'))
    h.check('origin and direction', h.eq((l.origin, l.direction), ((ox, oy), (dx, dy))))
    h.check('end points', h.eq((l.p1, l.p2), ((ox, oy), (ox + dx, oy + dy))))
    h.check('midpoint', h.eq(l.midpoint, (ox + dx / 2, oy + dy / 2)))
    v = Vector(h.real('vx'), h.real('vy'))
    p, m = l + v, l - v
    h.check('moved line', h.and_(h.eq((p.origin, p.direction), ((ox + v.x, oy + v.y), (dx, dy)))))
    h.check('line moved back', h.and_(h.eq((m.origin, m.direction), ((ox - v.x, oy - v.y), (dx, dy)))))
    h.check('results are lines', isinstance(p, Line) and isinstance(m, Line))
    h.check('original unchanged', h.eq((l.origin, l.direction), ((ox, oy), (dx, dy))))
    b = l.segment_bbox()
    h.check('segment box', h.and_(h.eq(b, BBox(ox, oy, ox + dx, oy + dy))))


@harness(bounds='all lines with non-zero direction, all points of every kind')
def closest(h):
    l, (ox, oy, dx, dy) = mk_line(h, 'l', ('vector', 'point', 'relative'))
    h.assume(h.or_(dx != 0, dy != 0))
    p = mk_point(h, 'p')
    px, py = p.xy()
    q = l.closest(p)
    h.check('result is a point', isinstance(q, BasePoint))
    qx, qy = q.xy()
    h.check('closest point lies on the line', h.eq((qx - ox) * dy - (qy - oy) * dx, 0))
    h.check('offset is perpendicular', h.eq((px - qx) * dx + (py - qy) * dy, 0))
    h.check('operands unchanged', h.and_(h.eq((l.origin, l.direction), ((ox, oy), (dx, dy))), h.eq(p, (px, py))))


@harness(bounds='lines along an axis or a fixed slant of any length and sense, points anywhere along and beside them')
def closest_along(h):
    ux, uy = h.choice('along', [(1, 0), (0, 1), (3, 4), (-4, 3)])
    k, s, t, ox, oy = [h.real(n) for n in ('k', 's', 't', 'ox', 'oy')]
    h.assume(k != 0)
    l = Line(Point(ox, oy), Vector(k * ux, k * uy))
    q = l.closest(Point(ox + s * ux - t * uy, oy + s * uy + t * ux))
    h.check('the foot', h.eq(q, (ox + s * ux, oy + s * uy)))


@harness(bounds='lines without direction')
def closest_degenerate(h):
    l = Line(Point(h.real('x'), h.real('y')), Vector(0, 0))
    h.check('a line without direction has no closest point', h.raises(ZeroDivisionError, lambda: l.closest(Point(1, 2))))


@harness(bounds='all pairs of lines in every form')
def intersection(h):
    a, (ax, ay, adx, ady) = mk_line(h, 'a', ('vector', 'relative'))
    b, (bx, by, bdx, bdy) = mk_line(h, 'b', ('vector', 'point'))
    par = bool(a.parallel(b))
    cross = adx * bdy - ady * bdx
    h.check('parallel exactly when the directions are', h.iff(par, h.eq(cross, 0)))
    h.check('parallel is symmetric', par == bool(b.parallel(a)))
    h.check('a line does not meet itself in one point', bool(a.parallel(a)) and h.raises(ParallelLineError, lambda: a.intersection(a)) and h.raises(ParallelLineError, lambda: a.intersection(Line(a.origin, a.direction))))
    if par:
        h.check('parallel lines are reported', h.raises(ParallelLineError, lambda: a.intersection(b)))
    else:
        p = a.intersection(b)
        px, py = p.xy()
        h.check('on the first line', h.eq((px - ax) * ady - (py - ay) * adx, 0))
        h.check('on the second line', h.eq((px - bx) * bdy - (py - by) * bdx, 0))
        h.check('symmetric', h.eq(b.intersection(a), p))
        h.check('result is a point', isinstance(p, BasePoint))
    h.check('lines unchanged', h.eq((a.origin, a.direction, b.origin, b.direction), ((ax, ay), (adx, ady), (bx, by), (bdx, bdy))))


@harness(bounds='the points and lines worked out from a line, changed afterwards; all values')
def results_are_new(h):
    l, (ox, oy, dx, dy) = mk_line(h, 'l', ('vector', 'point', 'relative'))
    what = h.choice('what', ['closest', 'closest to origin', 'closest above origin', 'intersection', 'midpoint', 'p2', 'plus', 'minus'])
    h.assume(h.or_(dx != 0, dy != 0))
    p = Point(h.real('px'), h.real('py'))
    if what == 'closest to origin':
        p.setxy(ox, oy)
    elif what == 'closest above origin':
        k = h.real('k')
        p.setxy(ox - k * dy, oy + k * dx)
    v = Vector(h.real('vx'), h.real('vy'))
    pv = p.xy()
    if what.startswith('closest'):
        r = l.closest(p)
    elif what == 'intersection':
        other = Line(p, v)
        if l.parallel(other):
            return
        r = l.intersection(other)
    elif what in ('midpoint', 'p2'):
        r = getattr(l, what)
    else:
        r = (l + v if what == 'plus' else l - v).origin
    r.setxy(h.real('nx'), h.real('ny'))
    h.check('changing the result leaves the line', h.eq((l.origin, l.direction), ((ox, oy), (dx, dy))))
    h.check('and the point it was asked for', h.eq(p, pv))
