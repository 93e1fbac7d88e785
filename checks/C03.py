"""Dependent points and vectors follow the points they depend on"""
from symx.harness import harness
from x7.geom.geom import *


def move(h, tag, base, others=()):
    """One arbitrary move of one of the underlying points"""
    pts = [base] + list(others)
    which = h.choice('which' + tag, range(len(pts)))
    how = h.choice('how' + tag, ['setxy', 'set', 'restore'])
    x, y = h.real('mx' + tag), h.real('my' + tag)
    p = pts[which]
    if how == 'setxy':
        p.setxy(x, y)
    elif how == 'set':
        p.set(Point(x, y))
    else:
        p.restore(Point(x, y))
    return which, (x, y)


def chain(h, depth):
    base = Point(h.real('bx'), h.real('by'))
    d = [(h.real('dx%d' % i), h.real('dy%d' % i)) for i in range(depth)]
    s = h.real('s')
    rels = []
    b = base
    for dx, dy in d:
        b = PointRelative(dx, dy, b)
        rels.append(b)
    return base, d, s, rels


def expect(h, tag, b, d, s, rels, calc):
    x, y = b
    for i, (r, (dx, dy)) in enumerate(zip(rels, d)):
        px, py = x, y
        x, y = x + dx, y + dy
        h.check('relative point is base plus offset (%s)' % tag, h.and_(h.eq(r.xy(), (x, y)), h.eq((r.x, r.y), (x, y)), h.eq(list(r), [x, y])))
        h.check('vector of a relative point (%s)' % tag, h.eq(r.v, (x, y)))
    h.check('computed point is anchor plus scaled offset (%s)' % tag,
            h.and_(h.eq(calc.xy(), (px + s * dx, py + s * dy)), h.eq((calc.x, calc.y), (px + s * dx, py + s * dy))))


@harness(bounds='chains of 1-2 relative points, one computed point; 2 arbitrary moves; all coordinates',
         params=[dict(depth=1), dict(depth=2)])
def relative_follow(h, depth):
    base, d, s, rels = chain(h, depth)
    calc = PointCalc(rels[-1], s)
    expect(h, 'initially', base.xy(), d, s, rels, calc)
    b = base.xy()
    for k in range(2):
        w, b = move(h, str(k), base)
        expect(h, 'after a move', b, d, s, rels, calc)


@harness(bounds='offset and scale changes of a relative/computed point; all values')
def offset_change(h):
    base, d, s, rels = chain(h, 1)
    r = rels[0]
    calc = PointCalc(r, s)
    r.dx, r.dy = h.real('ndx'), h.real('ndy')
    calc.scale = h.real('ns')
    expect(h, 'after changing the offset', base.xy(), [(r.dx, r.dy)], calc.scale, rels, calc)
    base.setxy(h.real('nx'), h.real('ny'))
    expect(h, 'after changing both', base.xy(), [(r.dx, r.dy)], calc.scale, rels, calc)


@harness(bounds='relative points made from absolute positions; all coordinates; one move')
def from_xy(h):
    base = Point(h.real('bx'), h.real('by'))
    x, y = h.real('x'), h.real('y')
    r = PointRelative.fromxy(x, y, base)
    h.check('a relative point made at a position is there', h.eq(r.xy(), (x, y)))
    h.check('it depends on the base', r.base is base)
    dx, dy = h.real('dx'), h.real('dy')
    base.setxy(base.x + dx, base.y + dy)
    h.check('and moves along with it', h.eq(r.xy(), (x + dx, y + dy)))


@harness(bounds='difference vectors of absolute or relative points; 2 arbitrary moves; all coordinates')
def difference_vector(h):
    p = Point(h.real('px'), h.real('py'))
    q = Point(h.real('qx'), h.real('qy'))
    rel = h.choice('second end', ['absolute', 'relative'])
    dx, dy = h.real('dx'), h.real('dy')
    qq = q if rel == 'absolute' else PointRelative(dx, dy, q)
    v = VectorRelative(p, qq)
    cur = [p.xy(), q.xy()]

    def ends():
        (px, py), (qx, qy) = cur
        return (px - qx, py - qy) if rel == 'absolute' else (px - qx - dx, py - qy - dy)

    def see(tag):
        w = ends()
        h.check('difference vector is current (%s)' % tag,
                h.and_(h.eq(v.xy(), w), h.eq((v.x, v.y), w), h.eq(list(v), list(w)), h.iff(bool(v), h.or_(h.ne(w[0], 0), h.ne(w[1], 0)))))
        h.check('derived operations use the current value (%s)' % tag,
                h.and_(h.eq(v + Vector(1, 2), (w[0] + 1, w[1] + 2)), h.eq(-v, (-w[0], -w[1])), h.eq(v * 2, (2 * w[0], 2 * w[1])),
                       h.eq(v.normal(), (w[1], -w[0])), h.eq(v.dot(v), w[0] * w[0] + w[1] * w[1]), h.eq(v.p, w)))
    see('initially')
    for k in range(2):
        which, xy = move(h, str(k), p, [q])
        cur[which] = xy
        see('after a move')


@harness(bounds='fixed versions of every point and vector kind; one later move of each underlying point')
def fixed_versions(h):
    base, d, s, rels = chain(h, 1)
    calc = PointCalc(rels[0], s, 'named')
    other = Point(h.real('ox'), h.real('oy'))
    v = VectorRelative(rels[0], other)
    plain = Vector(h.real('vx'), h.real('vy'))
    things = [base, rels[0], calc, v, plain]
    vals = [t.xy() for t in things]
    fx = [t.fixed() for t in things]
    for f, val in zip(fx, vals):
        h.check('fixed version has the value of the moment', h.eq(f.xy(), val))
    h.check('fixed points are points, fixed vectors are vectors',
            all(type(f) is Point for f in fx[:3]) and all(type(f) is Vector for f in fx[3:]))
    base.setxy(h.real('nx'), h.real('ny'))
    other.setxy(h.real('mx'), h.real('my'))
    rels[0].dx = h.real('ndx')
    calc.scale = h.real('ns')
    plain.setxy(h.real('nvx'), h.real('nvy'))
    for f, val in zip(fx, vals):
        h.check('fixed version keeps the value', h.eq(f.xy(), val))
    for f in fx:
        f.setxy(0, 0)
    h.check('writing to a fixed version leaves the original', h.and_(
        h.eq(base.xy(), (h.real('nx'), h.real('ny'))), h.eq(plain.xy(), (h.real('nvx'), h.real('nvy')))))


@harness(bounds='writes to a difference vector')
def write_rejected(h):
    v = VectorRelative(Point(h.real('px'), h.real('py')), Point(h.real('qx'), h.real('qy')))
    w = v.xy()
    h.check('setting coordinates is rejected', h.raises(NotImplementedError, lambda: v.setxy(1, 2)))
    h.check('setting from a vector is rejected', h.raises(NotImplementedError, lambda: v.set(Vector(1, 2))))
    h.check('value is kept', h.eq(v.xy(), w))


@harness(bounds='assignment to plain points and vectors')
def plain_assignment(h):
    p, v = Point(h.real('px'), h.real('py')), Vector(h.real('vx'), h.real('vy'))
    x, y = h.real('x'), h.real('y')
    p.setxy(x, y)
    h.check('setxy on a point', h.eq((p.xy(), p.x, p.y), ((x, y), x, y)))
    r = PointRelative(h.real('dx'), h.real('dy'), p)
    q = Point(0, 0, 'q')
    q.set(r)
    h.check('set from a relative point', h.eq(q.xy(), r.xy()))
    q.restore(p)
    h.check('restore from a point', h.eq(q.xy(), (x, y)))
    v.set(Vector(x, y))
    h.check('set on a vector', h.eq((v.xy(), v.x, v.y), ((x, y), x, y)))
    v.setxy(y, x)
    h.check('setxy on a vector', h.eq(v.xy(), (y, x)))
    w = VectorRelative(p, q)
    v.set(w)
    h.check('set from a difference vector', h.eq(v.xy(), (0, 0)))


@harness(bounds='a plain point, a relative point on it, one further dependent point made from these in any way, one more on top of that and the vectors between any two; one change of any of them; all values',
         paths=6000)
def dependents(h):
    def val(name):
        return h.real(name + 'x'), h.real(name + 'y')

    # every point is kept with a function that says where it ought to be now
    where = {}

    def model(name):
        return where[name]()
    a = Point(*val('a'))
    r = PointRelative(*val('r'), a)
    off = {'r': (r.dx, r.dy)}
    scale = {}
    at = {'a': a.xy()}
    pts = {'a': a, 'r': r}
    where['a'] = lambda: at['a']

    def plus(base, key):
        return lambda: (model(base)[0] + off[key][0], model(base)[1] + off[key][1])

    def times(anchor, key, k):
        return lambda: (model(anchor)[0] + scale[k] * off[key][0], model(anchor)[1] + scale[k] * off[key][1])
    where['r'] = plus('a', 'r')

    def further(name, how, base):
        x, y = val(name)
        if how == 'relative':
            pts[name] = PointRelative(x, y, pts[base])
            off[name], where[name] = (x, y), plus(base, name)
        elif how == 'fromxy':
            now = model(base)
            pts[name] = PointRelative.fromxy(x, y, pts[base])
            off[name], where[name] = (x - now[0], y - now[1]), plus(base, name)
        elif how == 'calc':
            pts[name] = PointCalc(pts['r'], x)
            scale[name], where[name] = x, times('a', 'r', name)
        elif how == 'copied calc':
            pts[name] = PointCalc(pts['r'], x, 'named').copy()
            scale[name], where[name] = x, times('a', 'r', name)
        elif how == 'copy of relative':     # of one on any point
            pts[name] = PointRelative(x, y, pts[base]).copy()
            off[name], where[name] = (x, y), plus(base, name)
        elif how == 'calc on own':
            pts[name + "'"] = PointRelative(x, y, pts[base])
            off[name + "'"], where[name + "'"] = (x, y), plus(base, name + "'")
            k = h.real(name + 'k')
            pts[name] = PointCalc(pts[name + "'"], k)
            scale[name], where[name] = k, times(base, name + "'", name)
        else:       # copied relative
            pts[name] = pts['r'].copy()
            off[name], where[name] = off['r'], plus('a', name)
    ways = ['relative', 'fromxy', 'calc', 'copied calc', 'copied relative']
    further('s', h.choice('first way', ways), 'r')
    more = h.choice('second way', [None, 'relative', 'fromxy', 'copy of relative', 'calc on own'])
    if more:
        further('t', more, 's')

    def see(tag):
        for n in pts:
            h.check('%s is where its formula says (%s)' % (n, tag), h.eq(pts[n].xy(), model(n)))
    see('initially')
    p, q = h.choice('vector', [('s', 'r'), ('r', 's'), ('s', 'a'), ('a', 's'), ('r', 'a'), ('a', 'r'), ('s', 's')])
    v = VectorRelative(pts[p], pts[q])
    for w in (v.copy(), v.fixed(), v.copy().copy(), v * 1):
        h.check('vectors made from it', h.eq(w.xy(), (model(p)[0] - model(q)[0], model(p)[1] - model(q)[1])))

    def see_vector(tag):
        (px, py), (qx, qy) = model(p), model(q)
        h.check('the vector is the difference of its ends (%s)' % tag, h.eq(v.xy(), (px - qx, py - qy)))
    see_vector('initially')
    x, y = val('new')
    what = h.choice('change', ['plain', 'offset', 'offset of first', 'scale of first'])
    if what == 'plain':
        a.setxy(x, y)
        at['a'] = (x, y)
    elif what == 'offset':
        r.dx, r.dy = x, y
        off['r'] = (x, y)
    elif what == 'offset of first' and 's' in off:
        pts['s'].dx, pts['s'].dy = x, y
        off['s'] = (x, y)
    elif what == 'scale of first' and 's' in scale:
        pts['s'].scale = x
        scale['s'] = x
    see('after a change')
    see_vector('after a change')
    if not more and what != 'plain':
        x, y = val('last')
        a.setxy(x, y)
        at['a'] = (x, y)
        r.dx, r.dy = y, x
        off['r'] = (y, x)
        see('after one more')


@harness(bounds='chains of 4 to 8 relative points, each on the one before, a calculated point and a difference vector at the end; the base and any link moved, all coordinates',
         params=[dict(n=n) for n in (4, 6, 8)])
def long_chains(h, n):
    base = Point(h.real('bx'), h.real('by'))
    d = [(h.real('dx%d' % i), h.real('dy%d' % i)) for i in range(n)]
    links = [base]
    for i in range(n):
        links.append(PointRelative(d[i][0], d[i][1], links[-1]))
    s = h.real('s')
    calc, v = PointCalc(links[-1], s), VectorRelative(links[-1], links[1])

    def see(tag):
        x, y = base.xy()
        for i in range(n):
            x, y = x + d[i][0], y + d[i][1]
            h.check('relative point (%s)' % tag, h.eq(links[i + 1].xy(), (x, y)))
        px, py = links[n - 1].xy()
        h.check('calculated point (%s)' % tag, h.eq(calc.xy(), (px + s * d[-1][0], py + s * d[-1][1])))
        h.check('difference vector (%s)' % tag, h.eq(v.xy(), (sum(q[0] for q in d[1:]), sum(q[1] for q in d[1:]))))
    see('initially')
    base.setxy(h.real('nx'), h.real('ny'))
    see('base moved')
    k = h.choice('link', range(n))
    d[k] = h.real('mx'), h.real('my')
    links[k + 1].dx, links[k + 1].dy = d[k]
    see('link moved')
    h.check('fixed', h.eq(links[-1].fixed().xy(), links[-1].xy()) and h.eq(links[-1].copy().xy(), links[-1].xy()))
    base.setxy(h.real('ox'), h.real('oy'))
    see('base moved again')
