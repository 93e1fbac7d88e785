"""Copy and restore give an exact undo for every element"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom import model as M
from x7.geom.colors import PenBrush
from x7.geom.transform import Transform
from checks.common import mk_elem, mk_transform, mk_cp, mk_point, snap, mutate, shared_parts

MUTATIONS = ['coords', 'xform', 'xform replaced', 'labels', 'all']
SIMPLE = ['curve', 'open', 'rect', 'ellipse', 'rrect']


def undo(h, e, what, then):
    """copy, change, restore, change, restore, change the copy"""
    s0 = snap(e)
    c = e.copy()
    h.check('copying leaves the original', h.eq(snap(e), s0))
    h.check('a new object of the same kind', c is not e and type(c) is type(e))
    h.check('copy consists of the same', h.eq(snap(c), s0))
    h.check('copy is equal', c == e)
    mutate(h, e, 'm', what)
    h.check('copy unaffected by changing the original', h.eq(snap(c), s0))
    e.restore(c)
    h.check('restored', h.eq(snap(e), s0))
    h.check('restored equals the copy', e == c)
    h.check('copy unaffected by restoring', h.eq(snap(c), s0))
    if then == 'original':
        mutate(h, e, 'n', 'all')
        h.check('copy unaffected by changing the original again', h.eq(snap(c), s0))
        e.restore(c)
        h.check('restored again', h.eq(snap(e), s0))
    else:
        mutate(h, c, 'n', 'all')
        h.check('original unaffected by changing the copy', h.eq(snap(e), s0))


@harness(bounds='curves (open, closed; 2 control points) and two-corner elements with arbitrary coordinates and transform; one kind of change or all, '
                'then a second change of everything',
         params=[dict(kind=k, what=w) for k in SIMPLE for w in MUTATIONS + ['one part']])
def simple(h, kind, what):
    undo(h, mk_elem(h, kind, xform=mk_transform(h, 'x')), what, h.choice('then', ['original', 'copy']))


@harness(bounds='curves of 2 control points that are one object or share points or handles', params=[dict(what=w) for w in MUTATIONS + ['one part']])
def simple_shared(h, what):
    e = shared_parts(h, 'e', 2, mk_transform(h, 'x'))
    s0 = snap(e)
    c = e.copy()
    h.check('copy is equal', c == e and h.eq(snap(c), s0))
    mutate(h, e, 'm', what)
    h.check('copy unaffected by changing the original', h.eq(snap(c), s0))
    e.restore(c)
    h.check('restored', h.eq(snap(e), s0))
    mutate(h, c, 'n', 'all')
    h.check('original unaffected by changing the copy', h.eq(snap(e), s0))


@harness(bounds='elements of every kind given another transform, arbitrary or the identity, before they are restored to any transform, also the identity', params=[dict(kind=k) for k in SIMPLE + ['group', 'holes']])
def foreign_transform(h, kind):
    e = mk_elem(h, kind, xform=mk_transform(h, 'x') if h.choice('own', [0, 1]) else None)
    first, m0 = e.xform, e.xform.as_6tuple()
    c = e.copy()
    t = mk_transform(h, 't') if h.choice('other', [0, 1]) else Transform()
    m = t.as_6tuple()
    e.xform = t
    h.check('taken', h.eq(e.xform.as_6tuple(), m))
    e.restore(c)
    h.check('restored', h.eq(e.xform.as_6tuple(), m0))
    h.check('the other transform is left alone', h.eq(t.as_6tuple(), m))
    e.xform.translate(h.real('tx'), h.real('ty'))
    h.check('and stays so', h.eq((t.as_6tuple(), c.xform.as_6tuple(), first.as_6tuple()), (m, m0, m0)))


@harness(bounds='shapes with 0 to 2 holes, each with its own arbitrary transform', params=[dict(n=n, what=w) for n in (0, 1, 2) for w in MUTATIONS])
def holes(h, n, what):
    x = lambda name: mk_transform(h, name) if n < 2 else Transform().translate(h.real(name + 'x'), h.real(name + 'y'))
    outside = mk_elem(h, h.choice('out', ['curve', 'rect']), 'o', xform=x('xo'))
    inside = [mk_elem(h, k, 'i%d' % i, xform=x('xi%d' % i)) for i, k in enumerate(['curve', 'rect'][:n])]
    e = ElemWithHoles('w', PenBrush('red', 'blue'), outside, inside, xform=mk_transform(h, 'x'))
    undo(h, e, what, h.choice('then', ['original', 'copy']))


@harness(bounds='a shape with one hole whose list of holes loses or gains a member before restoring', params=[dict(change=c) for c in ('drop', 'add', 'swap')])
def hole_list(h, change):
    e = mk_elem(h, 'holes', xform=mk_transform(h, 'x'))
    s0, c = snap(e), e.copy()
    if change == 'drop':
        e.inside.pop()
    elif change == 'add':
        e.inside.append(mk_elem(h, 'rect', 'extra'))
    else:
        e.outside, e.inside[0] = e.inside[0], e.outside
    h.check('copy keeps its holes', h.eq(snap(c), s0))
    e.restore(c)
    h.check('restored', h.eq(snap(e), s0))
    h.check('equal', e == c)
    c.inside.append(mk_elem(h, 'rect', 'extra2'))
    h.check('original keeps its holes', h.eq(snap(e), s0))


@harness(bounds='a shape with one hole; the number of control points of the outside or the hole, or the kind of either, changes before restoring')
def hole_parts(h):
    outside, hole = [mk_elem(h, 'curve', n, xform=mk_transform(h, 'x' + n)) for n in ('o', 'i')]
    e = ElemWithHoles('w', PenBrush('red', 'blue'), outside, [hole], xform=mk_transform(h, 'x'))
    s0, c = snap(e), e.copy()
    part = h.choice('part', ['outside', 'hole'])
    how = h.choice('change', ['one more', 'one less', 'other kind', 'other curve'])
    p = e.outside if part == 'outside' else e.inside[0]
    if how == 'one more':
        p.control_points.append(mk_cp(h, 'more', ['smooth']))
    elif how == 'one less':
        p.control_points.pop()
    else:
        q = mk_elem(h, 'rect' if how == 'other kind' else 'curve', 'other')
        if part == 'outside':
            e.outside = q
        else:
            e.inside[0] = q
    h.check('copy keeps its parts', h.eq(snap(c), s0))
    e.restore(c)
    h.check('restored', h.eq(snap(e), s0))
    h.check('equal', e == c)
    mutate(h, c, 'm', 'all')
    h.check('original keeps its parts', h.eq(snap(e), s0))


@harness(bounds='a group of two members and a named point with arbitrary transform; membership, points, flags and transform changed',
         params=[dict(what=w) for w in MUTATIONS + ['members', 'same name', 'swapped', 'points', 'same point']])
def group(h, what):
    e = mk_elem(h, 'group', xform=mk_transform(h, 'x'))
    e.add_pt('pt', Point(h.real('px'), h.real('py')))
    e.hidden = h.choice('hidden', [False, True])
    s0, c = snap(e), e.copy()
    h.check('copying leaves the original', h.eq(snap(e), s0))
    h.check('a new object of the same kind', c is not e and type(c) is type(e))
    h.check('copy consists of the same', h.eq(snap(c), s0))
    h.check('copy is equal', c == e)

    def change(g, tag, what):
        if what in ('members', 'all'):
            first = list(g.elems)[0]
            del g.elems[first]
            g.add(tag + 'new', mk_elem(h, 'rect', tag + 'new'))
        if what == 'same name':
            first = list(g.elems)[0]
            g.elems[first] = mk_elem(h, 'rect', first, pb=PenBrush('violet'))
        if what == 'swapped':
            g.elems = dict(reversed(g.elems.items()))
        if what == 'same point':
            g.points['pt'] = Point(h.real(tag + 'qx'), h.real(tag + 'qy'))
        if what in ('points', 'all'):
            del g.points['pt']
            g.add_pt(tag + 'pt2', Point(h.real(tag + 'qx'), h.real(tag + 'qy')))
        if what not in ('members', 'points', 'same name', 'swapped', 'same point'):
            mutate(h, g, tag, what)
    change(e, 'm', what)
    h.check('copy unaffected by changing the original', h.eq(snap(c), s0))
    e.restore(c)
    h.check('restored', h.eq(snap(e), s0))
    h.check('restored equals the copy', e == c)
    if h.choice('then', ['original', 'copy']) == 'original':
        change(e, 'n', 'all')
        h.check('copy unaffected by changing the original again', h.eq(snap(c), s0))
        e.restore(c)
        h.check('restored again', h.eq(snap(e), s0))
    else:
        change(c, 'n', 'all')
        h.check('original unaffected by changing the copy', h.eq(snap(e), s0))


@harness(bounds='nested groups: outer and inner copied and restored separately')
def nested(h):
    inner = mk_elem(h, 'group', 'in', xform=mk_transform(h, 'xi'))
    outer = Group('out', PenBrush('red'), xform=mk_transform(h, 'xo'), elems=[inner, mk_elem(h, 'rect', 'r')])
    s0 = snap(outer)
    ci, co = inner.copy(), outer.copy()
    inner.xform.translate(h.real('tx'), h.real('ty'))
    del inner.elems['inr']
    outer.xform.scale(h.real('sx'), h.real('sy'))
    outer.hidden = True
    inner.restore(ci)
    outer.restore(co)
    h.check('restored', h.eq(snap(outer), s0))
    h.check('equal', outer == co and inner == ci)


@harness(bounds='curves of 2 or 3 arbitrary control points, then one added by add_one: restoring is refused and a fresh copy works',
         params=[dict(n=n) for n in (2, 3)])
def counts_differ(h, n):
    e = mk_elem(h, 'curve', cps=n, cp_kinds=('smooth',))
    c = e.copy()
    s0 = snap(c)
    e.add_one()
    h.check('refused', h.raises(M.GeomInternalError, lambda: e.restore(c)))
    h.check('copy as before', h.eq(snap(c), s0))
    d = e.copy()
    e.xform.translate(h.real('tx'), h.real('ty'))
    e.restore(d)
    h.check('restored', h.eq(snap(e), snap(d)))


@harness(bounds='restoring control points, points and boxes themselves from copies, arbitrary coordinates')
def parts(h):
    cp = mk_cp(h, 'cp')
    d = cp.copy()
    v0 = (cp.c.xy(), cp.dl.xy(), cp.dr.xy(), cp.kind)
    h.check('control point copy equal', d == cp)
    cp.c.setxy(h.real('x'), h.real('y'))
    cp.dl.setxy(h.real('lx'), h.real('ly'))
    cp.dr.setxy(h.real('rx'), h.real('ry'))
    cp.kind = 'sharp' if cp.kind != 'sharp' else 'smooth'
    h.check('copy unaffected', h.eq((d.c.xy(), d.dl.xy(), d.dr.xy(), d.kind), v0))
    cp.restore(d)
    h.check('restored', h.eq((cp.c.xy(), cp.dl.xy(), cp.dr.xy(), cp.kind), v0) and cp == d)
    d.c.setxy(h.real('x2'), h.real('y2'))
    d.dl.setxy(h.real('lx2'), h.real('ly2'))
    d.dr.setxy(h.real('rx2'), h.real('ry2'))
    h.check('original unaffected', h.eq((cp.c.xy(), cp.dl.xy(), cp.dr.xy(), cp.kind), v0))
    t = mk_transform(h, 't')
    u = t.copy()
    m = t.as_6tuple()
    h.check('transform copy equal', t == u and h.eq(u.as_6tuple(), m))
    t.translate(h.real('tx'), h.real('ty'))
    h.check('transform copy independent', h.eq(u.as_6tuple(), m))
    t.set_matrix(u)
    h.check('transform restored', h.eq(t.as_6tuple(), m) and t == u)


@harness(bounds='two elements of each kind differing in exactly one coordinate, matrix entry or label are not equal',
         params=[dict(kind=k) for k in SIMPLE + ['group', 'holes']])
def equality(h, kind):
    e = mk_elem(h, kind, xform=mk_transform(h, 'x'))
    c = e.copy()
    d = h.real('d')
    h.assume(h.or_(d > 1e-3, d < -1e-3))
    how = h.choice('how', ['name', 'pen', 'xform', 'closed', 'coord', 'type'])
    if how == 'name':
        e.name += 'x'
    elif how == 'pen':
        e.penbrush = PenBrush('orange')
    elif how == 'xform':
        e.xform.translate(0, d)
    elif how == 'closed':
        e.closed = not e.closed
    elif how == 'type':
        h.check('other kinds of object are different', e != 5 and e != mk_elem(h, 'open' if kind != 'open' else 'rect', 'z'))
        return
    elif kind in ('curve', 'open'):
        which = h.choice('which', ['c', 'dl', 'dr', 'kind'])
        cp = e.control_points[1]
        if which == 'kind':
            cp.kind = 'sharp' if cp.kind != 'sharp' else 'smooth'
        else:
            p = getattr(cp, which)
            p.setxy(p.x, p.y + d)
    elif kind == 'group':
        which = h.choice('which', ['hidden', 'member', 'point', 'place', 'other point', 'changed'])
        if which == 'hidden':
            e.hidden = True
        elif which in ('place', 'other point'):
            x, y = h.real('x'), h.real('y')
            c.add_pt('p', Point(x, y))
            far = h.choice('axis', [0, 1])
            if which == 'other point':
                e.add_pt('q', Point(x, y))
            else:
                e.add_pt('p', Point(x + d, y) if far else Point(x, y + d))
        elif which == 'member':
            del e.elems['ec']
        elif which == 'point':
            e.add_pt('p', Point(0, 0))
        else:
            e.elems['er'] = e.elems['er'].copy()
            e.elems['er'].p2.setxy(e.elems['er'].p2.x + d, e.elems['er'].p2.y)
    elif kind == 'holes':
        which = h.choice('which', ['outside', 'inside', 'count'])
        if which == 'count':
            e.inside.pop()
        else:
            m = e.outside if which == 'outside' else e.inside[0]
            p = m.control_points[1].c
            p.setxy(p.x + d, p.y)
    else:
        which = h.choice('which', ['p1', 'p2', 'radius'])
        if which == 'radius':
            if kind != 'rrect':
                return
            e.radius += d
        else:
            p = getattr(e, which)
            p.setxy(p.x, p.y + d)
    h.check('not equal', not (e == c) and not (c == e))


@harness(merge=True, bounds='elements of every kind and what is derived from them (transformed, as curves): translated and scaled by arbitrary amounts; either side changed afterwards',
         params=[dict(kind=k, how=w) for k in SIMPLE + ['holes', 'group'] for w in ('transformed', 'curves')])
def derived(h, kind, how):
    m = Transform().translate(h.real('tx'), h.real('ty'))
    if how == 'transformed' and kind not in ('rect', 'ellipse', 'rrect'):
        m = mk_transform(h, 'm')
    e = mk_elem(h, kind, 'e', xform=Transform().translate(h.real('ex'), h.real('ey')))
    parts = [e.transform(m)] if how == 'transformed' else e.as_curves()
    h.check('something derived', len(parts) > 0)
    s, t = snap(e), [snap(p) for p in parts]
    side = h.choice('changed', ['original', 'derived', 'matrix'])
    if side == 'original':
        mutate(h, e, 'n', 'all' if kind != 'group' else 'xform', False)
        if kind == 'group':
            e.add('extra', mk_elem(h, 'rect', 'extra'))
        h.check('derived unaffected by changing the original', h.eq([snap(p) for p in parts], t))
    elif side == 'derived':
        for i, p in enumerate(parts):
            mutate(h, p, 'n%d' % i, 'all' if kind != 'group' or how == 'curves' else 'xform')
            if isinstance(p, Group):
                p.add('extra', mk_elem(h, 'rect', 'extra'))
        h.check('original unaffected by changing what was derived', h.eq(snap(e), s))
    else:
        m.scale(h.real('sx'), h.real('sy')).translate(h.real('ux'), 1)
        h.check('derived unaffected by changing the matrix', h.eq([snap(p) for p in parts], t))
        h.check('original unaffected by changing the matrix', h.eq(snap(e), s))


@harness(bounds='shapes with two holes of one name or that are one object; arbitrary coordinates and transforms', params=[dict(how=w) for w in ('name', 'one', 'outside')])
def equal_holes(h, how):
    o, i = mk_elem(h, 'curve', 'o', mk_transform(h, 'xo')), mk_elem(h, 'curve', 'i', mk_transform(h, 'xi'))
    j = mk_elem(h, 'curve', 'j', mk_transform(h, 'xj'))
    j.name = 'i'
    e = ElemWithHoles('w', PenBrush('red', 'blue'), o, {'one': [i, i], 'name': [i, j], 'outside': [o, i]}[how], xform=mk_transform(h, 'x'))
    s0, c = snap(e), e.copy()
    h.check('copy is equal', h.eq(snap(c), s0) and c == e)
    mutate(h, e.inside[0] if h.choice('which', [0, 1]) else e.outside, 'm', 'all')
    h.check('copy unaffected by changing the original', h.eq(snap(c), s0))
    e.restore(c)
    h.check('restored', h.eq(snap(e), s0) and e == c)


@harness(bounds='curves of 8 control points, groups of 9 members and shapes with 8 holes; any one part changed (of groups: taken away or one added), then restored; arbitrary coordinates',
         params=[dict(kind=k) for k in ('curve', 'group', 'holes')])
def many(h, kind):
    parts = [mk_cp(h, 'p%d' % i, ('smooth',)) if kind == 'curve' else mk_elem(h, 'rect', 'm%d' % i) for i in range(8 if kind == 'curve' else 9)]
    if kind == 'curve':
        e = M.ElemCurve('e', PenBrush('red'), parts, True)
    elif kind == 'group':
        e = Group('e', PenBrush('red'), elems=parts)
    else:
        e = ElemWithHoles('e', PenBrush('red', None), parts[-1], parts[:-1])
    s0 = snap(e)
    c = e.copy()
    h.check('copy consists of the same', h.eq(snap(c), s0) and c == e)
    k = h.choice('part', [0, 1, 4, 6, 7])
    # (members of groups are their own, not the group's)
    how = h.choice('how', {'curve': ['moved'], 'group': ['taken away', 'added'], 'holes': ['moved']}[kind])
    p = parts[k].c if kind == 'curve' else parts[k].p1
    if kind != 'group':
        p.setxy(h.real('nx'), h.real('ny'))
    if how == 'taken away':
        del e.elems['m%d' % k]
    elif how == 'added':
        e.add('q', mk_elem(h, 'rect', 'q'))
    h.check('copy unaffected', h.eq(snap(c), s0))
    e.restore(c)
    h.check('restored', h.eq(snap(e), s0) and e == c)
