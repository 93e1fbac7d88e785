"""Groups keep names unique and lookups exact"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.colors import PenBrush, PensByShape
from x7.geom.transform import Transform
from checks.common import mk_elem, mk_cp, mk_transform, snap

NAMES = ['a', 'b', 'rectangle#0', 'x.a', 'curve#0']


def simple(h, name, tag):
    return mk_elem(h, 'rect' if h.choice(tag + '.kind', [0, 1]) else 'curve', name, cps=1)


def consistent(h, g):
    """Every member is found under its own name, names are unique, undotted and in step with the table"""
    names = [e.name for e in g.elems.values()]
    h.check('members carry their names', list(g.elems) == names)
    h.check('names are unique', len(set(names)) == len(names))
    h.check('names have no dots', not any('.' in n for n in names))
    for n, e in g.elems.items():
        h.check('lookup finds the member', g.lookup(n) is e)
    if 'zz' not in g.elems:
        h.check('unknown name is an error', h.raises(KeyError, lambda: g.lookup('zz')))
        h.check('unknown dotted name is an error', h.raises(KeyError, lambda: g.lookup('zz.a')))
    h.check('empty name is an error', '' in g.elems or h.raises(KeyError, lambda: g.lookup('')))


@harness(bounds='all sequences of 3 adds of rectangles and curves with names from %r, with and without fixing names' % NAMES, paths=6000,
         params=[dict(first=n, fix=f) for n in NAMES for f in (False, True)])
def adds(h, first, fix):
    g = Group('g', PenBrush('red'))
    members = []
    for i in range(3):
        name = first if i == 0 else h.choice('name%d' % i, NAMES)
        e = simple(h, 'own', 'e%d' % i)
        taken = set(g.elems)
        try:
            g.add(name, e, fix)
        except ValueError:
            h.check('only dotted names that may not be fixed are refused', '.' in name and not fix)
            h.check('nothing added', set(g.elems) == taken)
            continue
        h.check('dotted names are fixed only when asked for', '.' not in name or fix)
        members.append(e)
        h.check('one more member', len(g.elems) == len(taken) + 1)
        h.check('it is the element given', g.elems[e.name] is e)
        h.check('free names are kept', e.name == name or name in taken or '.' in name)
        h.check('dotted names keep their last part if free', '.' not in name or e.name == name.split('.')[-1] or name.split('.')[-1] in taken)
        consistent(h, g)
    h.check('members in the order of adding', list(g.elems.values()) == members and all(a is b for a, b in zip(g.elems.values(), members)))


@harness(bounds='groups made of lists of 2 elements with names from %r (duplicates adjusted) and of dictionaries' % NAMES)
def construct(h):
    es = [simple(h, h.choice('n%d' % i, NAMES), 'e%d' % i) for i in range(2)]
    fix = h.choice('fix', [False, True])
    dotted = any('.' in e.name for e in es)
    try:
        g = Group('g', PenBrush('red'), elems=es if h.choice('tuple', [0, 1]) else tuple(es), fix_names=fix)
    except ValueError:
        h.check('only dotted names are refused', dotted and not fix)
        return
    h.check('dotted names need fixing', fix or not dotted)
    h.check('all members in order', len(g.elems) == 2 and all(a is b for a, b in zip(g.elems.values(), es)))
    consistent(h, g)
    d = dict(g.elems)
    k = Group('k', PenBrush('red'), elems=d)
    h.check('group of a dictionary has the same members', list(k.elems.items()) == list(d.items()))
    k.add('more', simple(h, 'm', 'm'))
    h.check('its members are its own', len(d) == 2 and len(g.elems) == 2)
    h.check('other collections are refused', h.raises(TypeError, lambda: Group('q', PenBrush('red'), elems=5)))


AUTO = ['rectangle#0', 'rectangle#1', 'rectangle#2', 'curve#0', 'curve#2']


@harness(bounds='groups with any subset of the names %r present already, then 3 more elements of a taken name, some after a replacement of a member' % AUTO, paths=6000)
def gaps(h):
    g = Group('g', PenBrush('red'), elems=[mk_elem(h, 'rect', n, cps=1) for n in ['a'] + [n for n in AUTO if h.choice(n, [0, 1])]])
    members = list(g.elems.values())
    for i in range(3):
        if i == 2 and h.choice('replaced', [0, 1]):
            new = mk_elem(h, 'rect', 'z', cps=1)
            first = members[0]
            g.replace(first, new)
            members = [new if m is first else m for m in members]
            h.assume(len([m for m in members if m is new]) == 1 and list(g.elems).count('z') == 1)
        e = mk_elem(h, 'rect' if h.choice('kind%d' % i, [0, 1]) else 'curve', 'own', cps=1)
        g.add(members[-1].name if i == 2 else 'a', e, bool(h.choice('fix', [0, 1])))
        members.append(e)
        h.check('all members in order', len(g.elems) == len(members) and all(a is b for a, b in zip(g.elems.values(), members)))
        consistent(h, g)


def tree(h):
    """g { a, s { b, t { a, b } }, b }"""
    es = {n: mk_elem(h, k, n[-1], cps=1) for n, k in [('a', 'rect'), ('b', 'curve'), ('sb', 'rect'), ('ta', 'curve'), ('tb', 'rect')]}
    t = Group('t', PenBrush('red'), elems=[es['ta'], es['tb']], xform=mk_transform(h, 'xt'))
    s = Group('s', PenBrush('red'), elems=[es['sb'], t])
    g = Group('g', PenBrush('red'), elems=[es['a'], s, es['b']], xform=mk_transform(h, 'xg'))
    return g, s, t, es


@harness(bounds='a tree of groups of depth 3 with repeated names: every name and every wrong name')
def dotted(h):
    g, s, t, es = tree(h)
    want = {'a': es['a'], 'b': es['b'], 's': s, 's.b': es['sb'], 's.t': t, 's.t.a': es['ta'], 's.t.b': es['tb']}
    for n, e in want.items():
        h.check('found', g.lookup(n) is e)
        if '.' in n:
            h.check('found from the group inside', s.lookup(n.partition('.')[2]) is e)
    for n in ('t', 's.a', 's.t.c', 't.a', 'g', 'g.a', '.a', 's..t', 's.t.t'):
        h.check('wrong name is an error', h.raises(KeyError, lambda: g.lookup(n)))
    for n in ('a.b', 's.b.x', 's.t.a.a', 'a.s'):
        h.check('nothing below plain elements', h.raises((KeyError, ValueError), lambda: g.lookup(n)))


@harness(bounds='chains of groups of depth 1 to 3, each with a single member or two: every part of the chain asked from every group', params=[dict(depth=d) for d in (1, 2, 3)])
def chains(h, depth):
    e = leaf = mk_elem(h, h.choice('leaf', ['rect', 'curve', 'holes']), 'leaf', cps=1)
    groups = []
    for i in reversed(range(depth)):
        more = [mk_elem(h, 'rect', 'm%d' % i)] if h.choice('more%d' % i, [0, 1]) else []
        e = Group('g%d' % i, PenBrush('red'), elems=[e] + more, hidden=bool(h.choice('hidden%d' % i, [0, 1])))
        groups.insert(0, e)
    names = ['g%d' % i for i in range(depth)] + ['leaf']
    for i, g in enumerate(groups):
        for j in range(depth + 1):
            for k in range(j, depth + 1):
                tag = '.'.join(names[j:k + 1])
                if j == i + 1:
                    h.check('found', g.lookup(tag) is (groups + [leaf])[k])
                else:
                    h.check('not a name in this group', h.raises((KeyError, ValueError), lambda: g.lookup(tag)))
        for tag in ('m9', 'LEAF', 'leaf ', ' leaf', names[i + 1] + '.', names[i + 1] + '..' + names[-1], names[i + 1][:-1], names[i + 1] + 'x'):
            found = tag == names[i + 1] + '.'       # an empty rest names the group itself
            h.check('wrong name is an error', found or h.raises((KeyError, ValueError), lambda: g.lookup(tag)))


def flat(g, out=None):
    """All members with their place"""
    out = [] if out is None else out
    for n, e in g.elems.items():
        out.append((n, e))
        if isinstance(e, Group):
            flat(e, out)
        elif isinstance(e, ElemWithHoles):
            out.extend([('outside', e.outside)] + [('inside', x) for x in e.inside])
    return out


@harness(bounds='a tree of groups of depth 3 with arbitrary coordinates: any member replaced by a new element of the same or another name',
         params=[dict(which=w) for w in ('a', 'b', 'sb', 'ta', 'tb', 't', 's', 'none')])
def replace(h, which):
    g, s, t, es = tree(h)
    old = {'s': s, 't': t, 'none': mk_elem(h, 'rect', 'nowhere')}.get(which) or es[which]
    new = mk_elem(h, 'rect', old.name if h.choice('same name', [0, 1]) else 'new')
    # no other element happens to be equal
    before = flat(g)
    equal = [e == old for n, e in before]
    snaps = [snap(e) for n, e in before if not isinstance(e, Group)]
    count = g.replace(old, new)
    h.check('as many as there were equal ones', count == sum(1 for q in equal if q))
    below = [e for n, e in flat(old)] if isinstance(old, Group) else []
    want = [(new.name, new) if q else (n, e) for (n, e), q in zip(before, equal) if not any(e is b for b in below)]
    got = flat(g)
    h.check('same places', [n for n, e in got] == [n for n, e in want])
    h.check('exactly the equal ones exchanged', all(a is b for (n, a), (m, b) in zip(got, want)))
    h.check('others unchanged', h.eq([snap(e) for n, e in before if not isinstance(e, Group)], snaps))
    for q in (g, s, t):
        consistent(h, q)


@harness(bounds='replacing by a name that is already taken or dotted, in groups of depth 2')
def refused(h):
    a, b = mk_elem(h, 'rect', 'a'), mk_elem(h, 'curve', 'b', cps=1)
    g = Group('g', PenBrush('red'), elems=[a, b])
    top = Group('top', PenBrush('red'), elems=[g])
    bad = mk_elem(h, 'rect', h.choice('bad', ['b', 'x.y']))
    h.check('refused', h.raises(ValueError, lambda: h.choice('from', [g, top]).replace(a, bad)))
    h.check('nothing lost', list(g.elems) == ['a', 'b'] and g.lookup('a') is a and g.lookup('b') is b)


@harness(bounds='groups containing shapes with holes: members of the shape, the shape itself and elements next to it replaced',
         params=[dict(which=w) for w in ('outside', 'first', 'second', 'shape', 'next', 'deep', 'none')])
def holes(h, which):
    o, i1, i2 = mk_elem(h, 'rect', 'o'), mk_elem(h, 'rect', 'i1'), mk_elem(h, 'curve', 'i2', cps=1)
    w = ElemWithHoles('w', PenBrush('red', 'blue'), o, [i1, i2])
    n, d = mk_elem(h, 'rect', 'n'), mk_elem(h, 'rect', 'd')
    g = Group('g', PenBrush('red'), elems=[w, n, Group('s', PenBrush('red'), elems=[d])])
    old = dict(outside=o, first=i1, second=i2, shape=w, next=n, deep=d, none=mk_elem(h, 'rect', 'nowhere'))[which]
    new = mk_elem(h, 'rect', 'new')
    before = flat(g)
    count = g.replace(old, new)
    h.check('count', count == (0 if which == 'none' else 1))
    below = [o, i1, i2] if which == 'shape' else []
    want = [new if e is old else e for m, e in before if not any(e is b for b in below)]
    got = [e for m, e in flat(g)]
    h.check('exactly the one exchanged', len(got) == len(want) and all(a is b for a, b in zip(got, want)))
    if which != 'shape':
        h.check('holes still looked up', w.lookup('outside.' + w.outside.name) is w.outside and w.lookup('inside.' + w.inside[0].name) is w.inside[0])
        h.check('unknown hole is an error', h.raises(KeyError, lambda: w.lookup('inside.zz')) and h.raises(KeyError, lambda: w.lookup('outside.zz')))


@harness(bounds='named points of groups: adding, finding, duplicates and dotted names')
def points(h):
    g = Group('g', PenBrush('red'))
    p, q = Point(h.real('x'), h.real('y')), Point(h.real('u'), h.real('v'))
    h.check('returns the point', g.add_pt('p', p) is p and p.name == 'p')
    h.check('duplicate refused', h.raises(AssertionError, lambda: g.add_pt('p', q)))
    h.check('dotted refused', h.raises(AssertionError, lambda: g.add_pt('p.q', q)))
    h.check('still there', g.lookup_pt('p') is p)
    g.add_pt('q', q)
    h.check('both found', g.lookup_pt('p') is p and g.lookup_pt('q') is q)
    h.check('unknown', h.raises(KeyError, lambda: g.lookup_pt('r')))


KINDS = ['edge', 'filled', 'clear', 'edge_filled', 'edge_clear']


@harness(bounds='builders: every shape kind and explicit pens, nested builder groups, arbitrary coordinates', params=[dict(kind=k) for k in [None, 'pen'] + KINDS])
def builder(h, kind):
    pens = PensByShape.make(draft=h.choice('draft', [True, False]), color='red', fill='blue') if h.choice('made', [0, 1]) else PensByShape()
    b = GroupBuilder('g', pens)
    pb = PenBrush('cyan', 'tan')
    arg = pb if kind == 'pen' else kind
    want = pb if kind == 'pen' else pens[kind or 'edge']
    p, q = Point(h.real('px'), h.real('py')), Point(h.real('qx'), h.real('qy'))
    cps = [mk_cp(h, 'c%d' % i, ('smooth',)) for i in range(2)]
    made = [b.rect('r', p, q, arg), b.ellipse('e', p, q, arg), b.rrect('rr', p, q, h.real('rad', 0), arg), b.curve('c', cps, arg)]
    h.check('kinds', [type(e) for e in made] == [ElemRectangle, ElemEllipse, ElemRectangleRounded, ElemCurve])
    h.check('members in order', list(b.the_group.elems.items()) == list(zip(['r', 'e', 'rr', 'c'], made)))
    for e in made:
        h.check('pens', e.penbrush == want)
        h.check('found', b.lookup(e.name) is e)
    h.check('curve closed when filled', made[3].closed == want.filled)
    h.check('coordinates', all(h.eq((e.p1.xy(), e.p2.xy()), (p.xy(), q.xy())) for e in made[:3]))
    h.check('radius', h.eq(made[2].radius, h.real('rad', 0)))
    h.check('control points', len(made[3].control_points) == 2 and all(x == y for x, y in zip(made[3].control_points, cps)))
    sub = b.group('sub', shape_kind='filled')
    e = sub.rect('r', p, q)
    h.check('nested pens', e.penbrush == pens['filled'])
    h.check('nested', b.lookup('sub.r') is e and b.lookup('sub') is sub.the_group)
    h.check('point', b.point('p', h.real('px'), h.real('py')).xy() == p.xy() and b.lookup_pt('p').name == 'p')
    new = mk_elem(h, 'rect', 'new')
    n = sum(1 for x in made + [e] if x == e)
    h.check('replace reaches nested groups', b.replace(e, new) == n)
    h.check('pens need to be given by shape', h.raises(TypeError, lambda: GroupBuilder('g', pb)))


@harness(bounds='shapes with three holes whose names may start one another or be the same, in groups; every part looked up by name; parts that occur several times replaced')
def holes_by_name(h):
    names = [h.choice('n%d' % i, ['i', 'i2', 'outside', 'a']) for i in range(3)]
    parts = [mk_elem(h, 'rect', n, cps=1) for n in names]
    out = mk_elem(h, 'rect', h.choice('out', ['o', 'i']), cps=1)
    w = ElemWithHoles('w', PenBrush('red', 'blue'), out, list(parts))
    for n in ('i', 'i2', 'outside', 'a', 'o', ''):
        found = [p for m, p in zip(names, parts) if m == n]
        if found:
            h.check('the hole with this very name', w.lookup('inside.' + n) is found[0])
        else:
            h.check('no such hole', h.raises(KeyError, lambda: w.lookup('inside.' + n)))
        if n == out.name:
            h.check('the outside by its name', w.lookup('outside.' + n) is out)
        else:
            h.check('no such outside', h.raises(KeyError, lambda: w.lookup('outside.' + n)))
        h.check('other prefixes are errors', h.raises(KeyError, lambda: w.lookup(n)) and h.raises(KeyError, lambda: w.lookup('ins.' + n)))


@harness(bounds='shapes with holes in which equal parts occur up to three times, alone or in a group next to other shapes, replaced from the shape or from the group')
def holes_repeated(h):
    def part(tag):
        return mk_elem(h, 'rect', 'i', cps=1) if h.choice(tag, [0, 1]) else mk_elem(h, 'rect', 'other' + tag, cps=1)
    out, ins = part('o'), [part('a'), part('b'), part('c')]
    w = ElemWithHoles('w', PenBrush('red', 'blue'), out, list(ins))
    v = ElemWithHoles('v', PenBrush('red', 'blue'), mk_elem(h, 'rect', 'vo', cps=1), [mk_elem(h, 'rect', 'i', cps=1)])
    g = Group('g', PenBrush('red'), elems=[w, v])
    old, new = mk_elem(h, 'rect', 'i', cps=1), mk_elem(h, 'rect', 'new', cps=1)
    old.penbrush = w.penbrush
    parts = [out] + ins
    hit = [p == old for p in parts]
    whole = h.choice('from', ['shape', 'group']) == 'group'
    count = (g if whole else w).replace(old, new)
    h.check('every one of them counted', count == sum(hit) + (1 if whole else 0))
    now = [w.outside] + w.inside
    h.check('as many parts as before', len(now) == len(parts))
    for m, p, q in zip(hit, parts, now):
        h.check('equal parts exchanged, all others kept', q is (new if m else p))
    h.check('in the other shape as well', (v.inside[0] is new) == whole and len(v.inside) == 1)


@harness(bounds='12 members added under one name, or under two, or under names that are counted already; with and without fixing names, arbitrary coordinates',
         params=[dict(how=w) for w in ('one', 'two', 'dotted', 'counted')])
def many_of_one_name(h, how):
    g, members = Group('g', PenBrush('red')), []
    fix = how == 'dotted' or bool(h.choice('fix', [0, 1]))
    for i in range(12):
        e = mk_elem(h, 'rect' if how in ('one', 'dotted') or i % 2 else 'curve', 'own', cps=1)
        name = {'one': 'a', 'two': 'ab'[i % 3 == 0], 'dotted': 'x.a', 'counted': 'rectangle#%d' % (i // 2)}[how]
        g.add(name, e, fix)
        members.append(e)
        h.check('all members in order', len(g.elems) == i + 1 and all(a is b for a, b in zip(g.elems.values(), members)))
    consistent(h, g)
    h.check('the first keeps its name', members[0].name == {'one': 'a', 'two': 'b', 'dotted': 'a', 'counted': 'rectangle#0'}[how])
    h.check('the same from a list', len(Group('k', PenBrush('red'), elems=list(members)).elems) == 12)


@harness(bounds='chains of 4 to 8 groups, the leaf any kind of element: every part of the chain found from every group, and nothing else', params=[dict(depth=d) for d in (4, 6, 8)])
def deep_chains(h, depth):
    e = mk_elem(h, h.choice('leaf', ['rect', 'curve', 'holes']), 'leaf', cps=1)
    chain = [e]
    same = h.choice('names', ['different', 'same'])
    for i in reversed(range(depth)):
        e = Group('g%d' % i if same == 'different' else 'g', PenBrush('red'), elems=[mk_elem(h, 'rect', 'm%d' % i), e])
        chain.insert(0, e)
    names = [x.name for x in chain]
    for i in range(depth):
        for k in range(i + 1, depth + 1):
            tag = '.'.join(names[i + 1:k + 1])
            h.check('found', chain[i].lookup(tag) is chain[k])
            if k < depth:
                h.check('its other member', chain[i].lookup(tag + '.m%d' % k) is list(chain[k].elems.values())[0])
                h.check('wrong last name', h.raises((KeyError, ValueError), lambda: chain[i].lookup(tag + '.m%d' % (k - 1))))
            if k > i + 1:
                for j in range(i + 1, k):
                    wrong = names[i + 1:k + 1]
                    wrong[j - i - 1] = 'zz'
                    h.check('wrong name within', h.raises((KeyError, ValueError), lambda: chain[i].lookup('.'.join(wrong))))
                if same == 'different':
                    h.check('left out', h.raises((KeyError, ValueError), lambda: chain[i].lookup('.'.join(names[i + 2:k + 1]))))
                    h.check('left out within', k == i + 2 and k == depth or h.raises((KeyError, ValueError), lambda: chain[i].lookup('.'.join([names[i + 1]] + names[i + 3:k + 1] + ['x']))))


@harness(bounds='groups of 12 members: any replaced; arbitrary coordinates', params=[dict(which=w) for w in (0, 5, 6, 7, 10, 11)])
def replace_many(h, which):
    es = [mk_elem(h, 'rect', 'm%d' % i) for i in range(12)]
    for i, e in enumerate(es):      # no two are equal
        e.p1.setxy(i, h.real('y%d' % i))
    g = Group('g', PenBrush('red'), elems=es)
    top = Group('top', PenBrush('red'), elems=[g])
    new = mk_elem(h, 'rect', h.choice('name', ['new', 'm%d' % which]))
    h.check('one', h.choice('from', [g, top]).replace(es[which], new) == 1)
    want = es[:which] + [new] + es[which + 1:]
    h.check('exactly that one exchanged, in its place', len(g.elems) == 12 and all(a is b for a, b in zip(g.elems.values(), want)))
    consistent(h, g)
