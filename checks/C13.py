"""Parsing of point sequences accepts exactly the documented mixtures"""
from symx.harness import harness
from x7.geom.geom import *


@harness(bounds='all sequences of up to 3 entries (points of any kind, pairs, runs of two numbers, triples if allowed), all numbers',
         params=[dict(n=n) for n in (0, 1, 2, 3)])
def mixtures(h, n):
    allow = h.choice('allow', [False, True])
    items, want = [], []
    forms = ['point', 'relative', 'pair', 'numbers', 'int numbers'] + (['triple'] if allow else [])
    for i in range(n):
        f = h.choice('form%d' % i, forms + (['again'] if want else []))
        a, b, c = h.real('a%d' % i), h.real('b%d' % i), h.real('c%d' % i)
        if f == 'point':
            p = Point(a, b)
            items.append(p)
            want.append(p)
        elif f == 'relative':
            p = PointRelative(a, b, Point(c, c))
            items.append(p)
            want.append(p)
        elif f == 'again':      # what came just before once more
            items.append(want[-1])
            want.append(want[-1])
        elif f == 'pair':
            items.append((a, b))
            want.append((a, b))
        elif f == 'triple':
            items.append((a, b, 'tag%d' % i))
            want.append((a, b, 'tag%d' % i))
        elif f == 'numbers':
            items += [a, b]
            want.append((a, b))
        else:
            items += [i, 2 * i]
            want.append((i, 2 * i))
    src = h.choice('source', ['list', 'tuple', 'generator'])
    seq = items if src == 'list' else tuple(items) if src == 'tuple' else (x for x in items)
    r = BasePoint.parse(seq, allow) if h.choice('call', ['positional', 'keyword']) == 'positional' else BasePoint.parse(seq, allow_thruples=allow)
    h.check('one entry per point', len(r) == len(want))
    for x, y in zip(r, want):
        if isinstance(y, BasePoint):
            h.check('point objects are kept', x is y)
        else:
            h.check('pairs are tuples', isinstance(x, tuple) and len(x) == len(y))
            h.check('coordinates are kept', h.eq(x, y))


BAD = ['missing', 'text after number', 'pair after number', 'point after number', 'none after number',
       'short after number', 'empty after number', 'list after number', 'long after number', 'text digit', 'short', 'long', 'triple', 'text',
       'none', 'list', 'empty']


@harness(bounds='each malformed entry, alone or after a valid entry of each form, all numbers')
def rejected(h):
    a, b = h.real('a'), h.real('b')
    pre = h.choice('prefix', ['nothing', 'pair', 'numbers', 'point'])
    items = {'nothing': [], 'pair': [(a, b)], 'numbers': [a, b], 'point': [Point(a, b)]}[pre]
    bad = h.choice('bad', BAD)
    allow = h.choice('allow', [False, True])
    items = items + {'missing': [a], 'text after number': [a, 'x'], 'pair after number': [a, (a, b)], 'point after number': [a, Point(a, b)],
                     'none after number': [a, None], 'short after number': [a, (a,)], 'empty after number': [a, ()], 'list after number': [a, [a]],
                     'long after number': [a, (a, b, a)], 'text digit': [1, '1'], 'short': [(a,)], 'long': [(a, b, a, b)], 'triple': [(a, b, a)], 'text': ['xy'],
                     'none': [None], 'list': [[a, b]], 'empty': [()]}[bad]
    if bad == 'triple' and allow:
        h.check('triples are accepted when allowed', h.eq(BasePoint.parse(items, True)[-1], (a, b, a)))
    else:
        h.check('malformed input is rejected', h.raises(ValueError, lambda: BasePoint.parse(items, allow)))


@harness(bounds='sequences of 12 points given as numbers, pairs or points, one of them, any, in any other form and with special values; all numbers', params=[dict(base=b) for b in ('numbers', 'pair', 'point')])
def long_sequences(h, base):
    which, form = h.choice('which', range(12)), h.choice('form', ['numbers', 'pair', 'point', 'zeros', 'zero x', 'again', 'dropped'])
    items, want = [], []
    for i in range(12):
        a, b = h.real('a%d' % i), h.real('b%d' % i)
        f = form if i == which else base
        if f in ('zeros', 'zero x'):
            a, b = 0, (0 if f == 'zeros' else b)
            f = base
        elif f == 'again' and want:
            p = want[-1]
            if base == 'numbers':
                items += list(p)
            else:
                items.append(p)
            want.append(p)
            continue
        if f == 'dropped':      # half a point
            items.append(a)
            continue
        p = Point(a, b) if f == 'point' else (a, b)
        want.append(p)
        if f in ('numbers', 'again'):
            items += [a, b]
            want[-1] = (a, b)
        else:
            items.append(p)
    if form == 'dropped':
        h.check('half a point is refused', h.raises(ValueError, lambda: BasePoint.parse(items)))
        return
    r = BasePoint.parse(items)
    h.check('one entry per point', len(r) == 12)
    for x, y in zip(r, want):
        h.check('kept', x is y if isinstance(y, BasePoint) else isinstance(x, tuple) and h.eq(x, y))
