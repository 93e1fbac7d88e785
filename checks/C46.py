"""Pens, brushes and shape styles resolve as documented"""
from symx.harness import harness
from x7.geom.colors import *
from x7.geom.transform import Transform
from checks.common import mk_transform

KEYS = ['edge', 'filled', 'clear', 'edge_filled', 'edge_clear']
COLORS = {'name': 'red', 'rgb': (1, 2, 3), 'rgba': (10, 20, 30, 255), 'transparent': TRANSPARENT, 'number': 7}


def mk_pen(h, tag, w):
    """(argument, colour, width) for every way to give a pen"""
    c = COLORS[h.choice(tag + '.color', list(COLORS))]
    form = h.choice(tag + '.form', ['none', 'color', 'pair', 'pair of brush', 'pen', 'pen of brush', 'default pen'])
    if form == 'none':
        return None, None, None
    if form == 'color':
        return c, c, 0
    if form == 'default pen':
        return Pen(c), c, 0
    arg = {'pair': lambda: (c, w), 'pair of brush': lambda: (Brush(c), w), 'pen': lambda: Pen(c, w), 'pen of brush': lambda: Pen(Brush(c), w)}[form]()
    return arg, c, w


def mk_brush(h, tag):
    c = COLORS[h.choice(tag + '.color', list(COLORS))]
    form = h.choice(tag + '.form', ['none', 'color', 'brush'])
    return {'none': (None, None), 'color': (c, c), 'brush': (Brush(c), c)}[form]


def width_under(h, t, w):
    """The documented stroke width"""
    if w > 0:
        return w
    sx, sy = t.scale_vals()
    return -w * (abs(sx) + abs(sy)) / 2


@harness(bounds='all ways to give a pen (none, 5 colours, pairs, pens, brushes) and a brush, all widths')
def specification(h):
    w = h.real('w') if h.choice('number', ['any', 'whole']) == 'any' else h.int('w')
    pen, pc, pw = mk_pen(h, 'pen', w)
    brush, bc = mk_brush(h, 'brush')
    p = PenBrush(pen, brush)
    h.check('stroked exactly with a pen', p.stroked is (pc is not None))
    h.check('filled exactly with a brush', p.filled is (bc is not None))
    h.check('stroke colour', p.stroke_color == pc)
    h.check('fill colour', p.fill_color == bc)
    if pc is not None:
        h.check('width', h.eq(p.pen.width, pw))
    q = PenBrush(None if pc is None else Pen(Brush(pc), pw), None if bc is None else Brush(bc))
    h.check('however given', p == q)
    if brush is None:
        r = PenBrush(pen)
        h.check('no brush by default', r == p and not r.filled)


@harness(bounds='all widths, all transforms, pens with and without brush')
def width(h):
    w = h.real('w')
    kind = h.choice('transform', ['matrix', 'scale', 'rotated'])
    if kind == 'matrix':
        t = mk_transform(h, 't')
    else:
        t = Transform().scale(h.real('sx'), h.real('sy'))
        if kind == 'rotated':
            t = Transform().rotate(h.angle('a')).scale(h.real('sx'), h.real('sx'))
    m0 = t.as_6tuple()
    p = PenBrush(Pen('red', w), h.choice('brush', [None, 'blue']))
    got = p.stroke_width(t)
    if w > 0:
        h.check('width as given', h.eq(got, w))
    elif kind == 'matrix':
        h.check('width scaled', h.eq(got, width_under(h, t, w)))
    elif kind == 'scale':
        h.check('width scaled by the mean factor', h.eq(got, -w * (abs(h.real('sx')) + abs(h.real('sy'))) / 2))
    else:
        h.check('width scaled by the factor, whatever the rotation', h.eq(got, -w * abs(h.real('sx'))))
    h.check('transform untouched', h.eq(t.as_6tuple(), m0))
    h.check('pen untouched', h.eq(p.pen.width, w))


@harness(bounds='thinnest pen under all transforms; no pen has no width')
def thin(h):
    t = mk_transform(h, 't')
    h.check('zero width stays zero', h.eq(PenBrush('red').stroke_width(t), 0))
    h.check('no pen, no width', PenBrush(None, 'red').stroke_width(t) is None)


@harness(bounds='all combinations of pen and brush, every part replaced, all widths')
def replace(h):
    w, v = h.real('w'), h.real('v')
    pen, pc, pw = mk_pen(h, 'pen', w)
    bc = h.choice('brush', [None, 'blue'])
    p, p0 = PenBrush(pen, bc), PenBrush(pen, bc)
    what = h.choice('what', ['nothing', 'pen', 'pen object', 'pen pair', 'width', 'brush', 'brush object', 'both', 'width and brush'])
    k = {'nothing': {}, 'pen': dict(pen='green'), 'pen object': dict(pen=Pen('green', v)), 'pen pair': dict(pen=('green', v)), 'width': dict(width=v),
         'brush': dict(brush='tan'), 'brush object': dict(brush=Brush('tan')), 'both': dict(pen=('green', v), brush='tan'), 'width and brush': dict(width=v, brush='tan')}[what]
    r = p.replace(**k)
    h.check('a new object', r is not p)
    h.check('original unchanged', p == p0)
    if 'pen' in k:
        want = Pen('green', 0 if what == 'pen' else v)
    elif 'width' in k and pc is not None:
        want = Pen(pc, v)
    else:
        want = p0.pen
    h.check('pen', r.pen == want)
    h.check('brush', r.brush == (Brush('tan') if 'brush' in k else p0.brush))
    h.check('pen and width are exclusive', h.raises(ValueError, lambda: p.replace(pen='green', width=v)))


@harness(bounds='all widths')
def replace_pen(h):
    w, v = h.real('w'), h.real('v')
    p = Pen(h.choice('color', ['red', (1, 2, 3)]), w)
    c = p.brush.color
    what = h.choice('what', ['nothing', 'brush', 'width', 'both'])
    k = {'nothing': {}, 'brush': dict(brush='green'), 'width': dict(width=v), 'both': dict(brush=Brush('green'), width=v)}[what]
    r = p.replace(**k)
    h.check('replaced', r == Pen('green' if 'brush' in k else c, v if 'width' in k else w))
    h.check('original unchanged', r is not p and p == Pen(c, w))


@harness(bounds='all widths: equality means same kind, colour and width')
def equality(h):
    w, v = h.real('w'), h.real('v')
    a = h.choice('a', ['red', 'blue'])
    h.check('pens', h.iff(Pen('red', w) == Pen(a, v), h.and_(a == 'red', h.eq(w, v))))
    h.check('pen and brush', h.iff(PenBrush(('red', w), 'blue') == PenBrush((a, v), 'blue'), h.and_(a == 'red', h.eq(w, v))))
    h.check('brushes matter', not (PenBrush('red', 'blue') == PenBrush('red', 'tan')) and not (PenBrush('red', 'blue') == PenBrush('red')))
    h.check('kinds matter', not (Pen('red') == Brush('red')) and not (Brush('red') == Pen('red')) and not (PenBrush('red') == Pen('red')))


@harness(bounds='draft and production styles, all widths, each of the colours and the width given or by default')
def shape_pens(h):
    w = h.real('w')
    draft = h.choice('draft', [True, False, 'default'])
    k = {n: v for n, v in dict(color='red', fill='blue', transparent=(1, 1, 1, 0), width=w).items() if h.choice(n, [0, 1])}
    if draft != 'default':
        k['draft'] = draft
    s = PensByShape.make(**k)
    c, f, t, w = k.get('color', 'white'), k.get('fill', TRANSPARENT), k.get('transparent', TRANSPARENT), k.get('width', 0)
    if draft:
        for key in KEYS:
            h.check('thin outline', s[key] == PenBrush(Pen(c, 0)))
    else:
        want = dict(edge=PenBrush(Pen(c, w)), filled=PenBrush(None, c), clear=PenBrush(None, t), edge_filled=PenBrush(Pen(c, w), f), edge_clear=PenBrush(Pen(c, w), t))
        for key in KEYS:
            h.check('style', s[key] == want[key])
    h.check('keys', list(s.keys()) == KEYS)
    for bad in ('', 'edges', 'keys', 'make', None, 'replace_width', '__class__'):
        h.check('unknown kind', h.raises(ValueError, lambda: s[bad]))


@harness(bounds='styles given per kind or by default, width of all replaced')
def shape_widths(h):
    v = h.real('v')
    given = {k: h.choice(k, [None, 'pen', 'brush', 'both']) for k in KEYS[:3]}
    mk = {'pen': lambda: PenBrush(('red', h.real('w'))), 'brush': lambda: PenBrush(None, 'tan'), 'both': lambda: PenBrush(('green', h.real('u')), 'blue')}
    s = PensByShape(**{k: mk[v1]() for k, v1 in given.items() if v1})
    r = s.replace_width(v)
    for k in KEYS:
        g = given.get(k)
        old = mk[g]() if g else PenBrush(Pen('black', 1))
        h.check('as given', s[k] == old)
        h.check('only the width replaced', r[k] == (PenBrush(Pen(old.pen.brush, v) if old.pen else None, old.brush)))


@harness(bounds='draft and production colours by kind, each given or by default')
def shape_colors(h):
    draft = h.choice('draft', [True, False, 'default'])
    k = {n: v for n, v in dict(color='red', fill='blue', transparent=(1, 1, 1, 0)).items() if h.choice(n, [0, 1])}
    if draft != 'default':
        k['draft'] = draft
    s = ColorsByShape.make(**k)
    c, f, t = k.get('color', 'white'), k.get('fill', TRANSPARENT), k.get('transparent', TRANSPARENT)
    want = dict((key, (c, None)) for key in KEYS) if draft else dict(edge=(c, None), filled=(None, c), clear=(None, t), edge_filled=(c, f), edge_clear=(c, t))
    for key in KEYS:
        h.check('style', (s[key].outline, s[key].fill) == want[key])
        h.check('filled', s[key].filled is (want[key][1] is not None))
    for bad in ('', 'edges', 'keys', 'make', None):
        h.check('unknown kind', h.raises(ValueError, lambda: s[bad]))
    h.check('no colour', Colors(NOCOLOR, NOCOLOR).outline is None and Colors(NOCOLOR, NOCOLOR).fill is None and not Colors('red', NOCOLOR).filled)
