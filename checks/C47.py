"""Drawing maps model space to pixels consistently"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom import drawing as D
from x7.geom.colors import Pen, Brush, PenBrush, TRANSPARENT
from x7.geom.drawing import DrawingContext
from x7.geom.transform import Transform
from checks.common import fake_images, FakeImage, mk_transform, mk_elem, mk_point, affine, det, path_pts, snap, shared_parts, compose, outline

PENS = {'pen': (('red', 'w'), None), 'brush': (None, 'blue'), 'both': (('red', 'w'), 'blue'), 'clear': (('red', 'w'), TRANSPARENT), 'none': (None, None)}


def context(h, m=None, **k):
    m = m or mk_transform(h, 'm')
    dc = DrawingContext(FakeImage('RGBA', (100, 80), [('background', 'white')]), m, **k)
    return dc, m.as_6tuple()


def drawn(dc):
    return dc.layer.content


@harness(bounds='all points and transforms, all widths and colours')
def points(h):
    with fake_images():
        dc, m = context(h)
        x, y, u, v = [h.real(n) for n in 'xyuv']
        h.check('scaled', h.eq(dc.scale_pt(x, y), affine(m, x, y)))
        dc.line(x, y, u, v)
        dc.line(x, y, u, v, 'red', 3)
        dc.line(x, y, u, v, width=4, color=(1, 2, 3))
        want = [affine(m, x, y), affine(m, u, v)]
        h.check('lines in place', h.eq([c[1] for c in drawn(dc)], [want] * 3) and all(c[0] == 'line' for c in drawn(dc)))
        h.check('colours and widths', [c[2:] for c in drawn(dc)] == [('black', 1), ('red', 3), ((1, 2, 3), 4)])
        h.check('transform untouched', h.eq(dc.matrix.as_6tuple(), m))


@harness(bounds='all points and invertible transforms')
def back(h):
    with fake_images():
        m = mk_transform(h, 'm', invertible=True)
        dc, m6 = context(h, m)
        x, y = h.real('x'), h.real('y')
        h.check('there and back', h.eq(dc.unscale_pt(*dc.scale_pt(x, y)), (x, y)))
        h.check('back and there', h.eq(dc.scale_pt(*dc.unscale_pt(x, y)), (x, y)))


@harness(bounds='polygons of 1..4, 9 and 13 corners given as points (plain, relative, calculated) or pairs', params=[dict(n=n) for n in (1, 2, 3, 4, 9, 13)])
def polygons(h, n):
    with fake_images():
        dc, m = context(h)
        pts, want = [], []
        for i in range(n):
            if i > 2 or h.choice('form%d' % i, ['pair', 'point']) == 'pair':
                p = (h.real('x%d' % i), h.real('y%d' % i))
                pts.append(p)
            else:
                p = mk_point(h, 'p%d' % i, ['abs', 'rel', 'calc'] if i == 0 else ['abs'])
                pts.append(p)
                p = p.xy()
            want.append(affine(m, *p))
        dc.polygon(pts)
        dc.polygon(pts, fill=None, outline='red')
        dc.polygon(pts, outline=None, fill=(1, 2, 3, 4))
        dc.polygon(pts, None, None)
        h.check('in place', h.eq([c[1] for c in drawn(dc)], [want] * 3))
        h.check('colours', [(c[0],) + c[2:] for c in drawn(dc)] == [('polygon', 'blue', 'black'), ('polygon', None, 'red'), ('polygon', (1, 2, 3, 4), None)])


@harness(bounds='crops given by any two corners, transforms of integer translation and scale (also mirrored), also when given for the image', merge=True)
def crops(h):
    with fake_images():
        sx, sy, tx, ty = h.int('sx'), h.int('sy'), h.int('tx'), h.int('ty')
        x1, y1, x2, y2 = [h.int(n) for n in ('x1', 'y1', 'x2', 'y2')]
        px, qx, py, qy = sx * x1 + tx, sx * x2 + tx, sy * y1 + ty, sy * y2 + ty
        mn = lambda a, b: a if a <= b else b
        mx = lambda a, b: b if a <= b else a
        want = (mn(px, qx), mn(py, qy), mx(px, qx), mx(py, qy))
        t = Transform((sx, 0, tx, 0, sy, ty))
        how = h.choice('how', ['call', 'construct', 'image', 'none'])
        if how == 'construct':
            dc, m = context(h, t, crop=(x1, y1, x2, y2))
            h.check('crop', h.eq(dc.crop, want))
            h.check('image cropped', h.eq(dc.image().cropped, want))
            h.check('crop overridden', h.eq(dc.image(crop=(x2, y1, x1, y2)).cropped, want))
            h.check('crop off', dc.image(crop=False).cropped is None)
        else:
            dc, m = context(h, t)
            if how == 'call':
                h.check('crop', h.eq(dc.crop_to_pixels((x1, y1, x2, y2)), want))
            elif how == 'image':
                h.check('image cropped', h.eq(dc.image(crop=(x1, y1, x2, y2)).cropped, want))
            else:
                h.check('no crop', dc.image().cropped is None)


@harness(bounds='corners truncated towards zero to whole pixels, all real corners, unit scale')
def whole_pixels(h):
    with fake_images():
        c = [h.real(n, 0, 8) for n in ('x1', 'y1', 'x2', 'y2')]
        dc, m = context(h, Transform())
        got = dc.crop_to_pixels(tuple(c))
        for g in got:
            h.check('whole', h.eq(g, int(g)))
        for i in (0, 1):
            lo, hi = got[i], got[i + 2]
            a, b = c[i], c[i + 2]
            s, l = (a, b) if a <= b else (b, a)
            h.check('lower', h.and_(h.le(lo, s), h.lt(s, lo + 1)))
            h.check('upper', h.and_(h.le(hi, l), h.lt(l, hi + 1)))


def brush(h, pens, w):
    pen, br = PENS[pens]
    return PenBrush(pen and (pen[0], w), br)


def near_width(h, got, w):
    """got is a whole number of pixels, at least one, and as near to w as that allows"""
    return h.and_(h.le(1, got), h.or_(h.and_(h.le(got - h.frac(1, 2), w), h.le(w, got + h.frac(1, 2))), h.and_(h.eq(got, 1), h.le(w, h.frac(3, 2)))))


@harness(bounds='rectangles and closed curves with arbitrary coordinates and transforms; pen only, brush only, both, transparent, neither; any pen width up to 40 pixels; production and draft',
         params=[dict(pens=p, prod=d, kind=k) for p in PENS for d in (True, False) for k in ('rect', 'curve')])
def elements(h, pens, prod, kind):
    with fake_images():
        w = h.real('w', 0, 40)
        pb = brush(h, pens, w)
        e = mk_elem(h, kind, 'e', mk_transform(h, 'x'), pb, cps=1)
        dc, m = context(h, mk_transform(h, 'm'), prod=prod)
        dc.points_per_curve = 2
        dc.debug = False
        want = [path_pts(p) for p in e.paths(dc)]
        s0 = snap(e)
        e.draw(dc)
        ops = drawn(dc)
        fills = [o for o in ops if o[0] == 'polygon']
        lines = [o for o in ops if o[0] == 'line' and o[2] is not None]
        h.check('one path', len(want) == 1)
        if pb.brush:
            h.check('filled once with its colour', len(fills) == 1 and fills[0][2] == pb.brush.color)
            h.check('fill in place', h.eq(fills[0][1], want[0]))
            h.check('fill has no outline of its own', fills[0][3] is None)
        else:
            h.check('not filled', not fills)
        if pb.pen:
            h.check('stroked once with its colour', len(lines) == 1 and lines[0][2] == 'red')
            pts = lines[0][1]
            h.check('stroke in place', h.or_(h.eq(pts, want[0]), h.eq(pts, want[0] + want[0][:1])))
            h.check('stroke closed', h.eq(pts[0], pts[-1]))
            if prod and w > 0:
                h.check('stroke width', near_width(h, lines[0][3], w))
            else:
                h.check('thin stroke', h.eq(lines[0][3], 1))
        else:
            h.check('not stroked', not lines)
        if pb.pen and pb.brush:
            h.check('filled before stroked', ops.index(fills[0]) < ops.index(lines[0]))
        h.check('element untouched', h.eq(snap(e), s0))
        h.check('context as before', h.eq(dc.matrix.as_6tuple(), m))
        h.check('background untouched', dc.background.content == [('background', 'white')])


@harness(bounds='shapes with a rectangular or open or closed curved hole, all coordinates and transforms; all pens and brushes; production and draft',
         params=[dict(kind=k) for k in ('rect', 'curve', 'open')])
def shapes_with_holes(h, kind):
    with fake_images():
        w = h.real('w', 0, 40)
        pb = brush(h, h.choice('pens', list(PENS)), w)
        own = PenBrush('tan', 'pink')
        hole = mk_elem(h, 'rect' if kind == 'rect' else 'curve', 'i', mk_transform(h, 'ix'), own, cps=2)
        if kind == 'open':
            hole.closed = False
        e = ElemWithHoles('e', pb, mk_elem(h, 'rect', 'o', mk_transform(h, 'ox'), own), [hole], mk_transform(h, 'x'))
        dc, m = context(h, mk_transform(h, 'm'), prod=h.choice('prod', [True, False]))
        dc.points_per_curve = 2
        dc.debug = False
        s0 = snap(e)
        e.draw(dc)
        ops = drawn(dc)
        fills = [o for o in ops if o[0] == 'polygon']
        lines = [o for o in ops if o[0] == 'line']
        h.check('nothing else', len(ops) == len(fills) + len(lines))
        if pb.brush:
            h.check('filled with its colour', [o[2:] for o in fills] == [(pb.brush.color, None)] * len(fills) and len(fills) >= 1)
        else:
            h.check('not filled', not fills)
        if pb.pen:
            h.check('stroked with its colour', len(lines) >= 1 and all(o[2] == 'red' for o in lines))
            with dc.matrix.push().compose(e.xform):
                edges = [path_pts(p) for x in [e.outside] + e.inside for p in x.paths(dc)]
            for n in edges:
                h.check('every edge stroked', h.or_(*[h.or_(h.eq(o[1], n), h.eq(o[1], n + n[:1])) for o in lines if len(n) <= len(o[1]) <= len(n) + 1] or [False]))
            if dc.prod and w > 0:
                h.check('stroke width', h.and_(*[near_width(h, o[3], w) for o in lines]))
            else:
                h.check('thin stroke', h.eq([o[3] for o in lines], [1] * len(lines)))
        else:
            h.check('not stroked', not lines)
        if pb.pen and pb.brush:
            h.check('filled before the edges are stroked', max(ops.index(o) for o in fills) < min(ops.index(o) for o in lines))
        h.check('element untouched', h.eq(snap(e), s0))
        h.check('context as before', h.eq(dc.matrix.as_6tuple(), m))


@harness(bounds='pens scaled with the transform: width proportional to any uniform scale up to 40 pixels')
def scaled_width(h):
    with fake_images():
        w, s = h.real('w', 0), h.real('s', 0)
        h.assume(h.le(w * s, 40))
        e = mk_elem(h, 'rect', 'e', None, PenBrush(('red', -w)))
        dc, m = context(h, Transform().scale(s, s))
        dc.debug = False
        e.draw(dc)
        lines = [o for o in drawn(dc) if o[0] == 'line']
        h.check('width', len(lines) == 1 and near_width(h, lines[0][3], w * s))


@harness(bounds='groups of 2 rectangles, all transforms: members drawn in order, under the transform of the group')
def groups(h):
    with fake_images():
        a, b = mk_elem(h, 'rect', 'a', None, PenBrush('red')), mk_elem(h, 'rect', 'b', None, PenBrush('green'))
        g = Group('g', PenBrush('tan'), elems=[a, b], xform=mk_transform(h, 'x'), hidden=h.choice('hidden', [False, True]))
        dc, m = context(h)
        dc.debug = False
        want = [path_pts(p) for p in g.paths(dc)]
        g.draw(dc)
        ops = drawn(dc)
        h.check('in order', [o[2] for o in ops] == ([] if g.hidden else ['red', 'green']))
        h.check('in place', h.eq([o[1] for o in ops], want))


class Fails(object):
    def draw(self, dc):
        dc.line(0, 0, 1, 1, 'red')
        raise ZeroDivisionError('cannot draw')


@harness(bounds='shadows of elements and of models that fail to draw; drawing afterwards; images composed of background, shadow and layer')
def shadows(h):
    with fake_images():
        old = D.make_shadow
        D.make_shadow = lambda im: FakeImage(im.mode, im.size, [('shadow of', list(im.content))])
        try:
            dc, m = context(h)
            dc.debug = False
            draw = dc.draw
            e = mk_elem(h, 'rect', 'e', None, PenBrush('red', h.choice('fill', ['blue', TRANSPARENT])))
            fail = h.choice('fails', [False, True])
            pts = [path_pts(p) for p in e.paths(dc)][0]
            if fail:
                h.check('error passed on', h.raises(ZeroDivisionError, lambda: dc.shadow_draw(Fails(), 'grey')))
            else:
                dc.shadow_draw(e, 'grey')
                sh = dc.shadow.content[0][1]
                fills = [o for o in sh if o[0] == 'polygon']
                h.check('shadow in its colour unless transparent', len(fills) == 1 and fills[0][2] == ('grey' if e.penbrush.brush.color == 'blue' else TRANSPARENT))
                h.check('shadow in place', h.eq(fills[0][1], pts))
            h.check('nothing on the layer', drawn(dc) == [])
            h.check('normal target back', dc.draw is draw and dc.shadow_color is None)
            e.draw(dc)
            fills = [o for o in drawn(dc) if o[0] == 'polygon']
            h.check('normal colours', len(fills) == 1 and fills[0][2] == e.penbrush.brush.color)
            im = dc.image()
            h.check('background below, layer on top', im.content[0] == ('background', 'white') and im.content[-len(drawn(dc)):] == drawn(dc))
            h.check('shadow in between', fail or [c[0] for c in im.content[1:-len(drawn(dc))]] == ['shadow of'])
        finally:
            D.make_shadow = old


@harness(bounds='control points drawn at their transformed places, all transforms')
def control_points(h):
    with fake_images():
        e = mk_elem(h, h.choice('kind', ['curve', 'rect']), 'e', mk_transform(h, 'x'), PenBrush('red'), cps=2)
        dc, m = context(h)
        dc.debug = False
        dc.show_cps = True
        want = []
        for p in e.control_paths(dc):
            for q in p.points:
                if isinstance(q, ControlPoint):
                    want += [q.l.xy(), q.r.xy()]
                    want.append(q.c.xy())
                else:
                    want.append(q.xy())
        e.draw(dc)
        got = [o[1] for o in drawn(dc) if o[0] in ('ellipse', 'rectangle')]
        h.check('as many marks', len(got) == len(want))
        for g, w in zip(got, want):
            h.check('centred', h.eq(((g[0][0] + g[1][0]) / 2, (g[0][1] + g[1][1]) / 2), w))


@harness(bounds='all transforms; replaced or left alone between drawing; all points')
def other_transform(h):
    with fake_images():
        dc, m = context(h)
        n = mk_transform(h, 'n')
        n6 = n.as_6tuple()
        x, y, u, v = [h.real(k) for k in 'xyuv']
        dc.line(x, y, u, v, 'red')
        given = h.choice('given', ['transform', 'none'])
        dc.set_matrix(n if given == 'transform' else None)
        now = n6 if given == 'transform' else m
        h.check('transform in use', h.eq(dc.matrix.as_6tuple(), now))
        dc.line(x, y, u, v, 'blue')
        dc.polygon([(x, y), Point(u, v)])
        h.check('earlier drawing stays', h.eq(drawn(dc)[0][1], [affine(m, x, y), affine(m, u, v)]))
        h.check('later drawing follows', h.eq([c[1] for c in drawn(dc)[1:]], [[affine(now, x, y), affine(now, u, v)]] * 2))
        h.check('back again', given == 'none' or h.eq(dc.scale_pt(x, y), affine(n6, x, y)))
        dc.matrix.translate(u, v)
        h.check('the transform given is not touched', h.eq(n.as_6tuple(), n6))


@harness(bounds='all transforms: widths on the context, handles of control points, the grid')
def helpers(h):
    with fake_images():
        dc, m = context(h)
        w = h.real('w')
        sx, sy = dc.matrix.scale_vals()
        h.check('width', h.eq(dc.stroke_width(w), w * (abs(sx) + abs(sy)) / 2))
        dc.debug = False
        dc.show_cps = True
        e = mk_elem(h, h.choice('kind', ['curve', 'rect']), 'e', mk_transform(h, 'x'), PenBrush('red'), cps=2)
        want = []
        for p in e.control_paths(dc):
            for q in p.points:
                if isinstance(q, ControlPoint):
                    want += [[q.c.xy(), q.l.xy()], [q.c.xy(), q.r.xy()]]
        e.draw(dc)
        got = [o[1] for o in drawn(dc) if o[0] == 'line' and o[2] == 'grey']
        h.check('a line for each handle', len(got) == len(want) and h.eq(got, want))
        n = len(drawn(dc))
        dc.grid()
        lines = drawn(dc)[n:]
        h.check('lines only', all(o[0] == 'line' for o in lines) and len(lines) == 14)
        h.check('axes through the origin', all(o[2] == 'red' for o in lines[:2]) and h.eq([((o[1][0][0] + o[1][1][0]) / 2, (o[1][0][1] + o[1][1][1]) / 2) for o in lines[:2]],
                                                                                       [affine(m, 0, 0)] * 2))
        for i, r in enumerate((100, 50, 10)):
            side = lines[2 + 4 * i:6 + 4 * i]
            h.check('one colour per square', len({o[2] for o in side}) == 1)
            ways = [[(-r, r), (r, r)], [(r, -r), (r, r)], [(r, -r), (-r, -r)], [(-r, -r), (-r, r)]]
            for s in ways:
                s = [affine(m, *p) for p in s]
                h.check('every side', h.or_(*[h.or_(h.eq(o[1], s), h.eq(o[1], s[::-1])) for o in side]))
        h.check('transform untouched', h.eq(dc.matrix.as_6tuple(), m))


@harness(bounds='elements drawn in a context whose matrix is the transform object they hold; curves whose control points share a place; all values', merge=True,
         params=[dict(kind=k) for k in ('curve', 'open', 'rect', 'ellipse', 'shared')])
def own_matrix(h, kind):
    with fake_images():
        dc, m = context(h)
        if kind == 'shared':
            e = shared_parts(h, 'e', 3, dc.matrix, h.choice('closed', [True, False]))
        else:
            e = mk_elem(h, kind, 'e', dc.matrix, PenBrush('red'))
        own = compose(m, m)
        dc.debug = False
        dc.points_per_curve = 2
        got = path_pts(e.paths(dc)[0])
        if kind in ('curve', 'open', 'shared'):
            h.check('twice transformed', h.eq(got, outline(h, own, e.control_points, e.closed, 2)))
        other = e.copy()
        h.check('as under an equal transform', h.eq(got, path_pts(other.paths(dc)[0])))
        e.draw(dc)
        h.check('drawn there', h.eq([o[1] for o in drawn(dc)], [got]))
        h.check('transform as before', h.eq((e.xform.as_6tuple(), dc.matrix.as_6tuple()), (m, m)) and not dc.matrix.stack)
