"""Drawing leaves the drawing context as it found it"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.model import *
from x7.geom.colors import PenBrush
from x7.geom.transform import Transform
from checks.common import mk_elem, mk_cp, mk_transform, mk_dc, ELEM_KINDS


class Boom(Exception):
    pass


class Broken(ElemRectangle):
    """A member that fails as soon as its geometry is asked for"""

    def points(self):
        raise Boom()

    def make_control_points(self):
        raise Boom()

    def transform_pts(self, matrix, points):
        with matrix.push().translate(1, 1):
            raise Boom()

    def iter_elems(self, root='unknown', matrix=None):
        if matrix is not None:
            yield root, self, matrix
        raise Boom()


class BrokenCurve(ElemCurve):
    def control_points_transformed(self, matrix):
        raise Boom()


class BrokenPoint(ControlPoint):
    """A control point that cannot be transformed"""

    def transform(self, matrix):
        raise Boom()

    def copy(self):
        raise Boom()

    fixed = copy


def ops(e, dc, t):
    return {
        'paths': (dc.matrix, lambda: e.paths(dc)),
        'control_paths': (dc.matrix, lambda: e.control_paths(dc)),
        'transform': (t, lambda: e.transform(t)),
        'iter_elems': (t, lambda: list(e.iter_elems('root', t))),
        'iter_elems_transformed': (t, lambda: list(e.iter_elems_transformed('root', t))),
    }


def setup(h, pushed):
    """A context matrix with something pushed already, and a second matrix"""
    dc, t = mk_dc(mk_transform(h, 'k'), 2), mk_transform(h, 't')
    if pushed:
        for m in (dc.matrix, t):
            m.push().translate(h.real('px'), h.real('py'))
    return dc, t


def run(h, e, op, pushed, fails):
    dc, t = setup(h, pushed)
    dm, tm = dc.matrix, t
    e0 = e.xform.as_6tuple()
    before = [(m.as_6tuple(), len(m.stack)) for m in (dm, tm)]
    fn = ops(e, dc, t)[op][1]
    if fails:
        h.check('the error is reported', h.raises(Boom, fn))
    else:
        fn()
    h.check('context keeps its transform object', dc.matrix is dm)
    h.check('transforms as before', h.eq([m.as_6tuple() for m in (dm, tm)], [b[0] for b in before]))
    h.check('nothing left pushed', [len(m.stack) for m in (dm, tm)] == [b[1] for b in before])
    h.check('still maps points as before', h.eq(inv_pt(dm), before_inv(before[0][0])))
    h.check('element transform as before', h.eq(e.xform.as_6tuple(), e0))
    if pushed:
        for m in (dm, tm):
            m.pop()
        h.check('outer push still restored', len(dm.stack) == 0 and len(tm.stack) == 0)


def inv_pt(m):
    return m.transform(1, 2)


def before_inv(m):
    a, b, c, d, e, f = m
    return a + 2 * b + c, d + 2 * e + f


OPS = ['paths', 'control_paths', 'transform', 'iter_elems', 'iter_elems_transformed']


@harness(bounds='every element kind, arbitrary coordinates, own transform, context and matrix; with and without an outer push', merge=True, time=100,
         params=[dict(kind=k) for k in ELEM_KINDS])
def normal(h, kind):
    xf = mk_transform(h, 'x')
    op = h.choice('op', OPS if kind in ('group', 'holes') else OPS[:4])
    if op == 'transform' and kind in ('rect', 'ellipse', 'rrect'):
        xf = Transform((2, 1, h.real('xc'), 1, 3, h.real('xf')))
    if op == 'iter_elems_transformed' and kind == 'group':      # (likewise)
        e = Group('g', PenBrush('red'), xform=xf, elems=[mk_elem(h, 'curve', 'c', cps=1), mk_elem(h, 'open', 'd', cps=1)][:h.choice('members', [2, 1, 0])])
    else:
        e = mk_elem(h, kind, xform=xf, radius=1)
    if op == 'transform' and kind in ('rect', 'ellipse', 'rrect'):
        return run_fixed(h, e)
    run(h, e, op, h.choice('pushed', [0, 1]), False)


def run_fixed(h, e):
    """two-corner elements need an invertible matrix to be transformed"""
    t = Transform((1, 2, h.real('tc'), -1, 1, h.real('tf')))
    if h.choice('pushed', [0, 1]):
        t.push().translate(h.real('px'), h.real('py'))
    m, n, x = t.as_6tuple(), len(t.stack), e.xform.as_6tuple()
    e.transform(t)
    h.check('matrix as before', h.eq(t.as_6tuple(), m) and len(t.stack) == n)
    h.check('element transform as before', h.eq(e.xform.as_6tuple(), x))


def broken(h, name='b'):
    return Broken(name, PenBrush('red'), Point(h.real('bx'), h.real('by')), Point(1, 1), xform=mk_transform(h, 'bt'))


@harness(bounds='a failing member at every position of a group, of a nested group and of a shape with holes', time=100,
         params=[dict(where=w) for w in ('first', 'last', 'nested', 'outside', 'hole')])
def failing(h, where):
    good, bad = mk_elem(h, 'curve', 'c', mk_transform(h, 'ct'), cps=1), broken(h)
    pb, xf = PenBrush('red'), mk_transform(h, 'x')
    if where == 'first':
        e = Group('g', pb, xform=xf, elems=[bad, good])
    elif where == 'last':
        e = Group('g', pb, xform=xf, elems=[good, bad])
    elif where == 'nested':
        e = Group('g', pb, xform=xf, elems=[good, Group('i', pb, xform=mk_transform(h, 'y'), elems=[bad])])
    elif where == 'outside':
        e = ElemWithHoles('h', pb, bad, [good], xform=xf)
    else:
        e = ElemWithHoles('h', pb, good, [bad], xform=xf)
    op = h.choice('op', OPS)
    if op == 'transform' or where == 'nested' and op == 'iter_elems_transformed':
        return      # these do not ask the members for their geometry
    run(h, e, op, h.choice('pushed', [0, 1]), True)


@harness(bounds='single elements that fail while drawing')
def failing_alone(h):
    which = h.choice('which', [0, 1])
    e = broken(h) if which else BrokenCurve('c', PenBrush('red'), [mk_cp(h, 'p', ['smooth'])], xform=mk_transform(h, 'x'))
    op = h.choice('op', ['paths', 'control_paths'] + (['transform'] if which else []))
    run(h, e, op, h.choice('pushed', [0, 1]), True)


@harness(bounds='curves without control points or with one that fails, alone, in groups and as holes', params=[dict(what=w) for w in ('empty', 'broken')])
def odd_curves(h, what):
    xf = mk_transform(h, 'x')
    cps = [] if what == 'empty' else [mk_cp(h, 'p', ['smooth']), BrokenPoint(Point(h.real('bx'), h.real('by')), Vector(1, 2), Vector(3, 4))]
    e = ElemCurve('c', PenBrush('red'), cps, False, xform=xf)
    where = h.choice('where', ['alone', 'group', 'hole'])
    e.closed = where == 'hole'
    op = h.choice('op', OPS[:4] if where == 'alone' else OPS)
    reads = op in ('paths', 'control_paths') or op == 'transform' and where == 'alone' or op == 'iter_elems_transformed'
    if where == 'group':
        e = Group('g', PenBrush('red'), xform=mk_transform(h, 'y'), elems=[mk_elem(h, 'curve', 'd', cps=1), e])
    elif where == 'hole':
        e = ElemWithHoles('h', PenBrush('red', 'blue' if h.choice('filled', [0, 1]) else None), mk_elem(h, 'curve', 'd', cps=1), [e], xform=mk_transform(h, 'y'))
        if what == 'broken' and op == 'transform':
            reads = True
    run(h, e, op, h.choice('pushed', [0, 1]), what == 'broken' and reads)


@harness(bounds='groups and shapes with holes: iteration abandoned after the first of one or two members')
def abandoned(h):
    good, other = mk_elem(h, 'curve', 'c', cps=1), mk_elem(h, 'curve', 'd', cps=1)
    xf, t = mk_transform(h, 'x'), mk_transform(h, 't')
    if h.choice('kind', [0, 1]):
        e = Group('g', PenBrush('red'), xform=xf, elems=[good, other][:h.choice('members', [1, 2])])
    else:
        e = ElemWithHoles('h', PenBrush('red'), good, [other], xform=xf)
    m = t.as_6tuple()
    it = e.iter_elems('r', t) if h.choice('deep', [0, 1]) else e.iter_elems_transformed('r', t)
    next(it)
    it.close()
    h.check('matrix as before', h.eq(t.as_6tuple(), m) and len(t.stack) == 0)


@harness(bounds='hidden groups, hidden groups within groups, arbitrary transforms')
def hidden(h):
    inner = Group('i', PenBrush('red'), bool(h.choice('inner', [0, 1])), mk_transform(h, 'y'), [mk_elem(h, 'curve', 'c', cps=1)])
    e = Group('g', PenBrush('red'), bool(h.choice('outer', [0, 1])), mk_transform(h, 'x'), [inner, mk_elem(h, 'curve', 'd', cps=1)])
    dc, t = setup(h, 0)
    n = 0 if e.hidden else 1 if inner.hidden else 2
    m = dc.matrix.as_6tuple()
    h.check('hidden groups draw nothing', len(e.paths(dc)) == n)
    h.check('nor control paths', len(e.control_paths(dc)) == n)
    h.check('context as before', h.eq(dc.matrix.as_6tuple(), m) and len(dc.matrix.stack) == 0)


@harness(bounds='shadow of a shape or group with any transform, drawn once or twice, of a model that fails midway, of one that draws nothing; another drawing before and after',
         stubs='make_shadow (pixel operations of the imaging library) leaves the image as it is; images are recorded drawings')
def shadow(h):
    from x7.geom import drawing as D
    from checks.common import fake_images
    with fake_images():
        old, D.make_shadow = D.make_shadow, lambda im: im
        try:
            dc = D.DrawingContext(D.Image.new('RGBA', (10, 10), 'white'), mk_transform(h, 'k'))
            dc.points_per_curve = 2
            what = h.choice('what', ['filled', 'stroked', 'group', 'failing', 'nothing'])
            e = mk_elem(h, 'rect', 'a', xform=mk_transform(h, 'x'), pb=PenBrush('red', None if what == 'stroked' else 'blue'))
            if what == 'group':
                e = Group('g', PenBrush('red'), elems=[e], xform=mk_transform(h, 'y'))
            elif what == 'failing':
                e = Group('g', PenBrush('red'), elems=[e, broken(h)], xform=mk_transform(h, 'y'))
            elif what == 'nothing':
                e = Group('g', PenBrush('red'), True, elems=[e])
            m, draw, layer = dc.matrix.as_6tuple(), dc.draw, dc.layer
            dc.line(0, 0, 1, 1, 'green')
            before = list(layer.content)
            for i in range(h.choice('times', [1, 2])):
                if what == 'failing':
                    h.check('the error is reported', h.raises(Boom, lambda: dc.shadow_draw(e)))
                else:
                    dc.shadow_draw(e)
                h.check('draws onto its layer again', dc.draw is draw and dc.layer is layer)
                h.check('no shadow colour any more', dc.shadow_color is None)
                h.check('context as before', h.eq(dc.matrix.as_6tuple(), m) and len(dc.matrix.stack) == 0)
                h.check('nothing added to the layer', h.eq([c[1] for c in layer.content], [c[1] for c in before]) and len(layer.content) == len(before))
            if what in ('filled', 'group'):
                fills = [c for c in dc.shadow.content if c[0] == 'polygon' and c[2] is not None]
                h.check('shadow drawn in its colour', len(fills) == h.choice('times', [1, 2]) and all(c[2] == (140, 140, 170, 255) for c in fills))
            if what != 'failing':
                e.draw(dc)
                h.check('drawn in its own colour afterwards', all(c[2] != (140, 140, 170, 255) for c in layer.content))
        finally:
            D.make_shadow = old


@harness(bounds='a model drawn twice gives the same paths')
def repeatable(h):
    from checks.common import path_parts
    e = mk_elem(h, 'group', xform=mk_transform(h, 'x'))
    dc, t = setup(h, 0)
    a = path_parts(e.paths(dc))
    e.control_paths(dc)
    list(e.iter_elems(None, t))
    h.check('same paths', h.eq(path_parts(e.paths(dc)), a))


@harness(bounds='every kind of element drawn, walked and transformed 5 times in one context with something pushed, all coordinates and transforms', merge=True,
         params=[dict(kind=k) for k in ('curve', 'open', 'group', 'holes')])
def many_times(h, kind):
    dc, t = setup(h, True)
    e = mk_elem(h, kind, xform=mk_transform(h, 'x'), cps=1)
    before = [(m.as_6tuple(), len(m.stack)) for m in (dc.matrix, t)]
    for i in range(5):
        for op in OPS[:4]:
            ops(e, dc, t)[op][1]()
        h.check('transforms as before', h.eq([m.as_6tuple() for m in (dc.matrix, t)], [b[0] for b in before]))
        h.check('nothing left pushed', [len(m.stack) for m in (dc.matrix, t)] == [b[1] for b in before])
