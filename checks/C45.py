"""Animations draw one frame per step with the right viewport"""
from symx.harness import harness
from x7.geom.geom import *
from x7.geom.anim_simple import SimpleAnimation
from x7.geom.anim import Builder, AnimationHolder, AnimationLinear
from x7.geom.model import *
from x7.geom.colors import PenBrush
from x7.geom.transform import Transform
from checks.common import fake_images, mk_transform, affine, compose, FakeImage


def box(h):
    xl, yl, w, t = h.real('xl'), h.real('yl'), h.real('w'), h.real('h')
    h.assume(h.and_(h.lt(0, w), h.lt(0, t)))
    return xl, yl, xl + w, yl + t


@harness(bounds='1..4 steps, all start and end times (also descending), all drawing boxes, all image sizes', params=[dict(n=n) for n in (1, 2, 3, 4)])
def frames(h, n):
    with fake_images():
        bb = box(h)
        xl, yl, xh, yh = bb
        size = (h.int('sx', 1, 5000), h.int('sy', 1, 5000))
        lo, hi = h.real('lo'), h.real('hi')
        h.assume(h.not_(h.eq(lo, hi)))
        seen = []

        def draw(dc, t):
            seen.append(t)
            dc.line(xl, yh, xh, yl, color='red', width=len(seen))
        sa = SimpleAnimation(draw, size, bb, steps=n, t_low=lo, t_high=hi)
        h.check('nothing drawn yet', not seen and not sa.images)
        sa.animate()
        h.check('one call per step and one at the start', len(seen) == n + 1)
        h.check('equally spaced times', h.eq(seen, [lo + (hi - lo) * h.frac(k, n) for k in range(n + 1)]))
        h.check('one image per call', len(sa.images) == n + 1)
        for k, im in enumerate(sa.images):
            h.check('image size', h.eq(im.size, size) and im.mode == 'RGBA')
            lines = [c for c in im.content if c[0] == 'line']
            h.check('each image has its own drawing only', len(lines) == 1 and lines[0][2:] == ('red', k + 1))
            h.check('drawing box fills the image', h.eq(lines[0][1], [(0, 0), (size[0], size[1])]))


@harness(bounds='default times; arbitrary point of the drawing box; contexts used one after another and nested')
def viewport(h):
    with fake_images():
        bb = box(h)
        xl, yl, xh, yh = bb
        size = (h.int('sx', 1, 5000), h.int('sy', 1, 5000))
        form = h.choice('box', ['tuple', 'swapped'])
        sa = SimpleAnimation(None, size, bb if form == 'tuple' else (xh, yl, xl, yh), show_steps=h.choice('show', [True, False]))
        x, y = h.real('x'), h.real('y')
        want = ((x - xl) / (xh - xl) * size[0], (yh - y) / (yh - yl) * size[1])
        with sa.next_step() as a:
            h.check('point in place', h.eq(a.scale_pt(x, y), want))
            h.check('no image before the step is over', not sa.images)
            a.line(x, y, x, y, 'red')
        h.check('one image', len(sa.images) == 1)
        with sa.next_step() as b:
            b.line(x, y, x, y, 'blue')
            a.matrix.translate(1, 1)
            h.check('frames do not share the transform', h.eq(b.scale_pt(x, y), want))
        h.check('images in order', len(sa.images) == 2 and [[c[2] for c in i.content if c[0] == 'line'] for i in sa.images] == [['red'], ['blue']])
        back = [[c for c in i.content if c[0] == 'background'] for i in sa.images]
        h.check('same background', back[0] == back[1] and len(back[0]) == 1)


@harness(bounds='default image size, box and times, 20 steps by default')
def defaults(h):
    with fake_images():
        seen = []
        sa = SimpleAnimation(lambda dc, t: (seen.append(t), dc.line(-250, 250, 250, -250)))
        sa.animate()
        h.check('21 frames', len(seen) == 21 and len(sa.images) == 21)
        h.check('from 0 to 1', h.eq(seen, [h.frac(k, 20) for k in range(21)]))
        for im in sa.images:
            h.check('box fills the image', h.eq([c for c in im.content if c[0] == 'line'][0][1], [(0, 0), (500, 500)]) and im.size == (500, 500))


@harness(bounds='model of one rectangle with one animated corner, 1..4 steps, duration none, by default or given, any transform, any base image with previous drawing', params=[dict(n=n) for n in (1, 2, 3, 4)])
def builder(h, n):
    with fake_images():
        p, q, target = [Point(h.real(k + 'x'), h.real(k + 'y')) for k in 'pqt']
        model = Group('m', PenBrush('red'), elems=[ElemCurve('c', PenBrush('red'), [ControlPoint(p, Vector(0, 0), Vector(0, 0)),
                                                                                ControlPoint(q, Vector(0, 0), Vector(0, 0))], False)])
        anims = AnimationHolder()
        anims.add(AnimationLinear(p, target))
        base = FakeImage('RGBA', (10, 10), [('background', 'white')])
        m = mk_transform(h, 'm')
        m0, o, tt = m.as_6tuple(), p.xy(), target.xy()
        b = Builder(base, m, model, anims, draft=True, **h.choice('duration', [{}, dict(duration=0), dict(duration=5)]))
        if h.choice('again', [False, True]):
            b.build_all(2)
        ims = b.build_all(n)
        h.check('one image per step', len(ims) == n and len(b.images) == n and all(x is y for x, y in zip(ims, b.images)))
        for k, im in enumerate(ims):
            t = h.frac(k, n)
            at = (o[0] + t * (tt[0] - o[0]), o[1] + t * (tt[1] - o[1]))
            h.check('base below', im.content[0] == ('background', 'white') and sum(c[0] == 'background' for c in im.content) == 1)
            red = [c for c in im.content if c[0] == 'line' and c[2] == 'red']
            h.check('drawn once', len(red) == 1)
            h.check('model in its state at that time', h.eq((red[0][1][0], red[0][1][-1]), (affine(m0, *at), affine(m0, *q.xy()))))
        h.check('base image untouched', base.content == [('background', 'white')])
        h.check('transform untouched', h.eq(m.as_6tuple(), m0))


LONG = list(range(5, 26)) + [30, 32, 36, 40, 45, 48, 49, 50, 51, 60, 64, 72, 75, 90, 96, 100, 101, 120, 128, 144, 150, 180, 200, 240, 250, 256, 300, 360, 400, 480, 500, 512, 600, 1000]


class Recorder(object):
    """Stands in for a model and its animations"""

    def __init__(self):
        self.log = []

    def update(self, t):
        self.log.append(('update', t))

    def draw(self, dc):
        self.log.append(('draw', dc))
        dc.draw.point((len(self.log) // 2 - 1, 0))


@harness(bounds='%d step counts up to 1000, all drawing boxes and times, recorded models' % len(LONG))
def long_runs(h):
    n = h.choice('n', LONG)
    with fake_images():
        r = Recorder()
        m = mk_transform(h, 'm')
        b = Builder(FakeImage('RGBA', (10, 10), [('background', 'white')]), m, r, r, duration=h.choice('duration', [0, 2, 7]), draft=bool(h.choice('draft', [0, 1])))
        ims = b.build_all(n)
        h.check('updated, then drawn', [k for k, v in r.log] == ['update', 'draw'] * n)
        h.check('times', h.eq([v for k, v in r.log if k == 'update'], [h.frac(k, n) for k in range(n)]))
        h.check('one image per step', len(ims) == n)
        h.check('in order', [[c[1] for c in im.content if c[0] == 'point'] for im in ims] == [[[(k, 0)]] for k in range(n)])
        h.check('transform untouched', all(h.eq(v.matrix.as_6tuple(), m.as_6tuple()) for k, v in r.log[:6] if k == 'draw'))
        seen = []
        lo, hi = h.real('lo'), h.real('hi')
        h.assume(h.not_(h.eq(lo, hi)))
        sa = SimpleAnimation(lambda dc, t: seen.append(t), (10, 10), (0, 0, 10, 10), steps=n, t_low=lo, t_high=hi)
        sa.animate()
        h.check('one image per call', len(sa.images) == n + 1 == len(seen))
        h.check('equally spaced times', h.eq(seen, [lo + (hi - lo) * h.frac(k, n) for k in range(n + 1)]))


@harness(bounds='the same frame built twice in a row, at any time; in between nothing, a point moved, or another animation added; frames of different times in any order', merge=True)
def one_frame(h):
    with fake_images():
        p, q, target = [Point(h.real(k + 'x'), h.real(k + 'y')) for k in 'pqt']
        model = Group('m', PenBrush('red'), elems=[ElemCurve('c', PenBrush('red'), [ControlPoint(p, Vector(0, 0), Vector(0, 0)),
                                                                                ControlPoint(q, Vector(0, 0), Vector(0, 0))], False)])
        anims = AnimationHolder()
        anims.add(AnimationLinear(p, target))
        m = mk_transform(h, 'm')
        m0, o = m.as_6tuple(), p.xy()
        b = Builder(FakeImage('RGBA', (10, 10), [('background', 'white')]), m, model, anims, draft=True)

        def shown(im):
            red = [c for c in im.content if c[0] == 'line' and c[2] == 'red']
            h.check('drawn once, on the base', len(red) == 1 and sum(c[0] == 'background' for c in im.content) == 1)
            return red[0][1][0], red[0][1][-1]

        def expect(t):
            return affine(m0, o[0] + t * (target.x - o[0]), o[1] + t * (target.y - o[1])), affine(m0, *q.xy())
        t1, t2 = h.real('t1'), h.real('t2')
        h.check('first', h.eq(shown(b.build_one(t1)), expect(t1)))
        how = h.choice('between', ['nothing', 'point moved', 'other end moved', 'target moved', 'frame of another time', 'default time'])
        if how == 'point moved':
            p.setxy(h.real('nx'), h.real('ny'))
        elif how == 'other end moved':
            q.setxy(h.real('nx'), h.real('ny'))
        elif how == 'target moved':
            target.setxy(h.real('nx'), h.real('ny'))
        elif how == 'frame of another time':
            h.check('another', h.eq(shown(b.build_one(t2)), expect(t2)))
        elif how == 'default time':
            h.check('time 0 by default', h.eq(shown(b.build_one()), expect(0)))
        h.check('again', h.eq(shown(b.build_one(t1, 3)), expect(t1)))
        h.check('building one keeps no images', not b.images)
