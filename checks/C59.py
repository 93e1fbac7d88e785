"""Finished frames are cropped, scaled and saved together, none lost"""
import sys
import types
from symx.harness import harness
from x7.geom import anim as A, anim_simple as S
from x7.geom.anim import Builder, bbox_max
from x7.geom.anim_simple import SimpleAnimation
from x7.geom.transform import Transform


class Band(object):
    """An alpha channel: the pixel values it may have are given by one arbitrary value"""

    def __init__(self, v):
        self.v = v

    def point(self, f):
        return Band(f(self.v))


class Frame(object):
    """Stands for a PIL image: which picture it shows, what happened to it"""

    def __init__(self, tag, size, bbox=None, mode='RGBA', done=(), alpha=None, log=None):
        self.tag, self.size, self.bbox, self.mode, self.done, self.log = tag, size, bbox, mode, tuple(done), log
        self.alpha = alpha
        self.info = {}

    def _with(self, what, **k):
        d = dict(tag=self.tag, size=self.size, bbox=self.bbox, mode=self.mode, done=self.done + (what,), alpha=self.alpha, log=self.log)
        d.update(k)
        return Frame(**d)

    def getbbox(self):
        return self.bbox

    def crop(self, box=None):
        return self._with(('crop', tuple(box)), size=(box[2] - box[0], box[3] - box[1]))

    def resize(self, size, resample=None, box=None, reducing_gap=None):
        return self._with(('resize', tuple(size)), size=tuple(size))

    def split(self):
        return [Band(0), Band(0), Band(0), Band(self.alpha)]

    def getchannel(self, c):
        return Band(self.alpha)

    def putalpha(self, band):
        self.alpha = band.v

    def getdata(self):
        return []

    def getpixel(self, xy):
        return 0

    def convert(self, mode, **k):
        return self._with(('convert', mode), mode=mode)

    def quantize(self, **k):
        return self._with(('quantize',), mode='P')

    def copy(self):
        return self._with(('copy',))

    def show(self, *a, **k):
        pass

    def load(self):
        pass

    def save(self, output, **k):
        self.log.append((self, output, k))


class machine(object):
    """A machine of the given kind: programs that would be run are only noted, images are stand-ins"""

    def __init__(self, name):
        self.name, self.ran = name, []

    def __enter__(self):
        def note(*a, **k):
            self.ran.append(a)
        sysm = types.SimpleNamespace(platform=self.name)
        osm = types.SimpleNamespace(system=note)
        im = types.SimpleNamespace(Image=Frame, NONE=0, ADAPTIVE=1, BICUBIC=3, LANCZOS=1,
                                   new=lambda mode, size, color=0: Frame('plain', size, mode=mode),
                                   alpha_composite=lambda a, b: b._with(('over', a.tag)))
        pal = types.SimpleNamespace(palette_image=lambda *a: types.SimpleNamespace(palette=types.SimpleNamespace(colors={}, getcolor=note), load=note, show=note))
        plat = types.SimpleNamespace(quicklook=note)
        gif = types.ModuleType('pygifsicle')
        gif.optimize = note
        new = [(A, 'sys', sysm), (A, 'Image', im), (A, 'imagehelp', pal), (A, 'platform', plat), (S, 'sys', sysm), (S, 'os', osm), (S, 'Image', im)]
        self.old = [(m, n, getattr(m, n)) for m, n, v in new]
        for m, n, v in new:
            setattr(m, n, v)
        self.mod = sys.modules.get('pygifsicle')
        sys.modules['pygifsicle'] = gif
        return self

    def __exit__(self, *exc):
        for m, n, o in self.old:
            setattr(m, n, o)
        if self.mod is None:
            del sys.modules['pygifsicle']
        else:
            sys.modules['pygifsicle'] = self.mod
        return False


def mk_frames(h, n, log=None, empty=True):
    """Frames of one size, each with an arbitrary visible part (or none)"""
    w, t = h.int('w'), h.int('h')
    h.assume(h.and_(h.le(1, w), h.le(1, t)))
    out = []
    for i in range(n):
        bb = None
        if not empty or h.choice('visible%d' % i, ['something', 'nothing']) == 'something':
            bb = tuple(h.int('%s%d' % (k, i)) for k in ('xl', 'yl', 'xh', 'yh'))
            h.assume(h.and_(h.le(0, bb[0]), h.lt(bb[0], bb[2]), h.le(bb[2], w), h.le(0, bb[1]), h.lt(bb[1], bb[3]), h.le(bb[3], t)))
        out.append(Frame(i, (w, t), bb, log=log))
    return out, w, t


def others(h, w, t):
    """Frames of a builder that is given others to work on"""
    return [Frame('other%d' % i, (w, t), (0, 0, w, t)) for i in range(h.choice('others', [0, 1, 2, 5]))]


def builder(images=()):
    b = Builder(None, Transform(), None)
    b.images = list(images)
    return b


def least(h, got, frames):
    """got is the least box around the visible parts of the frames"""
    bbs = [f.bbox for f in frames if f.bbox is not None]
    if not bbs:
        return got is None
    return got is not None and len(got) == 4 and h.and_(
        *[h.and_(h.le(got[0], b[0]), h.le(got[1], b[1]), h.le(b[2], got[2]), h.le(b[3], got[3])) for b in bbs],
        *[h.or_(*[h.eq(got[k], b[k]) for b in bbs]) for k in range(4)])


@harness(merge=True, bounds='1..4 frames, all sizes, all visible parts, frames with nothing visible', params=[dict(n=n) for n in (1, 2, 3, 4)])
def extent(h, n):
    fr, w, t = mk_frames(h, n)
    b = builder(fr)
    form = h.choice('form', ['its own', 'given', 'given others'])
    if form == 'given others':
        b.images = others(h, w, t)
    own = list(b.images)
    got = b.max_bbox() if form == 'its own' else b.max_bbox(list(fr))
    h.check('least box around everything visible', least(h, got, fr))
    h.check('frames kept', len(b.images) == len(own) and all(x is y for x, y in zip(b.images, own)))
    if n == 2:
        h.check('two boxes', least(h, bbox_max(fr[0].bbox, fr[1].bbox), fr))
        x, y = bbox_max(fr[0].bbox, fr[1].bbox), bbox_max(fr[1].bbox, fr[0].bbox)
        h.check('in either order', x is y or h.eq(x, y))


@harness(bounds='1..3 frames, all sizes, all crop boxes within, whole-number scales 1..4', params=[dict(n=n) for n in (1, 2, 3)])
def scaled(h, n):
    with machine('linux'):
        fr, w, t = mk_frames(h, n, empty=False)
        b = builder(fr)
        a = h.int('alpha')
        h.assume(h.and_(h.le(0, a), h.le(a, 255)))
        for f in fr:
            f.alpha = a
        k = h.choice('scale', [1, 2, 3, 4])
        box = None
        if h.choice('crop', ['no', 'yes']) == 'yes':
            box = tuple(h.int('b' + s) for s in ('xl', 'yl', 'xh', 'yh'))
            h.assume(h.and_(h.le(0, box[0]), h.lt(box[0], box[2]), h.le(box[2], w), h.le(0, box[1]), h.lt(box[1], box[3]), h.le(box[3], t)))
        if h.choice('form', ['its own', 'given']) == 'its own':
            out = b.scaled(k, bbox=box)
        else:
            b.images = others(h, w, t)
            out = b.scaled(k, box, fr)
        h.check('every frame, in order', [f.tag for f in out] == list(range(n)))
        cw, ct = (w, t) if box is None else (box[2] - box[0], box[3] - box[1])
        for f in out:
            crops = [d for d in f.done if d[0] == 'crop']
            h.check('cropped to the box', len(crops) == (box is not None) and (box is None or h.eq(crops[0][1], box)))
            x, y = f.size
            h.check('scaled down', h.and_(h.le(k * x, cw), h.lt(cw, k * (x + 1)), h.le(k * y, ct), h.lt(ct, k * (y + 1))))
            h.check('all of one size', h.eq(f.size, out[0].size))
            if k != 1:
                h.check('wholly visible or wholly transparent', h.and_(h.or_(h.eq(f.alpha, 0), h.eq(f.alpha, 255)), h.iff(h.eq(f.alpha, 255), h.eq(a, 255))))
        for i, f in enumerate(fr):
            h.check('originals untouched', f.done == () and h.eq(f.size, (w, t)) and h.eq(f.alpha, a))


@harness(merge=True, bounds='1..3 frames, all sizes and visible parts, all durations; cropped or not', params=[dict(n=n) for n in (1, 2, 3)])
def saved(h, n):
    with machine('darwin'):
        log = []
        fr, w, t = mk_frames(h, n, log)
        b = builder(fr)
        d = h.real('duration')
        h.assume(h.lt(0, d))
        b.duration = d
        for f in fr:
            f.alpha = 255
        crop = h.choice('autocrop', [True, False])
        form = h.choice('form', ['its own', 'given'])
        if form == 'given':
            b.images = others(h, w, t)
        args = {} if form == 'its own' else dict(images=fr)
        b.save_animation('somewhere.gif', **(args if crop else dict(args, autocrop=False)))
        done = [(im, k) for im, o, k in log if o == 'somewhere.gif']
        h.check('saved once where asked', len(done) == 1 and done[0][1].get('save_all') is True)
        im, k = done[0]
        out = [im] + list(k['append_images'])
        h.check('every frame, in order', [f.tag for f in out] == list(range(n)))
        ms = k['duration']
        h.check('display time', h.and_(h.le(ms * n, 1000 * d), h.lt(1000 * d, (ms + 1) * n)))
        boxes = [[c[1] for c in f.done if c[0] == 'crop'] for f in out]
        if not crop:
            h.check('not cropped', boxes == [[]] * n)
            return
        vis = [f.bbox for f in fr if f.bbox is not None]
        for bx in boxes:
            if not bx:
                h.check('only a sequence with nothing visible is left whole', not vis)
                continue
            c = bx[0]
            h.check('one crop box for all', len(bx) == 1 and bool(boxes[0]) and h.eq(c, boxes[0][0]))
            h.check('within the image', h.and_(h.le(0, c[0]), h.lt(c[0], c[2]), h.le(c[2], w), h.le(0, c[1]), h.lt(c[1], c[3]), h.le(c[3], t)))
            for v in vis:
                h.check('everything visible kept', h.and_(h.le(c[0], v[0]), h.le(c[1], v[1]), h.le(v[2], c[2]), h.le(v[3], c[3])))


@harness(bounds='1..4 frames, all display times, both supported machines', params=[dict(n=n) for n in (1, 2, 3, 4)])
def simple(h, n):
    with machine(h.choice('machine', ['linux', 'darwin'])):
        log = []
        d = h.real('time')
        h.assume(h.le(0, d))
        shown = []
        sa = SimpleAnimation(lambda dc, t: None, frame_display_time=d) if h.choice('time given', [True, False]) else SimpleAnimation(lambda dc, t: None)
        if sa.frame_display_time is not d:
            d = h.frac(1, 10)
        sa.images = [Frame(i, (10, 10), None, log=log) for i in range(n)]
        sa.save_animation('somewhere.gif')
        done = [(im, k) for im, o, k in log if o == 'somewhere.gif']
        h.check('saved once where asked', len(done) == 1 and done[0][1].get('save_all') is True)
        im, k = done[0]
        h.check('every frame, in order', [f.tag for f in [im] + list(k['append_images'])] == list(range(n)))
        h.check('display time', h.and_(h.le(k['duration'], 1000 * d), h.lt(1000 * d, k['duration'] + 1)))
        h.check('frames kept', [f.tag for f in sa.images] == list(range(n)))


@harness(bounds='another kind of machine')
def unsupported(h):
    with machine('plan9'):
        sa = SimpleAnimation(lambda dc, t: None)
        sa.images = [Frame(0, (10, 10), None, log=[])]
        h.check('refused', h.raises(NotImplementedError, lambda: sa.save_animation('somewhere.gif')))


@harness(bounds='a drawing function that shows every step or not; 1..3 steps', params=[dict(n=n) for n in (1, 2, 3)])
def shown_steps(h, n):
    class Dc(object):
        def __init__(self):
            self.shown = 0
            self.im = object()

        def show(self):
            self.shown += 1

        def image(self):
            return self.im
    flag = h.choice('show', [True, False])
    sa = SimpleAnimation(None, show_steps=flag)
    dcs = [Dc() for _ in range(n)]
    for dc in dcs:
        sa.finish_step(dc)
    h.check('shown when asked', [dc.shown for dc in dcs] == [int(flag)] * n)
    h.check('one image per step', len(sa.images) == n and all(i is dc.im for i, dc in zip(sa.images, dcs)))


@harness(bounds='6 to 9 frames, the visible part of one of them, any, arbitrary', params=[dict(n=n) for n in (6, 7, 9)])
def many_frames(h, n):
    with machine('linux'):
        k = h.choice('which', range(n))
        w = t = 100
        fr = []
        for i in range(n):
            box = (40 + i, 41, 50 + i % 3, 52)
            if i == k:
                box = tuple(h.int('b' + s) for s in ('xl', 'yl', 'xh', 'yh'))
                h.assume(h.and_(h.le(0, box[0]), h.lt(box[0], box[2]), h.le(box[2], w), h.le(0, box[1]), h.lt(box[1], box[3]), h.le(box[3], t)))
            fr.append(Frame(i, (w, t), box))
        b = builder(fr)
        own = list(b.images)
        h.check('least box around everything visible', least(h, b.max_bbox(), fr))
        h.check('frames kept', len(b.images) == n and all(x is y for x, y in zip(b.images, own)))
