"""The minimal rotation is minimal and correct"""
from symx.harness import harness
from x7.geom.utils import min_rotation


@harness(bounds='all real angles')
def minimal(h):
    t, s = h.real('t'), h.real('s')
    r = min_rotation(t, s)
    h.check('at least -180', h.le(-180, r))
    h.check('below 180', h.lt(r, 180))
    turns = (r - (t - s)) / 360
    h.check('whole number of turns', h.eq(turns, round(turns)))


@harness(bounds='all real angles, whole turns added to either angle, any number', params=[dict(which=w) for w in ('target', 'source', 'both')])
def turns(h, which):
    t, s = h.real('t', -10**4, 10**4), h.real('s', -10**4, 10**4)
    k = h.int('k', -1000, 1000)
    j = h.int('j', -1000, 1000)
    r = min_rotation(t, s)
    q = min_rotation(t + (360 * k if which != 'source' else 0), s + (360 * j if which != 'target' else 0))
    h.check('same rotation', h.eq(q, r))


@harness(bounds='all real angles and every other rotation between them')
def smallest(h):
    t, s, k = h.real('t'), h.real('s'), h.int('k')
    r = min_rotation(t, s)
    # every rotation from s to t is r plus whole turns
    other = r + 360 * k
    if k == 0:
        h.check('no smaller rotation', h.le(abs(r), abs(other)))
    elif k > 0:
        h.check('no smaller rotation', h.le(abs(r), abs(other)))
    else:
        h.check('no smaller rotation', h.le(abs(r), abs(other)))
    h.check('documented', h.eq((min_rotation(20, 10), min_rotation(-340, 10), min_rotation(20, 370)), (10, 10, 10)))


@harness(bounds='small differences of any angles are returned as they are')
def small(h):
    t, d = h.real('t'), h.real('d')
    h.assume(h.and_(h.le(-180, d), h.lt(d, 180)))
    h.check('difference', h.eq(min_rotation(t + d, t), d))
    if d != -180:
        h.check('swapped', h.eq(min_rotation(t, t + d), -d))
