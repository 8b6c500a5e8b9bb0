"""C08: align and align_raw follow the join method on every axis."""
from __future__ import print_function
import numpy as np

import gen
import model
from core import Registry

import la
R = Registry('C08')
JOINS = ('inner', 'outer', 'left', 'right', 'skip')


def pair(c, kinds='fffiibSO', **kw):
    a = gen.larry(c.rng, kinds=kinds, **kw)
    b = gen.like(c.rng, a, kinds=kinds)
    if c.chance(.03):
        b = a
    if c.chance(.5):
        a, b = b, a
    return a, b


def joins(c, ndim, skip=True):
    js = JOINS if skip else JOINS[:4]
    if c.chance(.5):
        j = c.choice(js)
        return j, [j] * ndim
    j = [c.choice(js) for i in range(ndim)]
    return list(j), j


def labels(lab, old):
    return [list(old[i]) if l is None else l for i, l in enumerate(lab)]


def check(c, a, b, j, how, cast):
    x1, x2, lab, refused = model.align(a.label, a.x, b.label, b.x, how, cast)
    kw = {}
    if not cast or c.chance(.3):
        kw['cast'] = cast
    if refused:
        c.raises(la.align, a, b, j, exc=TypeError, **kw)
        c.raises(la.align_raw, a, b, j, exc=TypeError, **kw)
        return
    if j == 'inner' and c.chance(.3):
        y1, y2 = c.call(la.align, a, b, **kw)
    elif c.chance(.5):
        y1, y2 = c.call(la.align, a, b, j, **kw)
    else:
        y1, y2 = c.call(la.align, a, b, join=j, **kw)
    c.same(y1, labels(lab, a.label), x1, 'align %r first' % (j,))
    c.same(y2, labels(lab, b.label), x2, 'align %r second' % (j,))
    r1, r2, rlab, v1, v2 = c.call(la.align_raw, a, b, join=j, **kw)
    c.check(rlab == lab, 'align_raw %r: labels %r instead of %r' %
            (j, rlab, lab))
    c.same_array(r1, x1, 'align_raw %r first' % (j,))
    c.same_array(r2, x2, 'align_raw %r second' % (j,))
    c.check(type(v1) is bool and type(v2) is bool, 'view flags are no bools')


@R.scenario(1500)
def any_join(c):
    a, b = pair(c)
    j, how = joins(c, a.ndim)
    check(c, a, b, j, how, not c.chance(.3))


@R.scenario(300)
def all_joins(c):
    a, b = pair(c, ndims=(1, 1, 2, 2, 3))
    for j in JOINS:
        check(c, a, b, j, [j] * a.ndim, True)


@R.scenario(300)
def nocast(c):
    a, b = pair(c, kinds='ibf')
    j, how = joins(c, a.ndim)
    check(c, a, b, j, how, False)


@R.scenario(200)
def equal_but_unsorted(c):
    a = gen.larry(c.rng, ndims=(1, 2, 3), minlen=2)
    for l in a.label:
        c.rng.shuffle(l)
    lab = [list(l) for l in a.label]
    if a.ndim > 1:
        ax = c.rng.randint(0, a.ndim - 1)
        lab[ax] = gen.related(c.rng, lab[ax])
    b = gen.larry(c.rng, lab=lab)
    j, how = joins(c, a.ndim)
    check(c, a, b, j, how, True)


@R.scenario(150)
def zero_length(c):
    a = gen.larry(c.rng, zero=.5, ndims=(1, 2, 3))
    b = gen.like(c.rng, a)
    if c.chance(.5):
        a, b = b, a
    j, how = joins(c, a.ndim)
    check(c, a, b, j, how, c.chance(.7))


@R.scenario(100)
def morph_agrees(c):
    "align equals morphing both larrys to the joined labels."
    a, b = pair(c)
    j, how = joins(c, a.ndim, skip=False)
    y1, y2 = c.call(la.align, a, b, j)
    z1, z2 = a, b
    for ax in range(a.ndim):
        z1 = c.call(z1.morph, y1.label[ax], ax)
        z2 = c.call(z2.morph, y2.label[ax], ax)
    c.same(y1, z1.label, z1.x, 'align against morph, first')
    c.same(y2, z2.label, z2.x, 'align against morph, second')


@R.scenario(150)
def rejects(c):
    a, b = pair(c)
    f = c.choice([la.align, la.align_raw])
    k = c.choice(['unknown', 'length', 'type', 'ndim'])
    if k == 'unknown':
        bad = c.choice(['Inner', 'both', '', 'cross'])
        c.raises(f, a, b, bad if c.chance(.5) else
                 ['inner'] * (a.ndim - 1) + [bad], exc=ValueError)
    elif k == 'length':
        c.raises(f, a, b, ['inner'] * (a.ndim + c.choice([-1, 1, 2])),
                 exc=ValueError)
    elif k == 'type':
        c.raises(f, a, b, c.choice([None, 1, ('inner',) * a.ndim]),
                 exc=TypeError)
    else:
        b = gen.larry(c.rng, ndim=a.ndim % 4 + 1)
        c.raises(f, a, b, c.choice(JOINS), exc=ValueError)
