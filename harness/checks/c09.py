"""C09: binaryop and friends: join, replace missing values, apply."""
from __future__ import print_function
import numpy as np

import gen
import model
from core import Registry
from checks.c08 import joins, pair

import la
R = Registry('C09')

NAMED = [(la.add, np.add), (la.subtract, np.subtract),
         (la.multiply, np.multiply), (la.divide, np.divide)]


def hypot(x, y, scale=1, shift=0):
    return scale * x + y - shift


def first(x, y):
    return x


def second(x, y, extra=None):
    return y


FUNCS = [np.add, np.subtract, np.multiply, np.maximum, np.minimum, np.less,
         np.equal, np.logical_and]


def ufunc(fn):
    # ufuncs called through a python function, so that the monitors see it
    return fn


def replace(x1, x2, one, two):
    m1, m2 = model.miss_mask(x1), model.miss_mask(x2)
    x1, x2 = x1.copy(), x2.copy()
    for i in np.ndindex(*x1.shape):
        if m1[i] and m2[i]:
            if two != 'ignore':
                x1[i] = two
                x2[i] = two
        elif m1[i]:
            if one != 'ignore':
                x1[i] = one
        elif m2[i]:
            if one != 'ignore':
                x2[i] = one
    return x1, x2


def fill(c):
    return c.choice([0, 0, 1, -3, 2.5, 10, np.nan, np.inf])


def go(c, func, ref, a, b, j, how, cast, one, two, fkw):
    kw = dict(fkw)
    if not cast:
        kw['cast'] = False
    if one != 'ignore' or c.chance(.1):
        kw['missone'] = one
    if two != 'ignore' or c.chance(.1):
        kw['misstwo'] = two
    if j != 'inner' or c.chance(.5):
        kw['join'] = j
    args = (a, b)
    fn = func
    if ref is None:
        args = (func, a, b)
        fn = la.binaryop
        ref = func
    bad = [ax for ax in range(a.ndim)
           if how[ax] == 'skip' and a.label[ax] != b.label[ax]]
    x1, x2, lab, refused = model.align(a.label, a.x, b.label, b.x, how, cast)
    if refused:
        c.raises(fn, *args, exc=TypeError, **kw)
        return
    if bad:
        c.raises(fn, *args, exc=ValueError, **kw)
        return
    lab = [list(a.label[i]) if l is None else l for i, l in enumerate(lab)]
    x1, x2 = replace(x1, x2, one, two)
    want = ref(x1, x2, **fkw)
    got = c.call(fn, *args, **kw)
    c.same(got, lab, want, '%s %s %s %s' % (
        getattr(ref, '__name__', ref), j, one, two))


def setup(c, kinds='fffi', skip=False):
    nan = c.choice([.1, .3, .5])
    inf = c.choice([0, 0, .2])
    a = gen.larry(c.rng, kinds=kinds, nan=nan, inf=inf)
    b = gen.like(c.rng, a, kinds=kinds, nan=nan, inf=inf)
    if c.chance(.35):
        b = gen.larry(c.rng, lab=[list(l) for l in a.label], kinds=kinds,
                      nan=nan, inf=inf)
    if c.chance(.5):
        a, b = b, a
    j, how = joins(c, a.ndim, skip=skip)
    one = fill(c) if c.chance(.6) else 'ignore'
    two = fill(c) if c.chance(.5) else 'ignore'
    return a, b, j, how, one, two


@R.scenario(900)
def named(c):
    a, b, j, how, one, two = setup(c, skip=c.chance(.3))
    func, ref = c.choice(NAMED)
    go(c, func, ref, a, b, j, how, not c.chance(.2), one, two, {})


@R.scenario(700)
def general(c):
    a, b, j, how, one, two = setup(c, skip=c.chance(.2))
    func = c.choice(FUNCS + [hypot, first, second])
    fkw = {}
    if func is hypot and c.chance(.7):
        fkw = dict(scale=c.rng.randint(2, 5))
        if c.chance(.5):
            fkw['shift'] = c.rng.randint(1, 9)
    go(c, func, None, a, b, j, how, not c.chance(.15), one, two, fkw)


@R.scenario(250)
def same_larry(c):
    "Both operands are the same larry."
    nan = .4
    a = gen.larry(c.rng, kinds='ffi', nan=nan)
    j, how = joins(c, a.ndim)
    one = fill(c) if c.chance(.6) else 'ignore'
    two = fill(c) if c.chance(.7) else 'ignore'
    func, ref = c.choice(NAMED)
    go(c, func, ref, a, a, j, how, True, one, two, {})


@R.scenario(200)
def strings(c):
    "String data: the marker is the empty string."
    a = gen.larry(c.rng, dt='S4', nan=.4)
    b = gen.like(c.rng, a, dt='S4', nan=.4)
    j, how = joins(c, a.ndim, skip=False)
    one = c.choice(['z', 'ignore', 'qq'])
    two = c.choice(['y', 'ignore'])
    func = c.choice([first, second, np.char.equal, np.char.add])
    if a.x.size == 0 or b.x.size == 0:
        func = c.choice([first, second])
    x1, x2, lab, r = model.align(a.label, a.x, b.label, b.x, how)
    if 0 in x1.shape:
        func = first
    go(c, func, None, a, b, j, how, True, one, two, {})


@R.scenario(200)
def all_four(c):
    "The same operands and options through every function."
    a, b, j, how, one, two = setup(c)
    for func, ref in NAMED:
        go(c, func, ref, a, b, j, how, True, one, two, {})
        go(c, ref, None, a, b, j, how, True, one, two, {})


@R.scenario(80)
def rejects(c):
    a, b = pair(c, kinds='fi')
    f = c.choice([x[0] for x in NAMED])
    if c.chance(.5):
        b = gen.larry(c.rng, ndim=a.ndim % 4 + 1, kinds='fi')
        c.raises(f, a, b)
    else:
        c.raises(f, a, b, join='nope')
