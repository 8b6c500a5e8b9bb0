"""C12: merge."""
from __future__ import print_function
import numpy as np

import gen
import model
from core import Registry

import la
R = Registry('C12')

KINDS = [('f', 'f'), ('f', 'f'), ('f', 'i'), ('i', 'f'), ('i', 'i'),
         ('b', 'i'), ('b', 'b'), ('i', 'b'), ('f', 'b'), ('S', 'S'),
         ('S', 'S'), ('O', 'O'), ('c', 'f'), ('f', 'c'), ('c', 'c')]


def target(l1, l2):
    if l1 == l2:
        return list(l1)
    return sorted(list(l1) + [l for l in l2 if l not in set(l1)])


def blank_overlap(c, a, b):
    "Make the larrys compatible: no value present in both."
    for i in np.ndindex(*b.shape):
        lab = [b.label[k][j] for k, j in enumerate(i)]
        try:
            j = tuple([a.label[k].index(l) for k, l in enumerate(lab)])
        except ValueError:
            continue
        y, at = (a, j) if c.chance(.5) else (b, i)
        has, mark = model.missing(y.x.dtype)
        if not has:
            y, at = (b, i) if y is a else (a, j)
            has, mark = model.missing(y.x.dtype)
        if has:
            y.x[at] = mark


def reference(a, b, update):
    "labels, value of each cell as python objects, missing mask; conflict"
    lab = [target(l1, l2) for l1, l2 in zip(a.label, b.label)]
    shape = tuple([len(l) for l in lab])
    pa = [model.posmap(l) for l in a.label]
    pb = [model.posmap(l) for l in b.label]
    ma, mb = model.miss_mask(a.x), model.miss_mask(b.x)
    vals = np.empty(shape, object)
    have = np.zeros(shape, bool)
    conflict = False
    for i in np.ndindex(*shape):
        names = [lab[k][j] for k, j in enumerate(i)]
        va = vb = None
        ja = tuple([pa[k].get(n, -1) for k, n in enumerate(names)])
        jb = tuple([pb[k].get(n, -1) for k, n in enumerate(names)])
        ina = min(ja) >= 0 and not ma[ja]
        inb = min(jb) >= 0 and not mb[jb]
        if ina and inb:
            conflict = True
        if inb:
            vals[i] = b.x[jb]
            have[i] = True
        elif ina:
            vals[i] = a.x[ja]
            have[i] = True
    return lab, vals, have, conflict


def check(c, a, b, update, kw):
    lab, vals, have, conflict = reference(a, b, update)
    if conflict and not update:
        c.raises(a.merge, b, exc=ValueError, **kw)
        c.stats.bump('merge_conflicts')
        return
    got = c.call(a.merge, b, **kw)
    c.check(got.label == lab, 'labels %r instead of %r' % (got.label, lab))
    c.check(got.shape == vals.shape, 'shape %r' % (got.shape,))
    miss = model.miss_mask(got.x)
    for i in np.ndindex(*vals.shape):
        c.substance += 1
        if have[i]:
            g, w = got.x[i], vals[i]
            c.check(not miss[i] and g == w, lambda: 'value %r instead of %r '
                    'at %r' % (g, w, [l[j] for l, j in zip(lab, i)]))
        elif model.missing(got.x.dtype)[0]:
            c.check(miss[i], lambda: 'value %r instead of missing at %r' %
                    (got.x[i], [l[j] for l, j in zip(lab, i)]))
        else:
            c.fail('int or bool result %r has no value at %r' % (got.x, i))
    if a.x.dtype == b.x.dtype and a.x.dtype.kind in 'fSOc':
        c.check(got.x.dtype.newbyteorder('=') ==
                a.x.dtype.newbyteorder('='), 'dtype is %s instead of %s' %
                (got.x.dtype, a.x.dtype))
    c.check(got is not a and got is not b, 'merge returned its operand')


def pair(c, ka, kb, **kw):
    nan = c.choice([.1, .4, .7])
    a = gen.larry(c.rng, kinds=ka, nan=nan, **kw)
    b = gen.like(c.rng, a, kinds=kb, nan=nan)
    if c.chance(.3):
        b = gen.larry(c.rng, lab=[list(l) for l in a.label], kinds=kb,
                      nan=nan)
    if ka == kb and c.chance(.03):
        b = a
    return a, b


@R.scenario(1400)
def merge(c):
    ka, kb = c.choice(KINDS)
    a, b = pair(c, ka, kb)
    if c.chance(.5):
        blank_overlap(c, a, b)
    update = c.chance(.5)
    kw = dict(update=update) if update or c.chance(.4) else {}
    check(c, a, b, update, kw)


@R.scenario(300)
def disjoint_on_one_axis(c):
    "The usual case: new rows for the same columns."
    ka, kb = c.choice(KINDS)
    a = gen.larry(c.rng, kinds=ka, nan=.2, zero=0)
    lab = [list(l) for l in a.label]
    ax = gen.laxis(c.rng, a.ndim)
    lab[ax] = gen.related(c.rng, lab[ax], rel='disjoint')
    b = gen.larry(c.rng, lab=lab, kinds=kb, nan=.2)
    if c.chance(.5):
        a, b = b, a
    check(c, a, b, False, {})


@R.scenario(200)
def precision(c):
    "Narrow first operand, wide second operand."
    lab = [gen.labels(c.rng, c.rng.randint(1, 5), 'int')]
    lab2 = [gen.related(c.rng, lab[0], rel=c.choice(['equal', 'disjoint',
                                                     'superset']))]
    d1, d2 = c.choice([('float32', 'float64'), ('int8', 'int64'),
                       ('S1', 'S5'), ('float64', 'float32'),
                       ('int8', 'float64'), ('bool', 'int64'),
                       ('uint8', 'int8'), ('S5', 'S2')])
    a = gen.larry(c.rng, lab=lab, dt=d1, nan=.3)
    b = gen.larry(c.rng, lab=lab2, dt=d2, nan=.1)
    if d2 == 'int64':
        b.x[...] = [c.rng.randint(-10 ** 6, 10 ** 6) for i in b.label[0]]
    elif d2 == 'float64':
        b.x[...] = [c.rng.random() for i in b.label[0]]
    check(c, a, b, True, dict(update=True))


@R.scenario(150)
def copies(c):
    "The result never shares data with an operand."
    ka, kb = c.choice(KINDS)
    a, b = pair(c, ka, kb)
    got, err = c.tried(a.merge, b, update=True)
    if err is not None:
        c.fail('raised %r' % err)
    c.substance += 1
    for op in (a, b):
        if got.size and op.size:
            c.check(not np.may_share_memory(got.x, op.x),
                    'data shared with an operand')
        for l in got.label:
            c.check(not any([l is m for m in op.label]), 'shared label list')


@R.scenario(150)
def rejects(c):
    if c.chance(.5):
        a = gen.larry(c.rng)
        b = gen.larry(c.rng, ndim=a.ndim % 4 + 1)
        c.raises(a.merge, b, update=c.chance(.5), exc=IndexError)
    else:
        ka, kb = c.choice([('S', 'f'), ('f', 'S'), ('O', 'f'), ('i', 'O'),
                           ('S', 'O'), ('O', 'S'), ('b', 'S')])
        a, b = pair(c, ka, kb)
        c.raises(a.merge, b, update=c.chance(.5), exc=TypeError)
