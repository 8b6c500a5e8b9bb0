"""C15: label based look up."""
from __future__ import print_function
import operator

import numpy as np

import gen
import model
from core import Registry, show
from checks.c13 import full, select, positions
from checks.c14 import lixelement
from checks import history

import la
R = Registry('C15')

OPS = {'==': operator.eq, '!=': operator.ne, '<': operator.lt,
       '>': operator.gt, '<=': operator.le, '>=': operator.ge,
       'in': lambda a, b: a in b, 'not in': lambda a, b: a not in b}


def unknown(c, lab):
    return gen.more(c.rng, lab, 1)[0]


@R.scenario(500)
def get(c):
    a = gen.larry(c.rng, zero=0)
    i = tuple([c.rng.randint(0, n - 1) for n in a.shape])
    name = [a.label[ax][j] for ax, j in enumerate(i)]
    if c.chance(.5):
        name = tuple(name)
    c.same_scalar(c.call(a.get, name), a.x[i], 'get')
    name = list(name)
    if c.chance(.5):
        ax = gen.laxis(c.rng, a.ndim)
        name[ax] = unknown(c, a.label[ax])
        c.raises(a.get, name, exc=IndexError)
    elif c.chance(.5):
        c.raises(a.get, name[:-1], exc=ValueError)
        c.raises(a.get, name + name[:1], exc=ValueError)


@R.scenario(500)
def pull(c):
    a = gen.larry(c.rng, zero=.05)
    ax = gen.laxis(c.rng, a.ndim)
    arg = ax - a.ndim if c.chance(.3) else ax
    if not a.shape[ax] or c.chance(.15):
        c.raises(a.pull, unknown(c, a.label[ax]), arg, exc=IndexError)
        return
    i = c.rng.randint(0, a.shape[ax] - 1)
    pos = full(a)
    pos[ax] = i
    lab, x = select(a.label, a.x, pos)
    got = c.call(a.pull, a.label[ax][i], arg)
    if lab:
        c.same(got, lab, x, 'pull')
    else:
        c.same_scalar(got, x, 'pull')
    if c.chance(.1):
        c.raises(a.pull, a.label[ax][i], None, exc=ValueError)


def getlix(a, index):
    return a.lix[index]


@R.scenario(900)
def lix_tuple(c):
    a = gen.larry(c.rng, zero=0, ndims=(1, 2, 2, 3, 3))
    index, pos = [], full(a)
    for ax in range(c.rng.randint(1, a.ndim)):
        i, p = lixelement(c, a.label[ax])
        index.append(i)
        pos[ax] = p if isinstance(p, list) else [p]
    if [p for p in pos if not p]:
        return
    # Every axis with a single element is dropped
    pos = [p if len(p) > 1 else p[0] for p in pos]
    lab, x = select(a.label, a.x, pos)
    got = c.call(getlix, a, tuple(index))
    if lab:
        c.same(got, lab, x, 'lix[%s]' % show(index))
    else:
        c.same_scalar(got, x, 'lix[%s]' % show(index))


@R.scenario(500)
def lix_single(c):
    a = gen.larry(c.rng, zero=0)
    index, p = lixelement(c, a.label[0])
    if isinstance(index, list) and len(index) == 1:
        p = p[0]
    lab, x = select(a.label, a.x, [p] + full(a)[1:])
    got = c.call(getlix, a, index)
    if lab:
        c.same(got, lab, x, 'lix[%s]' % show(index))
    else:
        c.same_scalar(got, x, 'lix[%s]' % show(index))


@R.scenario(250)
def lix_rejects(c):
    a = gen.larry(c.rng, zero=0)
    ax = gen.laxis(c.rng, a.ndim)
    bad = unknown(c, a.label[ax])
    good = [[c.choice(l)] for l in a.label]
    k = c.choice(['list', 'list', 'one', 'start', 'stop', 'long', 'many',
                  'type', 'range', 'repeat'])
    if k == 'list':
        lab = [c.choice(a.label[ax])]
        lab.insert(c.rng.randint(0, 1), bad)
        good[ax] = lab
    elif k == 'one':
        good[ax] = [bad]
    elif k == 'start':
        good[ax] = slice([bad], c.choice([None, [a.label[ax][0]]]))
    elif k == 'stop':
        good[ax] = slice(c.choice([None, [a.label[ax][0]]]), [bad])
    elif k == 'long':
        if a.shape[ax] < 2:
            return
        lab = list(a.label[ax][:2])
        good[ax] = c.choice([slice(lab, None), slice(None, lab)])
    elif k == 'many':
        c.raises(getlix, a, tuple(good + [[bad]]), exc=IndexError)
        return
    elif k == 'range':
        n = a.shape[ax]
        good[ax] = c.choice([n, -n - 1, n + 3])
    elif k == 'repeat':
        if a.ndim > 1 and c.chance(.5):
            # Repeated label next to an axis with several labels
            good = [list(l) for l in a.label]
        l = c.choice(a.label[ax])
        good[ax] = [l, l]
    else:
        good[ax] = c.choice([None, {}, object()])
    if ax == 0 and c.chance(.4):
        c.raises(getlix, a, good[0])
    else:
        c.raises(getlix, a, tuple(good))


@R.scenario(100)
def lix_zero(c):
    a = gen.larry(c.rng, zero=.5)
    if 0 not in a.shape:
        return
    index = c.choice([[1], slice(None), ([1],), 0, (slice(None),) * a.ndim])
    if a.shape == (0,):
        got = c.call(getlix, a, index)
        c.same(got, [[]], a.x, 'lix of an empty larry')
    else:
        c.raises(getlix, a, index, exc=ValueError)


@R.scenario(600)
def labelindex(c):
    a = gen.larry(c.rng, zero=.03, ndims=(1, 1, 2, 3))
    ax = gen.laxis(c.rng, a.ndim)
    lab = a.label[ax]
    arg = ax - a.ndim if c.chance(.3) else ax
    if lab and c.chance(.5):
        name = c.choice(lab)
    else:
        name = unknown(c, lab)
    if name in lab:
        kw = c.choice([{}, dict(exact=True), dict(exact=False)])
        got = c.call(a.labelindex, name, arg, **kw)
        c.check(lab[got] == name and got >= 0, 'labelindex is %r' % got)
        c.substance += 1
        return
    c.raises(a.labelindex, name, arg, exc=IndexError)
    try:
        below = [l for l in lab if l <= name]
    except TypeError:
        return
    if not below:
        c.raises(a.labelindex, name, arg, exact=False, exc=IndexError)
    else:
        got = c.call(a.labelindex, name, arg, exact=False)
        c.check(got >= 0 and lab[got] == max(below),
                'inexact labelindex of %r in %r is %r' % (name, lab, got))
        c.substance += 1
    if c.chance(.1):
        c.raises(a.labelindex, name, None, exc=ValueError)
        c.raises(a.labelindex, name, a.ndim, exc=IndexError)


@R.scenario(600)
def keep_label(c):
    a = gen.larry(c.rng, zero=.05)
    ax = gen.laxis(c.rng, a.ndim)
    arg = ax - a.ndim if c.chance(.3) else ax
    lab = a.label[ax]
    op = c.choice(sorted(OPS))
    if 'in' in op:
        value = gen.related(c.rng, lab)
        if value and c.chance(.3):
            value = value + [c.choice(value) for k in range(2)]
        if c.chance(.3):
            value = tuple(value) if c.chance(.5) else set(value)
    else:
        value = c.choice(lab) if lab and c.chance(.6) else unknown(c, lab)
    p = [i for i, l in enumerate(lab) if OPS[op](l, value)]
    if op == 'in':
        c.stats.bump('keep_label_in')
    got = c.call(a.keep_label, op, value, arg)
    if not p:
        c.check(got.shape == (0,) and got.label == [[]],
                'no match gives %s' % show(got))
        c.substance += 1
        return
    pos = full(a)
    pos[ax] = p
    want, x = select(a.label, a.x, pos)
    c.same(got, want, x, 'keep_label %s %r' % (op, value))


@R.scenario(500)
def keep_x(c):
    a = gen.larry(c.rng, kinds='f', inf=c.choice([0, .1]), zero=.03)
    op = c.choice([o for o in sorted(OPS) if 'in' not in o])
    v = c.choice([0, 1.0, -2, c.rng.randint(-5, 5)])
    if a.size and c.chance(.3):
        v = float(a.x.flat[c.rng.randint(0, a.size - 1)])
    if c.chance(.1) and a.ndim != 2:
        c.raises(a.keep_x, op, v, exc=ValueError)
        return
    x = a.x.copy()
    for i in np.ndindex(*a.shape):
        if not OPS[op](x[i], v):
            x[i] = np.nan
    kw = dict(vacuum=False)
    lab = a.label
    if a.ndim == 2 and c.chance(.6):
        kw = c.choice([{}, dict(vacuum=True)])
        fin = np.isfinite(x)
        p0 = [i for i in range(x.shape[0]) if fin[i].any()]
        p1 = [i for i in range(x.shape[1]) if fin[:, i].any()]
        lab, x = select(lab, x, [p0, p1])
    c.same(c.call(a.keep_x, op, v, **kw), lab, x, 'keep_x %s %r' % (op, v))


@R.scenario(250)
def getlabel(c):
    kind = c.choice(['int', 'str', 'date', 'float', 'tuple'])
    a = gen.larry(c.rng, zero=0, lkinds=(kind,))
    ax = gen.laxis(c.rng, a.ndim)
    arg = ax - a.ndim if c.chance(.3) else ax
    got = c.call(a.getlabel, arg)
    c.check(got == a.label[ax] and got is not a.label[ax], 'getlabel copy')
    got = c.call(a.getlabel, arg, copy=False)
    c.check(got is a.label[ax], 'getlabel without copy')
    c.check(c.call(a.maxlabel, arg) == sorted(a.label[ax])[-1], 'maxlabel')
    c.check(c.call(a.minlabel, arg) == sorted(a.label[ax])[0], 'minlabel')
    every = sorted([l for lab in a.label for l in lab])
    c.check(c.call(a.maxlabel) == every[-1], 'maxlabel of all')
    c.check(c.call(a.minlabel) == every[0], 'minlabel of all')
    c.substance += 1
    c.raises(a.getlabel, a.ndim, exc=IndexError)


@R.scenario(80)
def rejects(c):
    a = gen.larry(c.rng, zero=0)
    v = c.choice(a.label[0])
    c.raises(a.keep_label, c.choice(['=', '<>', 'is', '', 'IN']), v, 0,
             exc=ValueError)
    c.raises(a.keep_label, '==', v, None, exc=ValueError)
    c.raises(a.keep_label, '==', v, a.ndim, exc=IndexError)
    c.raises(a.keep_x, c.choice(['=', 'in', '']), 1, vacuum=False,
             exc=ValueError)
    if a.dtype.kind in 'f' and a.ndim != 2:
        c.raises(a.keep_x, '>', 1, exc=ValueError)


@R.scenario(500)
def histories(c):
    "Look-ups while labels and data are changed in place."
    history.run(c, history.DATA[:2] + history.LABEL * 2, c.rng.randint(2, 15))
