"""C04: copies share nothing with their inputs, views share their data."""
from __future__ import print_function

import numpy as np

import gen
import model
from core import (Registry, find_larrys, snapshot, show, LaRaised, arr_sig,
                  Violation)

import la

R = Registry('C04')
QUICK = 30


# Operations that return copies ----------------------------------------------
# name: function(case, a) -> (function, arguments, keywords); None: not
# possible for this larry. `still` asks for arguments with which there is as
# little to do as possible.

COPY = {}


def op(name, kinds=None, ndim=None):
    def add(f):
        COPY[name] = (f, kinds, ndim)
        return f
    return add


def simple(name, kinds, *args):
    COPY[name] = (lambda c, a, still: (getattr(a, name), args, {}), kinds,
                  None)


def with_axis(name, kinds, none=False, ndim=None, **kw):
    def f(c, a, still):
        return getattr(a, name), (gen.axis(c.rng, a.ndim, none=none),), kw
    COPY[name] = (f, kinds, ndim)


for n in ('copy', 'isnan', 'isfinite', 'isinf', 'log', 'exp', 'sqrt', 'sign',
          'abs', '__abs__', '__neg__', '__pos__', 'nan_replace', 'demean',
          'demedian', 'zscore', 'geometric_mean'):
    simple(n, 'f')
for n in ('sortaxis', 'flipaxis', 'flatten', 'ismissing', 'copy'):
    simple(n, 'fibSO')
simple('vacuum', 'fi')
for n in ('sum', 'prod', 'mean', 'median', 'std', 'var', 'min', 'max',
          'any', 'all', 'geometric_mean', 'lastrank', 'demean', 'demedian',
          'zscore', 'ranking'):
    with_axis(n, 'f')
for n in ('cumsum', 'cumprod'):
    with_axis(n, 'f')
for n in ('sortaxis', 'flipaxis'):
    with_axis(n, 'fibSO', none=True)
with_axis('vacuum', 'fi', none=True)
COPY['T'] = (lambda c, a, still: (lambda: a.T, (), {}), 'fibSO', None)
COPY['__invert__'] = (lambda c, a, still: (a.__invert__, (), {}), 'b', None)


def operator(name, kinds):
    def f(c, a, still):
        k = c.choice(['larry', 'larry', 'scalar', 'array'])
        if k == 'larry':
            b = twin(a) if still else gen.like(
                c.rng, a, kinds=kinds, dt=None if kinds != 'S' else a.dtype)
        elif k == 'scalar':
            b = {'f': 1.0, 'i': 1, 'b': True, 'S': 'a', 'O': None}[
                a.dtype.kind if a.dtype.kind != 'u' else 'i']
            if still and a.dtype.kind == 'f' and name in (
                    '__add__', '__sub__', '__radd__'):
                b = 0.0
        else:
            b = np.ones(a.shape, a.dtype)
        return getattr(a, name), (b,), {}
    COPY[name] = (f, kinds, None)


for n in ('__add__', '__sub__', '__mul__', '__div__', '__truediv__',
          '__floordiv__', '__radd__', '__rsub__', '__rmul__', '__rdiv__',
          '__rtruediv__', '__rfloordiv__'):
    operator(n, 'f')
for n in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__'):
    operator(n, 'f')
for n in ('__and__', '__or__', '__rand__', '__ror__'):
    operator(n, 'b')


def twin(a):
    return la.larry(a.x.copy(), [list(l) for l in a.label])


@op('power', 'f')
def _(c, a, still):
    return a.power, (c.choice([1, 1, 2]),), {}


@op('__pow__', 'f')
def _(c, a, still):
    return a.__pow__, (c.choice([1, 1, 2]),), {}


@op('clip', 'fi')
def _(c, a, still):
    return a.clip, ((-100, 100) if still else (0, 1)), {}


@op('astype', 'fi')
def _(c, a, still):
    return a.astype, (a.dtype if still else c.choice([float, int, object]),), \
        {}


def mover(name, lo=1, **kw):
    def f(c, a, still):
        ax = gen.axis(c.rng, a.ndim)
        n = a.shape[ax]
        if n < lo:
            return None
        return (getattr(a, name), (lo if still else c.rng.randint(lo, n),),
                dict(kw, axis=ax))
    COPY[name] = (f, 'd', None)


for n in ('move_sum', 'move_mean', 'move_min', 'move_max', 'move_std'):
    mover(n)
mover('move_median')
mover('move_ranking', 2)


@op('move_func', 'd')
def _(c, a, still):
    ax = gen.axis(c.rng, a.ndim)
    n = a.shape[ax]
    if n < 1:
        return None
    return a.move_func, (np.sum, 1 if still else c.rng.randint(1, n)), {
        'axis': ax, 'method': c.choice(['loop', 'strides'])}


@op('movingsum_forward', 'd')
def _(c, a, still):
    ax = gen.axis(c.rng, a.ndim)
    n = a.shape[ax]
    if n < 1:
        return None
    return a.movingsum_forward, (1 if still else c.rng.randint(1, n),), {
        'axis': ax, 'norm': c.chance(.3)}


@op('quantile', 'd')
def _(c, a, still):
    ax = gen.axis(c.rng, a.ndim)
    if a.shape[ax] < 2:
        return None
    return a.quantile, (2,), {'axis': ax}


def grouped(name):
    def f(c, a, still):
        ax = gen.axis(c.rng, a.ndim)
        lab = list(a.label[ax])
        g = np.empty(len(lab), object)
        for i in range(len(lab)):
            g[i] = c.choice(['x', 'y']) if not still else 'l%d' % i
        return getattr(a, name), (la.larry(g, [lab]),), {'axis': ax}
    COPY[name] = (f, 'd', (1, 2))


for n in ('group_ranking', 'group_mean', 'group_median'):
    grouped(n)


@op('morph', 'fibSO')
def _(c, a, still):
    ax = gen.axis(c.rng, a.ndim)
    lab = list(a.label[ax])
    if not still:
        lab = gen.related(c.rng, lab)
    elif c.chance(.3):
        lab = a.label[ax]       # The very list
    return a.morph, (lab, ax), {}


@op('morph_like', 'fibSO')
def _(c, a, still):
    if still:
        return a.morph_like, (c.choice([a, twin(a)]),), {}
    return a.morph_like, (gen.like(c.rng, a),), {}


@op('merge', 'fi')
def _(c, a, still):
    b = twin(a) if still else gen.like(c.rng, a, kinds='fi')
    if still and a.dtype.kind == 'f' and c.chance(.6):
        k = c.choice([a, b])
        k.x.fill(np.nan)
    if c.chance(.1):
        b = a
    return a.merge, (b,), {'update': True}


def pair(name, **kw):
    def f(c, a, still):
        b = twin(a) if still else gen.like(c.rng, a, kinds='fi')
        if c.chance(.1):
            b = a
        args = {}
        if c.chance(.6):
            args['join'] = c.choice(['inner', 'outer', 'left', 'right'])
        if name != 'align' and c.chance(.4):
            args['missone'] = 0
        # The functions cannot skip axes whose labels differ
        if (name == 'align' or a.label == b.label) and c.chance(.2):
            args['join'] = 'skip'
        if (name == 'align' or a.label == b.label) and c.chance(.2):
            args['join'] = [c.choice(['inner', 'outer', 'left', 'right',
                                      'skip']) for k in range(a.ndim)]
        if still and c.chance(.3):
            args['cast'] = False
        return getattr(la, name), (a, b), args
    COPY['la.' + name] = (f, 'f', None)


for n in ('align', 'add', 'subtract', 'multiply', 'divide'):
    pair(n)


@op('la.binaryop', 'f')
def _(c, a, still):
    b = twin(a) if still else gen.like(c.rng, a, kinds='fi')
    return la.binaryop, (np.maximum, a, b), {
        'join': c.choice(['inner', 'outer', 'left', 'right'] +
                         ['skip'] * (a.label == b.label))}


@op('la.align_axis', 'fibSO')
def _(c, a, still):
    ax = gen.axis(c.rng, a.ndim)
    lars = [a] + [twin(a) if still else gen.like(c.rng, a)
                  for i in range(c.rng.randint(0, 2))]
    if c.chance(.2):
        lars.append(a)
    return la.align_axis, (lars, ax, c.choice(
        ['inner', 'outer', 'left', 'right'])), {}


@op('lag', 'fibSO')
def _(c, a, still):
    ax = gen.axis(c.rng, a.ndim)
    n = a.shape[ax]
    return a.lag, (0 if still else c.rng.randint(0, max(n, 1)) % max(n, 1),
                   ax), {}


@op('swapaxes', 'fibSO')
def _(c, a, still):
    ax = gen.axis(c.rng, a.ndim)
    return a.swapaxes, (ax, ax if still else gen.axis(c.rng, a.ndim)), {}


@op('flatten', 'fibSO')
def _(c, a, still):
    return a.flatten, (c.choice(['C', 'F']),), {}


@op('insertaxis', 'fibSO')
def _(c, a, still):
    return a.insertaxis, (c.rng.randint(0, a.ndim), 'new'), {}


@op('take', 'fibSO')
def _(c, a, still):
    ax = gen.axis(c.rng, a.ndim)
    n = a.shape[ax]
    idx = range(n)
    if not still:
        idx = c.rng.sample(idx, c.rng.randint(0, n))
    return a.take, (idx, ax), {}


@op('keep_label', 'fibSO')
def _(c, a, still):
    ax = gen.axis(c.rng, a.ndim, neg=False)
    lab = a.label[ax]
    if not lab:
        return None
    if still:
        return a.keep_label, ('in', list(lab), ax), {}
    return a.keep_label, (c.choice(['in', 'not in']),
                          c.rng.sample(lab, 1), ax), {}


@op('keep_x', 'f', (1, 2))
def _(c, a, still):
    return a.keep_x, (c.choice(['>', '<=', '!=']),
                      1e99 if still else 0), {'vacuum': c.chance(.5)}


@op('cut_missing', 'fSO')
def _(c, a, still):
    ax = gen.axis(c.rng, a.ndim, none=True)
    return a.cut_missing, (1 if still else c.choice([0, .3, .5, .9]), ax), {}


@op('push', 'd')
def _(c, a, still):
    return a.push, (0 if still else c.rng.randint(0, 3),
                    gen.axis(c.rng, a.ndim)), {}


@op('nan_replace', 'fi')
def _(c, a, still):
    return a.nan_replace, (c.choice([0, 1.5]),), {}


@op('maplabel', 'fibSO')
def _(c, a, still):
    f = (lambda l: l) if still else (lambda l: (l, 1))
    return a.maplabel, (f, gen.axis(c.rng, a.ndim, none=True)), {}


@op('unflatten', 'f', (1,))
def _(c, a, still):
    b = la.larry(a.x, [[(l, 0) if not still else (l,)
                        for l in a.label[0]]])
    return b.unflatten, (), {}


@op('la.panel', 'fib', (3,))
def _(c, a, still):
    return la.panel, (a,), {}


@op('la.cov', 'd', (2,))
def _(c, a, still):
    return la.cov, (a,), {}


@op('la.stack', 'd', (2,))
def _(c, a, still):
    d = {'a': a}
    if not still or c.chance(.5):
        d['b'] = gen.like(c.rng, a, kinds='d')
    return la.stack, (c.choice(['union', 'intersection']),), d


def still_larry(c, kinds, ndim):
    "A larry that gives many operations nothing to do."
    a = gen.larry(c.rng, kinds=kinds, lkinds=('range', 'int', 'str', 'date'),
                  nan=c.choice([0, 0, .3]), zero=.03,
                  ndims=ndim or (1, 1, 2, 2, 3))
    if c.chance(.7):
        for l in a.label:
            l.sort()
    return a


def shares(r, a):
    "How the larry r shares with the larry a, or None."
    if np.may_share_memory(r.x, a.x) or np.may_share_memory(a.x, r.x):
        return 'data memory'
    if r.label is a.label:
        return 'the list of label lists'
    for i, l in enumerate(r.label):
        for j, m in enumerate(a.label):
            if l is m:
                return 'the label list of axis %d (axis %d of the input)' % \
                    (i, j)
    return None


def other(x):
    "Values that differ from all in x."
    k = x.dtype.kind
    if k == 'f':
        return np.where(np.isnan(x), 5, np.nan)
    if k == 'b':
        return ~x
    if k in 'iu':
        return x + 1
    if k == 'S':
        return 'zz'
    if k == 'O':
        y = np.empty(x.shape, object)
        y.fill('probe')
        return y
    return x * 2 + 1


def probe(c, name, results, inputs):
    "Writing to a result changes no input and the other way round."
    first = c.chance(.5)
    written, watched = (results, inputs) if first else (inputs, results)
    before = [snapshot(o) for o in watched]
    for w in written:
        if any([w is o for o in watched]):
            continue
        if w.x.flags.writeable and w.x.size:
            w.x[...] = other(w.x)
        for l in w.label:
            l.append('probe')
            if l:
                l[0] = 'probe 2'
        w.label.append(['probe'])
    for o, b in zip(watched, before):
        c.stats.bump('write probes')
        if snapshot(o) != b:
            c.fail('%s: writing to %s changed %s, now %s' % (
                name, 'the result' if first else 'the input',
                'the input' if first else 'the result', show(o)))


def run_copy(c, name, still):
    f, kinds, ndim = COPY[name]
    if still:
        a = still_larry(c, kinds, ndim)
    else:
        a = gen.larry(c.rng, kinds=kinds, zero=.03,
                      **({'ndims': ndim} if ndim else {}))
    p = f(c, a, still)
    if p is None:
        return
    fn, args, kw = p
    inputs = []
    for o in [a] + find_larrys(list(args)) + find_larrys(kw):
        if not any([o is p for p in inputs]):
            inputs.append(o)
    arrays = [o for o in args if isinstance(o, np.ndarray)]
    lists = [o for o in args if type(o) is list]
    try:
        r = c.call(fn, *args, name=name, **kw)
    except LaRaised:
        return                  # Decided by the other checks
    results = find_larrys(r)
    if not results:
        if isinstance(r, np.ndarray) and r.ndim:
            c.fail('%s returned an array' % name)
        return
    for y in results:
        for i in inputs:
            if y is i:
                c.fail('%s returned its input' % name)
            s = shares(y, i)
            c.check(s is None, '%s: the result shares %s with an input' %
                    (name, s))
            c.stats.bump('pairs checked for sharing')
        for o in arrays:
            c.check(not np.may_share_memory(y.x, o),
                    '%s: the result shares memory with an array operand' %
                    name)
        for l in lists:
            c.check(not any([l is m for m in y.label]),
                    '%s: a list passed in is now a label list' % name)
        for i, l in enumerate(y.label):
            c.check(not any([l is m for m in y.label[:i]]),
                    '%s: two axes of the result share a label list' % name)
    probe(c, name, results, inputs)
    c.stats.bump('copies: ' + name)
    c.substance += 1


@R.scenario(2500)
def copies(c):
    names = sorted(COPY)
    run_copy(c, names[c.index % len(names)], False)


@R.scenario(2500)
def nothing_to_do(c):
    names = sorted(COPY)
    run_copy(c, names[c.index % len(names)], True)


@R.scenario(300)
def label_copies(c):
    a = gen.larry(c.rng)
    ax = gen.axis(c.rng, a.ndim)
    before = snapshot(a)
    r = c.call(a.copylabel)
    c.check(r == a.label and type(r) is list, 'copylabel %r' % r)
    for i, l in enumerate(r):
        c.check(not any([l is m for m in a.label]), 'copylabel shares lists')
        l.append('probe')
    r.append('probe')
    for kw in ({}, {'copy': True}):
        l = c.call(a.getlabel, ax, **kw)
        c.check(l == a.label[ax], 'getlabel %r' % l)
        l.append('probe')
        x = c.call(a.getx, **kw)
        c.check(not np.may_share_memory(x, a.x), 'getx shares memory')
        if x.size:
            x[...] = other(x)
    x = c.call(a.copyx)
    c.check(not np.may_share_memory(x, a.x), 'copyx shares memory')
    if x.size:
        x[...] = other(x)
    c.check(snapshot(a) == before, 'the larry changed')
    c.substance += 1


# Views ----------------------------------------------------------------------

def poke(c, a, view, cells):
    """Changing cell (view index) changes cell (source index) and no other.
    cells: [(view index, source index)]"""
    if not cells:
        return
    v, s = c.choice(cells)
    x, y = (view, a.x) if c.chance(.5) else (a.x, view)
    i, j = (v, s) if x is view else (s, v)
    new = other(np.asarray(x[i], x.dtype))
    want = y.copy()
    x[i] = new if isinstance(new, str) or new.dtype != object else new[()]
    want[j] = x[i]
    c.check(arr_sig(want) == arr_sig(y), lambda:
            'writing to cell %r of the %s changed %r to %r in the %s' % (
                i, 'view' if x is view else 'larry', want.tolist(),
                y.tolist(), 'larry' if x is view else 'view'))
    c.stats.bump('view probes')
    c.substance += 1


@R.scenario(600)
def views(c):
    a = gen.larry(c.rng, zero=0, kinds='ffibSO')
    k = c.choice(['A', 'getx', 'pull', 'squeeze', 'flipaxis', 'int', 'slice',
                  'tuple', 'getlabel', 'maplabel'])
    pos = [range(n) for n in a.shape]
    if k == 'A':
        r = a.A
        c.check(r is a.x, 'A is not the data')
        return
    if k == 'getx':
        r = c.call(a.getx, copy=False)
        c.check(r is a.x, 'getx is not the data')
        c.substance += 1
        return
    if k == 'getlabel':
        ax = gen.axis(c.rng, a.ndim)
        r = c.call(a.getlabel, ax, copy=False)
        c.check(r is a.label[ax], 'getlabel is not the list')
        c.substance += 1
        return
    if k == 'maplabel':
        x = a.x
        r = c.call(a.maplabel, lambda l: (l, 1), copy=False, inplace=[a])
        c.check(np.may_share_memory(r.x, x), 'maplabel copied')
        c.check(r is a, 'maplabel(copy=False) is not the larry itself')
        return
    if k == 'flipaxis':
        ax = gen.axis(c.rng, a.ndim, none=True)
        x = a.x
        lab = a.copylabel()
        r = c.call(a.flipaxis, ax, copy=False, inplace=[a])
        c.check(np.may_share_memory(r.x, x), 'flipaxis(copy=False) copied')
        b = la.larry(x, lab)
        axes = range(a.ndim) if ax is None else [ax % a.ndim]
        pos = [range(n)[::-1] if i in axes else range(n)
               for i, n in enumerate(x.shape)]
        cells = [(i, tuple([pos[d][p] for d, p in enumerate(i)]))
                 for i in np.ndindex(*x.shape)]
        poke(c, b, r.x, cells)
        return
    if k == 'pull':
        if a.ndim == 1:
            return
        ax = c.rng.randint(0, a.ndim - 1)
        i = c.rng.randint(0, a.shape[ax] - 1)
        r = c.call(a.pull, a.label[ax][i], ax)
        index = [None] * a.ndim
        index[ax] = i
    elif k == 'squeeze':
        if max(a.shape) == 1:
            return
        r = c.call(a.squeeze)
        index = [0 if n == 1 else None for n in a.shape]
    elif k == 'int':
        if a.ndim == 1:
            return
        i = c.rng.randint(0, a.shape[0] - 1)
        r = c.call(a.__getitem__, i - a.shape[0] if c.chance(.3) else i)
        index = [i] + [None] * (a.ndim - 1)
    else:
        index = [None] * a.ndim
        arg = []
        for d in range(a.ndim if k == 'tuple' else 1):
            n = a.shape[d]
            if c.chance(.4) and k == 'tuple':
                i = c.rng.randint(0, n - 1)
                arg.append(i)
                index[d] = i
            else:
                s = slice(c.choice([None, None, 0, 1, -2]),
                          c.choice([None, None, n, n - 1]),
                          c.choice([None, None, 1, 2, -1]))
                if not range(n)[s]:
                    return
                arg.append(s)
                pos[d] = range(n)[s]
        if k == 'tuple' and a.ndim == 1:
            return
        if all([i is not None for i in index]):
            return
        r = c.call(a.__getitem__, tuple(arg) if k == 'tuple' else arg[0])
    c.check(type(r) is la.larry, '%s returned %r' % (k, r))
    c.check(np.may_share_memory(r.x, a.x), '%s copied the data' % k)
    keep = [d for d in range(a.ndim) if index[d] is None]
    cells = []
    for v in np.ndindex(*[len(pos[d]) for d in keep]):
        s = list(index)
        for d, p in zip(keep, v):
            s[d] = pos[d][p]
        cells.append((v, tuple(s)))
    poke(c, a, r.x, cells)
    c.stats.bump('views: ' + k)


@R.scenario(800)
def flags(c):
    "The flags of align_raw."
    a = gen.larry(c.rng, zero=.03)
    b = gen.like(c.rng, a)
    if c.chance(.35):
        b = la.larry(gen.array(c.rng, a.shape, kinds='ffibSO'),
                     [list(l) for l in a.label])
    elif c.chance(.1):
        b = a
    j = c.choice(['inner', 'outer', 'left', 'right', 'skip', 'list'])
    if j == 'list':
        j = [c.choice(['inner', 'outer', 'left', 'right', 'skip'])
             for k in range(a.ndim)]
    r, e = c.tried(la.align_raw, a, b, join=j)
    if e is not None:
        return
    for x, lar, flag in ((r[0], a, r[3]), (r[1], b, r[4])):
        c.check(type(flag) is bool, 'flag is %r' % (flag,))
        c.check(flag == np.may_share_memory(x, lar.x) or x.size == 0,
                'flag is %r but the array %s the data of the larry' % (
                    flag, 'shares' if not flag else 'is not'))
        c.check(flag == (x is lar.x),
                'flag is %r but the array %s the data of the larry' % (
                    flag, 'is' if not flag else 'is not'))
        c.stats.bump('flag %s' % flag)
    c.substance += 1
