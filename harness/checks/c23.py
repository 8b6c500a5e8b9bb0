"""C23: shuffling and resampling."""
from __future__ import print_function
import random

import numpy as np

import gen
import model
from core import Registry

import la
from la.farray import shuffle as fshuffle
from la.util.resample import cross_validation, bootstrap, split

R = Registry('C23')


def distinct(c, **kw):
    "A larry whose values are all different."
    kw.setdefault('kinds', 'ff')
    a = gen.larry(c.rng, **kw)
    v = range(a.size)
    c.rng.shuffle(v)
    for k, i in enumerate(np.ndindex(*a.shape)):
        a.x[i] = v[k]
    return a


def find_permutation(c, old, new, axes, what):
    """Positions p per axis with new == old[p0][:, p1]..., which has to be
    the identity on axes that are not shuffled."""
    where = dict([(old[i], i) for i in np.ndindex(*old.shape)])
    c.check(new.shape == old.shape, what + ': shape')
    c.check(new.dtype == old.dtype, what + ': dtype')
    perm = [[None] * n for n in old.shape]
    for i in np.ndindex(*new.shape):
        c.check(new[i] in where, what + ': value %r is new' % new[i])
        j = where[new[i]]
        for ax in range(old.ndim):
            p = perm[ax]
            c.check(p[i[ax]] is None or p[i[ax]] == j[ax],
                    lambda: '%s: slices of axis %d were torn apart\n%r\n%r' %
                    (what, ax, old.tolist(), new.tolist()))
            p[i[ax]] = j[ax]
    for ax in range(old.ndim):
        if old.size == 0:
            continue
        c.check(sorted(perm[ax]) == range(old.shape[ax]),
                '%s: axis %d lost or repeated a slice' % (what, ax))
        if ax not in axes:
            c.check(perm[ax] == range(old.shape[ax]),
                    '%s: axis %d was shuffled too' % (what, ax))
    c.substance += old.size + 1
    return perm


def axes_of(ax, ndim):
    return range(ndim) if ax is None else [ax % ndim]


@R.scenario(500)
def shuffle(c):
    a = distinct(c, zero=.03, kinds='fffl')
    ax = gen.axis(c.rng, a.ndim, none=True)
    b = a.copy()
    lab = a.copylabel()
    old = a.x.copy()
    seed = c.rng.randint(0, 2 ** 31)
    np.random.seed(seed)
    args = () if ax == 0 and c.chance(.5) else (ax,)
    r = c.call(a.shuffle, *args, inplace=[a])
    c.check(r is None, 'shuffle returned %r' % (r,))
    c.check(a.label == lab, 'shuffle changed the labels')
    find_permutation(c, old, a.x, axes_of(ax, a.ndim), 'shuffle axis %r' % ax)
    np.random.seed(seed)
    c.call(b.shuffle, *args, inplace=[b])
    if a.x.flags['C_CONTIGUOUS'] == b.x.flags['C_CONTIGUOUS']:
        c.same(b, a.label, a.x, 'shuffle again')


@R.scenario(200)
def shuffle_array(c):
    a = distinct(c, zero=.03)
    ax = gen.axis(c.rng, a.ndim)
    x, old = a.x, a.x.copy()
    args = () if ax == 0 and c.chance(.5) else (ax,)
    c.call(fshuffle, x, *args, inplace=[x])
    find_permutation(c, old, x, axes_of(ax, x.ndim), 'shuffle axis %r' % ax)


@R.scenario(300)
def shuffle_any(c):
    "Any dtype, also with equal values: nothing lost."
    a = gen.larry(c.rng, kinds='ffibSO')
    ax = gen.axis(c.rng, a.ndim)
    lab = a.copylabel()

    def slices(x):
        return sorted([repr(np.asarray(
            x[model.sl(x.ndim, ax % x.ndim, i)], dtype=object).tolist())
                       for i in range(x.shape[ax])])
    old, dt = slices(a.x), a.dtype
    c.call(a.shuffle, ax, inplace=[a])
    c.check(slices(a.x) == old and a.dtype == dt,
            'shuffle lost or made up a slice')
    c.check(a.label == lab, 'shuffle changed the labels')
    c.substance += 1


@R.scenario(400)
def shufflelabel(c):
    a = gen.larry(c.rng, kinds='ffibSO')
    ax = gen.axis(c.rng, a.ndim, none=True)
    b = a.copy()
    lab = a.copylabel()
    x = a.x.copy()
    seed = c.rng.randint(0, 2 ** 31)
    np.random.seed(seed)
    args = () if ax == 0 and c.chance(.5) else (ax,)
    r = c.call(a.shufflelabel, *args, inplace=[a])
    c.check(r is None, 'shufflelabel returned %r' % (r,))
    c.same_array(a.x, x, 'data after shufflelabel')
    c.check(len(a.label) == len(lab), 'label lists')
    for k in range(a.ndim):
        if k in axes_of(ax, a.ndim):
            c.check(sorted(a.label[k]) == sorted(lab[k]) and
                    len(a.label[k]) == len(lab[k]),
                    'labels of axis %d were %r now %r' %
                    (k, lab[k], a.label[k]))
        else:
            c.check(a.label[k] == lab[k], 'axis %d changed too' % k)
    np.random.seed(seed)
    c.call(b.shufflelabel, *args, inplace=[b])
    c.same(b, a.label, a.x, 'shufflelabel again', types_=True)


@R.scenario(30)
def really_shuffled(c):
    "Forty shuffles of ten slices are not all the identity."
    n = 10
    kinds = [0, 0, 0]
    for k in range(40):
        a = la.larry(np.arange(2.0 * n).reshape(n, 2))
        c.call(a.shuffle, inplace=[a])
        kinds[0] += a.x[0, 0] != 0
        a = la.larry(np.arange(2.0 * n).reshape(n, 2))
        c.call(a.shufflelabel, inplace=[a])
        kinds[1] += a.label[0][0] != 0
        test = [t for r, t in cross_validation(n, 2)]
        kinds[2] += 0 not in test[0]
    # Each count is binomial(40, p): p = .9, .9, .5
    c.check(kinds[0] > 10 and kinds[1] > 10 and 2 < kinds[2] < 38,
            'first slice moved in %r of 40 shuffles' % kinds)
    c.substance += 1


@R.scenario(60)
def every_slice_moves(c):
    "Of thirty shuffles of any axis each slice and each label moves in some."
    ndim = c.rng.randint(1, 4)
    ax = c.rng.randint(0, ndim - 1)
    shp = [c.rng.randint(1, 3) for i in range(ndim)]
    n = shp[ax] = c.rng.randint(5, 9)
    axis = ax - ndim if c.chance(.3) else ax
    if c.chance(.2):
        axis = None
    a = distinct(c, shp=tuple(shp), kinds='fffl')
    for what in ('shuffle', 'shufflelabel'):
        moved = np.zeros(n, int)
        for k in range(30):
            x, lab = a.x.copy(), a.copylabel()
            c.call(getattr(a, what), axis, inplace=[a], name=what)
            index = [0] * ndim
            index[ax] = slice(None)
            if what == 'shuffle':
                moved += np.asarray(a.x[tuple(index)] != x[tuple(index)])
            else:
                moved += np.array([i is not j for i, j in
                                   zip(a.label[ax], lab[ax])])
        # Chance that one of n stays 30 times: below 9 * .2 ** 30
        c.check(moved.all(), lambda: '%s of axis %r of shape %r moved the '
                'slices %r times' % (what, axis, shp, moved.tolist()))
    c.substance += 1


def partition(c, folds, n, kfold, what):
    c.check(len(folds) == kfold, '%s: %d folds' % (what, len(folds)))
    seen = []
    for train, test in folds:
        train, test = list(train), list(test)
        both = np.zeros(n, int)
        both[train + test] += 1
        c.check(len(train) + len(test) == n and both.all() and
                min(train + test) >= 0,
                lambda: '%s: train %r test %r' % (what, train, test))
        c.check(len(test) > 0, what + ': empty test set')
        seen += test
    c.check(sorted(seen) == range(n), '%s: tests together %r' % (what, seen))
    sizes = [len(t) for r, t in folds]
    c.check(len(set(sizes[:-1])) <= 1 and sizes[-1] == n - sum(sizes[:-1]) and
            (kfold == 1 or sizes[0] == n // kfold),
            '%s: sizes %r' % (what, sizes))
    c.substance += n


@R.scenario(500)
def crossvalidation(c):
    n = c.choice([2, 3, 5, 10, c.rng.randint(2, 40), c.rng.randint(2, 40)])
    if c.chance(.1):
        n = c.rng.randint(40, 130)
    kfold = c.choice([2, n, c.rng.randint(2, n)])
    if c.chance(.01):
        n = c.rng.randint(200, 2000)
        kfold = c.rng.randint(2, 20)
    what = 'cross_validation(%d, %d)' % (n, kfold)
    k = c.choice(['default', 'seeded', 'own'])
    if k == 'own':
        calls = []

        def own(index):
            calls.append(list(index))
            index.reverse()
        folds = c.call(cross_validation, n, kfold, own)
        partition(c, folds, n, kfold, what)
        c.check(len(calls) == 1 and sorted(calls[0]) == range(n),
                'shuffle was called with %r' % calls)
        # The order that the shuffle function made is the order of the tests
        order = sum([list(t) for r, t in folds], [])
        c.check(order == calls[0][::-1], 'tests %r after reversing %r' %
                (order, calls[0]))
    elif k == 'seeded':
        seed = c.rng.randint(0, 10 ** 6)
        f1 = c.call(cross_validation, n, kfold,
                    shuffle=random.Random(seed).shuffle)
        f2 = c.call(cross_validation, n, kfold,
                    shuffle=random.Random(seed).shuffle)
        partition(c, f1, n, kfold, what)
        c.check([list(map(list, f)) for f in f1] ==
                [list(map(list, f)) for f in f2], what + ': not reproducible')
    else:
        seed = c.rng.randint(0, 2 ** 31)
        np.random.seed(seed)
        f1 = c.call(cross_validation, n, kfold)
        np.random.seed(seed)
        f2 = c.call(cross_validation, n, kfold)
        partition(c, f1, n, kfold, what)
        c.check([list(map(list, f)) for f in f1] ==
                [list(map(list, f)) for f in f2], what + ': not reproducible')


@R.scenario(400)
def bootstraps(c):
    n = c.choice([2, 2, 3, c.rng.randint(2, 30)])
    if c.chance(.02):
        n = c.rng.randint(300, 5000)
    nboot = c.rng.randint(1, 8)
    what = 'bootstrap(%d, %d)' % (n, nboot)
    args = ()
    drawn = []
    own = c.chance(.4)
    seed = c.rng.randint(0, 2 ** 31)
    np.random.seed(seed)
    if own:
        st = np.random.RandomState(seed)

        def randint(lo, hi, size):
            r = st.randint(lo, hi, size)
            drawn.append((lo, hi, size, r.tolist()))
            return r
        args = (randint,)
    got = c.call(bootstrap, n, nboot, *args)
    c.check(len(got) == nboot, '%s: %d draws' % (what, len(got)))
    for train, test in got:
        train, test = list(train), list(test)
        c.check(len(train) == n and min(train) >= 0 and max(train) < n,
                lambda: '%s: train %r' % (what, train))
        c.check(len(test) > 0, what + ': empty test set')
        c.check(sorted(test) == sorted(set(range(n)) - set(train)),
                lambda: '%s: train %r test %r' % (what, train, test))
        c.substance += n
    if own:
        good = [d[3] for d in drawn if len(set(d[3])) < n]
        c.check([list(t) for t, e in got] == good, what + ': not the draws')
    else:
        np.random.seed(seed)
        again = c.call(bootstrap, n, nboot)
        c.check([list(t) for t, e in got] == [list(t) for t, e in again],
                what + ': not reproducible')


@R.scenario(400)
def splits(c):
    a = gen.larry(c.rng, zero=0, minlen=2)
    ax = gen.axis(c.rng, a.ndim)
    n = a.shape[ax]
    if n < 2:
        return
    order = range(n)
    c.rng.shuffle(order)
    k = c.rng.randint(1, n - 1)
    p, q = order[:k], order[k:c.rng.randint(k + 1, n)]
    array = c.chance(.3)
    got = c.call(split, a.x if array else a, p, q, ax)
    c.check(len(got) == 2, '%d results' % len(got))
    for g, pos in zip(got, (p, q)):
        x = model.pick(a.x, ax % a.ndim, pos)
        lab = [list(l) for l in a.label]
        lab[ax] = [lab[ax][i] for i in pos]
        if array:
            c.same_array(g, x, 'split')
        else:
            c.same(g, lab, x, 'split')


def first(g):
    return list(g)


@R.scenario(150)
def rejects(c):
    n = c.rng.randint(2, 10)
    k = c.choice(['n', 'kfold', 'kfold large', 'boot n', 'nboot'])
    if k == 'n':
        c.raises(cross_validation, c.choice([1, 0, -3]), 2, exc=ValueError)
    elif k == 'kfold':
        c.raises(cross_validation, n, c.choice([1, 0, -2]), exc=ValueError)
    elif k == 'kfold large':
        c.raises(cross_validation, n, n + c.rng.randint(1, 3),
                 exc=ValueError)
    elif k == 'boot n':
        c.raises(bootstrap, c.choice([1, 0, -1]), 1, exc=ValueError)
    else:
        c.raises(bootstrap, n, c.choice([0, -1]), exc=ValueError)
