"""C19: normalizing, grouping and covariance functions."""
from __future__ import print_function
import math

import numpy as np

import gen
import model
from core import Registry
from checks.c18 import rank_lane

import la
from la.farray import (group_ranking, group_mean, group_median, correlation,
                       covMissing, demean as fdemean, demedian as fdemedian,
                       zscore as fzscore)

R = Registry('C19')
NAN = model.NAN


def tol(x):
    x = x.astype(float)
    s = float(np.nanmax(np.abs(x))) if x.size and not np.isnan(x).all() else 0
    return 1e-9 * s


def operand(c, **kw):
    kw.setdefault('kinds', 'fffl')
    kw.setdefault('wide', 0)
    a = gen.larry(c.rng, **kw)
    return a


def norm_lane(name, v):
    if name == 'demedian':
        m = model.s_median(v)
        return [e - m for e in v]
    m = model.s_mean(v)
    v = [e - m for e in v]
    if name == 'demean':
        return v
    s = model.s_std(v)
    return [(e / s if s > 0 else None) for e in v]


@R.scenario(1100)
def normalize(c):
    name = c.choice(['demean', 'demedian', 'zscore'])
    a = operand(c, zero=.03)
    ax = gen.axis(c.rng, a.ndim, none=True)
    if a.size == 0 and ax is None:
        return
    if ax is None:
        want = np.empty(a.size, object)
        for i, e in enumerate(norm_lane(name, a.x.ravel().tolist())):
            want[i] = e
        want = want.reshape(a.shape)
    else:
        want = model.map_lane(a.x, ax, lambda v: norm_lane(name, v), object)
    eps = 2e-4 if a.x.dtype == np.float32 else 1e-9
    t = dict(rtol=eps, atol=tol(a.x) * (1 if eps < 1e-5 else 1e5),
             dtype=False)
    k = c.choice(['method', 'method', 'method', 'function'])
    f = dict(demean=fdemean, demedian=fdemedian, zscore=fzscore)[name]
    args = () if ax is None and c.chance(.5) else (ax,)
    if k == 'method':
        got = c.call(getattr(a, name), *args)
    else:
        got = la.larry(c.call(f, a.x, *args), [list(l) for l in a.label])
    x = np.empty(a.shape)
    for i in np.ndindex(*a.shape):
        if want[i] is None:
            # Constant lane: 0 / 0, NaN
            c.check(got.x.shape == a.shape and (got.x[i] != got.x[i]),
                    lambda: 'zscore of a constant lane: %r' % got.x[i])
            x[i] = NAN
        else:
            x[i] = want[i]
    if name == 'zscore':
        t['atol'] = eps * 10
    c.same(got, a.label, x, '%s axis %r' % (name, ax), **t)


GKINDS = ('str', 'int', 'object', 'mixed', 'float', 'many', 'bool', 'tuple')


def groups(c, labels):
    "A group larry over (at least) the labels."
    lab = list(labels)
    if lab and c.chance(.4):
        lab += gen.more(c.rng, lab, c.rng.randint(1, 2))
    if c.chance(.6):
        c.rng.shuffle(lab)
    k = c.choice(GKINDS)
    ng = c.rng.randint(1, 3)
    n = len(lab)
    r = c.rng
    if k == 'str':
        names = r.sample(['a', 'bb', 'C', '', 'A'], ng)
        g = np.array([r.choice(names) for l in lab], 'S2')
    elif k == 'int':
        g = np.array([r.randint(-1, ng - 1) for l in lab], int)
    elif k == 'float':
        g = np.array([r.choice([.5, -1.0, 0.0, 2.0, NAN][-ng - 1:]) for l in lab],
                     float)
    elif k == 'bool':
        g = np.array([r.random() < .5 for l in lab], bool)
    else:
        g = np.empty(n, object)
        names = r.sample(['x', 'yy', 'abc', '', 'X'], ng)
        mixed = r.sample(['x', 1, '1', 2.5, 0, '', ()], ng + 1)
        tuples = r.sample([(1, 2), (1, 'a'), (), (None,)], ng)
        for i in range(n):
            if r.random() < .2:
                g[i] = None
            elif k == 'object':
                g[i] = r.choice(names)
            elif k == 'mixed':
                g[i] = r.choice(mixed)
            elif k == 'tuple':
                g[i] = r.choice(tuples)
            else:
                g[i] = i
    return la.larry(g, [lab])


def group_lane(name, v, g):
    out = [NAN] * len(v)
    for i in range(len(v)):
        if g[i] is None or g[i] != g[i]:
            continue
        same = [k for k in range(len(v)) if g[k] == g[i]]
        w = [v[k] for k in same]
        if name == 'group_mean':
            out[i] = model.s_mean(w)
        elif name == 'group_median':
            out[i] = model.s_median(w)
        else:
            out[i] = rank_lane(w, '-1,1')[same.index(i)]
    return out


@R.scenario(1300)
def grouping(c):
    name = c.choice(['group_mean', 'group_median', 'group_ranking'])
    a = operand(c, zero=0)
    ax = gen.axis(c.rng, a.ndim)
    g = groups(c, a.label[ax])
    gl = g.x.tolist()
    pos = model.posmap(g.label[0])
    mine = [gl[pos[l]] for l in a.label[ax]]
    want = model.map_lane(a.x, ax, lambda v: group_lane(name, v, mine))
    t = dict(rtol=1e-4 if a.x.dtype == np.float32 else 1e-9,
             atol=1e-6 if name == 'group_ranking' else
             tol(a.x) * (1e4 if a.x.dtype == np.float32 else 1), dtype=False)
    if c.chance(.75):
        if ax == 0 and c.chance(.5):
            got = c.call(getattr(a, name), g)
        else:
            got = c.call(getattr(a, name), g, ax)
        c.same(got, a.label, want, '%s axis %d' % (name, ax), **t)
    else:
        f = dict(group_mean=group_mean, group_median=group_median,
                 group_ranking=group_ranking)[name]
        kw = {}
        if name == 'group_ranking' and c.chance(.7):
            kw['norm'] = norm = c.choice(['-1,1', '0,N-1', 'gaussian'])

            def lane(v):
                out = [NAN] * len(v)
                done = set()
                for i in range(len(v)):
                    if mine[i] is None or mine[i] != mine[i] or i in done:
                        continue
                    same = [k for k in range(len(v)) if mine[k] == mine[i]]
                    done.update(same)
                    for k, r in zip(same, rank_lane([v[k] for k in same],
                                                    norm)):
                        out[k] = r
                return out
            want = model.map_lane(a.x, ax, lane)
        c.same_array(c.call(f, a.x, mine, axis=ax, **kw), want, name, **t)


@R.scenario(200)
def grouping_rejects(c):
    name = c.choice(['group_mean', 'group_median', 'group_ranking'])
    a = operand(c, zero=0)
    ax = gen.axis(c.rng, a.ndim)
    lab = list(a.label[ax])
    k = c.choice(['lacks', 'type', 'ndim'])
    f = getattr(a, name)
    if k == 'lacks':
        lab.pop(c.rng.randint(0, len(lab) - 1))
        lab += gen.more(c.rng, a.label[ax], c.rng.randint(0, 3))
        g = la.larry(np.array(['g'] * len(lab)), [lab])
        c.raises(f, g, ax, exc=IndexError)
    elif k == 'type':
        bad = c.choice([['g'] * len(lab), np.array(['g'] * len(lab)), None,
                        dict([(l, 'g') for l in lab])])
        c.raises(f, bad, ax, exc=TypeError)
    else:
        x = np.array(['g'] * len(lab)).reshape(-1, 1)
        c.raises(f, la.larry(x, [lab, ['k']]), ax, exc=ValueError)


@R.scenario(500)
def covariance(c):
    n, t = c.rng.randint(1, 5), c.rng.randint(2, 9)
    if c.chance(.03):
        n, t = c.choice([(2, 300), (12, 40), (30, 12)])
    a = operand(c, shp=(n, t), nan=c.choice([0, .1, .3]),
                kinds='ffl', lay=.4)
    x = a.x.astype(float)
    want = np.empty((n, n))
    few = False
    for i in range(n):
        for j in range(n):
            both = [(p, q) for p, q in zip(x[i].tolist(), x[j].tolist())
                    if p == p and q == q]
            if len(both) < 2:
                few = True
                continue
            want[i, j] = model.fsum([p * q for p, q in both]) / len(both)
    eps = 1e-4 if a.x.dtype == np.float32 else 1e-9
    t = dict(rtol=eps, atol=eps * (float(np.nanmax(np.abs(x))) ** 2
                                   if not np.isnan(x).all() else 0),
             dtype=False)
    if c.chance(.7):
        if few:
            c.raises(la.cov, a, exc=ValueError)
        else:
            c.same(c.call(la.cov, a), [list(a.label[0]), list(a.label[0])],
                   want, 'cov', **t)
    else:
        if few:
            c.raises(covMissing, a.x, exc=ValueError)
        else:
            c.same_array(c.call(covMissing, a.x), want, 'covMissing', **t)
    if c.chance(.15):
        b = operand(c, ndims=(1, 3))
        c.raises(la.cov, b, exc=ValueError)


@R.scenario(500)
def correlations(c):
    shp = gen.shape(c.rng, zero=0, ndims=(1, 2, 2, 3), minlen=2)
    nan = c.choice([0, .15, .4])
    x = gen.array(c.rng, shp, c.choice(['float64', 'float64', 'int64']),
                  nan=nan, wide=0)
    y = gen.array(c.rng, shp, 'float64', nan=c.choice([nan, 0]), wide=0)
    if c.chance(.3):
        # Correlated data
        y = x * c.choice([2.0, -.5]) + (y if c.chance(.5) else 0)
    ax = gen.axis(c.rng, x.ndim, none=True)

    def corr(p, q):
        both = [(a, b) for a, b in zip(p, q) if a == a and b == b]
        if not both:
            return NAN
        m1 = model.fsum([a for a, b in both]) / len(both)
        m2 = model.fsum([b for a, b in both]) / len(both)
        num = model.fsum([(a - m1) * (b - m2) for a, b in both])
        d1 = model.fsum([(a - m1) ** 2 for a, b in both])
        d2 = model.fsum([(b - m2) ** 2 for a, b in both])
        if d1 <= 1e-9 * max([a * a for a, b in both]) or \
           d2 <= 1e-9 * max([b * b for a, b in both]):
            return None         # Not defined
        return num / math.sqrt(d1 * d2)
    kw = {} if ax is None and c.chance(.5) else dict(axis=ax)
    got = c.call(correlation, x, y, **kw)
    if ax is None or x.ndim == 1:
        want = corr(x.ravel().tolist(), y.ravel().tolist())
        if want is not None:
            c.same_scalar(got, want, 'correlation', atol=1e-8)
        return
    want = np.empty(model.pick(x, ax, [0]).sum(ax).shape)
    for (i, p), (j, q) in zip(model.lanes(x, ax), model.lanes(y, ax)):
        r = corr(p, q)
        want[i] = got[i] if r is None and got.shape == want.shape else \
            NAN if r is None else r
    c.same_array(got, want, 'correlation axis %r' % ax, atol=1e-8,
                 dtype=False)
