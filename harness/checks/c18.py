"""C18: ranking, lastrank, quantile."""
from __future__ import print_function
import math

import numpy as np

import gen
import model
from core import Registry

from la.farray import ranking as franking, lastrank as flastrank
from la.farray import quantile as fquantile

R = Registry('C18')
NAN = model.NAN
NORMS = ('-1,1', '0,N-1', 'gaussian')


def phi(x):
    "Standard normal distribution function."
    return 0.5 * math.erfc(-x / math.sqrt(2.0))


def ndtri(p):
    "By bisection, independent of scipy."
    lo, hi = -9.0, 9.0
    for i in range(80):
        mid = (lo + hi) / 2
        if phi(mid) < p:
            lo = mid
        else:
            hi = mid
    return (lo + hi) / 2


def rank_lane(v, norm):
    n = len(v)
    good = [i for i in range(n) if v[i] == v[i]]
    m = len(good)
    out = [NAN] * n
    if m == 1:
        out[good[0]] = (n - 1) / 2.0 if norm == '0,N-1' else 0.0
        return out
    ranks = model.avgrank([v[i] for i in good])
    for i, r in zip(good, ranks):
        if norm == '-1,1':
            out[i] = 2.0 * r / (m - 1) - 1
        else:
            r = r * (n - 1.0) / (m - 1)
            out[i] = r if norm == '0,N-1' else ndtri((r + 1) / (n + 1.0))
    return out


def operand(c, **kw):
    kw.setdefault('kinds', 'fffl')
    kw.setdefault('inf', 0)
    return gen.larry(c.rng, **kw)


def ranking_case(c, a):
    ax = gen.axis(c.rng, a.ndim, none=True)
    norm = c.choice(NORMS + (None,))
    n = norm or '-1,1'
    kw = {} if norm is None else dict(norm=norm)
    if ax is None:
        want = np.array(rank_lane(a.x.ravel().tolist(), n)).reshape(a.shape)
    else:
        want = model.map_lane(a.x, ax, lambda v: rank_lane(v, n))
    t = dict(atol=1e-6, dtype=False)
    if c.chance(.8):
        if ax == 0 and c.chance(.5):
            got = c.call(a.ranking, **kw)
        else:
            got = c.call(a.ranking, ax, **kw)
        c.same(got, a.label, want, 'ranking axis %r norm %r' % (ax, norm),
               **t)
    else:
        got = c.call(franking, a.x, ax, **kw)
        c.same_array(got, want, 'ranking axis %r norm %r' % (ax, norm), **t)


@R.scenario(1200)
def ranking(c):
    ranking_case(c, operand(c, zero=0))


@R.scenario(300)
def ranking_inf(c):
    ranking_case(c, operand(c, zero=0, inf=.2, kinds='f'))


@R.scenario(300)
def ranking_sparse(c):
    "Lanes with no or a single value."
    ranking_case(c, operand(c, zero=0, kinds='f', nan=c.choice([.7, .9])))


def lastrank_lane(v, decay):
    n = len(v)
    if not n:
        return NAN
    last = v[-1]
    if last != last:
        return NAN
    w = [math.exp(-decay * (n - 1 - k)) for k in range(n)]
    s = sum(w) / n
    w = [a / s for a in w]
    good = [k for k in range(n) if v[k] == v[k]]
    g = sum([w[k] for k in range(n) if v[k] < last])
    e = sum([w[k] for k in range(n) if v[k] == last])
    tot = sum([w[k] for k in good])
    if len(good) == 1:
        return NAN
    r = (2 * g + e - w[-1]) / 2.0 / (tot - w[-1])
    return 2 * (r - .5)


@R.scenario(900)
def lastrank(c):
    a = operand(c, zero=.04, kinds='fffl', inf=c.choice([0, 0, 0, .2]))
    decay = c.choice([None, 0, 0, .1, .5, 1, 2.0])
    ax = gen.axis(c.rng, a.ndim)
    kw = {} if decay is None else dict(decay=decay)
    if ax not in (-1, a.ndim - 1) or c.chance(.7):
        kw['axis'] = ax
    else:
        ax = -1
    t = dict(rtol=1e-5, atol=1e-6)
    f = lambda v: lastrank_lane(v, decay or 0)
    if c.chance(.8) or a.ndim == 1:
        got = c.call(a.lastrank, **kw)
        if a.ndim == 1:
            want = f(a.x.tolist())
            # A lone value divides 0 by a rounding error with decay
            if want != want and decay and a.size and a.x[-1] == a.x[-1] and \
               len(model.good(a.x.tolist())) == 1:
                return
            c.same_scalar(got, want, 'lastrank', **t)
            return
    else:
        got = c.call(flastrank, a.x, **kw)
    want = model.per_lane(a.x, ax, f)
    if decay:
        x = getattr(got, 'x', got)
        if x.shape == want.shape:
            for i, v in model.lanes(a.x, ax):
                if len(model.good(v)) == 1 and v[-1] == v[-1]:
                    want[i] = x[i]
    if hasattr(got, 'label'):
        c.same(got, model.drop(a.label, ax), want, 'lastrank axis %r decay %r'
               % (ax, decay), dtype=False, **t)
    else:
        c.same_array(got, want, 'lastrank axis %r decay %r' % (ax, decay),
                     dtype=False, **t)


def bins(n, q):
    "For each rank 0..n-1 the set of admissible bins (1..q)."
    out = []
    for j in range(n):
        if n == 1 or j == 0:
            out.append(set([1]) if n > 1 else set(range(1, q + 1)))
            continue
        # Largest rank of bin b is b * (n - 1) / q
        ok = set()
        b = -(-j * q // (n - 1))
        ok.add(min(max(b, 1), q))
        if j * q % (n - 1) == 0 and j != n - 1 and \
           (n - 1) * 1024 % q != 0:
            ok.add(min(b + 1, q))       # Rounding of the bin edge
        out.append(ok)
    return out


def quantile_lane(c, v, got, q, what):
    good = [k for k in range(len(v)) if v[k] == v[k] and
            not math.isinf(v[k])]
    for k in range(len(v)):
        if k not in good:
            c.check(got[k] != got[k], lambda: '%s: %r for %r' %
                    (what, got[k], v[k]))
    # Bin numbers from the scaled values
    pairs = []
    for k in good:
        b = (got[k] + 1) / 2 * (q - 1) + 1
        c.check(abs(b - round(b)) < 1e-6 and 1 <= round(b) <= q,
                lambda: '%s: %r is not a scaled bin' % (what, got[k]))
        pairs.append((v[k], int(round(b))))
    # Ties may be in any order
    pairs.sort()
    for (val, b), ok in zip(pairs, bins(len(good), q)):
        c.check(b in ok, lambda: '%s: %r in bin %d, not in %r; bins %r' %
                (what, val, b, sorted(ok), pairs))
    c.substance += len(v)
    c.stats.bump('quantile_lanes')


@R.scenario(900)
def quantile(c):
    a = operand(c, zero=0, kinds='fffl', inf=c.choice([0, 0, .1]),
                maxlen=9)
    ax = gen.axis(c.rng, a.ndim, none=True)
    n = a.size if ax is None else a.shape[ax]
    q = c.choice([1, 2, n, c.rng.randint(1, n)])
    if q > n:
        c.raises(a.quantile, q, ax, exc=ValueError)
        return
    if ax == 0 and c.chance(.4):
        got = c.call(a.quantile, q)
    elif c.chance(.8):
        got = c.call(a.quantile, q, ax)
    else:
        import la
        got = la.larry(c.call(fquantile, a.x, q, ax), a.label)
    what = 'quantile q %d axis %r' % (q, ax)
    c.check(got.label == a.label, what + ' changed the labels')
    c.check(got.shape == a.shape, what + ' changed the shape')
    c.check(got.dtype == float, what + ' is %s' % got.dtype)
    if q == 1:
        for i in np.ndindex(*a.shape):
            if a.x[i] != a.x[i]:
                c.check(got.x[i] != got.x[i], what)
            else:
                c.check(got.x[i] == 0, what)
        c.substance += a.size
        return
    if ax is None:
        quantile_lane(c, a.x.ravel().tolist(), got.x.ravel().tolist(), q,
                      what)
        return
    for (i, v), (j, w) in zip(model.lanes(a.x, ax), model.lanes(got.x, ax)):
        quantile_lane(c, v, w, q, what)


@R.scenario(250)
def rejects(c):
    a = operand(c, zero=0)
    ax = gen.axis(c.rng, a.ndim, none=True)
    k = c.choice(['norm', 'decay', 'q', 'q large', 'axis'])
    if k == 'norm':
        c.raises(a.ranking, ax, norm=c.choice(['', '0,1', 'gauss', None,
                                               '-1, 1']), exc=ValueError)
    elif k == 'decay':
        c.raises(a.lastrank, gen.axis(c.rng, a.ndim),
                 decay=c.choice([-1, -.1, -1e-6]), exc=ValueError)
    elif k == 'q':
        c.raises(a.quantile, c.choice([0, -1, -5]), ax, exc=ValueError)
    elif k == 'q large':
        n = a.size if ax is None else a.shape[ax]
        c.raises(a.quantile, n + c.rng.randint(1, 4) + (n == 0), ax,
                 exc=ValueError)
    else:
        bad = c.choice([a.ndim, -a.ndim - 1])
        c.raises(a.ranking, bad)
        c.raises(a.lastrank, bad)
        c.raises(a.quantile, 2, bad) if a.size > 1 else None
