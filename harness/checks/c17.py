"""C17: cumulative and moving window functions."""
from __future__ import print_function
import math

import numpy as np

import gen
import model
from core import Registry

from la.farray.move import movingsum, movingsum_forward
from la.farray import move_nanmedian, move_nanranking, move_func as fmove_func

R = Registry('C17')
NAN = model.NAN
BASIC = {'move_sum': model.s_sum, 'move_mean': model.s_mean,
         'move_std': model.s_std, 'move_min': model.s_min,
         'move_max': model.s_max}


def lastrank1(v):
    last = v[-1]
    good = [a for a in v if a == a]
    if last != last or len(good) < 2:
        return NAN
    g = len([a for a in good if a < last])
    e = len([a for a in good if a == last])
    r = (2.0 * g + e - 1) / 2.0 / (len(good) - 1)
    return 2 * (r - .5)


def window_ref(x, window, axis, f):
    def lane(v):
        return [f(v[k + 1 - window:k + 1]) if k + 1 >= window else NAN
                for k in range(len(v))]
    return model.map_lane(x, axis, lane)


def tol(x, name=''):
    y = x[np.isfinite(x)] if x.dtype.kind == 'f' else x
    s = float(np.abs(y.astype(float)).max()) if y.size else 0.0
    eps = 1e-4 if x.dtype == np.float32 else 1e-9
    if name == 'move_std':
        eps = 1e-2 if x.dtype == np.float32 else 3e-7
    return dict(rtol=eps, atol=eps * s * max(1, x.shape[-1] if x.ndim else 1)
                ** .5 * 4, dtype=False)


def operand(c, **kw):
    kw.setdefault('kinds', 'fffl')
    kw.setdefault('wide', 0)
    kw.setdefault('zero', 0)
    return gen.larry(c.rng, **kw)


def infinite(c, a):
    "Put infinities of one sign into some larrys."
    if a.x.dtype.kind == 'f' and c.chance(.08):
        v = c.choice([np.inf, -np.inf])
        for i in np.ndindex(*a.shape):
            if c.chance(.15):
                a.x[i] = v
    return a


def window_of(c, n):
    return c.choice([1, n, c.rng.randint(1, n), c.rng.randint(1, n),
                     min(n, 2)])


def axarg(c, ax, ndim, default=True):
    "args or kwargs for axis, negative or left out if it is the last."
    if default and ax == ndim - 1 and c.chance(.4):
        return {}
    return dict(axis=ax - ndim if c.chance(.35) else ax)


@R.scenario(600)
def cumulative(c):
    name = c.choice(['cumsum', 'cumprod'])
    if name == 'cumprod':
        gen.ZOOM = 0
    a = gen.larry(c.rng, kinds='fffi', zero=.05, wide=0,
                  small=9 if name == 'cumsum' else 2)
    if name == 'cumprod':
        if max(a.shape) > 60:
            # Too large for integers
            a.x[...] = np.clip(a.x, 0 if a.x.dtype.kind == 'u' else -1, 1)
        if a.x.dtype.kind == 'f':
            a.x[...] = np.clip(a.x, -2, 2)
        else:
            a.x[...] = np.clip(a.x, 0 if a.x.dtype.kind == 'u' else -2, 2)
    else:
        infinite(c, a)
    ax = gen.axis(c.rng, a.ndim)

    def lane(v):
        out, t = [], 0 if name == 'cumsum' else 1
        for e in v:
            if e != e:
                out.append(e)
                continue
            t = t + e if name == 'cumsum' else t * e
            out.append(t)
        return out
    want = model.map_lane(a.x, ax, lane, float)
    got = c.call(getattr(a, name), ax)
    kw = tol(want.astype(a.x.dtype) if a.x.dtype.kind == 'f' else want)
    c.same(got, a.label, want, name, **kw)
    c.check(got.dtype.kind == a.dtype.kind, 'dtype %s' % got.dtype)
    if c.chance(.1):
        c.raises(getattr(a, name), None, exc=ValueError)


@R.scenario(1500)
def basic(c):
    name = c.choice(sorted(BASIC))
    a = operand(c)
    if name in ('move_min', 'move_max'):
        infinite(c, a)
    ax = gen.laxis(c.rng, a.ndim)
    w = window_of(c, a.shape[ax])
    got = c.call(getattr(a, name), w, **axarg(c, ax, a.ndim))
    want = window_ref(a.x, w, ax, BASIC[name])
    c.same(got, a.label, want, '%s window %d axis %d' % (name, w, ax),
           **tol(a.x, name))


@R.scenario(700)
def median_ranking(c):
    name = c.choice(['move_median', 'move_ranking'])
    a = infinite(c, operand(c))
    ax = gen.laxis(c.rng, a.ndim)
    w = window_of(c, a.shape[ax])
    method = c.choice(['loop', 'strides', None])
    kw = axarg(c, ax, a.ndim)
    if method:
        kw['method'] = method
    if a.ndim > 3 and (method == 'strides' or
                       (method is None and name == 'move_ranking')):
        c.raises(getattr(a, name), w, exc=ValueError, **kw)
        return
    want = window_ref(a.x, w, ax, model.s_median if name == 'move_median'
                      else lastrank1)
    got = c.call(getattr(a, name), w, **kw)
    c.same(got, a.label, want, '%s window %d axis %d %s' %
           (name, w, ax, method), **tol(a.x))
    if c.chance(.3):
        f = move_nanmedian if name == 'move_median' else move_nanranking
        if method is None and a.ndim > 3:
            kw['method'] = 'loop'
        c.same_array(c.call(f, a.x, w, **kw), want, name, **tol(a.x))


def weighted(x, axis=-1, power=1.0, shift=0.0):
    "Not symmetric, so that order, window and arguments matter."
    n = x.shape[axis]
    index = [None] * x.ndim
    index[axis] = slice(None)
    wts = (np.arange(n) + 1.0) ** power
    return (x * wts[tuple(index)]).sum(axis) + shift


def total(x, axis=-1):
    return x.sum(axis)


@R.scenario(500)
def func(c):
    a = infinite(c, operand(c, nan=c.choice([0, .2])))
    ax = gen.laxis(c.rng, a.ndim)
    w = window_of(c, a.shape[ax])
    method = c.choice(['loop', 'strides', None])
    kw = axarg(c, ax, a.ndim)
    if method:
        kw['method'] = method
    f = c.choice([weighted, weighted, total])
    more = {}
    if f is weighted and c.chance(.6):
        more = dict(power=c.choice([.5, 2.0]), shift=c.rng.randint(-3, 3))
    if a.ndim > 3 and method == 'strides':
        c.raises(a.move_func, f, w, exc=ValueError, **kw)
        return

    def ref(v):
        if f is total:
            return sum(v)
        p = more.get('power', 1.0)
        return sum([(k + 1) ** p * e for k, e in enumerate(v)]) + \
            more.get('shift', 0.0)
    want = window_ref(a.x, w, ax, ref)
    t = tol(a.x)
    t['atol'] *= 100
    kw.update(more)
    if c.chance(.7):
        got = c.call(a.move_func, f, w, **kw)
        c.same(got, a.label, want, 'move_func %s' % method, **t)
    else:
        got = c.call(fmove_func, f, a.x, w, **kw)
        c.same_array(got, want, 'move_func %s' % method, **t)


def movingsum_ref(v, window, skip, norm, forward):
    n = len(v)
    out = []
    for k in range(n):
        if forward:
            i = k + skip
            j = i + window
        else:
            j = k - skip + 1
            i = j - window
        if i < 0 or j > n:
            out.append(NAN)
            continue
        g = model.good(v[i:j])
        if not g:
            out.append(NAN)
        elif norm:
            out.append(model.fsum(g) * window / len(g))
        else:
            out.append(model.fsum(g))
    return out


@R.scenario(900)
def forward(c):
    a = operand(c, zero=.02)
    ax = gen.laxis(c.rng, a.ndim)
    n = a.shape[ax]
    if n == 0:
        c.raises(a.movingsum_forward, 1, axis=ax, exc=ValueError)
        return
    w = window_of(c, n)
    skip = c.choice([None, 0, 1, c.rng.randint(0, n), n])
    kw = axarg(c, ax, a.ndim)
    if skip is not None:
        kw['skip'] = skip
    norm = c.choice([None, True, False])
    if norm is not None:
        kw['norm'] = norm
    which = c.choice(['method', 'method', 'forward', 'sum'])
    want = model.map_lane(a.x, ax, lambda v: movingsum_ref(
        v, w, skip or 0, norm, which != 'sum'))
    what = '%s window %d skip %r norm %r axis %d' % (which, w, skip, norm, ax)
    t = tol(a.x)
    if which == 'method':
        got = c.call(a.movingsum_forward, w, **kw)
        c.same(got, a.label, want, what, **t)
    else:
        f = movingsum if which == 'sum' else movingsum_forward
        c.same_array(c.call(f, a.x, w, **kw), want, what, **t)


@R.scenario(200)
def long_series(c):
    "Long windows over long lanes, so that errors could add up."
    n = c.choice([60, 101, 200])
    shp = c.choice([(n,), (n, 2), (2, n)])
    a = operand(c, shp=shp)
    ax = list(shp).index(n)
    w = c.choice([1, 2, 10, n // 2, n - 1, n])
    name = c.choice(sorted(BASIC) + ['move_median', 'move_ranking'])
    f = BASIC.get(name, model.s_median if name == 'move_median' else
                  lastrank1)
    got = c.call(getattr(a, name), w, axis=ax)
    c.same(got, a.label, window_ref(a.x, w, ax, f), name, **tol(a.x, name))


@R.scenario(300)
def methods_agree(c):
    a = operand(c, ndims=(1, 2, 3))
    ax = gen.axis(c.rng, a.ndim)
    w = window_of(c, a.shape[ax])
    k = c.choice(['move_median', 'move_ranking', 'move_func'])
    args = (weighted, w) if k == 'move_func' else (w,)
    p = c.call(getattr(a, k), *args, axis=ax, method='loop')
    q = c.call(getattr(a, k), *args, axis=ax, method='strides')
    t = tol(a.x)
    t['atol'] *= 100
    c.same(q, p.label, p.x, k, **t)


@R.scenario(400)
def rejects(c):
    a = operand(c)
    ax = gen.laxis(c.rng, a.ndim)
    n = a.shape[ax]
    w = c.choice([0, -1, n + 1, n + c.rng.randint(1, 5), -n])
    k = c.choice(sorted(BASIC) + ['move_median', 'move_ranking', 'move_func',
                                  'movingsum_forward', 'movingsum', 'skip',
                                  'method', 'axis'])
    if k == 'skip':
        c.raises(c.choice([a.movingsum_forward,
                           lambda *b, **d: movingsum(a.x, *b, **d)]), 1,
                 skip=n + c.rng.randint(1, 3), axis=ax, exc=IndexError)
    elif k == 'method':
        c.raises(a.move_median, 1, axis=ax, method='nomethod',
                 exc=ValueError)
        c.raises(a.move_ranking, 1, axis=ax, method='nomethod',
                 exc=ValueError)
        c.raises(a.move_func, total, 1, axis=ax, method='',
                 exc=ValueError)
    elif k == 'axis':
        m = c.choice(sorted(BASIC) + ['move_median', 'move_ranking'])
        c.raises(getattr(a, m), 1, axis=c.choice([a.ndim, -a.ndim - 1, None]))
    elif k == 'movingsum':
        c.raises(movingsum, a.x, w, axis=ax, exc=ValueError)
    elif k == 'move_func':
        c.raises(a.move_func, total, w, axis=ax, exc=ValueError)
    elif k in ('move_median', 'move_ranking') and a.ndim < 4 and c.chance(.5):
        c.raises(getattr(a, k), w, axis=ax, method='strides', exc=ValueError)
    else:
        c.raises(getattr(a, k), w, axis=ax, exc=ValueError)
