"""C20: missing data operations."""
from __future__ import print_function
import math

import numpy as np

import gen
import model
from core import Registry

import la
from la.missing import ismissing, missing_marker, nans
from la.farray import push as fpush

R = Registry('C20')
NAN = model.NAN


def finite_mask(x):
    out = np.zeros(x.shape, bool)
    for i in np.ndindex(*x.shape):
        v = x[i]
        out[i] = bool(v == v and not math.isinf(v))
    return out


@R.scenario(500)
def what_is_missing(c):
    a = gen.larry(c.rng, kinds='ffibSSOOc', inf=c.choice([0, .2]))
    if a.x.dtype == object and a.size and c.chance(.4):
        a.x.flat[c.rng.randint(0, a.size - 1)] = c.choice([NAN, '', 0])
    if a.x.dtype.kind == 'c' and a.size and c.chance(.5):
        a.x.flat[0] = complex(1, NAN)
    mask = model.miss_mask(a.x)
    c.same(c.call(a.ismissing), a.label, mask, 'ismissing')
    c.same_array(c.call(ismissing, a), mask, 'la.missing.ismissing')
    c.same_array(c.call(ismissing, a.x), mask, 'ismissing of an array')
    has, mark = model.missing(a.x.dtype)
    for data in (a, a.x):
        m = c.call(missing_marker, data)
        if not has:
            c.check(m is NotImplemented, 'marker %r for %s' % (m, a.dtype))
        elif mark != mark:
            c.check(m != m, 'marker %r for %s' % (m, a.dtype))
        else:
            c.check(type(m) == type(mark) and m == mark,
                    'marker %r for %s' % (m, a.dtype))
    if a.x.dtype.kind in 'fibc':
        got = c.call(getattr, a, 'nx', name='nx')
        n = 0
        for v in a.x.ravel().tolist():
            if isinstance(v, complex):
                n += not (v != v or math.isinf(v.real) or math.isinf(v.imag))
            else:
                n += not (v != v or math.isinf(v))
        c.same_scalar(got, n, 'nx')
        want = np.zeros(a.shape, bool)
        for i in np.ndindex(*a.shape):
            want[i] = a.x[i] != a.x[i]
        c.same(c.call(a.isnan), a.label, want, 'isnan')


@R.scenario(250)
def filled(c):
    shp = gen.shape(c.rng)
    dt = c.choice(['float64', 'float32', 'S4', 'object', 'complex128', 'int64',
                   'bool', 'int8', float, str, object, int, bool])
    has, mark = model.missing(dt)
    arg = shp if len(shp) > 1 or c.chance(.5) else shp[0]
    if not has:
        c.raises(nans, arg, dt, exc=TypeError)
        return
    if dt is float and c.chance(.5):
        got = c.call(nans, arg)
    else:
        got = c.call(nans, arg, dt)
    c.check(got.shape == shp, 'shape %r' % (got.shape,))
    c.check(got.dtype.kind == np.dtype(dt).kind, 'dtype %s' % got.dtype)
    if dt is not str:
        c.check(got.dtype == np.dtype(dt), 'dtype %s' % got.dtype)
    c.substance += 1
    c.check(bool(model.miss_mask(got).all()), 'not missing: %r' % got)
    c.check(bool(ismissing(got).all()), 'ismissing of nans: %r' % got)


@R.scenario(400)
def nan_replace(c):
    a = gen.larry(c.rng, kinds='fffibSOc', inf=c.choice([0, .2]))
    w = c.choice([0, 1.5, -2, NAN, float('inf')])
    args = () if w == 0 and c.chance(.5) else (w,)
    want = a.x.copy()
    if a.x.dtype.kind in 'fc':
        for i in np.ndindex(*a.shape):
            if a.x[i] != a.x[i]:
                want[i] = w
    c.same(c.call(a.nan_replace, *args), a.label, want, 'nan_replace')


def push_lane(v, n):
    out = []
    for k in range(len(v)):
        new = v[k]
        if v[k] != v[k]:
            for j in range(k - 1, -1, -1):
                if v[j] == v[j]:
                    if k - j <= n:
                        new = v[j]
                    break
        out.append(new)
    return out


@R.scenario(800)
def push(c):
    a = gen.larry(c.rng, kinds='fffl', nan=c.choice([.2, .5, .8]), maxlen=9)
    ax = gen.axis(c.rng, a.ndim)
    if c.chance(.2) and a.x.dtype.kind == 'f':
        for i in np.ndindex(*a.shape):
            if c.chance(.15):
                a.x[i] = c.choice([np.inf, -np.inf])
    n = c.choice([0, 1, 2, 3, a.shape[ax], c.rng.randint(0, 10), 100])
    want = model.map_lane(a.x, ax, lambda v: push_lane(v, n), a.x.dtype)
    if ax in (-1, a.ndim - 1) and c.chance(.4):
        got = c.call(a.push, n)
    elif c.chance(.75):
        got = c.call(a.push, n, ax)
    else:
        got = la.larry(c.call(fpush, a.x, n, ax),
                       [list(l) for l in a.label])
    c.same(got, a.label, want, 'push %d axis %d' % (n, ax))


def keep_positions(a, axes, rule):
    pos = [range(n) for n in a.shape]
    fin = finite_mask(a.x)
    for ax in axes:
        keep = []
        for i in range(a.shape[ax]):
            s = fin[model.sl(a.ndim, ax, i)].ravel().tolist()
            if rule(len([t for t in s if t]), len(s)):
                keep.append(i)
        pos[ax] = keep
    x, lab = a.x, [list(l) for l in a.label]
    for ax in range(a.ndim):
        x = model.pick(x, ax, pos[ax])
        lab[ax] = [lab[ax][i] for i in pos[ax]]
    return lab, x


def sparse(c):
    a = gen.larry(c.rng, kinds='ffffl', nan=c.choice([.2, .6, .85]),
                  inf=c.choice([0, 0, .1]), zero=.03)
    if a.x.dtype.kind == 'f' and a.size:
        for k in range(c.rng.randint(0, 3)):
            ax = gen.laxis(c.rng, a.ndim)
            i = c.rng.randint(0, a.shape[ax] - 1)
            a.x[model.sl(a.ndim, ax, i)] = NAN
    return a


@R.scenario(900)
def vacuum(c):
    a = sparse(c)
    if c.chance(.35) and a.ndim > 1:
        m = c.rng.randint(0, a.ndim)
        axis = c.rng.sample(range(a.ndim), m)
        keep = list(axis)
        axis = tuple([x - a.ndim if c.chance(.3) else x for x in axis])
        if c.chance(.4):
            axis = list(axis)
        axes = [x for x in range(a.ndim) if x not in keep]
    else:
        axis = gen.axis(c.rng, a.ndim, none=True)
        axes = range(a.ndim)
        if axis is not None:
            axes = [x for x in axes if x != axis % a.ndim]
    lab, x = keep_positions(a, axes, lambda k, n: k > 0)
    args = () if axis is None and c.chance(.5) else (axis,)
    c.same(c.call(a.vacuum, *args), lab, x, 'vacuum axis %r' % (axis,))


@R.scenario(900)
def cut_missing(c):
    a = sparse(c)
    axis = gen.axis(c.rng, a.ndim, none=True)
    axes = range(a.ndim)
    if axis is not None:
        axes = [x for x in axes if x != axis % a.ndim]
    f = c.choice([0, .25, .5, .5, .75, 1, 1.0, .37, .61, .123, .9])

    def rule(k, n):
        return k > (1.0 - f) * n
    # Fractions whose limit is hit by rounding only are left out
    if f * 64 % 1:
        fin = finite_mask(a.x)
        for ax in axes:
            n = a.size // a.shape[ax] if a.shape[ax] else 0
            if abs((1.0 - f) * n - round((1.0 - f) * n)) < 1e-9 and n:
                return
    lab, x = keep_positions(a, axes, rule)
    args = () if axis is None and c.chance(.5) else (axis,)
    got = c.call(a.cut_missing, f, *args)
    if x.size == 0:
        c.check(got.x.size == 0, 'cut_missing kept %r' % got)
        c.substance += 1
        return
    c.same(got, lab, x, 'cut_missing %r axis %r' % (f, axis))


@R.scenario(500)
def lag(c):
    a = gen.larry(c.rng, zero=.04)
    ax = gen.axis(c.rng, a.ndim)
    n = a.shape[ax]
    k = c.choice([0, 1, -1, c.rng.randint(-n - 1, n + 1), n, -n])
    lab = [list(l) for l in a.label]
    m = abs(k)
    if k > 0:
        lab[ax] = lab[ax][m:]
        pos = range(0, max(0, n - m))
    else:
        lab[ax] = lab[ax][:max(0, n - m)]
        pos = range(min(m, n), n)
    x = model.pick(a.x, ax % a.ndim, pos)
    if ax in (-1, a.ndim - 1) and c.chance(.4):
        got = c.call(a.lag, k)
    else:
        got = c.call(a.lag, k, ax)
    c.same(got, lab, x, 'lag %d axis %d' % (k, ax))
    if c.chance(.1):
        c.raises(a.lag, k, None, exc=IndexError)


@R.scenario(150)
def rejects(c):
    a = gen.larry(c.rng, kinds='f', zero=0)
    bad = c.choice([a.ndim, a.ndim + 1, -a.ndim - 1])
    k = c.choice(['lag', 'push', 'vacuum', 'cut'])
    if k == 'lag':
        c.raises(a.lag, 1, bad)
    elif k == 'push':
        c.raises(a.push, 1, bad)
    elif k == 'vacuum':
        c.raises(a.vacuum, c.choice([bad, (bad,)]))
    else:
        c.raises(a.cut_missing, .5, bad)
