"""C16: reductions."""
from __future__ import print_function
import math

import numpy as np

import gen
import model
from core import Registry

R = Registry('C16')
NAN = model.NAN


def s_gmean(v):
    v = model.good(v)
    if not v:
        return NAN
    return math.exp(math.fsum([math.log(a) for a in v]) / len(v))


STAT = {'sum': model.s_sum, 'prod': model.s_prod, 'mean': model.s_mean,
        'median': model.s_median, 'std': model.s_std, 'var': model.s_var,
        'max': model.s_max, 'min': model.s_min, 'geometric_mean': s_gmean,
        'any': lambda v: bool([a for a in v if a]),
        'all': lambda v: not [a for a in v if not a]}
NAMES = sorted(STAT)
ONESIGN = ('sum', 'mean', 'median', 'geometric_mean', 'any', 'all')
EXACT = ('max', 'min', 'any', 'all')


def operand(c, name, **kw):
    inf = 0
    if name == 'prod':
        gen.ZOOM = 0
    pos = name == 'geometric_mean'
    small = None
    wide = .1
    if name in ('any', 'all'):
        kw.setdefault('kinds', 'bbif')
        kw.setdefault('nan', 0)
    else:
        kw.setdefault('kinds', 'fffib')
        if name in ('max', 'min'):
            inf = c.choice([0, .1])
    if name == 'prod':
        small, wide = 3, 0
        kw.setdefault('maxsize', 60)
    if pos:
        kw['kinds'] = 'ffi'
        wide = 0
    a = gen.larry(c.rng, inf=inf, pos=pos, small=small, wide=wide, **kw)
    if name in ONESIGN and a.x.dtype.kind == 'f' and c.chance(.06):
        v = float('inf')
        if not pos and c.chance(.5):
            v = -v
        for i in np.ndindex(*a.shape):
            if c.chance(.15):
                a.x[i] = v
    if name == 'prod' and a.x.dtype.kind == 'f':
        a.x[...] = np.clip(a.x, -3, 3)
    elif name == 'prod' and a.x.dtype.kind != 'b':
        a.x[...] = np.clip(a.x, 0 if a.x.dtype.kind == 'u' else -2, 2)
    if name == 'prod' and a.size > 60 and a.x.dtype.kind in 'fi':
        a.x[...] = np.sign(a.x)     # What overflows depends on the order
    return a


def scale(x):
    y = x[np.isfinite(x)] if x.dtype.kind == 'f' else x
    return float(np.abs(y.astype(float)).max()) if y.size else 0.0


def tolerance(name, a):
    if name in EXACT:
        return 0.0, 0.0
    eps = 1e-4 if a.x.dtype == np.float32 else 1e-8
    s = scale(a.x)
    if name in ('std', 'var'):
        return eps, eps * (s if name == 'std' else s * s)
    if name == 'prod':
        return eps * 10, 0
    return eps, eps * s


def verify(c, name, a, axis, kw, got=None):
    f = STAT[name]
    ddof = kw.get('ddof', 0)
    if ddof and a.x.dtype.kind != 'f':
        n = a.size if axis is None else a.shape[axis]
        if n <= ddof:
            kw, ddof = {}, 0            # Bottleneck divides by zero
    if name in ('std', 'var'):
        def f(v):
            n = len(model.good(v))
            if n and n <= ddof:
                return None             # Not defined
            return (model.s_std if name == 'std' else model.s_var)(v, ddof)
    rtol, atol = tolerance(name, a)
    if got is None:
        if axis is None and c.chance(.4):
            got = c.call(getattr(a, name), **kw)
        else:
            got = c.call(getattr(a, name), axis, **kw)
    if axis is None or a.ndim == 1:
        want = f(a.x.ravel().tolist())
        if want is not None:
            c.same_scalar(got, want, '%s axis %r' % (name, axis), rtol, atol)
        return got
    want = model.per_lane(a.x, axis, f, object)
    lab = model.drop(a.label, axis)
    skip = np.array([w is None for w in want.ravel()]).reshape(want.shape)
    if name in ('any', 'all'):
        want = np.array(want, bool)
        c.same(got, lab, want, '%s axis %r' % (name, axis))
        return got
    x = np.empty(want.shape)
    for i in np.ndindex(*want.shape):
        x[i] = got.x[i] if skip[i] and got.x.shape == want.shape else \
            NAN if want[i] is None else want[i]
    c.same(got, lab, x, '%s axis %r' % (name, axis), rtol, atol, dtype=False)
    if a.x.dtype.kind == 'f' and name != 'geometric_mean':
        c.check(got.dtype == a.dtype, '%s: dtype %s became %s' %
                (name, a.dtype, got.dtype))
    elif name in ('mean', 'median', 'std', 'var', 'geometric_mean'):
        c.check(got.dtype.kind == 'f', '%s of %s is %s' %
                (name, a.dtype, got.dtype))
    return got


def kwargs(c, name):
    if name in ('std', 'var') and c.chance(.4):
        return dict(ddof=c.rng.randint(0, 3))
    return {}


@R.scenario(2200)
def reductions(c):
    name = c.choice(NAMES)
    a = operand(c, name)
    verify(c, name, a, gen.axis(c.rng, a.ndim, none=True), kwargs(c, name))


@R.scenario(400)
def zero_length(c):
    name = c.choice(NAMES)
    a = operand(c, name, zero=.6)
    verify(c, name, a, gen.axis(c.rng, a.ndim, none=True), kwargs(c, name))


@R.scenario(300)
def missing_lanes(c):
    "Lanes that hold only NaN, or one value."
    name = c.choice([n for n in NAMES if n not in ('any', 'all')])
    a = operand(c, name, kinds='f', nan=c.choice([.8, .95, 1.0]), zero=0)
    verify(c, name, a, gen.axis(c.rng, a.ndim, none=True), kwargs(c, name))


@R.scenario(150)
def long_lanes(c):
    name = c.choice(NAMES)
    n = c.choice([33, 64, 100, 129, 257])
    shp = c.choice([(n,), (n, 2), (2, n), (1, n, 2)])
    if name == 'prod':
        shp = (20, 3)
    a = operand(c, name, shp=shp)
    verify(c, name, a, gen.axis(c.rng, a.ndim, none=True), kwargs(c, name))


@R.scenario(250)
def chains(c):
    "One axis after the other; the rest must stay under its labels."
    name = c.choice(['sum', 'mean', 'median', 'max', 'min', 'std', 'any',
                     'all'])
    a = operand(c, name, ndims=(2, 3, 4), zero=0)
    while True:
        ax = gen.axis(c.rng, a.ndim)
        b = verify(c, name, a, ax, {})
        if a.ndim == 1:
            break
        a = b


@R.scenario(150)
def negative_axis(c):
    name = c.choice(NAMES)
    a = operand(c, name)
    ax = gen.laxis(c.rng, a.ndim)
    kw = kwargs(c, name) if a.x.dtype.kind == 'f' else {}
    p = c.call(getattr(a, name), ax, **kw)
    q = c.call(getattr(a, name), ax - a.ndim, **kw)
    if a.ndim == 1:
        c.same_scalar(q, p, name)
    else:
        c.same(q, p.label, p.x, name)


@R.scenario(300)
def rejects(c):
    name = c.choice(NAMES)
    a = operand(c, name, zero=0)
    bad = c.choice([a.ndim, a.ndim + 2, -a.ndim - 1, 'a', (0,), [0], (0, 1),
                    {}])
    c.raises(getattr(a, name), bad)


@R.scenario(150)
def geometric(c):
    "The check for values that are not positive."
    a = operand(c, 'geometric_mean', zero=0)
    a.x.flat[c.rng.randint(0, a.size - 1)] = c.choice([0, -1, -2.5]) \
        if a.x.dtype.kind != 'u' else 0
    ax = gen.axis(c.rng, a.ndim, none=True)
    if c.chance(.6):
        kw = {} if c.chance(.5) else dict(check_for_greater_than_zero=True)
        c.raises(a.geometric_mean, ax, exc=ValueError, **kw)
    else:
        # Lanes without such a value are not affected
        got = c.call(a.geometric_mean, ax, check_for_greater_than_zero=False)
        if ax is None or a.ndim == 1:
            return
        want = model.per_lane(
            a.x, ax, lambda v: s_gmean(v) if min(model.good(v) or [1]) > 0
            else float('inf'))
        for i in np.ndindex(*want.shape):
            if want[i] == float('inf'):
                want[i] = got.x[i]
        c.same(got, model.drop(a.label, ax), want, 'geometric_mean',
               *tolerance('geometric_mean', a), dtype=False)
