"""C27: the testing helpers."""
from __future__ import print_function
import copy

import numpy as np

import gen
import model
from core import Registry, malformed

import la
from la.util.testing import (assert_larry_equal, assert_iscopy, assert_isview,
                             noreference, nocopy, printfail)

R = Registry('C27')


def twin(a):
    "An independent equal larry."
    return la.larry(a.x.copy(), [list(l) for l in a.label])


def mix(c):
    a = gen.larry(c.rng, kinds='ffffiibSOc', inf=c.choice([0, 0, .2]),
                  wide=0)
    return a


def verdict(c, a, b, **kw):
    r, e = c.tried(assert_larry_equal, a, b, **kw)
    c.substance += 1
    if e is None:
        c.check(r is None, 'assert_larry_equal returned %r' % (r,))
    return e


def accepts(c, a, b, why, **kw):
    e = verdict(c, a, b, **kw)
    c.check(e is None, lambda: 'rejected equal larrys (%s): %s' % (why, e))
    c.stats.bump('accepted')


def rejects(c, a, b, why, **kw):
    e = verdict(c, a, b, **kw)
    c.check(isinstance(e, AssertionError),
            lambda: 'difference not reported (%s): %s' %
            (why, 'accepted' if e is None else repr(e)))
    if kw.get('msg'):
        c.check(kw['msg'] in str(e), 'message %r missing in %s' %
                (kw['msg'], e))
    c.stats.bump('rejected')
    c.stats.bump('rejected: ' + why)


def options(c):
    kw = {}
    if c.chance(.3):
        kw['msg'] = c.choice(['', 'some text'])
    if c.chance(.3):
        kw['dtype'] = c.choice([True, False])
    return kw


@R.scenario(400)
def equal(c):
    a = mix(c)
    b = twin(a)
    kw = options(c)
    if c.chance(.3):
        b.x = gen.layout(c.rng, b.x, 1)
    if a.dtype == np.float64 and c.chance(.4):
        for i in np.ndindex(*a.shape):
            b.x[i] += c.choice([0, 1, -1]) * 1e-14
        if not np.isfinite(a.x).all():
            b = twin(a)
    accepts(c, a, b, 'equal', **kw)
    accepts(c, b, a, 'equal', **kw)


@R.scenario(900)
def label_differs(c):
    a = mix(c)
    b = twin(a)
    ax = c.rng.randint(0, a.ndim - 1)
    how = c.choice(['replace', 'replace', 'swap', 'missing', 'reverse'])
    n = a.shape[ax]
    if how == 'replace' and n:
        i = c.rng.randint(0, n - 1)
        b.label[ax][i] = gen.more(c.rng, a.label[ax], 1)[0]
    elif how == 'swap' and n > 1:
        i, j = c.rng.sample(range(n), 2)
        l = b.label[ax]
        l[i], l[j] = l[j], l[i]
    elif how == 'reverse' and n > 1:
        b.label[ax].reverse()
    elif how == 'missing' and n:
        # Only possible if the data differs too
        b = la.larry(model.pick(a.x, ax, range(n - 1)),
                     [l[:-1] if k == ax else list(l)
                      for k, l in enumerate(a.label)])
    else:
        return
    x, y = (a, b) if c.chance(.5) else (b, a)
    rejects(c, x, y, 'label ' + how, **options(c))


def other_value(c, x, i):
    "A value that differs from x[i] by more than the tolerance."
    v = x[i]
    k = x.dtype.kind
    if k == 'f':
        if v != v:
            return c.choice([0., 1., 3.25, np.inf])
        if c.chance(.3):
            return np.nan
        if np.isinf(v):
            return c.choice([-v, 0.0, 1.5])
        d = c.choice([1e-12, 1e-9, 1e-3, 1., 100.])
        if x.dtype.itemsize < 8:
            d = max(d, 1e-3)
        w = x.dtype.type(v + c.choice([-d, d]))
        if abs(float(w) - float(v)) > 4e-13:
            return w
        return v + 64
    if k == 'c':
        return v + 1j if v == v else 1j
    if k == 'b':
        return not v
    if k in 'iu':
        # (a uint64 plus an int is a float)
        return x.dtype.type(int(v) + (1 if v < 50 else -1))
    if k == 'S':
        return 'b' if v[:1] != 'b' else 'c'
    return 'different' if c.chance(.5) or v is None else None


@R.scenario(900)
def value_differs(c):
    a = mix(c)
    if a.size == 0:
        return
    b = twin(a)
    cells = list(np.ndindex(*a.shape))
    for k in range(c.choice([1, 1, 1, 3])):
        i = c.choice(cells)
        b.x[i] = other_value(c, a.x, i)
    x, y = (a, b) if c.chance(.5) else (b, a)
    rejects(c, x, y, 'value', **options(c))


@R.scenario(300)
def values_moved(c):
    "The same values in other places."
    a = mix(c)
    b = twin(a)
    ax = c.rng.randint(0, a.ndim - 1)
    n = a.shape[ax]
    if n < 2:
        return
    p = range(n)
    c.rng.shuffle(p)
    b.x = model.pick(a.x, ax, p)
    same = model.miss_mask(a.x).tolist() == model.miss_mask(b.x).tolist()
    if same:
        m = ~model.miss_mask(a.x)
        same = all([a.x[i] == b.x[i] for i in np.ndindex(*a.shape) if m[i]])
    if same:
        accepts(c, a, b, 'permuted')
    else:
        big = any([a.x[i] != b.x[i] and
                   not (a.x.dtype.kind in 'f' and abs(a.x[i] - b.x[i]) < 4e-13)
                   for i in np.ndindex(*a.shape)
                   if a.x.dtype.kind == 'O' or
                   not (a.x[i] != a.x[i] and b.x[i] != b.x[i])])
        if big:
            rejects(c, a, b, 'values moved', **options(c))


@R.scenario(500)
def dtype_differs(c):
    a = gen.larry(c.rng, kinds='ddil', small=3, wide=0,
                  nan=c.choice([0, .3]))
    if a.dtype.kind == 'f':
        if c.chance(.5):
            a.x[...] = np.round(np.where(np.isnan(a.x), 1, a.x))
            to = c.choice(['float32', 'int64', 'complex128'])
        else:
            to = c.choice(['float32', 'complex128'])
            a.x[...] = np.round(a.x)
    elif c.chance(.3):
        a.x = (a.x > 0).astype('int8')
        to = c.choice(['bool', 'float64', 'int64'])
    else:
        to = c.choice(['float64', 'int64', 'int32', 'int16'])
    b = la.larry(a.x.astype(to), [list(l) for l in a.label])
    if a.dtype == b.dtype or not ((a.x == b.x) | (a.x != a.x)).all():
        # No difference or one of the values
        return
    x, y = (a, b) if c.chance(.5) else (b, a)
    msg = {} if c.chance(.5) else {'msg': 'text'}
    rejects(c, x, y, 'dtype', **msg)
    rejects(c, x, y, 'dtype', dtype=True, **msg)
    accepts(c, x, y, 'dtype ignored', dtype=False, **msg)


@R.scenario(150)
def kinds_differ(c):
    "Numbers are no strings and not None, also if the dtype does not matter."
    a = gen.larry(c.rng, kinds='fib', zero=0)
    k = c.choice(['str', 'str', 'object', 'none'])
    if k == 'str':
        x = np.array([str(v) for v in a.x.flat]).reshape(a.shape)
    else:
        x = a.x.astype(object)
        at = tuple([c.rng.randint(0, n - 1) for n in a.shape])
        x[at] = str(x[at]) if k == 'object' else None
    b = la.larry(x, [list(l) for l in a.label])
    x, y = (a, b) if c.chance(.5) else (b, a)
    kw = options(c)
    if c.chance(.6):
        kw['dtype'] = False
    rejects(c, x, y, 'kind ' + k, **kw)


@R.scenario(300)
def shape_or_type_differs(c):
    a = mix(c)
    k = c.choice(['ndim', 'T', 'array', 'scalar', 'list'])
    if k == 'ndim':
        b = la.larry(a.x.reshape((1,) + a.shape),
                     [[0]] + [list(l) for l in a.label])
    elif k == 'T':
        b = la.larry(a.x.T.copy(), [list(l) for l in a.label[::-1]])
        if b.shape == a.shape and b.label == a.label:
            return
    elif k == 'array':
        b = a.x.copy()
    elif k == 'scalar':
        b = c.choice([1, 1.0, np.float64(2), 'text', np.nan])
        if a.size:
            b = c.choice([b, a.x.flat[0]])
    else:
        b = a.x.tolist()
    x, y = (a, b) if c.chance(.5) else (b, a)
    rejects(c, x, y, 'type ' + k, **options(c))


SCALARS = [1, 2, -3, 0.5, 2.0, np.float64(2.5), np.float32(.5), np.int64(2),
           True, False, np.bool_(True), 'a', 'b', '', np.nan, np.inf, -np.inf,
           np.float64('nan'), 1j, 2 + 1j]


@R.scenario(300)
def scalars(c):
    a = c.choice(SCALARS)
    b = c.choice(SCALARS)
    if c.chance(.3):
        b = copy.copy(a)
    kw = options(c)
    nan = [isinstance(v, float) and v != v for v in (a, b)]
    same = nan == [True, True] or (nan == [False, False] and a == b)
    if not same:
        rejects(c, a, b, 'scalar', **kw)
    elif type(a) is type(b) or kw.get('dtype') is False:
        accepts(c, a, b, 'scalar', **kw)
    else:
        rejects(c, a, b, 'scalar type', **kw)


def partly_shared(c, a):
    """(larry equal to a, data shared, label lists shared)."""
    data = c.choice(['same', 'view', 'copy', 'copy'])
    if data == 'same':
        x = a.x
    elif data == 'view':
        x = a.x[...]
    else:
        x = a.x.copy()
    mode = c.choice(['all', 'none', 'some'])
    share = [{'all': True, 'none': False}.get(mode, c.chance(.5))
             for l in a.label]
    lab = [l if s else list(l) for l, s in zip(a.label, share)]
    b = la.larry(x, lab, validate=False)
    for k, s in enumerate(share):
        assert (b.label[k] is a.label[k]) == s
    return b, data, share


@R.scenario(700)
def copies_and_views(c):
    a = gen.larry(c.rng, zero=0, kinds='ffibSO')
    b, data, share = partly_shared(c, a)
    shared = data != 'copy'
    copy_ = not shared and not any(share)
    view = shared and all(share)
    x, y = (a, b) if c.chance(.5) else (b, a)
    r, e = c.tried(assert_iscopy, x, y)
    c.check(type(e) in (type(None), AssertionError) and (e is None) == copy_,
            'assert_iscopy gave %r: data %s, labels shared %r' %
            (e, data, share))
    r, e = c.tried(assert_isview, x, y)
    c.check(type(e) in (type(None), AssertionError) and (e is None) == view,
            'assert_isview gave %r: data %s, labels shared %r' %
            (e, data, share))
    if data != 'view':
        r = c.call(noreference, x, y)
        c.check(bool(r) == copy_ and isinstance(r, (bool, np.bool_)),
                'noreference gave %r: data %s, labels shared %r' %
                (r, data, share))
        r = c.call(nocopy, x, y)
        c.check(bool(r) == view and isinstance(r, (bool, np.bool_)),
                'nocopy gave %r: data %s, labels shared %r' %
                (r, data, share))
    c.substance += 1
    # The same through assert_larry_equal
    for iscopy, good in ((True, copy_), (False, view)):
        kw = options(c)
        if not iscopy or c.chance(.5):
            kw['iscopy'] = iscopy
        d = twin(x)
        if good:
            accepts(c, x, d, 'references', original=y, **kw)
        else:
            rejects(c, x, d, 'references iscopy=%s' % iscopy, original=y, **kw)


@R.scenario(200)
def different_ndim(c):
    "Copies and views of larrys with different numbers of dimensions."
    a = gen.larry(c.rng, zero=0, kinds='ffib', ndims=(2, 2, 3))
    share = c.chance(.5)
    lab = [l if share else list(l) for l in a.label[:-1]]
    own = c.chance(.5)
    x = a.x[..., 0]
    b = la.larry(x.copy() if own else x, lab, validate=False)
    r, e = c.tried(assert_iscopy, a, b)
    c.check((e is None) == (own and not share), 'assert_iscopy gave %r' % e)
    r, e = c.tried(assert_isview, a, b)
    c.check((e is None) == (not own and share), 'assert_isview gave %r' % e)
    c.raises(noreference, a, b, exc=ValueError, why='number of dimensions')
    c.raises(nocopy, b, a, exc=ValueError, why='number of dimensions')


@R.scenario(60)
def bad_arguments(c):
    a = mix(c)
    b = twin(a)
    for f in (noreference, nocopy, assert_iscopy, assert_isview):
        o = c.choice([1, 'text', None, a.x, [1]])
        c.raises(f, a, o, exc=TypeError, why='not a larry')
        c.raises(f, o, a, exc=TypeError, why='not a larry')
    c.raises(assert_larry_equal, a, b, dtype=c.choice(['yes', None, 2]),
             exc=TypeError)
    c.raises(assert_larry_equal, a, b, iscopy=c.choice(['yes', None, 2]),
             exc=TypeError)
    c.raises(assert_larry_equal, a, b, msg=c.choice([1, None, []]),
             exc=TypeError)
    h = c.choice([None, 'head'])
    s = c.call(printfail, a, 'second', h)
    c.check(str(a) in s and 'second' in s and (h is None or h in s),
            'printfail %r' % s)
