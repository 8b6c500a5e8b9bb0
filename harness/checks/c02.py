"""C02: construction."""
from __future__ import print_function
import itertools

import numpy as np

import gen
from core import Registry, malformed

import la

R = Registry('C02')


def data(c):
    """(argument, array it stands for) of something array-like."""
    k = c.rng.random()
    x = gen.array(c.rng, gen.shape(c.rng), kinds='fffiibSOc')
    if k < .5:
        return x, x
    if k < .7 and x.dtype != object:
        l = x.tolist()
        return l, np.array(l)
    if k < .8 and x.dtype != object and x.ndim < 3:
        l = tuple([tuple(r) if type(r) is list else r for r in x.tolist()])
        return l, np.array(l)
    if k < .85 and x.ndim == 2 and x.dtype.kind in 'fib':
        return np.matrix(x), np.array(x)
    if k < .9 and x.ndim == 1 and x.dtype.kind in 'fib':
        l = x.tolist()
        return Sequence(l), np.array(l)
    if k < .93:
        s = c.choice([[], [[]], [[], []]])
        return s, np.array(s)
    return x, x


class Sequence(object):
    "Neither list nor array, but array-like."
    def __init__(self, l):
        self.l = l

    def __array__(self, *args):
        return np.array(self.l, *args)

    def __repr__(self):
        return 'Sequence(%r)' % self.l


def fits(c, x):
    "labels for the array x"
    return [gen.labels(c.rng, n, kinds=gen.KINDS) for n in x.shape]


@R.scenario(500)
def good(c):
    arg, x = data(c)
    args, kw = [arg], {}
    lab = [range(n) for n in x.shape]
    if c.chance(.75):
        lab = fits(c, x)
        if c.chance(.5):
            args.append(lab)
        else:
            kw['label'] = lab
    elif c.chance(.3):
        kw['label'] = None
    want = [list(l) for l in lab]
    ref = x
    if c.chance(.3) and x.dtype.kind in 'fib' and x.dtype != object:
        dt = c.choice(['f8', 'f4', 'i8', 'i4', bool, int, float, 'int8',
                       complex, object, str, 'S6'])
        kw['dtype'] = dt
        if isinstance(arg, np.ndarray) and type(arg) is np.ndarray:
            ref = x.astype(dt)
        else:
            # A list with NaN or out of range values may not convert
            try:
                ref = np.asarray(arg, dtype=dt)
            except Exception:
                c.raises(la.larry, *args, why='data do not convert', **kw)
                return
    if c.chance(.2):
        kw['validate'] = c.choice([True, False])
    r = c.call(la.larry, *args, **kw)
    c.check(type(r) is la.larry, 'type')
    c.same(r, want, np.asarray(ref), 'larry', types_=True)
    if 'dtype' not in kw:
        c.check(r.dtype == x.dtype, 'dtype %s not %s' % (r.dtype, x.dtype))
    c.check(r.shape == x.shape and r.ndim == x.ndim and r.size == x.size and
            type(r.shape) is tuple, 'shape, ndim or size')


def spoil(c, x, lab):
    "What is wrong, labels, exception type; or None."
    k = c.choice(['fewer', 'more', 'short', 'long', 'dup', 'dup', 'dup',
                  'nearly', 'type', 'type', 'unhashable', 'unsized', 'empty'])
    ax = c.rng.randint(0, x.ndim - 1)
    n = x.shape[ax]
    lab = [list(l) for l in lab]
    if k == 'fewer':
        del lab[ax]
    elif k == 'more':
        lab.insert(c.rng.randint(0, x.ndim), c.choice([[0], [], ['a', 'b']]))
    elif k == 'short' and n:
        del lab[ax][c.rng.randint(0, n - 1)]
    elif k == 'long':
        lab[ax].append(gen.more(c.rng, lab[ax], 1)[0])
    elif k == 'dup' and n > 1:
        i, j = c.rng.sample(range(n), 2)
        lab[ax][i] = lab[ax][j]
    elif k == 'nearly' and n > 1:
        # Equal, though of different type
        i, j = c.rng.sample(range(n), 2)
        v = c.rng.randint(2, 99)
        pair = c.choice([(v, float(v)), (1, True), (0, False), (v, long(v)),
                         (1.0, True), (np.int64(v), v), (0.0, -0.0),
                         ('a', u'a'), (np.float64(v), v)])
        lab[ax] = [100 + l for l in range(n)]
        lab[ax][i], lab[ax][j] = pair
    elif k == 'type':
        l = lab[ax]
        t = c.choice(['tuple', 'array', 'set', 'dict', 'str', 'frozenset'])
        if t == 'tuple':
            lab[ax] = tuple(l)
        elif t == 'array':
            lab[ax] = np.arange(n)
        elif t == 'set':
            lab[ax] = set(l)
        elif t == 'dict':
            lab[ax] = dict(zip(l, l))
        elif t == 'frozenset':
            lab[ax] = frozenset(l)
        else:
            lab[ax] = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJK'[:n]
        if len(lab[ax]) != n:
            return None
        k += ' ' + t
    elif k == 'unhashable' and n:
        lab[ax][c.rng.randint(0, n - 1)] = c.choice([[], [1], {}, set([2])])
        return k, lab, Exception
    elif k == 'unsized':
        lab[ax] = c.choice([n, None, 1.5])
        return k, lab, Exception
    elif k == 'empty':
        return k, [], ValueError
    else:
        return None
    return k, lab, ValueError


@R.scenario(900)
def bad(c):
    arg, x = data(c)
    b = spoil(c, x, fits(c, x))
    if b is None:
        return
    why, lab, exc = b
    c.stats.bump('refused: ' + why)
    args, kw = [arg], {}
    if c.chance(.5):
        args.append(lab)
    else:
        kw['label'] = lab
    if c.chance(.15):
        kw['validate'] = True
    if c.chance(.1) and x.dtype.kind in 'i':
        kw['dtype'] = float
    c.raises(la.larry, *args, exc=exc, why=why, **kw)


@R.scenario(100)
def not_data(c):
    k = c.choice(['0d', '0d', 'dtype', 'ragged'])
    if k == '0d':
        x = c.choice([1, 2.5, 'a', None, np.array(3), np.float64(1), True,
                      np.array('abc'), object()])
        kw = c.choice([{}, {'label': []}, {'label': [[0]]}, {'label': [[]]},
                       {'dtype': object}])
        c.raises(la.larry, x, exc=ValueError, why='0d', **kw)
    elif k == 'dtype':
        x = c.choice([[1, 2], (1.5,), np.array([1, 2])])
        c.raises(la.larry, x, dtype=c.choice(['xyz', 'float65', 'nosuch']),
                 why='unknown dtype')
    else:
        c.raises(la.larry, [[1, 2], [3]],
                 c.choice([[[0, 1], [0, 1]], [[0, 1, 2]], [[0], [1]]]),
                 exc=ValueError, why='ragged lists are 1d object arrays')


def all_good(label, shape):
    "Whether the labels are valid for the shape."
    if len(label) != len(shape) or len(shape) == 0:
        return False
    for l, n in zip(label, shape):
        if type(l) is not list or len(l) != n:
            return False
        for i in range(n):
            if l[i] in l[:i]:
                return False
    return True


@R.scenario(1)
def every_small_case(c):
    "All shapes up to 3x3 with all label lists of up to three of {0, 1, 2}."
    lists = [list(t) for n in range(4) for t in itertools.product(
        range(3), repeat=n)]
    n = 0
    for shape in [(i,) for i in range(4)] + \
            [(i, j) for i in range(3) for j in range(3)]:
        x = np.arange(int(np.prod(shape)), dtype=float).reshape(shape)
        for label in ([[l] for l in lists] if len(shape) == 1 else
                      [[l, m] for l in lists for m in lists[:13]]):
            try:
                r = la.larry(x, label)
            except ValueError:
                r = None
            good_ = all_good(label, shape)
            n += 1
            if good_ != (r is not None):
                c.fail('larry(shape %r, %r) %s' % (
                    shape, label, 'raised' if good_ else 'did not raise'))
            if good_ and (r.label != label or r.x.tolist() != x.tolist()):
                c.fail('larry(shape %r, %r) gave %r' % (shape, label, r))
    c.stats.bump('small cases', n)
    c.substance += n


# The functions that build larrys --------------------------------------------

def shape_args(c, pos=True, **kw):
    """(args, kwargs, shape, label wanted)"""
    shape = gen.shape(c.rng, **kw)
    args, kwargs = [], {}
    if c.chance(.5):
        lab = [gen.labels(c.rng, n) for n in shape]
        kwargs['label'] = lab
        if c.chance(.3):
            # The shape may be given too
            kwargs['shape'] = shape
        want = [list(l) for l in lab]
    else:
        s = shape
        if len(s) == 1 and c.chance(.3):
            s = s[0]
        elif c.chance(.3):
            s = list(s)
        if c.chance(.6):
            args.append(s)
        else:
            kwargs['shape'] = s
        want = [range(n) for n in shape]
    return args, kwargs, shape, want


DT = [None, None, None, float, int, 'f4', 'i4', 'int8', bool, 'complex']


@R.scenario(400)
def filled(c):
    args, kw, shape, lab = shape_args(c)
    name, v = c.choice([('ones', 1), ('zeros', 0), ('empty', None)])
    dt = c.choice(DT)
    if dt is not None:
        kw['dtype'] = dt
    order = c.choice([None, 'C', 'F'])
    if order:
        kw['order'] = order
    r = c.call(getattr(la, name), *args, **kw)
    if v is None:
        c.same(r, lab, r.x, name, types_=True)
        c.check(r.shape == tuple(shape), 'shape %r not %r' % (r.shape, shape))
        c.check(r.dtype == np.dtype(dt or float), 'dtype')
    else:
        x = np.empty(shape, dt or float)
        for i in np.ndindex(*shape):
            x[i] = v
        c.same(r, lab, x, name, types_=True)
    flag = 'F_CONTIGUOUS' if order == 'F' else 'C_CONTIGUOUS'
    c.check(r.x.flags[flag], 'order %r' % order)


@R.scenario(400)
def lrange(c):
    args, kw, shape, lab = shape_args(c)
    start, step = 0, 1
    if c.chance(.6):
        start = kw['start'] = c.rng.randint(-50, 50)
    if c.chance(.6):
        step = kw['step'] = c.choice([1, 2, 3, 7, -1, -2, -5, 10])
    dt = c.choice([None, None, float, int, 'f4', 'i4', 'int16'])
    if dt is not None:
        kw['dtype'] = dt
    n = int(np.prod(shape))
    vals = [start + k * step for k in range(n)]
    if vals and max(map(abs, vals)) > 30000:
        return
    r = c.call(la.lrange, *args, **kw)
    x = np.empty(shape, dt or int)
    for k, i in enumerate(np.ndindex(*shape)):
        x[i] = vals[k]
    c.same(r, lab, x, 'lrange', types_=True)


@R.scenario(300)
def random_numbers(c):
    name = c.choice(['rand', 'randn'])
    shape = gen.shape(c.rng, zero=.02)
    args, kw = [], {}
    lab = [range(n) for n in shape]
    how = c.choice(['shape', 'label', 'both'])
    if how != 'label':
        args = list(shape)
    if how != 'shape':
        kw['label'] = lab = [gen.labels(c.rng, n) for n in shape]
    want = [list(l) for l in lab]
    if c.chance(.2):
        kw['validate'] = True
    seed = c.rng.randint(0, 10 ** 9)
    own = c.chance(.5)
    if own:
        kw[name] = getattr(np.random.RandomState(seed), name)
    else:
        np.random.seed(seed)
    r = c.call(getattr(la, name), *args, **kw)
    x = getattr(np.random.RandomState(seed), name)(*shape)
    c.same(r, want, x, name, types_=True)


@R.scenario(100)
def random_scalar(c):
    name = c.choice(['rand', 'randn'])
    seed = c.rng.randint(0, 10 ** 9)
    want = getattr(np.random.RandomState(seed), name)()
    if c.chance(.5):
        np.random.seed(seed)
        r = c.call(getattr(la, name))
    else:
        r = c.call(getattr(la, name),
                   **{name: getattr(np.random.RandomState(seed), name)})
    c.check(isinstance(r, float), 'not a float: %r' % (r,))
    c.same_scalar(r, want, name)


@R.scenario(300)
def refused(c):
    shape = gen.shape(c.rng)
    lab = [gen.labels(c.rng, n) for n in shape]
    name = c.choice(['rand', 'randn', 'ones', 'zeros', 'empty', 'lrange'])
    f = getattr(la, name)
    k = c.choice(['none', 'dup', 'mismatch', 'type', 'scalar'])
    if k == 'none':
        if name in ('rand', 'randn'):
            c.raises(f, dtype=float, why='neither shape nor label')
        else:
            c.raises(f, exc=ValueError, why='neither shape nor label')
        return
    ax = c.rng.randint(0, len(shape) - 1)
    if k == 'dup':
        if shape[ax] < 2:
            return
        lab[ax][0] = lab[ax][-1]
        c.raises(f, label=lab, exc=ValueError, why='repeated label')
    elif k == 'type':
        lab[ax] = tuple(lab[ax])
        c.raises(f, label=lab, exc=ValueError, why='labels in a tuple')
    elif k == 'scalar' and name not in ('rand', 'randn', 'lrange'):
        c.raises(f, (), exc=ValueError, why='0d')
    elif k == 'mismatch' and name in ('rand', 'randn'):
        other = list(shape)
        other[ax] += c.choice([1, 2])
        c.raises(f, *other, label=lab, exc=ValueError, why='shape and label')


@R.scenario(150)
def labels_kept_apart(c):
    "Default labels: every axis has its own list of python integers."
    shape = gen.shape(c.rng)
    x = np.zeros(shape)
    r = c.call(la.larry, x)
    c.same(r, [range(n) for n in shape], x, 'larry', types_=True)
    for i in range(r.ndim):
        for j in range(i):
            c.check(r.label[i] is not r.label[j], 'axes share a label list')
    q = c.call(la.larry, x)
    for i in range(r.ndim):
        c.check(r.label[i] is not q.label[i], 'larrys share a label list')
