"""Random programs over all of la's operations, some with bad arguments.

Every step is a call under the monitors of core.py; in addition the whole
pool of larrys that the program has made so far is watched: a step may change
only the larry it works on in place and what shares memory with it.
"""
from __future__ import print_function
import datetime
import operator
import os

import numpy as np

import gen
from core import find_larrys, malformed, show, snapshot

import la
from la.flabel import flattenlabel, list2index
from la.flarry import union, intersection, unique, align_axis
from la.farray.group import group_ranking, group_mean, group_median
from la.farray.misc import geometric_mean, correlation, covMissing
from la.farray import move as fmove, normalize as fnorm
from la.missing import ismissing, missing_marker
from la.util.misc import fromlists
from la.util.resample import split

OPS = []
BIG = 600


def op(weight=1):
    def deco(fn):
        OPS.extend([fn] * weight)
        return fn
    return deco


class Call(object):
    def __init__(self, fn, *args, **kw):
        self.fn = fn
        self.args = args
        self.kw = kw
        self.inplace = []
        self.name = getattr(fn, '__name__', 'call')
        self.keep = True

    def on(self, *targets):
        self.inplace = list(targets)
        return self

    def named(self, name):
        self.name = name
        return self

    def drop(self):
        self.keep = False
        return self


class Program(object):

    def __init__(self, c, kinds='fffiibSO'):
        self.c = c
        self.rng = c.rng
        self.kinds = kinds
        a = gen.larry(c.rng, kinds=kinds, lkinds=gen.KINDS, maxsize=60)
        self.pool = [a]
        for i in range(c.rng.randint(0, 2)):
            self.pool.append(gen.like(c.rng, a, kinds=kinds, maxsize=120))

    # Material for arguments

    def any(self):
        return self.rng.choice(self.pool)

    def num(self):
        p = [a for a in self.pool if a.x.dtype.kind in 'fiub']
        return self.rng.choice(p or self.pool)

    def mate(self, a, loose=True):
        """A larry to be combined with a; if not loose, one with data that
        NumPy can combine with that of a."""
        b = self.mate1(a)
        if not loose and not same_kind(a, b):
            return a
        return b

    def mate1(self, a):
        r = self.rng.random()
        if r < .12:
            return a
        p = [b for b in self.pool if b.ndim == a.ndim]
        if r < .5 and p:
            return self.rng.choice(p)
        if r < .9:
            kinds = 'fib' if a.x.dtype.kind in 'fiub' else a.x.dtype.kind
            if kinds not in ('fib', 'S', 'O'):
                kinds = 'f'
            b = self.like(a, kinds)
            if b is not None:
                return b
        return self.any()

    def like(self, a, kinds):
        try:
            b = gen.like(self.rng, a, kinds=kinds, maxsize=200)
        except (ValueError, TypeError, OverflowError):
            return None
        self.pool.append(b)
        return b

    def axis(self, a, none=False):
        r = self.rng.random()
        if none and r < .25:
            return None
        if r < .05:
            return self.rng.choice([a.ndim, -a.ndim - 1, None, 'a', 1.5])
        ax = self.rng.randint(0, a.ndim - 1)
        return ax - a.ndim if r < .35 else ax

    def n(self, a, ax):
        try:
            return a.shape[ax]
        except Exception:
            return 2

    def lab(self, a, ax):
        try:
            return a.label[ax]
        except Exception:
            return a.label[0]

    def other_label(self, l):
        try:
            return gen.related(self.rng, l)
        except (ValueError, TypeError, OverflowError):
            return list(reversed(l))

    def value(self, a):
        r = self.rng.random()
        k = a.x.dtype.kind
        if r < .1:
            return self.rng.choice(['text', None, 2.5, 7, np.nan, True])
        try:
            return gen.values(self.rng, 1, a.x.dtype)[0]
        except (ValueError, TypeError):
            return 1

    def number(self):
        return self.rng.choice([0, 1, 2, -3, 2.5, -.5, True, np.float32(1.5),
                                np.int8(3), np.nan, 10 ** 6])

    def index(self, a):
        rng = self.rng

        def one(n):
            r = rng.random()
            if r < .3:
                return rng.randint(-n, n - 1) if n else 0
            if r < .65:
                f = lambda: rng.choice([None, None, 0, 1, -1, n,
                                        rng.randint(-n - 1, n + 1)])
                return slice(f(), f(), rng.choice([None, None, 1, 2, -1]))
            if r < .9:
                l = rng.sample(range(n), rng.randint(0, n))
                return rng.choice([list, tuple, np.array])(l) if l else l
            return rng.choice([n, -n - 1, [0, 0], 'a', None, Ellipsis, 1.0])
        r = rng.random()
        if r < .35:
            i = one(a.shape[0])
            return list(i) if type(i) is tuple else i
        if r < .45:
            m = la.larry(gen.array(rng, a.shape, dt=bool), a.copylabel())
            if rng.random() < .2:
                m = m.flipaxis(0)
            return m
        return tuple([one(n) for n in
                      a.shape[:rng.randint(1, a.ndim)]])

    def lix_index(self, a):
        rng = self.rng
        out = []
        for l in a.label[:rng.randint(1, a.ndim)]:
            r = rng.random()
            if not l or r < .25:
                out.append(slice(None))
            elif r < .6:
                out.append([rng.choice(l)])
            elif r < .75:
                i, j = sorted([rng.randint(0, len(l) - 1) for k in '12'])
                out.append(slice([l[i]], rng.choice([None, [l[j]]]),
                                 rng.choice([None, None, 1, 2])))
            elif r < .9:
                out.append(rng.sample(l, rng.randint(1, len(l))))
            elif r < .95:
                out.append(rng.randint(-1, len(l)))
            else:
                out.append(['no such label'])
        return out[0] if len(out) == 1 and rng.random() < .7 else tuple(out)

    # Steps

    def step(self):
        c = self.c
        fn = self.rng.choice(OPS)
        call = fn(self)
        if call is None:
            return
        c.stats.bump('program steps')
        watched = []
        ops = find_larrys([call.args, call.kw, call.inplace])
        me = getattr(call.fn, 'im_self', None)
        if me is not None and isinstance(me, la.larry):
            ops.append(me)
        for p in self.pool:
            if any([p is o for o in call.inplace]) or aliased(p,
                                                              call.inplace):
                continue
            if not any([p is o for o in ops]):
                watched.append((p, snapshot(p)))
        exempt = list(call.inplace)
        if call.inplace:
            exempt += [o for o in ops if aliased(o, call.inplace)]
            exempt += [o for o in arrays([call.args, call.kw])
                       if any([np.may_share_memory(o, t.x)
                               for t in call.inplace])]
        res, err = c.tried(call.fn, *call.args,
                           **dict(call.kw, inplace=exempt, name=call.name))
        c.stats.bump('steps that raised' if err is not None else
                     'steps that returned')
        c.substance += 1
        for p, before in watched:
            c.stats.snapshots += 1
            if snapshot(p) != before:
                c.report('C03', '%s changed a larry that was not passed to '
                         'it, now %s' % (call.name, show(p)))
        for p in self.pool:
            c.stats.wellformed += 1
            bad = malformed(p)
            if bad is not None:
                c.report('C01', 'a larry is malformed after %s: %s: %s' %
                         (call.name, bad, show(p)))
                self.pool = [q for q in self.pool if malformed(q) is None]
                break
        if call.keep:
            for r in find_larrys(res):
                # Fewer checks would follow from a malformed larry
                if malformed(r) is None and r.size <= BIG and r.ndim < 6:
                    self.pool.append(r)
        while len(self.pool) > 9:
            del self.pool[self.rng.randint(0, len(self.pool) - 1)]
        if not self.pool:
            self.pool.append(gen.larry(self.rng, kinds=self.kinds))


def arrays(obj, depth=0):
    if isinstance(obj, np.ndarray):
        return [obj]
    if isinstance(obj, dict):
        obj = obj.values()
    out = []
    if isinstance(obj, (list, tuple)) and depth < 3:
        for o in obj:
            out.extend(arrays(o, depth + 1))
    return out


def numeric(a):
    return a.x.dtype.kind in 'fiubc'


def same_kind(a, b):
    return (numeric(a) and numeric(b)) or a.x.dtype.kind == b.x.dtype.kind


def aliased(p, targets):
    for t in targets:
        if p is not t:
            if np.may_share_memory(p.x, t.x):
                return True
            if any([k is l for k in p.label for l in t.label]):
                return True
    return False


def program(c, n, **kw):
    p = Program(c, **kw)
    for i in range(n):
        p.step()


# Operations -----------------------------------------------------------------

@op(4)
def unary(p):
    a = p.num()
    if not numeric(a):
        return Call(p.rng.choice([a.copy, a.ismissing]))
    name = p.rng.choice(['log', 'exp', 'sqrt', 'sign', 'abs', 'isnan',
                         'isfinite', 'isinf', 'invert', 'ismissing', 'copy',
                         '__neg__', '__pos__', '__abs__', '__invert__'])
    return Call(getattr(a, name))


@op(2)
def unary2(p):
    a = p.num()
    if not numeric(a):
        return None
    k = p.rng.choice(['power', '__pow__', 'clip', 'nan_replace', 'astype'])
    if k in ('power', '__pow__'):
        return Call(getattr(a, k), p.rng.choice([2, .5, -1, 0]))
    if k == 'clip':
        return Call(a.clip, *p.rng.choice([(0, 1), (-2.5, 2), (3, -3)]))
    if k == 'astype':
        return Call(a.astype, p.rng.choice([float, int, bool, 'f4', 'S3',
                                            object, 'nosuch']))
    return Call(a.nan_replace, p.number())


@op(6)
def arithmetic(p):
    a = p.num()
    r = p.rng.random()
    if r < .7 or not numeric(a):
        r = 0
        b = p.mate(a, False)
    elif r < .85:
        b = p.number()
    else:
        # An array of the same shape; others can broadcast the larry
        b = gen.array(p.rng, a.shape, kinds='ffib')
    o = p.rng.choice(['add', 'sub', 'mul', 'div', 'truediv', 'floordiv',
                      'and_', 'or_', 'lt', 'le', 'gt', 'ge', 'eq', 'ne'])
    if not numeric(a):
        o = p.rng.choice(['lt', 'le', 'gt', 'ge', 'eq', 'ne'])
    f = getattr(operator, o)
    if r >= .7 and r < .85 and p.rng.random() < .5:
        return Call(f, b, a).named(o)
    return Call(f, a, b).named(o)


@op(2)
def mismatch(p):
    "Operands that cannot be combined."
    a = p.any()
    b = p.rng.choice([p.any(), 'text', None, [1, 2], {}, p.any()])
    if type(b) is list and a.ndim == 1:
        b = None
    if isinstance(b, la.larry) and b.ndim == a.ndim and \
       not same_kind(a, b):
        return None
    o = p.rng.choice(['add', 'sub', 'div'])
    return Call(getattr(operator, o), a, b).named(o)


@op(4)
def reduce_(p):
    a = p.num()
    name = p.rng.choice(['sum', 'prod', 'mean', 'geometric_mean', 'median',
                         'std', 'var', 'max', 'min', 'any', 'all',
                         'lastrank'])
    kw = {}
    if name in ('std', 'var') and p.rng.random() < .3:
        kw = {'ddof': 1}
    if name == 'lastrank':
        kw = p.rng.choice([{}, {'decay': 3.0}])
        return Call(a.lastrank, p.axis(a), **kw)
    return Call(getattr(a, name), axis=p.axis(a, none=True), **kw)


@op(3)
def along(p):
    a = p.num()
    name = p.rng.choice(['cumsum', 'cumprod', 'demean', 'demedian', 'zscore',
                         'ranking', 'quantile', 'push', 'lag'])
    ax = p.axis(a, none=name in ('demean', 'demedian', 'zscore'))
    n = p.n(a, ax)
    args = {'quantile': (p.rng.choice([1, 2, 3, 0, 10]),),
            'push': (p.rng.choice([0, 1, 2, 50, np.inf]),),
            'lag': (p.rng.choice([0, 0, 1, 2, n, n + 1, -1]),)}.get(name, ())
    kw = {'axis': ax}
    if name == 'ranking':
        kw['norm'] = p.rng.choice(['-1,1', '0,N-1', 'gaussian', 'bad'])
    return Call(getattr(a, name), *args, **kw)


@op(3)
def moving(p):
    a = p.num()
    ax = p.axis(a)
    w = p.rng.randint(1, max(1, p.n(a, ax)))
    if p.rng.random() < .1:
        w = p.rng.choice([0, -1, p.n(a, ax) + 1, 1.5])
    name = p.rng.choice(['move_sum', 'move_mean', 'move_std', 'move_min',
                         'move_max', 'move_ranking', 'move_median',
                         'move_func', 'movingsum_forward'])
    kw = {'axis': ax}
    args = (w,)
    if name in ('move_ranking', 'move_median'):
        kw['method'] = p.rng.choice(['loop', 'strides'])
    if name == 'move_func':
        f = p.rng.choice([np.sum, np.max, np.mean])
        args = (f, w)
        kw['method'] = p.rng.choice(['loop', 'strides'])
    if name == 'movingsum_forward':
        kw['skip'] = p.rng.randint(0, 2)
        kw['norm'] = p.rng.random() < .5
    return Call(getattr(a, name), *args, **kw)


@op(3)
def group(p):
    a = p.num()
    ax = p.axis(a)
    l = p.lab(a, ax)
    gl = p.other_label(l)
    names = [p.rng.choice([1.0, 2.0, np.nan]) for i in gl]
    if p.rng.random() < .4:
        names = [p.rng.choice(['a', 'b', '']) for i in gl]
    g = la.larry(np.array(names), [gl])
    p.pool.append(g)
    name = p.rng.choice(['group_ranking', 'group_mean', 'group_median'])
    return Call(getattr(a, name), g, axis=ax)


@op(6)
def getting(p):
    a = p.any()
    return Call(a.__getitem__, p.index(a))


@op(2)
def lix_getting(p):
    a = p.any()
    return Call(a.lix.__getitem__, p.lix_index(a)).named('lix')


@op(4)
def setting(p):
    a = p.any()
    ind = p.index(a)
    try:
        t = a[ind] if type(ind) is not la.larry else None
    except Exception:
        t = None
    v = value_for(p, a, t)
    return Call(a.__setitem__, ind, v).on(a)


def value_for(p, a, t):
    r = p.rng.random()
    if type(t) is la.larry and r < .35:
        v = la.larry(gen.array(p.rng, t.shape, dt=a.dtype)
                     if a.dtype.kind in 'fiubSO' else t.copyx(),
                     t.copylabel())
        p.pool.append(v)
        return v
    if type(t) is la.larry and r < .5:
        return t
    if type(t) is la.larry and r < .7:
        return gen.array(p.rng, t.shape, kinds='fib')
    if type(t) is la.larry and r < .8:
        return p.any()
    return p.value(a)


@op(2)
def lix_setting(p):
    a = p.any()
    ind = p.lix_index(a)
    try:
        t = a.lix[ind]
    except Exception:
        t = None
    return Call(a.lix.__setitem__, ind, value_for(p, a, t)).on(a).named(
        'lix assignment')


@op(2)
def by_label(p):
    a = p.any()
    label = [p.rng.choice(l) if l else 'x' for l in a.label]
    r = p.rng.random()
    if r < .1:
        label = label[:-1]
    elif r < .2:
        label[0] = 'no such label'
    if p.rng.random() < .5:
        return Call(a.get, label)
    return Call(a.set, label, p.value(a)).on(a)


@op()
def fill(p):
    a = p.any()
    return Call(a.fill, p.value(a)).on(a)


@op(2)
def look(p):
    a = p.any()
    k = p.rng.choice(['getx', 'copyx', 'copylabel', 'tolist', 'todict',
                      'totuples', '__repr__', 'getlabel', 'maxlabel',
                      'minlabel', 'labelindex', 'getx0', 'props'])
    if k == 'getlabel':
        return Call(a.getlabel, p.axis(a))
    if k in ('maxlabel', 'minlabel'):
        return Call(getattr(a, k), p.axis(a, none=True))
    if k == 'labelindex':
        ax = p.axis(a)
        l = p.lab(a, ax)
        n = p.rng.choice(l) if l and p.rng.random() < .7 else 'zzz'
        return Call(a.labelindex, n, ax, exact=p.rng.random() < .7)
    if k == 'getx0':
        return Call(a.getx, copy=p.rng.random() < .5)
    if k == 'props':
        return Call(lambda q: (q.A, q.nx, q.size, q.shape, q.ndim, q.dtype),
                    a).named('properties')
    return Call(getattr(a, k))


@op(4)
def select(p):
    a = p.any()
    ax = p.axis(a)
    l = p.lab(a, ax)
    n = len(l)
    k = p.rng.choice(['take', 'pull', 'keep_label', 'keep_x', 'squeeze',
                      'squeeze', 'vacuum', 'cut_missing'])
    if k == 'take':
        i = [p.rng.randint(-n, n - 1) for j in range(p.rng.randint(0, 4))] \
            if n else []
        if len(set([j % n for j in i])) < len(i) and p.rng.random() < .8:
            i = list(set([j % n for j in i]))
        return Call(a.take, p.rng.choice([i, np.array(i, int)]), ax)
    if k == 'pull':
        name = p.rng.choice(l) if l and p.rng.random() < .9 else 'zzz'
        return Call(a.pull, name, ax)
    if k == 'keep_label':
        o = p.rng.choice(['==', '!=', '<', '>', '<=', '>=', 'in', 'not in',
                          'bad'])
        v = p.rng.choice(l) if l else 1
        if 'in' in o:
            v = p.other_label(l)
            if v and p.rng.random() < .3:
                v = v + [p.rng.choice(v) for j in range(2)]
        return Call(a.keep_label, o, v, ax)
    if k == 'keep_x':
        a = p.num()
        return Call(a.keep_x, p.rng.choice(['>', '<', '==', '!=', '>=']),
                    p.number(), vacuum=p.rng.random() < .6)
    if k == 'squeeze':
        if all([m == 1 for m in a.shape]):
            return None
        return Call(a.squeeze)
    if k == 'vacuum':
        return Call(a.vacuum, p.axis(a, none=True))
    return Call(a.cut_missing, p.rng.choice([0, .2, .5, 1, 2]),
                p.axis(a, none=True))


@op(4)
def rearrange(p):
    a = p.any()
    ax = p.axis(a)
    k = p.rng.choice(['sortaxis', 'flipaxis', 'flipaxis!', 'T', 'swapaxes',
                      'flatten', 'unflatten', 'insertaxis', 'insertaxis',
                      'shuffle', 'shufflelabel', 'sortby'])
    if k == 'sortaxis':
        return Call(a.sortaxis, p.axis(a, none=True),
                    reverse=p.rng.random() < .4)
    if k == 'flipaxis':
        return Call(a.flipaxis, p.axis(a, none=True))
    if k == 'flipaxis!':
        return Call(a.flipaxis, p.axis(a, none=True), copy=False).on(a)
    if k == 'T':
        return Call(lambda q: q.T, a).named('T')
    if k == 'swapaxes':
        return Call(a.swapaxes, ax, p.axis(a))
    if k == 'flatten':
        return Call(a.flatten, p.rng.choice(['C', 'F', 'X']))
    if k == 'unflatten':
        a = p.rng.choice([q for q in p.pool if q.ndim == 1] or [a])
        n = 1
        try:
            for part in zip(*a.label[0]):
                n *= len(set(part))
        except TypeError:
            pass
        # Long strings are the coordinates of a larry of many dimensions
        return Call(a.unflatten) if n <= 10000 else None
    if k == 'insertaxis':
        return Call(a.insertaxis, p.rng.randint(-a.ndim - 1, a.ndim + 1),
                    p.rng.choice(['new', 0, ('t', 1)]))
    if k in ('shuffle', 'shufflelabel'):
        return Call(getattr(a, k), axis=ax).on(a)
    e = p.lab(a, 0)
    e = p.rng.choice(e) if e else 'x'
    return Call(la.sortby, a, e, p.rng.choice([0, 1]),
                reverse=p.rng.random() < .4)


@op()
def maplabel(p):
    a = p.any()
    ax = p.axis(a, none=True)
    n = [0]

    def unique_str(x):
        n[0] += 1
        return '%d %s' % (n[0], x)

    def fails(x):
        n[0] += 1
        if n[0] > 1:
            raise ValueError('second label')
        return x
    f = p.rng.choice([unique_str, lambda x: (x, 'mapped'), lambda x: x,
                      fails])
    if p.rng.random() < .5:
        return Call(a.maplabel, f, ax)
    return Call(a.maplabel, f, ax, copy=False).on(a)


@op(4)
def morphing(p):
    a = p.any()
    ax = p.axis(a)
    k = p.rng.choice(['morph', 'morph_like', 'merge', 'merge'])
    if k == 'morph':
        l = p.other_label(p.lab(a, ax))
        if p.rng.random() < .1 and l:
            l = l + l[:1]
        return Call(a.morph, l, ax)
    b = p.mate(a)
    if k == 'morph_like':
        return Call(a.morph_like, b)
    return Call(a.merge, b, update=p.rng.random() < .6)


def join(p, a):
    if p.rng.random() < .3:
        return [p.rng.choice(['inner', 'outer', 'left', 'right', 'skip',
                              'list', 'bad'])
                for i in range(a.ndim)]
    return p.rng.choice(['inner', 'inner', 'outer', 'outer', 'left', 'right',
                         'skip', 'list', 'bad'])


@op(4)
def aligning(p):
    a = p.any()
    b = p.mate(a)
    f = p.rng.choice([la.align, la.align_raw, la.isaligned])
    if f is la.isaligned:
        return Call(f, a, b, axis=p.axis(a, none=True))
    return Call(f, a, b, join=join(p, a), cast=p.rng.random() < .7)


@op(2)
def aligning_many(p):
    a = p.any()
    l = [a, p.mate(a)] + [p.mate(a) for i in range(p.rng.randint(0, 2))]
    ax = p.rng.choice([0, a.ndim - 1, None, [0] * len(l),
                       [q.ndim - 1 for q in l]])
    k = p.rng.choice(['align_axis', 'align_axis', 'union', 'intersection'])
    if k == 'align_axis':
        return Call(align_axis, p.rng.choice([l, tuple(l)]), axis=ax,
                    join=p.rng.choice(['inner', 'outer', 'left', 'right',
                                       'skip']))
    ax = p.rng.randint(0, a.ndim - 1)
    return Call(union if k == 'union' else intersection, ax, *l)


@op(4)
def binary(p):
    a = p.num()
    b = p.mate(a, False)
    if not numeric(a):
        return None
    kw = dict(join=join(p, a), cast=p.rng.random() < .8)
    if p.rng.random() < .6:
        kw['missone'] = p.rng.choice(['ignore', 0, 1, 2.5])
        kw['misstwo'] = p.rng.choice(['ignore', 0, 1, -1])
    k = p.rng.choice(['add', 'subtract', 'multiply', 'divide', 'binaryop'])
    if k == 'binaryop':
        return Call(la.binaryop, p.rng.choice([np.add, np.multiply,
                                               np.maximum]), a, b, **kw)
    return Call(getattr(la, k), a, b, **kw)


@op(2)
def combine(p):
    a = p.num()
    k = p.rng.choice(['stack', 'stack', 'panel', 'cov', 'unique'])
    if k == 'stack':
        l = [a] + [p.mate(a) for i in range(p.rng.randint(0, 2))]
        kw = dict([('n%d' % i, q) for i, q in enumerate(l)])
        return Call(la.stack, p.rng.choice(['union', 'intersection', 'x']),
                    **kw)
    if k == 'panel':
        a = p.rng.choice([q for q in p.pool if q.ndim == 3] or [a])
        return Call(la.panel, a)
    if k == 'cov':
        a = p.rng.choice([q for q in p.pool if q.ndim == 2 and
                          q.x.dtype.kind in 'fi'] or [a])
        return Call(la.cov, a)
    return Call(unique, p.any(), return_index=p.rng.random() < .5,
                return_inverse=p.rng.random() < .5)


@op(2)
def construct(p):
    rng = p.rng
    k = rng.choice(['larry', 'larry', 'full', 'lrange', 'rand', 'fromtuples',
                    'fromlist', 'fromdict'])
    shape = gen.shape(rng, maxsize=60)
    lab = [gen.labels(rng, n) for n in shape]
    if k == 'larry':
        x = gen.array(rng, shape)
        if rng.random() < .3:
            lab = rng.choice([None, lab[:-1], [tuple(l) for l in lab],
                              [l + l[:1] for l in lab]])
        kw = {}
        if rng.random() < .3:
            kw['dtype'] = rng.choice([float, object, 'S3'])
        if lab is not None and rng.random() < .2:
            x = x.tolist()
        return Call(la.larry, x, lab, **kw)
    if k == 'full':
        f = rng.choice([la.ones, la.zeros, la.empty])
        dt = rng.choice([None, int, 'f4'])
        if f is la.empty:
            dt = int
        if rng.random() < .5:
            return Call(f, shape, dtype=dt)
        return Call(f, label=lab, dtype=dt)
    if k == 'lrange':
        if rng.random() < .5:
            return Call(la.lrange, shape)
        return Call(la.lrange, label=lab)
    if k == 'rand':
        f = rng.choice([la.rand, la.randn])
        if rng.random() < .5:
            return Call(f, *shape)
        return Call(f, label=lab)
    a = p.num()
    if k == 'fromlist':
        return Call(la.larry.fromlist, a.tolist())
    a = p.rng.choice([q for q in p.pool if q.x.dtype.kind == 'f'] or [a])
    if a.x.dtype.kind != 'f':
        return None
    if k == 'fromtuples':
        return Call(la.larry.fromtuples, a.totuples())
    return Call(la.larry.fromdict, a.todict())


@op()
def csv(p):
    a = p.num()
    fn = os.path.join(p.c.scratch, 'program.csv')
    if p.rng.random() < .6 or not os.path.exists(fn):
        return Call(a.tocsv, fn)
    return Call(la.larry.fromcsv, fn)


@op(3)
def arrays_(p):
    "The functions of arrays and lists below the larrys."
    a = p.num()
    x = a.x
    ax = p.axis(a)
    w = p.rng.randint(1, max(1, p.n(a, ax)))
    g = [p.rng.choice(['a', 'b', 'c']) for i in range(p.n(a, ax))]
    b = gen.array(p.rng, x.shape, kinds='ffi')
    k = p.rng.randint(0, 15)
    if k == 0:
        return Call(p.rng.choice([group_ranking, group_mean, group_median]),
                    x, g, axis=ax)
    if k == 1:
        return Call(geometric_mean, x, axis=ax)
    if k == 2:
        return Call(correlation, x, b, axis=p.axis(a, none=True))
    if k == 3:
        return Call(covMissing, x)
    if k == 4:
        return Call(p.rng.choice([fmove.move_nanmedian,
                                  fmove.move_nanranking]), x, w, axis=ax,
                    method=p.rng.choice(['loop', 'strides']))
    if k == 5:
        return Call(fmove.move_func, np.max, x, w, axis=ax,
                    method=p.rng.choice(['loop', 'strides']))
    if k == 6:
        return Call(p.rng.choice([fmove.movingsum, fmove.movingsum_forward]),
                    x, w, skip=p.rng.randint(0, 2), axis=ax,
                    norm=p.rng.random() < .5)
    if k == 7:
        return Call(fnorm.lastrank, x, axis=ax, decay=p.rng.choice([0., 2.]))
    if k == 8:
        return Call(fnorm.ranking, x, axis=ax,
                    norm=p.rng.choice(['-1,1', '0,N-1', 'gaussian']))
    if k == 9:
        return Call(fnorm.push, x, p.rng.choice([0, 1, 3, np.inf]), axis=ax)
    if k == 10:
        return Call(fnorm.quantile, x, p.rng.choice([1, 2, 3]), axis=ax)
    if k == 11:
        return Call(p.rng.choice([fnorm.demean, fnorm.demedian,
                                  fnorm.zscore]), x,
                    axis=p.axis(a, none=True))
    if k == 12:
        return Call(p.rng.choice([ismissing, missing_marker]), p.any().x)
    if k == 13:
        return Call(flattenlabel, a.label, p.rng.choice(['C', 'F']))
    if k == 14:
        return Call(list2index, p.rng.choice(p.any().label))
    if x.ndim == 2 and ax in (0, 1):
        i = range(p.n(a, ax))
        return Call(split, x, np.array(i[::2], int), np.array(i[1::2], int),
                    ax)
    return Call(fromlists, [[1, 2], [3.0]], [[['a', 'b'], ['c']],
                                            [['x', 'y'], ['x']]])
