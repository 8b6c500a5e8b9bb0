"""C13: positional indexing."""
from __future__ import print_function
import numpy as np

import gen
import model
from core import Registry, LaRaised

import la
R = Registry('C13')


def positions(c, n, k=None, unique=True):
    "Positions along an axis of length n, some of them negative."
    if k is None:
        k = c.rng.randint(0, n)
    out = c.rng.sample(range(n), min(n, k))
    if c.chance(.3):
        out.sort()
    return [i - n if c.chance(.15) else i for i in out]


def aslice(c, n):
    def end():
        return c.choice([None, None, c.rng.randint(-n - 2, n + 2)])
    step = c.choice([None, None, None, 1, 2, 3, -1, -1, -2])
    return slice(end(), end(), step)


SEQ = ('list', 'tuple', 'int array', 'bool array', 'larry')


def element(c, a, ax, kinds):
    """(index, positions or int) along one axis."""
    n = a.shape[ax]
    k = c.choice(kinds)
    if k == 'int' and n:
        i = c.rng.randint(-n, n - 1)
        j = i
        if c.chance(.2):
            j = c.choice([np.int64, np.int32,
                          np.int8 if -129 < i < 128 else np.int16])(i)
        return j, i % n
    if k in ('int', 'slice'):
        s = aslice(c, n)
        return s, range(n)[s]
    p = positions(c, n)
    if k == 'list':
        return p, [i % n for i in p]
    if k == 'tuple':
        return tuple(p), [i % n for i in p]
    if k == 'int array':
        return np.array(p, c.choice(['int64', 'int32'])), [i % n for i in p]
    m = np.zeros(n, bool)
    for i in p:
        m[i] = True
    pos = [i for i in range(n) if m[i]]
    if k == 'larry':
        return la.larry(m, [list(a.label[ax])]), pos
    return m, pos


def select(label, x, pos):
    "One axis after the other. pos: int or list of positions per axis."
    lab = [list(l) for l in label]
    for ax in reversed(range(x.ndim)):
        p = pos[ax]
        if isinstance(p, list):
            x = model.pick(x, ax, p)
            lab[ax] = [lab[ax][i] for i in p]
        else:
            x = x[model.sl(x.ndim, ax, p)]
            del lab[ax]
    return lab, x


def getitem(a, index):
    return a[index]


def expect(c, a, index, pos):
    lab, x = select(a.label, a.x, pos)
    got = c.call(getitem, a, index)
    if not lab:
        c.same_scalar(got, x, 'a[%r]' % (index,))
    else:
        c.same(got, lab, x, 'a[%r]' % (index,))
    return got


def full(a):
    return [range(n) for n in a.shape]


@R.scenario(700)
def single(c):
    "One index that is not a tuple."
    a = gen.larry(c.rng, zero=.05)
    k = c.choice(['int', 'int', 'slice', 'slice', 'list', 'int array',
                  'bool array', 'larry'])
    index, p = element(c, a, 0, [k])
    expect(c, a, index, [p] + full(a)[1:])


def tuple_index(c, a, seq=True, m=None):
    m = m or c.rng.randint(1, a.ndim)
    where = c.rng.randint(0, m - 1) if seq and c.chance(.6) else -1
    index, pos = [], full(a)
    for ax in range(m):
        kinds = SEQ if ax == where else ['int', 'slice', 'slice']
        i, p = element(c, a, ax, kinds)
        index.append(i)
        pos[ax] = p
    return tuple(index), pos


@R.scenario(1500)
def tuples(c):
    a = gen.larry(c.rng, zero=.03, ndims=(1, 2, 2, 3, 3, 4))
    index, pos = tuple_index(c, a)
    expect(c, a, index, pos)


@R.scenario(400)
def mixed(c):
    "Every order of an integer, a slice and a sequence."
    a = gen.larry(c.rng, ndims=(3, 3, 4), zero=0, minlen=2, maxlen=4)
    kinds = (['int', 'slice', 'seq'] + ['slice'] * a.ndim)[:a.ndim]
    c.rng.shuffle(kinds)
    index, pos = [], []
    for ax, k in enumerate(kinds):
        i, p = element(c, a, ax, SEQ if k == 'seq' else [k])
        index.append(i)
        pos.append(p)
    expect(c, a, tuple(index), pos)


@R.scenario(250)
def integers(c):
    "All integers give a scalar; fewer integers a larry."
    a = gen.larry(c.rng, zero=0)
    m = a.ndim if c.chance(.6) else c.rng.randint(1, a.ndim)
    index, pos = [], full(a)
    for ax in range(m):
        i, pos[ax] = element(c, a, ax, ['int'])
        index.append(i)
    expect(c, a, tuple(index), pos)


@R.scenario(400)
def take(c):
    a = gen.larry(c.rng, zero=.05)
    ax = gen.laxis(c.rng, a.ndim)
    p = positions(c, a.shape[ax])
    pos = full(a)
    pos[ax] = [i % a.shape[ax] for i in p]
    lab, x = select(a.label, a.x, pos)
    arg = np.array(p, int) if c.chance(.2) else p
    got = c.call(a.take, arg, ax - a.ndim if c.chance(.3) else ax)
    c.same(got, lab, x, 'take')


@R.scenario(200)
def iterate(c):
    a = gen.larry(c.rng, zero=.1)
    items = c.call(list, a, name='iterate')
    c.check(len(items) == a.shape[0], '%d items' % len(items))
    for i, item in enumerate(items):
        pos = full(a)
        pos[0] = i
        lab, x = select(a.label, a.x, pos)
        if lab:
            c.same(item, lab, x, 'item %d' % i)
        else:
            c.same_scalar(item, x, 'item %d' % i)


@R.scenario(250)
def composed(c):
    "Indexing the result of indexing."
    a = gen.larry(c.rng, zero=0, ndims=(2, 3, 4))
    index, pos = tuple_index(c, a)
    lab, x = select(a.label, a.x, pos)
    if not lab:
        return
    b = c.call(getitem, a, index)
    index, pos = tuple_index(c, b)
    lab, x = select(lab, x, pos)
    got = c.call(getitem, b, index)
    if lab:
        c.same(got, lab, x, 'second index')
    else:
        c.same_scalar(got, x, 'second index')


@R.scenario(400)
def rejects(c):
    a = gen.larry(c.rng, zero=.05)
    m = c.rng.randint(1, a.ndim)
    ax = c.rng.randint(0, m - 1)
    n = a.shape[ax]
    index, pos = tuple_index(c, a, seq=False, m=m)
    index = list(index)
    k = c.choice(['range', 'range seq', 'repeat', 'many', 'type', 'align',
                  'int larry', '2d'])
    out = c.choice([n + c.rng.randint(0, 3), -n - c.rng.randint(1, 3)])
    exc = IndexError
    if k == 'range':
        bad = out
    elif k == 'range seq':
        p = positions(c, n)
        p.insert(c.rng.randint(0, len(p)), out)
        bad = c.choice([p, np.array(p)])
        exc = (IndexError, ValueError)
    elif k == 'repeat':
        if n == 0:
            return
        p = positions(c, n, c.rng.randint(1, n))
        q = c.choice(p)
        p.insert(c.rng.randint(0, len(p)), c.choice([q % n, q % n - n]))
        bad = c.choice([p, np.array(p)])
        exc = (IndexError, ValueError)
    elif k == 'many':
        index = [c.choice([0, slice(None)]) for i in range(a.ndim + 1)]
        if min(a.shape) == 0:
            index = [slice(None)] * (a.ndim + 1)
        c.raises(getitem, a, tuple(index), exc=IndexError)
        return
    elif k == 'type':
        bad = c.choice([None, 'a', {}, Ellipsis, object(), set([0])])
    elif k == 'align':
        lab = gen.related(c.rng, a.label[ax], rel=c.choice(
            ['perm', 'disjoint', 'superset', 'subset']))
        if lab == a.label[ax]:
            return
        bad = la.larry(np.ones(len(lab), bool), [lab])
    elif k == 'int larry':
        bad = la.larry(np.zeros(n, c.choice([int, float])),
                       [list(a.label[ax])])
    else:
        bad = np.zeros((n, 1), c.choice([bool, int]))
    index[ax] = bad
    if ax == 0 and c.chance(.4):
        arg = bad
    else:
        arg = tuple(index)
    c.raises(getitem, a, arg, exc=exc)
    if k in ('range', 'range seq', 'repeat') and k != 'range':
        c.raises(a.take, bad, ax, exc=exc)
