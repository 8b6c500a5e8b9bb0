"""C14: assignment changes exactly the addressed cells."""
from __future__ import print_function
import itertools
import operator

import numpy as np

import gen
import model
from core import Registry, snapshot, show
from checks.c13 import element, full, tuple_index, positions, SEQ

import la
R = Registry('C14')

NOLARRY = tuple([s for s in SEQ if s != 'larry'])


def one(c, dt):
    "A value for a cell."
    kind = np.dtype(dt).kind
    if kind in 'fiub':
        return c.choice([0, 1, 100, 7, -3 if kind != 'u' else 3, 2.5, True])
    if kind == 'S':
        return c.choice(['', 'q', 'longer than it', 'xyz'])
    return c.choice([None, 'w', 17, 2.5, (1, 2) and 'v'])


def cast(v, dt):
    out = np.empty(1, dt)
    out[0] = v
    return out[0]


def setitem(a, index, value):
    a[index] = value


def cells(pos):
    "(cell, coordinate in the selection)"
    ps = [p if isinstance(p, list) else [p] for p in pos]
    keep = [ax for ax, p in enumerate(pos) if isinstance(p, list)]
    for k in itertools.product(*[range(len(p)) for p in ps]):
        yield (tuple([p[i] for p, i in zip(ps, k)]),
               tuple([k[ax] for ax in keep]))


def selected(a, pos):
    shape = tuple([len(p) for p in pos if isinstance(p, list)])
    label = [[a.label[ax][i] for i in p] for ax, p in enumerate(pos)
             if isinstance(p, list)]
    return shape, label


def valdt(c, dt):
    "A dtype whose values can be stored in dt."
    kind = np.dtype(dt).kind
    if kind == 'f':
        return c.choice(['float64', 'int64', 'float32', 'bool'])
    if kind in 'iu':
        return c.choice(['int64', 'int32', 'bool'])
    if kind == 'b':
        return c.choice(['bool', 'int64'])
    if kind == 'S':
        return c.choice(['S2', 'S7'])
    return 'object'


def values(c, a, shape, label):
    """(value, f(selection coordinate) -> value of the cell)"""
    k = c.choice(['scalar', 'scalar', 'array', 'array', 'larry', 'larry',
                  'broadcast'])
    if k == 'scalar' or (k != 'array' and not shape):
        v = one(c, a.dtype)
        return v, lambda i: v
    if not shape:
        v = one(c, a.dtype)
        return v, lambda i: v
    dt = valdt(c, a.dtype)
    x = gen.array(c.rng, shape, dt)
    if k == 'larry':
        return la.larry(x, [list(l) for l in label]), lambda i: x[i]
    if k == 'broadcast':
        d = c.rng.randint(0, len(shape) - 1)
        x = gen.array(c.rng, shape[d:], dt)
        return x, lambda i: x[i[d:]]
    if a.dtype.kind in 'fi' and c.chance(.2) and x.size and x.dtype.kind != 'O':
        return x.tolist(), lambda i: x[i]
    return x, lambda i: x[i]


def wanted(a, pos, f):
    x = a.x.copy()
    for cell, i in cells(pos):
        x[cell] = cast(f(i), a.dtype)
    return x


def assign(c, fn, a, index, value, want, what, operands=()):
    lab = [list(l) for l in a.label]
    own = [l for l in a.label]
    c.call(fn, a, index, value, inplace=[a], operands=operands)
    c.same(a, lab, want, what)
    c.check(all([l is m for l, m in zip(own, a.label)]), 'label replaced')


@R.scenario(1500)
def by_position(c):
    a = gen.larry(c.rng, zero=.03, ndims=(1, 2, 2, 3, 3, 4))
    if c.chance(.4):
        k = c.choice(['int', 'slice', 'list', 'int array', 'bool array'])
        index, p = element(c, a, 0, [k])
        pos = [p] + full(a)[1:]
    else:
        m = c.rng.randint(1, a.ndim)
        where = c.rng.randint(0, m - 1) if c.chance(.6) else -1
        index, pos = [], full(a)
        for ax in range(m):
            kinds = NOLARRY if ax == where else ['int', 'slice', 'slice']
            i, pos[ax] = element(c, a, ax, kinds)
            index.append(i)
        index = tuple(index)
    shape, label = selected(a, pos)
    if not shape and not isinstance(index, tuple):
        index = (index,)
    value, f = values(c, a, shape, label)
    want = wanted(a, pos, f)
    assign(c, setitem, a, index, value, want, 'a[%s] = %s' %
           (show(index), show(value)))


@R.scenario(300)
def mixed(c):
    "An integer, a slice and a sequence in any order."
    a = gen.larry(c.rng, ndims=(3, 3, 4), zero=0, minlen=2, maxlen=4)
    kinds = (['int', 'slice', 'seq'] + ['slice'] * a.ndim)[:a.ndim]
    c.rng.shuffle(kinds)
    index, pos = [], []
    for ax, k in enumerate(kinds):
        i, p = element(c, a, ax, NOLARRY if k == 'seq' else [k])
        index.append(i)
        pos.append(p)
    shape, label = selected(a, pos)
    value, f = values(c, a, shape, label)
    want = wanted(a, pos, f)
    assign(c, setitem, a, tuple(index), value, want, 'a[%s] = %s' %
           (show(index), show(value)))


@R.scenario(400)
def by_bool_larry(c):
    a = gen.larry(c.rng)
    m = gen.array(c.rng, a.shape, 'bool')
    index = la.larry(m, [list(l) for l in a.label])
    hits = [i for i in np.ndindex(*a.shape) if m[i]]
    want = a.x.copy()
    if c.chance(.6):
        v = one(c, a.dtype)
        vals = [v] * len(hits)
    else:
        v = gen.array(c.rng, (len(hits),), valdt(c, a.dtype))
        vals = [v[i] for i in range(len(hits))]
    for i, u in zip(hits, vals):
        want[i] = cast(u, a.dtype)
    assign(c, setitem, a, index, v, want, 'bool larry assignment')


@R.scenario(150)
def compared(c):
    "a[a > v] = w"
    a = gen.larry(c.rng, kinds='ffi')
    v = c.rng.randint(-5, 5)
    op = c.choice([operator.lt, operator.gt, operator.eq, operator.ge])
    index = c.call(op, a, v)
    want = a.x.copy()
    for i in np.ndindex(*a.shape):
        if op(a.x[i], v):
            want[i] = 9
    assign(c, setitem, a, index, 9, want, 'a[a op v] = 9')


def setlix(a, index, value):
    a.lix[index] = value


def lixslice(c, lab):
    "(slice of labels and positions, positions)"
    n = len(lab)

    def end():
        k = c.choice(['none', 'label', 'label', 'pos'])
        if k == 'label':
            i = c.rng.randint(0, n - 1)
            return [lab[i]], i
        if k == 'pos':
            i = c.rng.randint(-n, n)
            return i, i
        return None, None
    a, i = end()
    b, j = end()
    step = c.choice([None, None, 1, 2, -1])
    return slice(a, b, step), range(n)[slice(i, j, step)]


def lixelement(c, lab):
    k = c.choice(['list', 'list', 'one', 'slice', 'slice', 'int'])
    n = len(lab)
    if k == 'int':
        i = c.rng.randint(-n, n - 1)
        return i, i % n
    if k == 'slice':
        return lixslice(c, lab)
    p = [c.rng.randint(0, n - 1)]
    if k == 'list':
        p = [i % n for i in positions(c, n, c.rng.randint(1, n))]
    return [lab[i] for i in p], p


@R.scenario(900)
def by_lix(c):
    a = gen.larry(c.rng, zero=0, ndims=(1, 2, 2, 3))
    f = None
    if c.chance(.5):
        index, pos = [], full(a)
        for ax in range(c.rng.randint(1, a.ndim)):
            i, p = lixelement(c, a.label[ax])
            index.append(i)
            pos[ax] = p if isinstance(p, list) else [p]
        index = tuple(index)
        shape, label = selected(a, pos)
        if 0 in shape:
            return
    else:
        index, p = lixelement(c, a.label[0])
        if isinstance(p, list) and len(p) == 1 and isinstance(index, list):
            p = p[0]
        pos = [p] + full(a)[1:]
        shape, label = selected(a, pos)
        if not shape:
            v = one(c, a.dtype)
            value, f = v, lambda i: v
    if f is None:
        value, f = values(c, a, shape, label)
    want = wanted(a, pos, f)
    assign(c, setlix, a, index, value, want, 'a.lix[%s] = %s' %
           (show(index), show(value)))


@R.scenario(300)
def set_and_fill(c):
    a = gen.larry(c.rng, zero=0)
    lab = [list(l) for l in a.label]
    v = one(c, a.dtype)
    want = a.x.copy()
    if c.chance(.5):
        i = tuple([c.rng.randint(0, n - 1) for n in a.shape])
        want[i] = cast(v, a.dtype)
        name = [a.label[ax][j] for ax, j in enumerate(i)]
        c.call(a.set, name if c.chance(.5) else tuple(name), v, inplace=[a])
    else:
        for i in np.ndindex(*a.shape):
            want[i] = cast(v, a.dtype)
        c.call(a.fill, v, inplace=[a])
    c.same(a, lab, want, 'set or fill')


def unchanged(c, fn, a, *args, **kw):
    before = snapshot(a)
    c.raises(fn, a, *args, **kw)
    c.check(snapshot(a) == before, 'changed by the failed assignment: %s' %
            show(a))


@R.scenario(500)
def rejects(c):
    a = gen.larry(c.rng, zero=0, kinds='fiS')
    v = one(c, a.dtype)
    k = c.choice(['range', 'label', 'align', 'larry', 'larry', 'lixlarry',
                  'lix', 'setlen', 'shape'])
    ax = gen.laxis(c.rng, a.ndim)
    n = a.shape[ax]
    index, pos = tuple_index(c, a, seq=False, m=a.ndim)
    index = list(index)
    if k == 'range':
        bad = n + c.rng.randint(0, 2)
        if c.chance(.5):
            bad = [0, bad] if c.chance(.5) else -bad - 1
        index[ax] = bad
        if [1 for j in index if type(j) is list]:
            pos = [[0] if isinstance(j, slice) else p
                   for j, p in zip(index, pos)]
            index = [slice(0, 1) if isinstance(j, slice) else j
                     for j in index]
        elif [1 for p in pos if p == []]:
            return
        if isinstance(bad, list):
            # NumPy may have written the positions before the bad one
            x, lab = a.x.copy(), [list(l) for l in a.label]
            c.raises(setitem, a, tuple(index), v, exc=IndexError, inplace=[a])
            pos[ax] = [0]
            for cell, j in cells(pos):
                x[cell] = a.x[cell]
            c.same(a, lab, x, 'failed assignment')
        else:
            unchanged(c, setitem, a, tuple(index), v, exc=IndexError)
    elif k == 'label':
        name = [c.choice(l) for l in a.label]
        name[ax] = gen.more(c.rng, a.label[ax], 1)[0]
        unchanged(c, la.larry.set, a, name, v, exc=IndexError)
    elif k == 'setlen':
        name = [c.choice(l) for l in a.label]
        if c.chance(.5):
            name.append(name[0])
        else:
            name.pop()
        unchanged(c, la.larry.set, a, name, v, exc=ValueError)
    elif k == 'align':
        lab = [list(l) for l in a.label]
        lab[ax] = gen.related(c.rng, lab[ax], rel=c.choice(
            ['perm', 'disjoint', 'superset', 'subset']))
        if lab == a.label:
            return
        b = gen.larry(c.rng, lab=lab, dt='bool')
        unchanged(c, setitem, a, b, v, exc=IndexError)
    elif k in ('larry', 'lixlarry'):
        fn = setitem
        pos = [p if isinstance(p, list) else [p] for p in pos]
        index = [i if isinstance(i, slice) else slice(p[0], p[0] + 1)
                 for i, p in zip(index, pos)]
        if k == 'lixlarry':
            fn = setlix
            if [p for p in pos if not p]:
                return
            index = [[a.label[j][i] for i in p] for j, p in enumerate(pos)]
        shape, label = selected(a, pos)
        label[ax] = gen.related(c.rng, label[ax], rel=c.choice(
            ['perm', 'disjoint', 'perm', 'superset', 'subset']))
        if label == selected(a, pos)[1]:
            return
        b = gen.larry(c.rng, lab=label, dt=a.dtype)
        unchanged(c, fn, a, tuple(index), b, exc=IndexError)
    elif k == 'lix':
        lab = [c.choice(a.label[ax])] + gen.more(c.rng, a.label[ax], 1)
        index = [[c.choice(l)] for l in a.label]
        index[ax] = c.choice([lab, lab[1:], slice(lab[1:], None),
                              slice(None, lab[1:])])
        index = tuple(index)
        if ax == 0 and c.chance(.5):
            index = index[0]
        unchanged(c, setlix, a, index, v)
    elif k == 'shape':
        shape, label = selected(a, full(a))
        shape = list(shape)
        shape[ax] += 1 + (shape[ax] == 1) * 0
        if a.shape[ax] < 1:
            return
        x = gen.array(c.rng, tuple(shape), a.dtype)
        unchanged(c, setitem, a, (slice(None),) * a.ndim, x, exc=ValueError)


@R.scenario(500)
def histories(c):
    "Assignments between other changes in place."
    from checks import history
    history.run(c, history.DATA * 2 + history.LABEL, c.rng.randint(2, 15))
