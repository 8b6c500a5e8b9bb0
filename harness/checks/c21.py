"""C21: reshaping."""
from __future__ import print_function
import itertools

import numpy as np

import gen
import model
from core import Registry

import la

R = Registry('C21')
NAN = model.NAN
ALL = 'fffiibSOc'


def cells(c, got, want, what):
    """got is the larry in which each value of `want`, a dict from label
    tuples, is found under its labels and nothing else."""
    pos = [model.posmap(l) for l in got.label]
    n = 0
    for lab, v in want.items():
        try:
            g = got.x[tuple([p[l] for p, l in zip(pos, lab)])]
        except KeyError:
            c.fail('%s: no label %r in %r' % (what, lab, got.label))
        c.check(g is v or g == v or (g != g and v != v),
                lambda: '%s: %r instead of %r under %r' % (what, g, v, lab))
        n += 1
    c.substance += n
    return n


def items(a):
    "Dict from label tuples to values."
    out = {}
    for i in np.ndindex(*a.shape):
        out[tuple([a.label[ax][k] for ax, k in enumerate(i)])] = a.x[i]
    return out


def transposed(a, axes):
    x = np.empty(tuple([a.shape[k] for k in axes]), a.x.dtype)
    for i in np.ndindex(*a.shape):
        x[tuple([i[k] for k in axes])] = a.x[i]
    return [list(a.label[k]) for k in axes], x


@R.scenario(500)
def transpose(c):
    a = gen.larry(c.rng, kinds=ALL)
    lab, x = transposed(a, range(a.ndim)[::-1])
    got = c.call(getattr, a, 'T', name='T')
    c.same(got, lab, x, 'T')
    cells(c, got, dict([(k[::-1], v) for k, v in items(a).items()]), 'T')


@R.scenario(500)
def swapaxes(c):
    a = gen.larry(c.rng, kinds=ALL)
    i, j = gen.axis(c.rng, a.ndim), gen.axis(c.rng, a.ndim)
    axes = range(a.ndim)
    p, q = i % a.ndim, j % a.ndim
    axes[p], axes[q] = q, p
    lab, x = transposed(a, axes)
    c.same(c.call(a.swapaxes, i, j), lab, x, 'swapaxes %d %d' % (i, j))


@R.scenario(600)
def flatten(c):
    a = gen.larry(c.rng, kinds=ALL, zero=.04)
    order = c.choice(['C', 'F', None])
    if order == 'F':
        idx = [i[::-1] for i in itertools.product(
            *[range(n) for n in a.shape[::-1]])]
    else:
        idx = list(itertools.product(*[range(n) for n in a.shape]))
    lab = [tuple([a.label[ax][k] for ax, k in enumerate(i)]) for i in idx]
    x = np.empty(len(idx), a.x.dtype)
    for k, i in enumerate(idx):
        x[k] = a.x[i]
    if order is None:
        got = c.call(a.flatten)
    else:
        got = c.call(a.flatten, order)
    c.same(got, [lab], x, 'flatten %r' % order, types_=True)
    if c.chance(.05):
        c.raises(a.flatten, c.choice(['A', 'c', 'K', '']))


@R.scenario(500)
def unflatten(c):
    "flatten and back: sorted labels, every value under them."
    a = gen.larry(c.rng, kinds='fffl', zero=.04,
                  lkinds=('range', 'perm', 'int', 'str', 'float', 'date',
                          'datetime'))
    flat = c.call(a.flatten, c.choice(['C', 'F']))
    if flat.shape == (0,):
        got = c.call(flat.unflatten)
        c.same(got, [[]], np.array([]), 'unflatten of nothing')
        return
    got = c.call(flat.unflatten)
    lab = [sorted(l) for l in a.label]
    x = a.x
    for ax in range(a.ndim):
        x = model.pick(x, ax, [a.label[ax].index(l) for l in lab[ax]])
    c.same(got, lab, x, 'unflatten', dtype=False, types_=True)


@R.scenario(400)
def unflatten_some(c):
    "Some cells only, in any order: NaN where there is none."
    ndim = c.rng.randint(1, 3)
    labs = [gen.labels(c.rng, c.rng.randint(1, 4),
                       kinds=('int', 'str', 'float', 'date'))
            for i in range(ndim)]
    lab = list(itertools.product(*labs))
    lab = c.rng.sample(lab, c.rng.randint(1, len(lab)))
    x = gen.array(c.rng, (len(lab),), c.choice(['float64', 'int64']))
    a = la.larry(x, [lab])
    label = [sorted(set([t[k] for t in lab])) for k in range(ndim)]
    want = np.empty([len(l) for l in label])
    want.fill(NAN)
    for t, v in zip(lab, x.tolist()):
        want[tuple([label[k].index(e) for k, e in enumerate(t)])] = v
    c.same(c.call(a.unflatten), label, want, 'unflatten')
    if c.chance(.15):
        b = gen.larry(c.rng, kinds='f', ndims=(2, 3))
        c.raises(b.unflatten, exc=ValueError)


@R.scenario(400)
def insertaxis(c):
    a = gen.larry(c.rng, kinds=ALL)
    ax = c.rng.randint(-a.ndim - 1, a.ndim)
    name = c.choice(['new', 7, 1.5, ('t', 1)])
    p = ax if ax >= 0 else ax + a.ndim + 1
    lab = [list(l) for l in a.label]
    lab.insert(p, [name])
    x = np.empty(a.shape[:p] + (1,) + a.shape[p:], a.x.dtype)
    for i in np.ndindex(*a.shape):
        x[i[:p] + (0,) + i[p:]] = a.x[i]
    got = c.call(a.insertaxis, ax, name)
    c.same(got, lab, x, 'insertaxis %d' % ax)
    if c.chance(.1):
        c.raises(a.insertaxis, None, name, exc=ValueError)
    # and squeezed away again, if nothing else has length one
    if 1 not in a.shape:
        c.same(c.call(got.squeeze), a.label, a.x, 'squeeze')


@R.scenario(400)
def squeeze(c):
    shp = list(gen.shape(c.rng, ndims=(1, 2, 3)))
    for k in range(c.rng.randint(0, 2)):
        shp.insert(c.rng.randint(0, len(shp)), 1)
    if max(shp) == 1 and 0 not in shp:
        return
    a = gen.larry(c.rng, shp=tuple(shp), kinds=ALL)
    keep = [k for k, n in enumerate(shp) if n != 1]
    x = np.empty([shp[k] for k in keep], a.x.dtype)
    for i in np.ndindex(*a.shape):
        x[tuple([i[k] for k in keep])] = a.x[i]
    c.same(c.call(a.squeeze), [list(a.label[k]) for k in keep], x, 'squeeze')


@R.scenario(400)
def panel(c):
    a = gen.larry(c.rng, kinds=ALL, ndim=3, zero=0)
    n, m, k = a.shape
    lab = [[(p, q) for p in a.label[1] for q in a.label[2]],
           list(a.label[0])]
    x = np.empty((m * k, n), a.x.dtype)
    for i, r, s in np.ndindex(n, m, k):
        x[r * k + s, i] = a.x[i, r, s]
    c.same(c.call(la.panel, a), lab, x, 'panel')
    if c.chance(.2):
        c.raises(la.panel, gen.larry(c.rng, ndims=(1, 2, 4)), exc=ValueError)


def pairup(x):
    return (x, 'm')


@R.scenario(400)
def maplabel(c):
    a = gen.larry(c.rng, kinds=ALL)
    f = c.choice([pairup, repr, lambda l: (type(l).__name__, l)])
    ax = gen.axis(c.rng, a.ndim, none=True)
    lab = [list(l) for l in a.label]
    for k in range(a.ndim):
        if ax is None or ax % a.ndim == k:
            lab[k] = [f(l) for l in lab[k]]
    x = a.x.copy()
    args = (f,) if ax is None and c.chance(.5) else (f, ax)
    if c.chance(.6):
        kw = {} if c.chance(.5) else dict(copy=True)
        c.same(c.call(a.maplabel, *args, **kw), lab, x, 'maplabel')
    else:
        got = c.call(a.maplabel, *args, copy=False, inplace=[a])
        c.same(got, lab, x, 'maplabel in place')
        c.same(a, lab, x, 'maplabel in place, the larry itself')


@R.scenario(400)
def copies(c):
    a = gen.larry(c.rng, kinds=ALL, inf=.05)
    k = c.choice(['copy', 'copyx', 'copylabel', 'getx', 'getx view', 'A'])
    if k == 'copy':
        c.same(c.call(a.copy), a.label, a.x, 'copy', types_=True)
    elif k == 'copyx':
        c.same_array(c.call(a.copyx), a.x, 'copyx')
    elif k == 'copylabel':
        got = c.call(a.copylabel)
        c.check(got == a.label and
                [[type(e) for e in l] for l in got] ==
                [[type(e) for e in l] for l in a.label],
                'copylabel: %r' % got)
        c.substance += 1
    elif k == 'A':
        c.same_array(c.call(getattr, a, 'A', name='A'), a.x, 'A')
    elif k == 'getx':
        kw = {} if c.chance(.5) else dict(copy=True)
        c.same_array(c.call(a.getx, **kw), a.x, 'getx')
    else:
        c.same_array(c.call(a.getx, copy=False), a.x, 'getx')
    for name, want in (('size', a.x.size), ('shape', a.x.shape),
                       ('ndim', a.x.ndim), ('dtype', a.x.dtype)):
        got = c.call(getattr, a, name, name=name)
        c.check(got == want, '%s: %r instead of %r' % (name, got, want))


@R.scenario(300)
def unique(c):
    a = gen.larry(c.rng, kinds='fiibSl', nan=c.choice([0, 0, .3]))
    index, inverse = c.chance(.5), c.chance(.5)
    kw = {}
    if index or c.chance(.3):
        kw['return_index'] = index
    if inverse or c.chance(.3):
        kw['return_inverse'] = inverse
    flat = a.x.ravel().tolist()
    vals = sorted(set([v for v in flat if v == v]))
    missing = len([v for v in flat if v != v])
    if a.size == 0 and (index or inverse):
        return
    got = c.call(la.unique, a, **kw)
    if not (index or inverse):
        got = (got,)
    got = list(got)
    c.check(len(got) == 1 + index + inverse, '%d results' % len(got))
    u = got.pop(0)
    # NaNs, of which no two are equal, come last, as one or as many
    k = len(u) - len(vals)
    c.check(min(missing, 1) <= k <= missing, 'unique: %r' % u)
    c.same_array(u, np.array(vals + [np.nan] * k, a.x.dtype), 'unique')
    if index:
        i = got.pop(0)
        c.check(same_values([flat[k] for k in i], u.tolist()),
                'index %r' % i)
    if inverse:
        i = got.pop(0)
        c.check(same_values([u[k] for k in i], flat), 'inverse %r' % i)


def same_values(v, w):
    "Equal, NaN being equal to NaN."
    return len(v) == len(w) and all([a == b or (a != a and b != b)
                                     for a, b in zip(v, w)])


@R.scenario(200)
def composed(c):
    "Several reshapings after each other, followed by label."
    a = gen.larry(c.rng, kinds='fi', ndims=(2, 3), zero=0, lkinds=(
        'int', 'str', 'float'))
    want = items(a)
    b = a
    for k in range(c.rng.randint(2, 5)):
        op = c.choice(['T', 'swap', 'insert', 'maplabel'])
        if op == 'T':
            b = c.call(getattr, b, 'T', name='T')
            want = dict([(t[::-1], v) for t, v in want.items()])
        elif op == 'swap':
            i, j = gen.axis(c.rng, b.ndim), gen.axis(c.rng, b.ndim)
            b = c.call(b.swapaxes, i, j)
            new = {}
            for t, v in want.items():
                t = list(t)
                t[i], t[j] = t[j], t[i]
                new[tuple(t)] = v
            want = new
        elif op == 'insert' and b.ndim < 5:
            i = c.rng.randint(0, b.ndim)
            b = c.call(b.insertaxis, i, 'ax%d' % k)
            want = dict([(t[:i] + ('ax%d' % k,) + t[i:], v)
                         for t, v in want.items()])
        elif op == 'maplabel':
            b = c.call(b.maplabel, pairup)
            want = dict([(tuple([pairup(e) for e in t]), v)
                         for t, v in want.items()])
    n = cells(c, b, want, 'chain')
    c.check(n == b.size, '%d values instead of %d' % (b.size, n))
    flat = c.call(b.flatten)
    c.check(len(flat.label[0]) == len(want), 'flatten')
    for t, v in zip(flat.label[0], flat.x.tolist()):
        c.check(want[t] == v or (v != v and want[t] != want[t]),
                'flatten %r' % (t,))
