"""C25: part of an archived larry against part of the larry in memory."""
from __future__ import print_function
import os

import h5py
import numpy as np

import gen
from core import Registry, diff_arrays, lab_sig, show
from checks.c24 import stored, sig, long_larry

import la

R = Registry('C25')
QUICK = 5
THOROUGH = 12


class Archive(object):
    "An archive of a few larrys and the same larrys in memory."

    def __init__(self, c, n=3, **kw):
        self.c = c
        self.fn = os.path.join(c.scratch, 'c25.h5')
        if os.path.exists(self.fn):
            os.remove(self.fn)
        self.io = la.IO(self.fn)
        self.mem = {}
        names = ['k', 'n/k', 'k/n', 'other', 'z']
        if c.chance(.15):
            names += ['n/k/o/k', 'o/n/k/z/k', 'n/m/l/k/j/i/h/z']
        c.rng.shuffle(names)
        for k in names[:c.rng.randint(1, n)]:
            a = stored(c, **kw)
            if a.x.dtype.byteorder == '>':
                a.x = a.x.astype(a.x.dtype.newbyteorder('='))
            self.io[k] = a
            self.mem[k] = a.copy()
        self.proxies = {}

    def proxy(self, k):
        if k not in self.proxies or self.c.chance(.4):
            self.proxies[k] = self.io[k]
        return self.proxies[k]

    def pick(self):
        return self.c.choice(sorted(self.mem))

    def compare(self, why):
        c = self.c
        c.check(sorted(self.io.keys()) == sorted(self.mem), why + ': keys')
        for k in self.mem:
            r = la.load(self.fn, k)
            c.stats.bump('archived larrys compared')
            c.check(sig(r) == sig(self.mem[k]), lambda:
                    '%s: larry %r in the archive is %s, in memory %s' %
                    (why, k, show(r), show(self.mem[k])))


def good_list(c, n):
    "A non-empty increasing list of positions."
    if c.chance(.1):
        return [-c.rng.randint(1, n)]
    return sorted(c.rng.sample(range(n), c.rng.randint(1, n)))


def part(c, n, seq):
    """(index of one axis, supported); seq: a sequence may be used."""
    k = c.rng.random()
    if k < .3 and n:
        i = c.rng.randint(-n, n - 1)
        if c.chance(.1):
            i = np.int64(i)
        return i, True
    if k < .7 or not n:
        lo = c.choice([None, None, 0, 1, n - 1, -1, -n, n, n + 3,
                       c.rng.randint(-n - 1, n)])
        hi = c.choice([None, None, n, n - 1, -1, n + 3,
                       c.rng.randint(-n - 1, n + 1)])
        st = c.choice([None, None, None, 1, 2, 3, n + 1])
        s = slice(lo, hi, st)
        a, b, _ = s.indices(n)
        return s, a <= b
    if k < .95:
        if not seq:
            return slice(None), True
        j = c.rng.random()
        if j < .4:
            l = good_list(c, n)
            if l[0] < 0:
                return l, False
            return l, True
        if j < .5:
            l = good_list(c, n)
            return np.array(l), l[0] >= 0
        if j < .55:
            l = good_list(c, n)
            return tuple(l), l[0] >= 0
        m = np.array([c.chance(.6) for i in range(n)])
        return m, bool(m.any())
    # What the archive need not support
    j = c.choice(['neg', 'unordered', 'dup', 'boollist', 'empty', 'range',
                  'int', 'mixed', 'negmix'])
    if j == 'neg':
        return slice(None, None, c.choice([-1, -2])), False
    if j == 'unordered':
        l = range(n)
        c.rng.shuffle(l)
        return l, False
    if j == 'dup':
        return [0, 0], False
    if j == 'empty':
        return c.choice([[], np.array([], int), np.zeros(n, bool)]), False
    if j == 'range':
        return [0, n + c.rng.randint(0, 2)], False
    if j == 'int':
        return c.choice([n, n + 5, -n - 1]), False
    if j == 'negmix':
        return [0, -1], False
    if j == 'mixed':
        return c.choice([None, Ellipsis, 'a', np.zeros((2, 2), bool)]), False
    return slice(None, None, -1), False


def index(c, a):
    "(index, supported)"
    shape = a.shape
    if c.chance(.25):
        i, ok = part(c, shape[0], False)
        if isinstance(i, (list, tuple, np.ndarray)):
            if type(i) is tuple:
                i = list(i)
            return i, False
        return i, ok
    if c.chance(.06):
        # A list or array on its own need not be supported
        if shape[0]:
            l = good_list(c, shape[0])
            return c.choice([l, np.array(l)]), False
    out, ok, seq = [], True, c.rng.randint(0, a.ndim - 1)
    two = c.chance(.05)
    for ax in range(a.ndim):
        i, good = part(c, shape[ax], two or ax == seq)
        out.append(i)
        ok = ok and good
    if c.chance(.2) and a.ndim > 1:
        out = out[:c.rng.randint(1, a.ndim)]
    elif c.chance(.02):
        out.append(0)
        ok = False
    seqs = [i for i in out if isinstance(i, (list, tuple, np.ndarray))]
    if len(seqs) > 1:
        ok = False
    elif seqs:
        # What h5py refuses: nothing selected, an array on its own
        if len(out) == 1 and not isinstance(seqs[0], list):
            ok = False
        for i, n in zip(out, shape):
            if isinstance(i, slice) and not len(range(n)[i]):
                ok = False
    return tuple(out), ok


def h5part(a, ind, v=None):
    """What h5py alone makes of an index: the part, or, if there is a value,
    the array after the value was assigned. None: it refuses."""
    f = h5py.File('c25-memory', 'w', driver='core', backing_store=False)
    try:
        d = f.create_dataset('x', data=a.x)
        try:
            if v is None:
                return np.asarray(d[ind])
            d[ind] = v.x if type(v) is la.larry else v
            return np.asarray(d[...])
        except Exception:
            return None
    finally:
        f.close()


def like(got, want):
    want = want.x if type(want) is la.larry else np.asarray(want)
    return got is not None and got.shape == want.shape and \
        diff_arrays(got, want) is None


@R.scenario(500)
def getting(c):
    arch = Archive(c)
    for i in range(c.rng.randint(1, 8)):
        k = arch.pick()
        a = arch.mem[k]
        p = arch.proxy(k)
        ind, ok = index(c, a)
        want, werr = c.tried(a.__getitem__, ind, name='larry.__getitem__')
        got, err = c.tried(p.__getitem__, ind, name='lara.__getitem__')
        c.check(p.x is None, 'the proxy holds on to the file')
        if err is not None:
            c.stats.bump('raised')
            c.check(not ok or werr is not None or
                    not like(h5part(a, ind), want),
                    'index %r of %s raised %r' % (ind, show(a), err))
            continue
        if werr is not None:
            c.fail('index %r gave %s, in memory it raises %r' %
                   (ind, show(got), werr))
        c.stats.bump('parts compared')
        if type(want) is la.larry:
            c.same(got, want.label, want.x, 'index %r' % (ind,), types_=True)
        else:
            c.check(type(got) is type(want) or
                    np.asarray(got).dtype == np.asarray(want).dtype,
                    'index %r gave a %r not a %r' %
                    (ind, type(got), type(want)))
            c.same_scalar(got, want, 'index %r' % (ind,))
    c.substance += 1


def value_for(c, a, target):
    """(value, supported) to assign to the part `target`; None: no idea"""
    k = c.rng.random()
    x = target.x if type(target) is la.larry else np.asarray(target)
    same = gen.array(c.rng, x.shape, dt=a.dtype)
    if k < .35 or x.ndim == 0:
        v = gen.values(c.rng, 1, a.dtype)[0]
        if a.dtype.kind in 'f' and c.chance(.3):
            v = c.rng.randint(-9, 9)
        if a.dtype.kind == 'i' and c.chance(.2):
            v = c.rng.randint(0, 100) / 4.0
        return v, True
    if k < .6:
        if a.dtype.kind == 'f' and c.chance(.3):
            same = gen.array(c.rng, x.shape, kinds='ifb')
        elif a.dtype.kind == 'i' and c.chance(.3):
            same = gen.array(c.rng, x.shape, dt='int8', pos=True)
        if c.chance(.2) and x.ndim == 1:
            return same.tolist(), True
        return same, True
    if k < .9:
        lab = [list(l) for l in target.label]
        ok = True
        if c.chance(.3):
            # Not aligned, if there is anything to be aligned
            ax = c.rng.randint(0, len(lab) - 1)
            if len(lab[ax]) > 1 and c.chance(.5):
                lab[ax] = lab[ax][1:] + lab[ax][:1]
            elif lab[ax]:
                lab[ax][0] = gen.more(c.rng, lab[ax], 1)[0]
            ok = lab == target.label
        return la.larry(same, lab), ok
    # Shapes that do not fit or have to be broadcast
    s = list(x.shape)
    ax = c.rng.randint(0, len(s) - 1)
    if c.chance(.5):
        s[ax] += c.choice([1, 2])
    elif c.chance(.5):
        s[ax] = 1
    else:
        s = s[1:]
    return gen.array(c.rng, tuple(s), dt=a.dtype), False


def assign(c, arch, k, ind, ok, v, nothing=False):
    a = arch.mem[k]
    p = arch.proxy(k)
    trial = a.copy()
    _, werr = c.tried(trial.__setitem__, ind, v, inplace=[trial],
                      name='larry.__setitem__')
    _, err = c.tried(p.__setitem__, ind, v, name='lara.__setitem__')
    c.check(p.x is None, 'the proxy holds on to the file')
    what = 'assigning %s at %r' % (show(v), ind)
    if err is not None:
        c.stats.bump('refused')
        c.check(not ok or werr is not None or
                not like(h5part(a, ind, v), trial) or
                (type(v) is la.larry and not like(h5part(a, ind), a[ind])),
                '%s of %s raised %r' % (what, show(a), err))
        arch.compare(what + ' raised %r' % err)
        return
    if werr is not None and nothing:
        # An array that does not fit into an empty part
        arch.compare(what)
        return
    if werr is not None:
        c.fail('%s did not raise, in memory it raises %r' % (what, werr))
    c.stats.bump('parts assigned')
    arch.mem[k] = trial
    arch.compare(what)
    c.substance += 1


@R.scenario(500)
def setting(c):
    arch = Archive(c)
    for i in range(c.rng.randint(1, 5)):
        k = arch.pick()
        a = arch.mem[k]
        ind, ok = index(c, a)
        try:
            target = a[ind]
        except Exception:
            target = None
        if target is None:
            v = gen.values(c.rng, 1, a.dtype)[0]
        else:
            v, vok = value_for(c, a, target)
            if target is not None and type(target) is not la.larry and \
               type(v) is la.larry:
                continue
            ok = ok and vok
            if isinstance(v, list) and not v:
                ok = False
        nothing = type(target) is la.larry and target.size == 0 and \
            type(v) is not la.larry
        assign(c, arch, k, ind, ok and not nothing, v, nothing)


@R.scenario(15)
def long_axes(c):
    "Parts of larrys with many labels, also from the end of the axis."
    fn = os.path.join(c.scratch, 'c25-long.h5')
    if os.path.exists(fn):
        os.remove(fn)
    a = long_larry(c)
    io = la.IO(fn)
    io['k'] = a
    a = a.copy()
    p = io['k']
    ax = list(a.shape).index(max(a.shape))
    n = a.shape[ax]
    for i in range(4):
        at = c.choice([n - c.rng.randint(1, 9), c.rng.randint(0, n - 1)])
        k = c.choice(['int', 'slice', 'list', 'mask', 'step'])
        if k == 'int':
            i = c.choice([at, at - n])
        elif k == 'slice':
            i = slice(at, at + c.rng.randint(1, 50))
        elif k == 'step':
            i = slice(at // 2, None, c.rng.randint(2, n))
        elif k == 'list':
            i = sorted(set([at, at // 2, at // 3]))
        else:
            i = np.zeros(n, bool)
            i[[at, at // 2, at // 3]] = True
        ind = tuple([i if k == ax else slice(None) for k in range(a.ndim)])
        what = 'index %s' % show(ind)
        if c.chance(.3):
            v = gen.array(c.rng, a.x[ind].shape, dt=a.dtype)
            c.call(a.__setitem__, ind, v, name='larry.__setitem__',
                   inplace=[a])
            c.call(p.__setitem__, ind, v, name='lara.__setitem__')
            continue
        want = c.call(a.__getitem__, ind, name='larry.__getitem__')
        got = c.call(p.__getitem__, ind, name='lara.__getitem__')
        if type(want) is la.larry:
            c.same(got, want.label, want.x, what, types_=True)
        else:
            c.same_scalar(got, want, what)
        c.check(c.call(p.labelindex, a.label[ax][at], ax) == at,
                'labelindex of the label at %d' % at)
    r = la.load(fn, 'k')
    c.check(sig(r) == sig(a), 'the larry in the archive is %s not %s' %
            (show(r), show(a)))
    c.substance += 4
    os.remove(fn)


@R.scenario(100)
def masks(c):
    "A bool larry as index: what it does in memory, or an exception."
    arch = Archive(c)
    k = arch.pick()
    a = arch.mem[k]
    m = la.larry(gen.array(c.rng, a.shape, dt=bool),
                 [list(l) for l in a.label])
    if c.chance(.3):
        ax = c.rng.randint(0, a.ndim - 1)
        m.label[ax] = gen.more(c.rng, m.label[ax], len(m.label[ax]))
    v = gen.values(c.rng, 1, a.dtype)[0]
    if c.chance(.3):
        v = gen.array(c.rng, (int(m.x.sum()),), dt=a.dtype)
    if c.chance(.5):
        assign(c, arch, k, m, False, v)
    else:
        want, werr = c.tried(a.__getitem__, m, name='larry.__getitem__')
        got, err = c.tried(arch.proxy(k).__getitem__, m,
                           name='lara.__getitem__')
        if err is None:
            c.check(werr is None, 'mask gave %s, in memory %r' %
                    (show(got), werr))
            c.same(got, want.label, want.x, 'mask', types_=True)
        arch.compare('mask')


@R.scenario(150)
def labels(c):
    arch = Archive(c)
    k = arch.pick()
    a, p = arch.mem[k], arch.proxy(k)
    for i in range(6):
        ax = c.choice(range(-a.ndim, a.ndim) + [None, a.ndim])
        name = c.choice(['labelindex', 'getlabel', 'maxlabel', 'minlabel'])
        args = [ax]
        kw = {}
        if name == 'labelindex':
            lab = a.label[ax] if ax is not None and ax < a.ndim else \
                a.label[0]
            n = c.choice(lab) if lab and c.chance(.7) else \
                gen.more(c.rng, lab, 1)[0]
            args = [n, ax]
            if c.chance(.4):
                kw['exact'] = False
        want, werr = c.tried(getattr(a, name), *args, **kw)
        got, err = c.tried(getattr(p, name), *args, **kw)
        c.check(type(werr) is type(err), '%s(%r): %r, in memory %r' %
                (name, args, err or got, werr or want))
        c.check(err is not None or (
            type(got) is type(want) and (
                got == want or (want != want and got != got))),
                '%s(%r) is %r, in memory %r' % (name, args, got, want))
        c.substance += 1
    if c.chance(.5):
        # The list returned is a copy
        l = c.call(p.getlabel, 0)
        l.append('probe')
        c.check(lab_sig([p.label[0]]) == lab_sig([a.label[0]]),
                'getlabel does not copy')
    c.check(p.shape == a.shape and p.dtype == a.dtype and
            p.ndim == a.ndim and p.size == a.size, 'shape or dtype')
    arch.compare('labels')
