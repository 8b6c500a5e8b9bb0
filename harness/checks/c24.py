"""C24: an archive against a dictionary, over random histories."""
from __future__ import print_function
import datetime
import os

import h5py
import numpy as np

import gen
from core import Registry, snapshot, arr_sig, lab_sig, show

import la
from la.io import archive_directory

R = Registry('C24')
QUICK = 2.5
THOROUGH = 15

LKINDS = ('range', 'perm', 'int', 'str', 'float', 'bool', 'date', 'time',
          'datetime')
PARTS = ('a', 'b', 'c', 'x', '0', '1', 'data', 'A', 'a b', 'larry', 'x1',
         'k-1', 'a.b', '10', 'label', ' b', 'b ', '\xc3\xa9', 'X', '00',
         '1x', '-1', 'long' * 20, 'B')


def stored(c, **kw):
    "A larry that can be archived."
    kw.setdefault('kinds', 'fffiibSc')
    a = gen.larry(c.rng, lkinds=LKINDS, zero=.05, maxsize=60, **kw)
    if a.dtype.kind in 'fi' and a.dtype.itemsize > 1 and c.chance(.06):
        a.x = a.x.astype(a.dtype.newbyteorder())
    return a


def names(c):
    "A set of names; none is needed for what another is made of."
    out = []
    for i in range(c.rng.randint(2, 7)):
        deep = c.rng.randint(4, 9) if c.chance(.04) else 1
        parts = [c.choice(PARTS)
                 for k in range(max(deep, c.choice([1, 1, 1, 2, 2, 3])))]
        if out and c.chance(.35):
            base = c.choice(out)
            n = base + '/' + c.choice(['n', 'a', 'z', 'data'])
        else:
            n = '/'.join(parts)
        if n not in out and not any([clash(n, m) or clash(m, n)
                                     for m in out]):
            out.append(n)
    if c.chance(.07):
        # Many larrys next to each other
        base = c.choice(['', 'many/', 'a/many/', out[0] + '/m'])
        for i in range(c.rng.randint(8, 25)):
            n = base + c.choice(['k%d', '%dk', 'k%d/y', 'K-%d']) % i
            if not any([clash(n, m) or clash(m, n) for m in out]):
                out.insert(c.rng.randint(0, len(out)), n)
    return out


def clash(n, m):
    "Whether n lies in a member of the larry m."
    if not n.startswith(m + '/'):
        return False
    p = n[len(m) + 1:].split('/')[0]
    return p == 'x' or p.isdigit()


def sig(lar):
    return (arr_sig(lar.x), lab_sig([list(l) for l in lar.label]))


def stored_bytes(filename):
    "Number of bytes of all data and labels in an archive."
    found = []

    def add(name, obj):
        if isinstance(obj, h5py.Dataset):
            found.append(obj.id.get_storage_size())
    with h5py.File(filename, 'r') as f:
        f.visititems(add)
    return sum(found)


class History(object):
    "An archive, the dictionary it has to be equal to, and what was done."

    def __init__(self, c, filename):
        self.c = c
        self.fn = filename
        self.io = la.IO(filename)
        self.d = {}
        self.names = names(c)
        self.fid = None         # An h5py.File, if the archive is open

    def file(self):
        "The archive as the file argument of a function."
        return self.fn if self.fid is None else self.fid

    def new(self):
        return self.c.choice(self.names)

    def free(self):
        return [n for n in self.names if n not in self.d]

    def old(self):
        return self.c.choice(sorted(self.d))

    # Operations

    def op_assign(self):
        c = self.c
        if self.fid is not None:
            return self.op_save()
        k, a = self.new(), stored(c)
        if self.d and c.chance(.2):
            k = self.old()
        c.call(self.io.__setitem__, k, a, name='IO.__setitem__')
        c.stats.bump('overwrites' if k in self.d else 'assignments')
        self.d[k] = a.copy()

    def op_save(self):
        c = self.c
        a = stored(c)
        if self.d and c.chance(.2):
            c.raises(la.save, self.file(), a, self.old(),
                     why='name in use')
            return
        free = self.free()
        if free:
            k = c.choice(free)
            r = c.call(la.save, self.file(), a, k)
            c.check(r is None, 'save returned %r' % (r,))
            self.d[k] = a.copy()

    def op_delete(self):
        c = self.c
        if self.fid is not None or not self.d:
            return
        k = self.old()
        c.call(self.io.__delitem__, k, name='IO.__delitem__')
        del self.d[k]

    def op_missing(self):
        "Looking up or deleting what is not there."
        c = self.c
        k = self.unknown()
        if k is None or not os.path.exists(self.fn):
            return
        c.raises(la.load, self.file(), k, exc=KeyError, why='unknown name')
        if self.fid is None:
            c.raises(self.io.__getitem__, k, exc=KeyError,
                     name='IO.__getitem__', why='unknown name')
            c.raises(self.io.__delitem__, k, exc=KeyError,
                     name='IO.__delitem__', why='unknown name')

    def unknown(self):
        "A name that is not that of a larry."
        c = self.c
        pool = self.free() + ['no', 'no/such', 'a/nope']
        for n in self.d:
            pool += [n + '/x', n + '/0', n + '/q', n + 'z',
                     n.decode('utf8')[:-1].encode('utf8'),
                     n.split('/')[0]]
        pool = [n for n in pool if n and not n.endswith('/') and
                n not in self.d]
        return c.choice(pool)

    def op_wrong_type(self):
        c = self.c
        a = stored(c)
        bad = c.choice([a.x, [1, 2], 5, None, 'text', {'a': a}])
        k = c.choice([5, None, u'name', 2.5, ('a',)])
        if self.fid is None:
            c.raises(self.io.__setitem__, self.new(), bad, exc=TypeError,
                     name='IO.__setitem__')
            c.raises(self.io.__setitem__, k, a, exc=TypeError,
                     name='IO.__setitem__')
            if os.path.exists(self.fn):
                c.raises(self.io.__delitem__, k, exc=TypeError,
                         name='IO.__delitem__')
        c.raises(la.save, self.file(), bad, self.new(), exc=TypeError)
        c.raises(la.save, self.file(), a, k, exc=TypeError)
        c.raises(la.load, self.file(), k, exc=TypeError)
        c.raises(la.load, c.choice([None, 5, u'x', [self.fn]]), 'a',
                 exc=TypeError)

    def op_clear(self):
        c = self.c
        if self.fid is not None or c.chance(.6):
            return
        c.call(self.io.clear, name='IO.clear')
        self.d.clear()

    def op_repack(self):
        c = self.c
        if not os.path.exists(self.fn):
            return
        if self.fid is not None:
            r = c.call(la.repack, self.fid)
            c.check(isinstance(r, h5py.File), 'repack returned %r' % (r,))
            c.check(not self.fid, 'the file passed in is still open')
            self.fid = r
        elif c.chance(.5):
            r = c.call(la.repack, self.fn)
            c.check(r is None, 'repack returned %r' % (r,))
        else:
            c.call(self.io.repack, name='IO.repack')
        rest = [f for f in os.listdir(os.path.dirname(self.fn))
                if f.startswith(os.path.basename(self.fn)) and
                f != os.path.basename(self.fn)]
        c.check(rest == [], 'repack left %r' % rest)

    def op_open(self):
        if self.fid is None:
            self.fid = h5py.File(self.fn)
        else:
            self.op_close()

    def op_close(self):
        if self.fid is not None:
            self.fid.close()
            self.fid = None

    def op_reopen(self):
        if self.fid is None:
            self.io = la.IO(self.fn)

    def op_look(self):
        c = self.c
        if not self.d:
            return
        k = self.old()
        want = self.d[k]
        r = c.call(la.load, self.file(), k)
        c.check(type(r) is la.larry and sig(r) == sig(want),
                lambda: 'load %r gave %r not %r' % (k, r, want))
        c.substance += 1
        if self.fid is None:
            p = c.call(self.io.__getitem__, k, name='IO.__getitem__')
            self.proxy(p, want)

    def proxy(self, p, want):
        c = self.c
        c.check(p.shape == want.shape and p.dtype == want.dtype and
                p.ndim == want.ndim and p.size == want.size,
                'shape %r dtype %r ndim %r size %r of %r' %
                (p.shape, p.dtype, p.ndim, p.size, want))
        c.check(lab_sig(p.label) == lab_sig(want.label), 'labels %r not %r' %
                (p.label, want.label))
        r = c.call(p.__getitem__, slice(None), name='lara.__getitem__')
        c.check(type(r) is la.larry and sig(r) == sig(want),
                lambda: '[:] gave %r not %r' % (r, want))
        c.substance += 1

    def op_members(self):
        c = self.c
        if not os.path.exists(self.fn):
            return
        f = self.file()
        keys = c.call(archive_directory, f)
        c.check(type(keys) is list and sorted(keys) == sorted(self.d) and
                all([type(k) is str for k in keys]),
                'archive_directory is %r not %r' % (keys, sorted(self.d)))
        for k in self.d:
            r = c.call(la.is_archived_larry, f, k)
            c.check(r is True, 'is_archived_larry %r' % r)
        k = self.unknown()
        r, e = c.tried(la.is_archived_larry, f, k)
        c.check(r is False if e is None else isinstance(e, ValueError),
                'is_archived_larry(%r) gave %r %r' % (k, r, e))

    # The whole archive

    def compare(self):
        c = self.c
        c.stats.bump('archives compared')
        c.stats.bump('larrys in archives compared', len(self.d))
        want = sorted(self.d)
        io = self.io
        if self.fid is not None:
            self.op_members()
            for k in want:
                r = c.call(la.load, self.fid, k)
                c.check(sig(r) == sig(self.d[k]), lambda: 'load %r gave %r '
                        'not %r' % (k, r, self.d[k]))
            return
        keys = c.call(io.keys, name='IO.keys')
        c.check(type(keys) is list and sorted(keys) == want,
                'keys are %r not %r' % (keys, want))
        c.check(all([type(k) is str for k in keys]), 'keys are not str')
        c.check(len(io) == len(want), 'len is %d' % len(io))
        c.check(sorted(list(io)) == want, 'iteration gives %r' % list(io))
        c.check(sorted(list(io.iterkeys())) == want, 'iterkeys')
        odd = c.choice([None, 5, '', '/', (), 'x'])
        if self.d:
            k = self.old()
            odd = c.choice([odd, k + '/', '/' + k, k + ' ', ' ' + k, k.strip(),
                            k.upper(), k.lower(), k + '\0', k[::-1]])
        for k in self.names + [self.unknown(), odd]:
            c.check((k in io) is (k in self.d), '%r in archive' % (k,))
            c.check(io.has_key(k) is (k in self.d), 'has_key(%r)' % (k,))
        kind = c.choice(['items', 'iteritems', 'values', 'itervalues'])
        c.stats.bump(kind)
        if not os.path.exists(self.fn):
            return
        if kind in ('items', 'iteritems'):
            got = list(getattr(io, kind)())
            c.check(sorted([k for k, v in got]) == want, '%s: %r' %
                    (kind, got))
        else:
            got = zip(list(io), list(getattr(io, kind)()))
            c.check(len(got) == len(want), kind)
        for k, v in got:
            self.proxy(v, self.d[k])
        for k in want:
            r = c.call(la.load, self.fn, k)
            c.check(sig(r) == sig(self.d[k]), lambda: 'load %r gave %r not %r'
                    % (k, r, self.d[k]))
        self.table()

    def table(self):
        c = self.c
        lines = repr(self.io).split('\n')
        lines = [l.rstrip() for l in lines if l.strip()]
        c.check(lines[0].split() == ['larry', 'dtype', 'shape'] and
                set(lines[1]) == set('-'), 'head of the table is %r' % lines)
        rows = [k + ' ' + str(a.dtype) + ' ' + str(a.shape)
                for k, a in sorted(self.d.items())]
        got = [' '.join(l.split()) for l in lines[2:]]
        c.check(got == [' '.join(r.split()) for r in rows],
                'table is %r not %r' % (got, rows))
        if c.chance(.3):
            s = self.io.space
            c.check(s == os.path.getsize(self.fn), 'space is %r' % s)
            f = self.io.freespace
            used = stored_bytes(self.fn)
            c.check(used >= sum([a.x.nbytes for a in self.d.values()]) and
                    f == s - used, 'freespace is %r, space %r, data %r' %
                    (f, s, used))


OPS = (['assign'] * 8 + ['save'] * 4 + ['delete'] * 4 + ['missing'] * 2 +
       ['wrong_type', 'clear', 'repack', 'repack', 'open', 'close', 'reopen',
        'look', 'look', 'look', 'members'])


def history(c, n):
    d = os.path.join(c.scratch, 'c24')
    if not os.path.isdir(d):
        os.makedirs(d)
    fn = os.path.join(d, c.choice(['a.hdf5', 'b', 'c.x.h5']))
    if os.path.exists(fn):
        os.remove(fn)
    h = History(c, fn)
    try:
        for i in range(n):
            op = c.choice(OPS)
            c.trace.append('-- ' + op)
            c.stats.bump('history: ' + op)
            getattr(h, 'op_' + op)()
            if c.chance(.25):
                h.compare()
        h.op_close()
        h.compare()
        h.io = la.IO(fn)
        h.compare()
    finally:
        if h.fid is not None:
            try:
                h.fid.close()
            except Exception:
                pass
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))


@R.scenario(250)
def short_histories(c):
    history(c, c.rng.randint(1, 8))


@R.scenario(100)
def histories(c):
    history(c, c.rng.randint(8, 40))


@R.scenario(600)
def one_larry(c):
    "Everything that can be stored comes back."
    fn = os.path.join(c.scratch, 'one%d.h5' % c.rng.randint(0, 3))
    if os.path.exists(fn):
        os.remove(fn)
    a = stored(c)
    b = a.copy()
    k = '/'.join([c.choice(PARTS) for i in range(c.choice([1, 1, 1, 2, 2, 3, 3, 5]))])
    if c.chance(.5):
        c.call(la.save, fn, a, k)
    else:
        c.call(la.IO(fn).__setitem__, k, a, name='IO.__setitem__')
    r = c.call(la.load, fn, k)
    c.check(type(r) is la.larry and sig(r) == sig(b),
            lambda: 'load gave %r not %r' % (r, b))
    r = c.call(la.IO(fn)[k].__getitem__, slice(None), name='lara.__getitem__')
    c.check(type(r) is la.larry and sig(r) == sig(b),
            lambda: '[:] gave %r not %r' % (r, b))
    c.substance += 2
    os.remove(fn)


def long_larry(c):
    "A larry with a long axis, up to the sizes for which HDF5 has chunks."
    n = int(700 * 50 ** c.rng.random())
    shp = c.choice([(n,), (n, 2), (2, n), (1, n, 2)])
    k = c.choice(['range', 'int', 'str', 'date', 'float', 'datetime'])
    if k == 'datetime':
        t = datetime.datetime(2000, 1, 1, 7)
        lab = [t + datetime.timedelta(seconds=61 * i) for i in range(n)]
    else:
        f = {'range': int, 'int': lambda i: 3 * i - n, 'str': 'l%d'.__mod__,
             'float': lambda i: i / 7., 'date':
             lambda i: datetime.date.fromordinal(700000 + i)}[k]
        lab = [f(i) for i in range(n)]
    if c.chance(.3):
        c.rng.shuffle(lab)
    labs = [lab if m == n else range(m) for m in shp]
    x = np.arange(np.prod(shp)).reshape(shp).astype(
        c.choice(['f8', 'i8', 'f4', 'i4', 'S7', 'c16']))
    return la.larry(x, labs)


@R.scenario(12)
def long_axes(c):
    "Archives of larrys with many labels."
    fn = os.path.join(c.scratch, 'long%d.h5' % c.rng.randint(0, 3))
    if os.path.exists(fn):
        os.remove(fn)
    io = la.IO(fn)
    mem = {}
    for k in ['a', 'b', 'a/c'][:c.rng.randint(1, 3)]:
        a = mem[k] = long_larry(c)
        c.call(io.__setitem__, k, a.copy(), name='IO.__setitem__')
    if c.chance(.3):
        k = c.choice(sorted(mem))
        del mem[k]
        c.call(io.__delitem__, k, name='IO.__delitem__')
    if c.chance(.5):
        c.call(io.repack, name='IO.repack')
    c.check(sorted(io.keys()) == sorted(mem), 'keys are %r' % io.keys())
    for k in mem:
        r = c.call(la.load, fn, k)
        c.check(type(r) is la.larry and sig(r) == sig(mem[k]),
                lambda: 'load %r gave %s not %s' % (k, show(r), show(mem[k])))
        c.check(lab_sig(io[k].label) == lab_sig(mem[k].label),
                'labels of the archived %r' % k)
        c.substance += 1
    os.remove(fn)


ANY = LKINDS + ('tuple', 'mixed', 'none', 'close')


def anylabels(c, n):
    "Labels that may be of more than one type along an axis."
    k = c.choice(ANY)
    if k == 'none':
        out = gen.labels(c.rng, n, c.choice(LKINDS))
        if n:
            out[c.rng.randint(0, n - 1)] = None
        return out
    if k != 'close':
        return gen.labels(c.rng, n, k)
    # Values of types that are easily taken for each other
    few = c.choice([
        [datetime.date, datetime.datetime], [datetime.datetime,
                                             datetime.date],
        [int, bool], [bool, int], [int, float], [float, int], [int, str],
        [str, int], [float, bool], [str, datetime.date],
        [datetime.date, datetime.time], [int, long], [str, unicode]])
    out = []
    for i in range(n):
        t = few[0] if i == 0 or c.chance(.7) else few[1]
        if t is datetime.date:
            l = datetime.date(2000, 1, 1 + i % 28)
        elif t is datetime.datetime:
            l = datetime.datetime(2001, 1, 1 + i % 28, i % 24, 5)
        elif t is datetime.time:
            l = datetime.time(i % 24, 3)
        elif t is bool:
            l = i == 1
        else:
            l = t(i + 2)
        if l in out:
            return gen.labels(c.rng, n, 'int')
        out.append(l)
    return out


@R.scenario(500)
def stored_or_refused(c):
    "What is stored comes back; anything else is refused."
    fn = os.path.join(c.scratch, 'any%d.h5' % c.rng.randint(0, 3))
    if os.path.exists(fn):
        os.remove(fn)
    x = gen.array(c.rng, gen.shape(c.rng, maxsize=40), kinds='fiObS')
    a = la.larry(x, [anylabels(c, n) for n in x.shape])
    types = [set(map(type, l)) for l in a.label]
    ok = x.dtype != object and not [
        t for t in types if len(t) > 1 or t & set([tuple, type(None),
                                                   long, unicode])]
    b = a.copy()
    io = la.IO(fn)
    old = stored(c)
    c.call(io.__setitem__, 'old', old, name='IO.__setitem__')
    over = c.chance(.3)
    k = 'old' if over else 'new'
    if over or c.chance(.5):
        r, e = c.tried(io.__setitem__, k, a, name='IO.__setitem__')
    else:
        r, e = c.tried(la.save, fn, a, k)
    c.check(e is None or not ok, 'refused %r: %r' % (b, e))
    want = {'old': old}
    if e is None:
        want[k] = b
    c.stats.bump('refused' if e else 'stored')
    c.check(sorted(io.keys()) == sorted(want), 'keys are %r' % io.keys())
    for k in want:
        if k in want:
            r = c.call(la.load, fn, k)
            c.check(type(r) is la.larry and sig(r) == sig(want[k]),
                    lambda: '%r: load gave %r not %r' % (k, r, want[k]))
            c.substance += 1
    os.remove(fn)
