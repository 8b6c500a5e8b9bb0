"""C26: archives after failed saves and under faults and crashes.

The file operations of `repack` are enumerated: the fault shim
(faultshim.c, preloaded) counts them in a run without faults; then, for every
operation, a child process repacks a fresh copy of the archive and dies at, or
in the middle of, that operation, or the operation fails. The parent then looks
for the larrys.
"""
from __future__ import print_function
import ctypes
import datetime
import decimal
import errno
import os
import random
import shutil
import signal

import h5py
import numpy as np

import gen
from core import Registry, Skip, arr_sig, lab_sig, show
from checks.c24 import stored, names, sig, clash

import la

R = Registry('C26')
QUICK = 4
THOROUGH = 15

COUNT, CRASH, TORN, FAIL, FAIL_ON = range(5)
MODES = ('count', 'crash', 'crash in a write', 'one error', 'errors from then')


# Archives -------------------------------------------------------------------

class Archive(object):

    def __init__(self, c, n=None):
        self.c = c
        self.dir = os.path.join(c.scratch, 'c26')
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.fn = os.path.join(self.dir, c.choice(['a.hdf5', 'b', 'c.d.h5']))
        self.io = la.IO(self.fn)
        self.mem = {}
        self.done = set()
        self.foreign = {}       # Arrays in the file that are not of larrys
        self.names = names(c)
        if n is None:
            n = len(self.names)
            if n < 10 or c.chance(.3):
                n = c.rng.randint(1, n)
        for k in self.names[:n]:
            self.io[k] = a = stored(c)
            self.mem[k] = a.copy()

    def free(self):
        return [k for k in self.names if k not in self.mem]

    def old(self):
        return self.c.choice(sorted(self.mem))

    def wrong(self, fn=None, subset=False):
        "None if the file holds exactly these larrys, else what is wrong."
        fn = fn or self.fn
        if not os.path.exists(fn):
            return 'there is no such file'
        self.c.stats.bump('archives inspected')
        try:
            keys = la.IO(fn).keys()
            if subset:
                lost = [k for k in self.mem if k not in keys]
                if lost:
                    return 'lost %r' % lost
            elif sorted(keys) != sorted(self.mem):
                return 'larrys are %r not %r' % (sorted(keys),
                                                 sorted(self.mem))
            for k in self.mem:
                r = la.load(fn, k)
                self.c.stats.bump('archived larrys inspected')
                if type(r) is not la.larry or sig(r) != sig(self.mem[k]):
                    return '%r is %s not %s' % (k, show(r),
                                                show(self.mem[k]))
            if self.foreign:
                f = h5py.File(fn, 'r')
                try:
                    for k, x in self.foreign.items():
                        if k not in f or arr_sig(f[k][()]) != arr_sig(x):
                            return 'what is not a larry, %r, has changed' % k
                finally:
                    f.close()
        except Exception as e:
            return 'raised %r' % e

    def compare(self, why, subset=False):
        bad = self.wrong(subset=subset)
        self.c.substance += 1
        self.c.check(bad is None, lambda: '%s: %s' % (why, bad))

    def works(self, why):
        "The archive can still be used."
        c = self.c
        k = 'brandnew'
        a = stored(c)
        self.io[k] = a
        self.mem[k] = a.copy()
        self.compare(why + ', then a new larry was stored')
        del self.io[k]
        del self.mem[k]
        if self.mem and c.chance(.5):
            k = self.old()
            # What is in 'dims' has the name of a second axis
            self.io[k] = a = stored(c, ndim=1 if k == 'dims' else None)
            self.mem[k] = a.copy()
        self.compare(why + ', then the archive was used')


# Saves that fail ------------------------------------------------------------

class Sub(la.larry):
    pass


class Thing(object):
    pass


def no_data(c):
    "A larry whose data cannot be archived."
    a = stored(c)
    k = c.choice(['O', 'U', 'M', 'm', 'None'])
    if k == 'U':
        a.x = a.x.astype('U3')
    elif k == 'M':
        a.x = np.zeros(a.shape, 'M8[D]')
    elif k == 'm':
        a.x = np.zeros(a.shape, 'm8[s]')
    else:
        x = np.empty(a.shape, object)
        x.fill({'O': 5, 'None': None}[k])
        a.x = x
    return a


def no_label(c):
    "A larry with labels that cannot be archived along some axis."
    a = gen.larry(c.rng, maxsize=40, kinds='fib',
                  lkinds=('range', 'str', 'date'), zero=0)
    ax = c.rng.randint(0, a.ndim - 1)
    n = a.shape[ax]
    k = c.choice(['unicode', 'object', 'decimal', 'tuple', 'tuple2', 'type',
                  'delta', 'mixed', 'none', 'mixed2', 'mixed3', 'ragged'])
    if k == 'unicode':
        l = [u'l%d' % i for i in range(n)]
    elif k == 'object':
        l = [Thing() for i in range(n)]
    elif k == 'decimal':
        l = [decimal.Decimal(i) for i in range(n)]
    elif k == 'tuple':
        l = [(i, i) for i in range(n)]
    elif k == 'tuple2':
        l = [('a', i) for i in range(n)]
    elif k == 'ragged':
        l = [(i,) * (i + 1) for i in range(n)]
    elif k == 'type':
        l = [int, str, float, list, dict, set, tuple, object, type, bool][:n]
    elif k == 'delta':
        l = [datetime.timedelta(i) for i in range(n)]
    elif k == 'none':
        l = [None] + range(1, n)
    elif k == 'mixed':
        l = ['s'] + range(1, n)
    elif k == 'mixed2':
        l = range(n - 1) + [n + .5]
    else:
        l = [datetime.date(2000 + i, 1, 1) for i in range(n - 1)] + \
            [datetime.datetime(2001, 1, 1)]
    if len(l) != n or (n == 1 and k in ('none', 'mixed', 'mixed2', 'mixed3')):
        raise Skip()
    a.label[ax] = l
    if k == 'none' and n < 2:
        raise Skip()
    return a


def failing(c, arch):
    """(what, function, arguments, must raise) of a save that cannot work.
    The second item of arguments is not known to la."""
    io, fn = arch.io, arch.fn
    k = c.choice(['data', 'data', 'label', 'label', 'label', 'notlarry', 'sub',
                  'key', 'inside', 'inside', 'member', 'dataset', 'group',
                  'group', 'other', 'used', 'badkey', 'readonly', 'dims'])
    if k in arch.done:
        k = 'data'
    if k in ('member', 'dataset', 'group', 'other', 'dims'):
        arch.done.add(k)
    name = c.choice(arch.names)
    if arch.mem and c.chance(.6):
        name = arch.old()
    ok = stored(c)
    if k == 'data':
        v = no_data(c)
    elif k == 'label':
        v = no_label(c)
    elif k == 'notlarry':
        v = c.choice([ok.x, None, 5, 'x', ok.label, (ok,)])
    elif k == 'sub':
        v = Sub(ok.x, ok.label)
    elif k == 'key':
        return k, (c.choice([None, 5, u'a', 2.5, (name,), ok]), ok), True, []
    elif k == 'inside':
        # The name of something inside a larry
        m = arch.old()
        return k, (m + '/' + c.choice(['x', '0', 'x/a', '0/1']), ok), True, []
    elif k == 'member':
        # Existing larrys (groups) take the names of what it is made of
        m = c.choice(['m', 'm/n'])
        sub = stored(c)
        arch.io[m + '/' + c.choice(['x', '0'])] = sub
        inner = [q for q in arch.io.keys() if q.startswith(m + '/')][0]
        arch.mem[inner] = sub.copy()
        return k, (m, ok), True, []
    elif k == 'dims':
        # More axes than before, and a larry in a larry has the name of one
        for name, lar in (('dims', stored(c, ndim=1)), ('dims/1', stored(c))):
            arch.io[name] = lar
            arch.mem[name] = lar.copy()
        return k, ('dims', stored(c, ndim=c.choice([2, 3]))), True, []
    elif k == 'dataset':
        # Something that is not a larry is in the way
        f = h5py.File(fn)
        f['foreign'] = arch.foreign['foreign'] = np.arange(3)
        f.close()
        return k, ('foreign' + c.choice(['', '/a', '/x']), ok), True, []
    elif k == 'group':
        f = h5py.File(fn)
        g = c.choice(['some/group', 'group'])
        k = g + '/' + c.choice(['x', '0'])
        f[k] = arch.foreign[k] = np.arange(3)
        f.close()
        return 'group', (g, ok), True, []
    elif k == 'other':
        # A group of arrays with other names: what is in it must stay
        f = h5py.File(fn)
        f['other/a'] = arch.foreign['other/a'] = np.arange(3)
        f.close()
        return k, ('other', ok), False, []
    elif k == 'used':
        return k, (arch.old(), ok), True, ['save']
    elif k == 'badkey':
        return k, ('', ok), False, []
    elif k == 'readonly':
        return k, (name, ok), True, ['readonly']
    return k, (name, v), True, []


@R.scenario(400)
def failing_saves(c):
    "What cannot be stored changes nothing."
    arch = Archive(c)
    for i in range(c.rng.randint(1, 4)):
        if not arch.mem:
            break
        what, (key, v), must, how = failing(c, arch)
        arch.compare('before')
        c.stats.bump('failing save: ' + what)
        via = how[0] if how else c.choice(['item', 'item', 'save', 'open'])
        fid = None
        try:
            if via == 'item':
                r, e = c.tried(arch.io.__setitem__, key, v,
                               name='IO.__setitem__')
            elif via == 'save':
                r, e = c.tried(la.save, arch.fn, v, key)
            else:
                fid = h5py.File(arch.fn, 'r' if via == 'readonly' else 'a')
                r, e = c.tried(la.save, fid, v, key)
        finally:
            if fid is not None:
                fid.close()
        c.check(e is not None or not must, lambda: '%s: storing %s as %r (%s) '
                'did not raise' % (what, show(v), key, via))
        arch.compare('%s: storing %s as %r (%s) %s' % (
            what, show(v), key, via, 'raised %r' % e if e else 'worked'),
            subset=e is None)
        if e is None:
            return
    arch.works('after failed saves')


@R.scenario(80)
def not_an_archive(c):
    "Operations on files that are no archives fail and leave them alone."
    d = os.path.join(c.scratch, 'c26')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    fn = os.path.join(d, 'text.txt')
    text = 'precious' * c.rng.randint(1, 500)
    with open(fn, 'w') as f:
        f.write(text)
    a = stored(c)
    io = la.IO(fn)
    for i in range(4):
        op = c.choice(['set', 'save', 'load', 'repack', 'delete', 'keys',
                       'clear', 'get'])
        fun, args = {'set': (io.__setitem__, ('a', a)),
                     'save': (la.save, (fn, a, 'a')),
                     'load': (la.load, (fn, 'a')),
                     'repack': (la.repack, (fn,)),
                     'delete': (io.__delitem__, ('a',)),
                     'keys': (io.keys, ()), 'clear': (io.clear, ()),
                     'get': (io.__getitem__, ('a',))}[op]
        c.raises(fun, *args, name='IO.' + op)
        with open(fn) as f:
            c.check(f.read() == text, op + ' changed the file')
        c.check(os.listdir(d) == ['text.txt'], op + ' left files')


@R.scenario(150)
def failing_parts(c):
    "Assigning to a part what does not fit changes nothing."
    arch = Archive(c)
    k = arch.old()
    p = arch.io[k]
    a = arch.mem[k]
    if a.size == 0:
        raise Skip()
    how = c.choice(['shape', 'label', 'index', 'object', 'type'])
    ind = slice(None)
    v = gen.array(c.rng, a.shape, dt=a.dtype)
    if how == 'shape':
        v = gen.array(c.rng, tuple([n + 2 for n in a.shape]), dt=a.dtype)
    elif how == 'label':
        lab = [list(l) for l in a.label]
        ax = c.rng.randint(0, a.ndim - 1)
        lab[ax][0] = gen.more(c.rng, lab[ax], 1)[0]
        v = la.larry(v, lab)
    elif how == 'index':
        ind = c.choice([a.shape[0], -a.shape[0] - 1, 'name', None,
                        (0,) * (a.ndim + 1)])
        v = gen.values(c.rng, 1, a.dtype)[0]
    elif how == 'object':
        v = c.choice([Thing(), {}, [Thing()] * a.shape[0]])
    elif a.dtype.kind == 'S':
        raise Skip()
    else:
        v = c.choice(['text', ['a'] * a.shape[-1]])
    r, e = c.tried(p.__setitem__, ind, v, name='lara.__setitem__')
    c.stats.bump('failing part: ' + how)
    c.check(e is not None, lambda: '%s: assigning %s at %r did not raise' %
            (how, show(v), ind))
    arch.compare('%s: assigning %s at %r raised %r' % (how, show(v), ind, e))
    c.check(p.x is None, 'the proxy holds on to the file')
    arch.works('after a failed assignment')


# Faults in repack -----------------------------------------------------------

_shim = None


def shim():
    global _shim
    if _shim is None:
        _shim = ctypes.CDLL(None)
        _shim.fs_name.restype = ctypes.c_char_p
    return _shim


def do_repack(how, fn):
    if how == 'IO':
        la.IO(fn).repack()
    elif how == 'name':
        la.repack(fn)
    elif how == 'relative':
        os.chdir(os.path.dirname(fn))
        la.repack(os.path.basename(fn))
    else:
        f = h5py.File(fn, 'r' if how == 'readonly' else 'a')
        la.repack(f).close()


HOW = ('IO', 'name', 'open', 'relative', 'readonly')


def child(arch, how, mode, k, err):
    """Repacks in a child process with a fault at operation k.
    (exit status or None if it was killed, name of the operation)"""
    s = shim()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        # Never returns
        code = 3
        try:
            signal.alarm(30)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            # Names of temporary files
            random.seed('%d %d' % (os.getpid(), k))
            np.random.seed(os.getpid())
            os.close(r)
            s.fs_arm(arch.dir + '/', mode, k, err)
            try:
                do_repack(how, arch.fn)
                code = 0
            except Exception:
                code = 1
            n = s.fs_seen()
            s.fs_disarm()
            if mode == COUNT:
                os.write(w, '\n'.join([s.fs_name(i) for i in range(n)]))
        finally:
            os._exit(code)
    os.close(w)
    text = ''
    while True:
        t = os.read(r, 65536)
        if not t:
            break
        text += t
    os.close(r)
    status = os.waitpid(pid, 0)[1]
    if os.WIFEXITED(status):
        return os.WEXITSTATUS(status), text.split('\n')
    return None, text.split('\n')


def fill(c):
    "An archive with a past."
    arch = Archive(c, c.rng.randint(1, 8))
    for i in range(c.choice([0, 0, 1, 2])):
        arch.io['past'] = la.larry(np.random.rand(c.choice([10, 2000])))
        del arch.io['past']
    if c.chance(.3):
        k = 'big'
        arch.mem[k] = la.larry(np.random.rand(c.choice([50, 400]), 9))
        arch.io[k] = arch.mem[k]
    if c.chance(.3) and arch.mem:
        k = arch.old()
        del arch.io[k]
        del arch.mem[k]
    return arch


def survivors(arch, what):
    "Every larry has to be in the archive or in a file next to it."
    c = arch.c
    base = os.path.basename(arch.fn)
    bad = arch.wrong()
    if bad is None:
        return True
    files = sorted([f for f in os.listdir(arch.dir) if f != base])
    tried = ['%s: %s' % (base, bad)]
    if not os.path.exists(arch.fn):
        for f in files:
            if f.startswith(base):
                bad = arch.wrong(os.path.join(arch.dir, f))
                if bad is None:
                    return False
                tried.append('%s: %s' % (f, bad))
    c.fail('%s: the larrys are lost: %s' % (what, '; '.join(tried)))


def restore(snap, arch):
    shutil.rmtree(arch.dir)
    shutil.copytree(snap, arch.dir)


def faults(c):
    arch = fill(c)
    how = c.choice(HOW)
    mode = c.choice([CRASH, CRASH, TORN, FAIL, FAIL_ON])
    err = c.choice([errno.EIO, errno.ENOSPC])
    snap = os.path.join(c.scratch, 'c26-snap')
    shutil.rmtree(snap, ignore_errors=True)
    shutil.copytree(arch.dir, snap)
    code, ops = child(arch, how, COUNT, 0, 0)
    c.trace.append('repack (%s) of %r without faults: %s' % (
        how, sorted(arch.mem), ' '.join(ops)))
    c.check(code == 0, 'repack (%s) failed' % how)
    c.check(len(ops) > 4 and 'close' in ops,
            'file operations were not observed: %r' % ops)
    c.check(arch.wrong() is None, lambda: 'repack: ' + arch.wrong())
    c.sig.update(repr((how, mode, sorted(arch.mem), len(ops))))
    c.stats.bump('repack (%s)' % how)
    for k in range(len(ops) + 1):
        restore(snap, arch)
        code, _ = child(arch, how, mode, k, err)
        what = 'repack (%s), %s at operation %d (%s)' % (
            how, MODES[mode], k, ops[k] if k < len(ops) else 'none')
        c.stats.bump('%s at %s' % (MODES[mode], ops[k] if k < len(ops)
                                   else 'none'))
        if mode in (CRASH, TORN):
            c.check(code == (77 if k < len(ops) else 0), '%s: exit %r' %
                    (what, code))
        else:
            c.check(code in (0, 1), '%s: exit %r' % (what, code))
        c.stats.bump('returned despite of an error' if code == 0 else
                     'raised' if code == 1 else 'died')
        there = survivors(arch, what)
        c.stats.bump('archive in place' if there else 'larrys in a file next '
                     'to it')
        c.substance += 1
        if code == 0 or (there and k % 8 == 0):
            if code == 0:
                c.check(there, what + ' returned but the archive is not there')
            # Life goes on
            do_repack('IO', arch.fn)
            arch.compare(what + ', then repacked')
            if k % 16 == 0:
                arch2 = dict(arch.mem)
                arch.works(what)
                arch.mem = arch2


@R.scenario(16)
def repack_faults(c):
    faults(c)


repack_faults.no_union = True


@R.scenario(150)
def repack_room(c):
    "A repack that returns leaves one file, the same larrys, no waste."
    arch = Archive(c)
    n = c.choice([3000, 20000])
    junk = []
    for i in range(c.rng.randint(1, 4)):
        k = c.choice(['junk%d', 'deep/junk%d', 'junk%d/x']) % i
        arch.io[k] = la.larry(np.random.rand(n))
        junk.append(k)
        if arch.free() and c.chance(.5):
            m = c.choice(arch.free())
            arch.io[m] = a = stored(c)
            arch.mem[m] = a.copy()
    if c.chance(.3):
        # A larry that was large once
        m = arch.old()
        v = arch.mem[m]
        arch.io[m] = la.larry(np.random.rand(n))
        arch.io[m] = v
    if junk and c.chance(.3):
        k = junk.pop()
        arch.mem[k] = la.load(arch.fn, k)
    for k in junk:
        del arch.io[k]
    arch.compare('before')
    before = os.path.getsize(arch.fn)
    how = c.choice(HOW)
    cwd = os.getcwd()
    try:
        c.call(do_repack, how, arch.fn, name='repack (%s)' % how)
    finally:
        os.chdir(cwd)
    c.check(os.listdir(arch.dir) == [os.path.basename(arch.fn)],
            'repack left %r' % os.listdir(arch.dir))
    arch.compare('repack (%s)' % how)
    after = os.path.getsize(arch.fn)
    fresh = os.path.join(c.scratch, 'c26-fresh.h5')
    if os.path.exists(fresh):
        os.remove(fresh)
    io = la.IO(fresh)
    for k in arch.mem:
        io[k] = arch.mem[k]
    io.keys()
    size = os.path.getsize(fresh) if os.path.exists(fresh) else 0
    os.remove(fresh)
    c.stats.bump('bytes before repack', before)
    c.stats.bump('bytes after repack', after)
    c.check(after < size * 1.2 + 12000, 'the archive has %d bytes after '
            'repack, %d before; a new one with the same larrys has %d' %
            (after, before, size))
    arch.works('after repack')
