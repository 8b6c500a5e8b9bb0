"""C29: a result depends on the values of the operands only.

Every step of a random program (programs.py) is done again with operands of
the same value: copies with another memory layout, with label objects that
are equal but not the same, with equal label lists and equal operands made
one object, after other calls, or in an interpreter with another hash seed.
The outcomes (result or type of the exception, and the larrys changed in
place) have to be the same. No reference model is involved, so that the calls
with bad arguments take part like all others.
"""
from __future__ import print_function
import atexit
import cPickle
import os
import random
import subprocess
import sys
import types

import numpy as np

import bootstrap
import core
import gen
from core import Registry, same_value, show
from checks import programs
from checks.programs import Program, aliased

import la

R = Registry('C29')
QUICK = 6
THOROUGH = 8

# Not a function of the operands, or acting on files
IMPURE = ('tocsv', 'fromcsv', 'empty', 'maplabel')
# Differences of almost equal numbers
CANCEL = ('std', 'var', 'zscore', 'move_std', 'cov', 'covMissing',
          'correlation', 'demean', 'mean', 'sum', 'move_mean', 'move_sum',
          'movingsum', 'movingsum_forward', 'cumsum', 'move_func',
          'group_mean', 'lastrank')
PRODUCTS = ('prod', 'cumprod', 'geometric_mean')


# What NumPy gets for objects depends on the order in which it takes them
REDUCE = ('any', 'all', 'max', 'min', 'sum', 'prod', 'mean', 'median')


# Copies ---------------------------------------------------------------------

def relay(x, how):
    "An array with the values of x and another memory layout."
    if how == 'fortran':
        y = np.empty(x.shape, x.dtype, order='F')
    elif how == 'reversed':
        y = np.empty(x.shape, x.dtype)[tuple([slice(None, None, -1)] *
                                             x.ndim)]
    elif how == 'strided':
        y = np.empty([2 * n + 1 for n in x.shape], x.dtype)
        if x.dtype.kind == 'f':
            y.fill(-7.5)
        y = y[tuple([slice(1, 2 * n + 1, 2) for n in x.shape])]
    elif how == 'swapped':
        y = np.empty(x.shape[::-1], x.dtype).T
    elif how == 'same':
        y = x.copy('K')
        if y.strides == x.strides:
            return y
        return x.copy()
    else:
        y = np.empty(x.shape, x.dtype)
    y[...] = x
    return y


def reborn(obj):
    "An equal object of the same type made of other objects."
    try:
        return cPickle.loads(cPickle.dumps(obj, 2))
    except Exception:
        return obj


class Twin(object):
    """Maps operands to operands of the same value.

    how    : memory layout
    reborn : replace the labels by equal objects
    share  : equal lists of labels become one list
    """

    def __init__(self, how, reborn=False, share=False, lock=False):
        self.how = how
        self.reborn = reborn
        self.share = share
        self.lock = lock
        self.memo = {}
        self.lists = []
        self.larrys = []

    def labels(self, l):
        if type(l) is not list:
            return l
        if self.share:
            for m in self.lists:
                if core.lab_sig([m]) == core.lab_sig([l]):
                    return m
        if id(l) in self.memo and not self.reborn:
            return self.memo[id(l)]
        m = [reborn(e) for e in l] if self.reborn else list(l)
        self.memo[id(l)] = m
        self.lists.append(m)
        return m

    def array(self, x):
        if id(x) not in self.memo:
            if x.dtype.hasobject and self.how not in ('same', 'plain'):
                y = relay(x, 'fortran')
            else:
                y = relay(x, self.how)
            if self.lock:
                y.flags.writeable = False
            self.memo[id(x)] = y
        return self.memo[id(x)]

    def __call__(self, obj, depth=0):
        if isinstance(obj, la.larry):
            if id(obj) in self.memo:
                return self.memo[id(obj)]
            if self.share:
                for old, new in self.larrys:
                    if core.snapshot(old) == core.snapshot(obj):
                        return new
            new = la.larry.__new__(type(obj))
            new.__dict__.update(obj.__dict__)
            new.x = self.array(obj.x)
            new.label = [self.labels(l) for l in obj.label]
            self.memo[id(obj)] = new
            self.larrys.append((obj, new))
            return new
        if isinstance(obj, np.ndarray):
            return self.array(obj)
        if depth > 3:
            return obj
        if type(obj) is list:
            return [self(o, depth + 1) for o in obj]
        if type(obj) is tuple:
            return tuple([self(o, depth + 1) for o in obj])
        if type(obj) is dict:
            return dict([(k, self(obj[k], depth + 1)) for k in obj])
        if self.reborn and type(obj) in core.PLAIN:
            return reborn(obj)
        if type(obj).__name__ == 'Lix':
            return type(obj)(self(obj.lar))
        return obj

    def fn(self, fn):
        me = getattr(fn, 'im_self', None)
        if me is None or isinstance(me, type):
            return fn
        return getattr(self(me), fn.__name__)


# Outcomes -------------------------------------------------------------------

def freeze(obj, depth=0):
    "What can be observed about a result, as plain objects."
    if isinstance(obj, la.larry):
        return ('larry', [(type(l).__name__,
                           [(type(e).__name__, item(e)) for e in l])
                          for l in obj.label], freeze(obj.x))
    if isinstance(obj, np.ndarray):
        x = obj if obj.size <= 20000 else obj.flat[:5000]
        return ('array', obj.shape, obj.dtype.str, [item(e) for e in
                                                    core.flat(x)])
    if isinstance(obj, (list, tuple)) and depth < 6:
        return (type(obj).__name__, [freeze(o, depth + 1) for o in obj])
    if isinstance(obj, dict):
        return ('dict', sorted([(repr(k), freeze(k), freeze(v, depth + 1))
                                for k, v in obj.items()]))
    if isinstance(obj, types.GeneratorType):
        return ('generator', [freeze(o) for o in obj])
    if isinstance(obj, (float, complex, np.generic)):
        return ('number', type(obj).__name__, item(obj))
    return (type(obj).__name__, repr(obj))


def item(e):
    "NumPy cannot pickle all of its scalars."
    return e.item() if isinstance(e, np.generic) else e


def run(fn, args, kw, targets, state):
    "Outcome of a call."
    np.random.set_state(state[0])
    random.setstate(state[1])
    try:
        res = fn(*args, **kw)
        out = ('returned', freeze(res))
    except (KeyboardInterrupt, SystemExit, MemoryError, core.Watchdog):
        raise
    except Exception as e:
        out = ('raised', type(e).__name__)
    sys.exc_clear()
    return (out, [freeze(t) for t in targets])


KINDS = ('int', 'bool', 'float', 'long', 'int64')


def close(a, b, tol):
    "None, or a description of the difference of two outcomes."
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and \
       type(a) is type(b):
        if len(a) == 4 and a[0] == 'array' == b[0]:
            if a[1:3] != b[1:3]:
                return '%s of %s and %s of %s' % (a[1], a[2], b[1], b[2])
            t = tol.get(a[2][1:], tol[''])
            for i, (p, q) in enumerate(zip(a[3], b[3])):
                if not alike(p, q, t):
                    return 'value %d is %r and %r' % (i, p, q)
            return None
        if len(a) != len(b):
            return 'lengths %d and %d' % (len(a), len(b))
        if len(a) == 2 and tol.get('equal') and a[0] in KINDS and \
           b[0] in KINDS and a[1] == b[1]:
            # Which of the equal labels of several larrys is used is open
            return None
        if len(a) == 3 and a[0] == 'number' == b[0]:
            if a[1] != b[1]:
                return 'a %s and a %s' % (a[1], b[1])
            t = tol.get('f4' if a[1] == 'float32' else '', tol[''])
            return None if alike(a[2], b[2], t) else '%r and %r' % (a[2],
                                                                    b[2])
        for p, q in zip(a, b):
            d = close(p, q, tol)
            if d is not None:
                return d
        return None
    if isinstance(a, float) and a != a:
        return None if b != b else '%r and %r' % (a, b)
    return None if type(a) is type(b) and a == b else '%r and %r' % (a, b)


def alike(p, q, t):
    if same_value(p, q, t[0], t[1]):
        return True
    if t[2] and isinstance(p, float) and isinstance(q, float):
        # Products may pass the range in one order and not in another
        return not (1 / t[2] < abs(p) < t[2]) and \
            not (1 / t[2] < abs(q) < t[2])
    return False


def largest(ops):
    m = 1.0
    for o in core.find_larrys(ops):
        m = max(m, peak(o.x))
    for x in programs.arrays(ops):
        m = max(m, peak(x))
    return m


def peak(x):
    if x.dtype.kind not in 'fiuc' or not x.size:
        return 1.0
    x = np.abs(x.astype(complex if x.dtype.kind == 'c' else float))
    x = x[np.isfinite(x)]
    return float(x.max()) * x.size if x.size else 1.0


def tolerance(name, ops):
    "{dtype: (rtol, atol, range)}"
    big = largest(ops)
    wide = 0
    r, s = 1e-9, 1e-4
    if name in CANCEL:
        a = big * 1e-7
        if name in ('var', 'cov', 'covMissing'):
            a *= big
        b = a * 1e4
    elif name in PRODUCTS:
        a, b, wide = 0.0, 0.0, 1
    else:
        a, b = 1e-12 * big, 1e-6 * big
    return {'': (r, a, wide * 1e290), 'f4': (s, b, wide * 1e30),
            'f2': (.1, b * 100, wide * 1e3)}


def lanes_vary(obj):
    "Data of which no lane is nearly constant."
    for o in core.find_larrys(obj) + programs.arrays(obj):
        x = o.x if isinstance(o, la.larry) else o
        if x.dtype.kind not in 'fiu':
            continue
        x = x.astype(float)
        for ax in list(range(x.ndim)) + [None]:
            if x.size:
                y = x.ravel() if ax is None else x
                s = np.nanmax(y, ax or 0) - np.nanmin(y, ax or 0)
                if (s < 1e-3 * np.nanmax(np.abs(y), ax or 0)).any():
                    return False
    return True


def holds_objects(ops):
    return any([x.dtype.hasobject for x in programs.arrays(ops) +
                [l.x for l in core.find_larrys(ops)]])


class Shadow(object):
    "Repeats monitored calls with other operands of the same value."

    modes = ('layout', 'layout', 'readonly', 'reborn', 'share', 'later')

    def __init__(self, c, chance=1.0):
        self.c = c
        self.chance = chance
        self.rng = random.Random(c.seed + 2)
        self.first = []

    def before(self, fn, args, kw, ops, inplace, name):
        c = self.c
        ops = [getattr(o, 'lar', o) for o in ops]
        if self.rng.random() > self.chance:
            return None
        if not pure(fn, name, args, kw, ops):
            c.stats.bump('calls that are not functions of the operands')
            return None
        if inplace:
            # The order in which overlapping data is copied is up to NumPy,
            # and what happens to a shared list up to the operation
            if not overlap_free(ops, list(inplace)):
                return None
        modes = [m for m in self.modes if m in ('layout', 'later') or
                 not inplace]
        if name in REDUCE and holds_objects(ops):
            modes = ['reborn', 'share', 'later']
        copies = []
        for i in range(self.rng.choice([1, 1, 2])):
            how, twin = self.twin(self.rng.choice(modes))
            copies.append((how, twin.fn(fn), twin(args), twin(kw),
                           [twin(t) for t in inplace]))
        tol = tolerance(name, ops)
        tol['objects'] = holds_objects(ops)
        state = np.random.get_state(), random.getstate()
        return copies, inplace, tol, show([name, ops], 500), state

    def after(self, record, res, err):
        copies, inplace, tol, text, state = record
        first = ('raised', type(err.exc).__name__) if err is not None else \
            ('returned', freeze(res))
        first = (first, [freeze(t) for t in inplace])
        now = np.random.get_state(), random.getstate()
        for copy in copies:
            if copy[0] == 'later':
                self.first.append((copy, first, tol, text, state))
            else:
                self.compare(copy, first, tol, text, state)
        np.random.set_state(now[0])
        random.setstate(now[1])

    def twin(self, mode):
        how = self.rng.choice(['fortran', 'reversed', 'strided', 'swapped',
                               'plain'])
        if mode == 'layout':
            return mode + ' ' + how, Twin(how)
        if mode == 'readonly':
            return mode, Twin(how, lock=True)
        if mode == 'reborn':
            return mode, Twin('same', reborn=True)
        if mode == 'share':
            return mode, Twin('same', share=True)
        return mode, Twin('same')

    def compare(self, copy, first, tol, text, state):
        c = self.c
        how, fn, args, kw, targets = copy
        c.stats.bump('repeated with operands of the same value')
        c.stats.bump('  ' + how)
        c.trace.append('  again, %s' % how)
        second = run(fn, args, kw, targets, state)
        c.substance += 1
        c.stats.compared += 1
        if (how == 'readonly' or tol.get('objects')) and first[0][0] == 'raised' == second[0][0]:
            # Which of the objects is the first that cannot be computed with
            # depends on the order in which NumPy takes them; to assign to
            # data that cannot be changed is an error by itself
            return
        d = close(first, second, tol)
        if d is not None:
            raise core.Violation(
                'C29', '%s: operands of the same value (%s) give something '
                'else: %s\n  first  %s\n  second %s' % (
                    text, how, d, show(first), show(second)))

    def finish(self):
        self.rng.shuffle(self.first)
        for f in self.first[:8]:
            self.compare(*f)


def pure(fn, name, args, kw, ops):
    "The call is a function of its operands."
    if name in IMPURE:
        return False
    for o in [fn] + list(args) + list(kw.values()):
        if isinstance(o, types.FunctionType) and o.__closure__ or \
           isinstance(o, types.GeneratorType) or hasattr(o, 'write'):
            return False
        if isinstance(o, types.BuiltinFunctionType) and \
           type(o.__self__).__name__ == 'RandomState':
            return False
    if name == 'sortby' and holds_objects(ops):
        # NaN objects compare by their addresses
        return False
    if name in ('zscore', 'correlation') and not lanes_vary(ops):
        return False
    return True


def overlap_free(ops, targets):
    t = targets[0]
    if not isinstance(t, la.larry):
        return False
    for o in core.find_larrys(ops + targets):
        if o is not t and aliased(o, [t]):
            return False
    if len([o for o in core.find_larrys(ops) if o is t]) > 1:
        return False
    return not [x for x in programs.arrays(ops + targets)
                if np.may_share_memory(x, t.x)]


# Other hash seeds -----------------------------------------------------------

class Traced(Program):
    "Records the operands and outcomes of all calls."

    def __init__(self, c, **kw):
        self.seen = []
        Program.__init__(self, c, **kw)

    def step(self):
        call = self.rng.choice(programs.OPS)(self)
        if call is None:
            return
        seed = self.rng.randint(0, 10 ** 6)
        me = getattr(call.fn, 'im_self', None)
        ops = [getattr(me, 'lar', me), call.args, call.kw]
        if isinstance(ops[0], type):
            ops[0] = None
        if not pure(call.fn, call.name, call.args, call.kw, ops):
            return
        before = freeze(ops)
        tol = tolerance(call.name, ops)
        np.random.seed(seed)
        random.seed(seed)
        exempt = list(call.inplace) + [o for o in core.find_larrys(ops)
                                       if aliased(o, call.inplace)]
        res, err = self.c.tried(call.fn, *call.args, **dict(
            call.kw, inplace=exempt, name=call.name))
        first = ('raised', type(err).__name__) if err is not None else \
            ('returned', freeze(res))
        self.seen.append((call.name, before, tol,
                          (first, [freeze(t) for t in call.inplace])))
        for r in core.find_larrys(res):
            if call.keep and core.malformed(r) is None and \
               r.size <= programs.BIG and r.ndim < 6:
                self.pool.append(r)
        self.pool = [q for q in self.pool if core.malformed(q) is None]
        while len(self.pool) > 9:
            del self.pool[self.rng.randint(0, len(self.pool) - 1)]
        if not self.pool:
            self.pool.append(gen.larry(self.rng, kinds=self.kinds))


def traced(c):
    p = Traced(c, kinds='fffiibS')
    for i in range(c.rng.randint(5, 25)):
        p.step()
    return p.seen


PEER = []


def peer(scratch):
    if not PEER:
        so = [i.so for i in sys.meta_path
              if isinstance(i, bootstrap.SourceImporter)][0]
        seed = str(7 + int(sys.argv[sys.argv.index('--seed') + 1]) % 10 ** 9)
        PEER.append(subprocess.Popen(
            [sys.executable, '-s', '-B', '-R', os.path.join(
                os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                'peer.py'), so or '', scratch],
            env=dict(os.environ, PYTHONHASHSEED=seed),
            stdin=subprocess.PIPE, stdout=subprocess.PIPE))
        atexit.register(PEER[0].stdin.close)
    return PEER[0]


@R.scenario(60)
def other_hash_seed(c):
    p = peer(c.scratch)
    seedstr = '%d:%d' % (c.seed, c.rng.randint(0, 10 ** 9))
    cPickle.dump((seedstr, gen.ODD, gen.HUGE, gen.SHARED, gen.EXTREME,
                  gen.INF), p.stdin, 2)
    p.stdin.flush()
    sub = core.Case(c.prop, 'none', seedstr, c.stats, c.scratch)
    one = traced(sub)
    c.sig.update(sub.sig.digest())
    two, info = cPickle.load(p.stdout)
    if two is None:
        raise RuntimeError('the other interpreter: ' + info)
    c.stats.bump('programs repeated with another hash seed')
    if info != hash('a string'):
        c.stats.bump('  where the hashes of strings differ')
    for (n, ops, tol, a), (n2, ops2, tol2, b) in zip(one, two):
        if n != n2 or close(ops, ops2, {'': (0, 0, 0)}) is not None:
            c.stats.bump('  that differed because of the generator')
            break
        c.substance += 1
        c.stats.compared += 1
        d = close(a, b, dict(tol, equal=True))
        if d is not None:
            c.fail('%s gives something else with another hash seed: %s\n'
                   '  operands %s\n  first  %s\n  second %s' % (
                       n, d, show(ops), show(a), show(b)))


other_hash_seed.no_union = True


@R.scenario(600)
def same_values(c):
    c.shadow = Shadow(c)
    programs.program(c, c.rng.randint(3, 15))


@R.scenario(150)
def same_floats(c):
    c.shadow = Shadow(c)
    programs.program(c, c.rng.randint(3, 25), kinds='f')
