"""Monitors, case context and comparison oracles shared by all checks."""
from __future__ import division, print_function
import datetime
import hashlib
import math
import random
import sys
import traceback
import types

import numpy as np

np.seterr(all='ignore')
import warnings
warnings.simplefilter('ignore')


class Violation(Exception):
    def __init__(self, prop, msg):
        Exception.__init__(self, '%s: %s' % (prop, msg))
        self.prop = prop
        self.msg = msg


class LaRaised(Exception):
    "An exception that came out of a monitored call."
    def __init__(self, exc, tb):
        Exception.__init__(self, '%s: %s' % (type(exc).__name__, exc))
        self.exc = exc
        self.tb = tb


class Skip(Exception):
    "The generated case turned out to be outside the property."


_larry = None


def larry_class():
    global _larry
    if _larry is None:
        import la
        _larry = la.larry
    return _larry


# Snapshots ------------------------------------------------------------------

def arr_sig(x):
    "Everything observable about an array."
    if x.dtype == object:
        body = tuple(x.ravel().tolist())
        body = repr([(type(b).__name__, b) for b in body])
    else:
        body = x.tostring()     # C order copy of the bytes
    return (x.shape, x.dtype.str, body)


def lab_sig(label):
    return [[(type(e), e) for e in l] if type(l) is list else repr(l)
            for l in label]


def snapshot(obj, depth=0):
    L = larry_class()
    if isinstance(obj, L):
        x = obj.x
        xs = arr_sig(x) if isinstance(x, np.ndarray) else repr(x)
        return ('larry', xs, lab_sig(obj.label))
    if isinstance(obj, np.ndarray):
        return ('array', arr_sig(obj))
    if isinstance(obj, (list, tuple)) and depth < 3:
        return (type(obj).__name__, [snapshot(o, depth + 1) for o in obj])
    if isinstance(obj, dict) and depth < 3:
        return ('dict', sorted([(repr(k), snapshot(v, depth + 1))
                                for k, v in obj.items()]))
    if isinstance(obj, (set, frozenset)):
        return ('set', sorted([repr(o) for o in obj]))
    if isinstance(obj, slice):
        return ('slice', [snapshot(o, depth + 1) for o in
                          (obj.start, obj.stop, obj.step)])
    if isinstance(obj, (types.FunctionType, types.BuiltinFunctionType,
                        types.MethodType, np.ufunc, type)):
        return ('func', getattr(obj, '__name__', ''))
    if type(obj).__name__ in ('File', 'IO', 'lara'):
        # An archive, which is not an operand: its repr would read the file
        return (type(obj).__name__, '')
    return (type(obj).__name__, repr(obj))


def find_larrys(obj, depth=0):
    L = larry_class()
    if isinstance(obj, L):
        return [obj]
    out = []
    if isinstance(obj, (list, tuple)) and depth < 3:
        for o in obj:
            out.extend(find_larrys(o, depth + 1))
    elif isinstance(obj, dict) and depth < 3:
        for o in obj.values():
            out.extend(find_larrys(o, depth + 1))
    return out


def malformed(lar):
    "None if lar is a well formed larry, else what is wrong with it."
    x, label = lar.x, lar.label
    if not isinstance(x, np.ndarray):
        return 'data is a %s, not an array' % type(x).__name__
    if x.ndim < 1:
        return 'zero dimensions'
    if type(label) is not list:
        return 'label is a %s, not a list' % type(label).__name__
    if len(label) != x.ndim:
        return '%d label lists for %d dimensions' % (len(label), x.ndim)
    for i, l in enumerate(label):
        if type(l) is not list:
            return 'label of axis %d is a %s' % (i, type(l).__name__)
        if len(l) != x.shape[i]:
            return ('%d labels along axis %d of length %d' %
                    (len(l), i, x.shape[i]))
        try:
            if len(set(l)) != len(l):
                return 'repeated label along axis %d: %r' % (i, l)
        except TypeError:
            return 'unhashable label along axis %d' % i
    return None


def show(obj, n=700):
    L = larry_class()
    if isinstance(obj, L):
        try:
            s = 'larry(%s, %s, %s%s)' % (
                repr(obj.x.tolist()), repr(obj.label), obj.x.dtype.str,
                '' if obj.x.flags['C_CONTIGUOUS'] else ', strides=%r' %
                (obj.x.strides,))
        except Exception:
            s = object.__repr__(obj)
    elif isinstance(obj, np.ndarray):
        s = 'array(%r, %s)' % (obj.tolist(), obj.dtype.str)
    elif isinstance(obj, (list, tuple)):
        s = '[%s]' % ', '.join([show(o, n) for o in obj])
    elif hasattr(obj, 'filename'):
        s = '%s(%r)' % (type(obj).__name__, obj.filename)
    else:
        s = repr(obj)
    return s if len(s) <= n else s[:n] + '...'


# Value comparison -----------------------------------------------------------

def flat(x):
    "Elements of an array in C order as a list of python objects."
    return [x[i] for i in np.ndindex(*x.shape)] if x.dtype.kind not in 'fiubSc' \
        else x.ravel().tolist()


def same_value(a, b, rtol=0.0, atol=0.0):
    if a is b:
        return True
    try:
        if isinstance(a, (float, np.floating)) or \
           isinstance(b, (float, np.floating)):
            if a != a or b != b:
                return bool(a != a) and bool(b != b)
            if a == b:
                return True
            if math.isinf(a) or math.isinf(b):
                return False
            return abs(a - b) <= atol + rtol * max(abs(a), abs(b))
        if isinstance(a, (complex, np.complexfloating)) or \
           isinstance(b, (complex, np.complexfloating)):
            return (same_value(a.real, b.real, rtol, atol) and
                    same_value(a.imag, b.imag, rtol, atol))
        return bool(a == b)
    except (TypeError, AttributeError, ValueError, OverflowError):
        return False


def diff_arrays(got, want, rtol=0.0, atol=0.0, dtype=True):
    "None if equal, else a description of the first difference."
    if not isinstance(got, np.ndarray):
        return 'got a %s instead of an array' % type(got).__name__
    if got.shape != want.shape:
        return 'shape is %r instead of %r' % (got.shape, want.shape)
    if dtype is True and got.dtype != want.dtype:
        return 'dtype is %s instead of %s' % (got.dtype, want.dtype)
    if dtype == 'kind' and got.dtype.kind != want.dtype.kind:
        return 'dtype is %s instead of %s' % (got.dtype, want.dtype)
    if dtype == 'kindstr' and got.dtype.kind != want.dtype.kind:
        return 'dtype is %s instead of %s' % (got.dtype, want.dtype)
    if got.dtype == want.dtype and got.dtype.kind in 'iubS':
        if not (got == want).all():
            pass
        else:
            return None
    g, w = flat(got), flat(want)
    for i, (a, b) in enumerate(zip(g, w)):
        if not same_value(a, b, rtol, atol):
            pos = np.unravel_index(i, want.shape)
            return ('value at %r is %r instead of %r' %
                    (tuple([int(p) for p in pos]), a, b))
    return None


def diff_larry(got, label, x, rtol=0.0, atol=0.0, dtype=True, types_=False):
    L = larry_class()
    if not isinstance(got, L):
        return 'got %s instead of a larry' % show(got, 200)
    bad = malformed(got)
    if bad is not None:
        return 'malformed result: ' + bad
    if got.label != label:
        return 'label is %s instead of %s' % (show(got.label), show(label))
    if types_:
        a = [[type(e) for e in l] for l in got.label]
        b = [[type(e) for e in l] for l in label]
        if a != b:
            return 'label types are %r instead of %r' % (a, b)
    return diff_arrays(got.x, x, rtol, atol, dtype)


# Case context ---------------------------------------------------------------

class Stats(object):
    def __init__(self):
        self.calls = {}
        self.raised = 0
        self.compared = 0
        self.snapshots = 0
        self.wellformed = 0
        self.elements = 0
        self.extra = {}

    def bump(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def todict(self):
        d = dict(operations=self.calls, exceptions_observed=self.raised,
                 results_compared=self.compared,
                 operand_snapshots_compared=self.snapshots,
                 larrys_checked_well_formed=self.wellformed,
                 values_compared=self.elements)
        d.update(self.extra)
        return d


WARM = 0.06     # Probability that a call is preceded by a warm up
EXTERNAL = ('C24', 'C25', 'C26', 'C28')     # Calls act on files, servers
PLAIN = (int, long, float, str, bool, tuple, datetime.date, datetime.time,
         datetime.datetime, np.int64)


def plain(l):
    return all([type(e) in PLAIN for e in l])


class Case(object):
    """One generated execution.

    prop   : the property whose scenario this is
    decide : the property that is being decided; the operand and
             well-formedness monitors report only if they are asked to
             decide, functional differences only if prop == decide.
    """

    def __init__(self, prop, decide, seedstr, stats, scratch=None):
        self.prop = prop
        self.decide = decide
        h = hashlib.md5(seedstr.encode('ascii')).hexdigest()
        self.seed = int(h[:15], 16)
        self.rng = random.Random(self.seed)
        self.warm = random.Random(self.seed + 1)
        np.random.seed(int(h[:8], 16) % (2 ** 32))
        self.stats = stats
        self.trace = []
        self.sig = hashlib.md5()
        self.substance = 0
        self.scratch = scratch
        self.incall = False
        self.shadow = None      # Repeats calls, see c29.py

    # Calls into la

    def call(self, fn, *args, **kwargs):
        """fn(*args, **kwargs) under the monitors.

        Keyword `inplace` lists the operands that the call may change, and
        `name` the name used in reports. Exceptions are passed on as LaRaised.
        """
        inplace = kwargs.pop('inplace', ())
        name = kwargs.pop('name', None)
        monitor = kwargs.pop('monitor', True)
        extra = kwargs.pop('operands', ())
        if name is None:
            name = getattr(fn, '__name__', str(fn))
        self.stats.calls[name] = self.stats.calls.get(name, 0) + 1
        ops = list(args) + [kwargs[k] for k in sorted(kwargs)] + list(extra)
        me = getattr(fn, 'im_self', None)
        if me is not None:
            ops.insert(0, me)
        self.trace.append('%s(%s)' % (name, ', '.join([show(o, 300)
                                                       for o in ops])))
        if self.prop == self.decide and self.warm.random() < WARM and \
           self.prop not in EXTERNAL:
            self.warm_up(fn, args, kwargs, ops + list(inplace))
        before = [snapshot(o) for o in ops]
        self.sig.update(repr((name, before)))
        larrys = find_larrys(ops)
        record = None
        if self.shadow is not None:
            record = self.shadow.before(fn, args, kwargs, ops, inplace, name)
        self.incall = True
        try:
            try:
                res = fn(*args, **kwargs)
                if isinstance(res, types.GeneratorType):
                    res = list(res)
                err = None
            except (KeyboardInterrupt, SystemExit, MemoryError, Watchdog):
                raise
            except Exception as e:
                res = None
                err = LaRaised(e, traceback.format_exc())
                self.stats.raised += 1
        finally:
            self.incall = False
        # Drops the frames of la now; to drop arrays may clear an exception
        sys.exc_clear()
        if record is not None:
            self.shadow.after(record, res, err)
        if monitor:
            for o, b in zip(ops, before):
                if any([o is p for p in inplace]):
                    continue
                self.stats.snapshots += 1
                a = snapshot(o)
                if a != b:
                    self.report('C03', '%s changed an operand, now %s%s' % (
                        name, show(o), '' if err is None else
                        ' (and raised %s)' % err))
            for o in larrys:
                bad = malformed(o)
                self.stats.wellformed += 1
                if bad is not None:
                    self.report('C01', 'operand of %s is malformed after the '
                                'call: %s' % (name, bad))
            for o in find_larrys(res):
                bad = malformed(o)
                self.stats.wellformed += 1
                if bad is not None:
                    self.report('C01', '%s returned a malformed larry: %s' %
                                (name, bad))
        if err is not None:
            self.trace.append('  raised %s' % err)
            raise err
        return res

    def warm_up(self, fn, args, kwargs, ops):
        """Do the call with the operands holding other labels and values.

        All operands are put back, in place, to what they were, so that the
        monitored call that follows shows if anything was remembered.
        """
        me = getattr(fn, 'im_self', None)
        if isinstance(fn, types.MethodType):
            if not isinstance(me, larry_class()):
                return
        elif not isinstance(fn, types.FunctionType) or fn.__closure__:
            if not isinstance(fn, types.BuiltinFunctionType):
                return
        for o in list(args) + list(kwargs.values()):
            if type(o) is not larry_class() and (
                    callable(o) or hasattr(o, 'write')):
                return
        larrys = find_larrys(ops)
        arrays = [o for o in ops if isinstance(o, np.ndarray)]
        lists = [o for o in ops if type(o) is list and plain(o)]
        if not (larrys or lists):
            return
        arrays += [o.x for o in larrys if isinstance(o.x, np.ndarray)]
        outer = [(o, o.x, o.label, list(o.label)) for o in larrys]
        lists += [l for o in larrys for l in o.label if type(l) is list]
        if [x for x in arrays if not x.flags.writeable]:
            return
        arrays = [(x, x.copy()) for x in arrays]
        lists = [(l, list(l)) for l in lists]
        state = np.random.get_state()
        for l, was in lists:
            self.warm.shuffle(l)
        for x, was in arrays:
            v = was.ravel()
            if v.size:
                v = np.roll(v, self.warm.randint(0, v.size - 1))
                x[...] = v.reshape(x.shape)
        self.stats.bump('calls_repeated_with_other_contents')
        try:
            res = fn(*args, **kwargs)
            if isinstance(res, types.GeneratorType):
                list(res)
        except (KeyboardInterrupt, SystemExit, MemoryError, Watchdog):
            raise
        except Exception:
            pass
        for o, x, label, inner in outer:
            o.x = x
            label[:] = inner
            o.label = label
        for l, was in lists:
            l[:] = was
        for x, was in arrays:
            x[...] = was
        np.random.set_state(state)

    def raises(self, fn, *args, **kwargs):
        "The call has to raise (one of `exc`, if given)."
        exc = kwargs.pop('exc', Exception)
        why = kwargs.pop('why', '')
        try:
            res = self.call(fn, *args, **kwargs)
        except LaRaised as e:
            self.substance += 1
            self.stats.compared += 1
            if not isinstance(e.exc, exc):
                self.fail('raised %s, expected %r %s' % (e, exc, why))
            return e.exc
        self.fail('did not raise %s but returned %s' % (why, show(res)))

    def tried(self, fn, *args, **kwargs):
        "(result, None) or (None, exception)."
        try:
            return self.call(fn, *args, **kwargs), None
        except LaRaised as e:
            return None, e.exc

    # Verdicts

    def report(self, prop, msg):
        if prop == self.decide:
            raise Violation(prop, msg)

    def fail(self, msg):
        raise Violation(self.prop, msg)

    def check(self, cond, msg):
        self.stats.compared += 1
        if not cond:
            self.fail(msg() if callable(msg) else msg)

    def same(self, got, label, x, what='', rtol=0.0, atol=0.0, dtype=True,
             types_=False):
        self.stats.compared += 1
        x = np.asarray(x)
        self.stats.elements += x.size
        self.substance += x.size
        d = diff_larry(got, label, x, rtol, atol, dtype, types_)
        if d is not None:
            self.fail('%s: %s\n  got  %s\n  want larry(%s, %s)' %
                      (what, d, show(got), show(x), show(label)))

    def same_array(self, got, x, what='', rtol=0.0, atol=0.0, dtype=True):
        self.stats.compared += 1
        x = np.asarray(x)
        self.stats.elements += x.size
        self.substance += x.size
        d = diff_arrays(got, x, rtol, atol, dtype)
        if d is not None:
            self.fail('%s: %s\n  got  %s\n  want %s' %
                      (what, d, show(got), show(x)))

    def same_scalar(self, got, want, what='', rtol=0.0, atol=0.0):
        self.stats.compared += 1
        self.stats.elements += 1
        self.substance += 1
        if isinstance(got, np.ndarray) or larry_class() is type(got):
            if isinstance(got, np.ndarray) and got.ndim == 0:
                got = got[()]
            else:
                self.fail('%s: got %s instead of the scalar %r' %
                          (what, show(got), want))
        if not same_value(got, want, rtol, atol):
            self.fail('%s: got %r instead of %r' % (what, got, want))

    # Random choices

    def choice(self, seq):
        return self.rng.choice(seq)

    def chance(self, p):
        return self.rng.random() < p


class Watchdog(Exception):
    pass


# Scenario registry ----------------------------------------------------------

class Registry(object):
    def __init__(self, prop):
        self.prop = prop
        self.scenarios = []     # (name, function, quick cases)
        self.required = []      # operation names that must have been called

    def scenario(self, n, tags=()):
        def deco(fn):
            self.scenarios.append((fn.__name__, fn, n))
            return fn
        return deco
