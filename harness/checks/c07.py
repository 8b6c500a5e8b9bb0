"""C07: scalar and array operands, element-wise functions."""
from __future__ import print_function
import datetime
import operator

import numpy as np

import gen
import model
from core import Registry, malformed
from known import finding
from checks.c06 import ARITH, LOGIC, COMP, NPF

R = Registry('C07')


def scalar(c, x, name):
    k = c.choice(['int', 'int', 'float', 'float', 'np', 'bool', 'nan', 'zero'])
    r = c.rng
    if k == 'int':
        return r.randint(-7, 7)
    if k == 'float':
        return r.randint(-40, 40) / 8.0
    if k == 'np':
        return c.choice([np.float64, np.int64, np.float32])(r.randint(-9, 9))
    if k == 'bool':
        return c.choice([True, False])
    if k == 'nan':
        return c.choice([float('nan'), float('inf'), -float('inf')])
    return c.choice([0, 0.0])


def boolboth(x, y):
    return x.dtype.kind == 'b' and np.asarray(y).dtype.kind == 'b'


def want_op(name, x, y):
    if name in NPF:
        return NPF[name](x, y)


def binary(c, name, op, a, y, right):
    if right:
        want = NPF[name](y, a.x)
        got = c.call(op, y, a, name='operator.r' + name)
    else:
        want = NPF[name](a.x, y)
        got = c.call(op, a, y, name='operator.' + name)
    c.same(got, a.label, want, '%s %r' % (name, right))


@R.scenario(1500)
def scalars(c):
    a = gen.larry(c.rng, kinds='fffiib' if c.chance(.95) else 'c',
                  inf=c.choice([0, .1]))
    name, op = c.choice(ARITH + LOGIC + COMP)
    y = scalar(c, a.x, name)
    if boolboth(a.x, y) and name in ('sub', 'floordiv', 'div', 'truediv'):
        name, op = c.choice(LOGIC)
    right = c.chance(.4)
    if right and isinstance(y, np.generic):
        y = y.item()        # numpy scalars on the left are numpy's business
    if right and name in ('lt', 'gt', 'le', 'ge', 'eq', 'ne'):
        right = False
    binary(c, name, op, a, y, right)


@R.scenario(1200)
def arrays(c):
    a = gen.larry(c.rng, kinds='fffiib' if c.chance(.95) else 'c',
                  inf=c.choice([0, .1]))
    # An operand that broadcasts to the shape of the larry
    shp = list(a.shape)
    how = c.choice(['same', 'same', 'ones', 'tail'])
    if how == 'ones':
        for i in range(len(shp)):
            if c.chance(.5):
                shp[i] = 1
    elif how == 'tail':
        shp = shp[c.rng.randint(0, len(shp)):]
        shp = [1 if c.chance(.2) else s for s in shp]
    y = gen.array(c.rng, tuple(shp), kinds='ffiib' if c.chance(.97) else 'c')
    name, op = c.choice(ARITH + LOGIC + COMP)
    if boolboth(a.x, y) and name in ('sub', 'floordiv', 'div', 'truediv'):
        name, op = c.choice(LOGIC)
    right = c.chance(.4) and name not in ('lt', 'gt', 'le', 'ge', 'eq', 'ne')
    if y.ndim == 0:
        right = False
    binary(c, name, op, a, y, right)


@R.scenario(250)
def objects(c):
    "The order of the operands matters for object data."
    a = gen.larry(c.rng, dt='object', nan=0)
    k = c.choice(['str', 'str', 'date', 'delta', 'logic', 'mul', 'compare'])
    n = lambda: c.rng.randint(1, 9)
    word = lambda: c.choice(['', 'a', 'bc', 'X1'])
    make, other, names = {
        'str': (word, word, ['add']),
        'date': (lambda: datetime.date(2001, 1, n()),
                 lambda: datetime.timedelta(n()), ['add', 'sub']),
        'delta': (lambda: datetime.timedelta(n()),
                  lambda: datetime.timedelta(n()), ['add', 'sub']),
        'logic': (lambda: c.choice([word(), n(), 0, None]),
                  lambda: c.choice([word(), n(), 0]), ['and', 'or']),
        'mul': (word, n, ['mul']),
        'compare': (word, word, ['eq', 'ne', 'lt', 'le', 'gt', 'ge'])}[k]
    for i in np.ndindex(*a.shape):
        a.x[i] = make()
    y = other()
    if k in ('date', 'delta') or c.chance(.5):
        y = np.empty(a.shape, object)
        for i in np.ndindex(*a.shape):
            y[i] = other()
    name = c.choice(names)
    op = dict(ARITH + LOGIC + COMP)[name]
    right = c.chance(.5) and k != 'compare'
    if k == 'date' and name == 'sub':
        right = False
    want = np.empty(a.shape, object if k != 'compare' else bool)
    f = {'and': lambda p, q: p and q, 'or': lambda p, q: p or q}.get(name, op)
    for i in np.ndindex(*a.shape):
        v = y[i] if isinstance(y, np.ndarray) else y
        want[i] = f(v, a.x[i]) if right else f(a.x[i], v)
    if right:
        got = c.call(op, y, a, name='operator.r%s object' % name)
    else:
        got = c.call(op, a, y, name='operator.%s object' % name)
    c.same(got, a.label, want, '%s %r' % (name, right))


@R.scenario(250)
def reflected_comparison(c):
    "scalar < larry: python turns it round."
    a = gen.larry(c.rng, kinds='ffi')
    y = c.rng.randint(-9, 9)
    name, op = c.choice(COMP)
    c.same(c.call(op, y, a, name='operator.r' + name), a.label,
           NPF[name](y, a.x), 'reflected ' + name)


@R.scenario(250)
def sequences(c):
    "Comparisons with lists and tuples."
    a = gen.larry(c.rng, kinds='ffi', zero=0)
    name, op = c.choice(COMP)
    k = c.rng.randint(0, a.ndim - 1)
    y = gen.array(c.rng, a.shape[k:], kinds='fi').tolist()
    if c.chance(.5):
        y = tuple(y)
    c.same(c.call(op, a, y, name='operator.%s list' % name), a.label,
           NPF[name](a.x, np.asarray(y)), name)


@R.scenario(200)
def string_comparison(c):
    a = gen.larry(c.rng, kinds='S')
    name, op = c.choice(COMP)
    y = c.choice([a.x.flat[0] if a.size else 'q', 'X', 'abc'])
    y = str(y)
    want = np.zeros(a.shape, bool)
    for i in np.ndindex(*a.shape):
        want[i] = op(str(a.x[i]), y)
    got, err = c.tried(op, a, y, name='operator.%s str' % name)
    if err is not None or not hasattr(got, 'label'):
        # NumPy 1.8 does not compare string arrays with strings except == !=
        if name in ('eq', 'ne'):
            c.check(a.size == 0, 'string comparison failed: %r' % (err or got))
        return
    c.same(got, a.label, want, name)


@R.scenario(200)
def bad_operands(c):
    a = gen.larry(c.rng, kinds='ffi')
    name, op = c.choice(ARITH + LOGIC + COMP)
    y = c.choice([None, {}, set([1]), object(), {'a': 1}, Ellipsis,
                  frozenset([2])])
    if name in ('add', 'sub', 'mul', 'div', 'truediv', 'floordiv', 'and',
                'or') and c.chance(.4):
        y = c.choice([[1], (1, 2), [[1.0]]])
    x = a
    if c.chance(.4) and (name, op) not in COMP:
        x, y = y, x
    c.raises(op, x, y, name='operator.%s bad' % name, exc=TypeError)


UNARY = {'log': (np.log, 'fi'), 'exp': (np.exp, 'fi'),
         'sqrt': (np.sqrt, 'fi'), 'sign': (np.sign, 'fi'),
         'abs': (np.absolute, 'fib'), 'isnan': (np.isnan, 'fib'),
         'isfinite': (np.isfinite, 'fib'), 'isinf': (np.isinf, 'fib')}


@R.scenario(900)
def unary(c):
    name = c.choice(sorted(UNARY))
    f, kinds = UNARY[name]
    a = gen.larry(c.rng, kinds=kinds, inf=c.choice([0, .15]))
    got = c.call(getattr(a, name))
    want = f(a.x)
    c.same(got, a.label, want, name, rtol=1e-14)
    # Element by element, in scalar arithmetic
    for i in np.ndindex(*a.shape):
        v = f(a.x.dtype.type(a.x[i]))
        c.check(np.allclose(v, got.x[i], equal_nan=True) if False else
                (v != v and got.x[i] != got.x[i]) or v == got.x[i] or
                abs(v - got.x[i]) <= 1e-6 * abs(v),
                '%s: %r at %r instead of %r' % (name, got.x[i], i, v))


@R.scenario(250)
def absneg(c):
    a = gen.larry(c.rng, kinds='fi', inf=c.choice([0, .15]))
    k = c.choice(['abs', 'neg', 'pos'])
    f = {'abs': abs, 'neg': operator.neg, 'pos': operator.pos}[k]
    g = {'abs': np.absolute, 'neg': np.negative, 'pos': lambda x: x}[k]
    c.same(c.call(f, a, name='operator.' + k), a.label, g(a.x), k)


@R.scenario(250)
def power(c):
    a = gen.larry(c.rng, kinds='ffi', pos=c.chance(.5))
    q = c.choice([0, 1, 2, 3, -1, .5, 2.0, -.5, 1.5])
    if a.x.dtype.kind in 'iu' and q == -1:
        q = 2
    want = np.power(a.x, q)
    if c.chance(.5):
        got = c.call(a.power, q)
    else:
        got = c.call(operator.pow, a, q, name='operator.pow')
    c.same(got, a.label, want, 'power', rtol=1e-14)


@R.scenario(350)
def clip(c):
    a = gen.larry(c.rng, kinds='ffi', inf=c.choice([0, .1]))
    lo, hi = c.rng.randint(-6, 6), c.rng.randint(-6, 6)
    if a.x.dtype.kind == 'f':
        lo, hi = lo / 2.0, hi / 2.0
    if a.x.dtype.kind == 'u':
        lo, hi = abs(lo), abs(hi)
    if lo > hi:
        c.raises(a.clip, lo, hi)
        return
    want = a.x.copy()
    for i in np.ndindex(*a.shape):
        v = a.x[i]
        if v < lo:
            want[i] = lo
        elif v > hi:
            want[i] = hi
    c.same(c.call(a.clip, lo, hi), a.label, want, 'clip')


@R.scenario(200)
def invert(c):
    a = gen.larry(c.rng, kinds='bbbfiS')
    op = c.choice([operator.invert, a.invert])
    args = (a,) if op is operator.invert else ()
    if a.x.dtype.kind == 'b':
        want = np.zeros(a.shape, bool)
        for i in np.ndindex(*a.shape):
            want[i] = not a.x[i]
        c.same(c.call(op, *args, name='invert'), a.label, want, 'invert')
    else:
        c.raises(op, *args, name='invert', exc=TypeError)


@R.scenario(250)
def astype(c):
    a = gen.larry(c.rng, kinds='ffibSO' if c.chance(.2) else 'ffib', nan=0)
    dt = c.choice([float, int, bool, 'float32', 'i4', object, 'S8', complex])
    if a.dtype.kind == 'S' and np.dtype(dt).kind not in 'SO':
        # Strings that are no numbers turn into whatever was in memory
        a.x[...] = [c.choice(['1', '23', '0']) for i in range(a.x.shape[-1])]
    try:
        want = a.x.astype(dt)
    except (ValueError, TypeError):
        c.raises(a.astype, dt)
        return
    c.same(c.call(a.astype, dt), a.label, want, 'astype')


@R.scenario(120)
def too_large_operand(c):
    """An array that does not broadcast to the shape of the larry raises, or
    the result is at least well formed."""
    a = gen.larry(c.rng, kinds='fi', zero=0)
    if c.chance(.5):
        y = gen.array(c.rng, (2,) + a.shape, kinds='fi')
    else:
        shp = list(a.shape)
        ax = c.rng.randint(0, a.ndim - 1)
        shp[ax] += c.rng.randint(1, 2)
        y = gen.array(c.rng, tuple(shp), kinds='fi')
    name, op = c.choice(ARITH + LOGIC + COMP)
    got, err = c.tried(op, a, y, name='operator.%s large' % name,
                       monitor=False)
    if err is not None:
        c.substance += 1
        return
    if name in ('eq', 'ne', 'lt', 'gt', 'le', 'ge') and \
       not hasattr(got, 'label'):
        return          # NumPy compares arrays of different shapes as a whole
    if malformed(got) is None:
        c.fail('operand of shape %r was accepted: %r' % (y.shape, got))
    # The data has a larger shape than the labels of the result
    if got.label == a.label and got.x.shape == np.broadcast(a.x, y).shape:
        finding(c, 'operand-broadcasts-larry', 'an operator with an array '
                'that broadcasts the larry to a larger shape returns a larry '
                'with fewer labels than data, e.g. larry([1]) + array([1, 2])')
    else:
        c.fail('operand of shape %r: malformed %r' % (y.shape, malformed(got)))
