"""C30: printed forms, tables and the helpers for lists of labels."""
from __future__ import print_function
import datetime
import itertools
import re
import sys
from cStringIO import StringIO

import numpy as np

import gen
from core import Registry, flat, same_value

import la
from la.external import prettytable
from la.flabel import flattenlabel, list2index
from la.util import misc

R = Registry('C30')
QUICK = 20
THOROUGH = 20


def text(x):
    try:
        return str(x)
    except UnicodeError:
        return None


# Printed larrys -------------------------------------------------------------

@R.scenario(250)
def printed_larry(c):
    kw = {}
    if c.chance(.4):
        kw = dict(maxlen=c.rng.randint(9, 40), maxsize=400,
                  ndims=(1, 1, 2, 2, 3))
    a = gen.larry(c.rng, lkinds=gen.KINDS, **kw)
    if [e for l in a.label for e in l if text(e) is None]:
        return
    got = c.call(repr, a)
    lines = []
    for i, l in enumerate(a.label):
        lines.append('label_%d' % i)
        shown = [str(e) for e in l]
        if len(l) > 10:
            shown = shown[:3] + ['...'] + shown[-3:]
        lines += ['    ' + s for s in shown]
    want = '\n'.join(lines + ['x', repr(np.array(a.x))])
    if got != want:
        # The layout of the data is up to NumPy
        c.check(got.startswith('\n'.join(lines + ['x', ''])) and
                got[got.index('\nx\n') + 3:] in (want, repr(a.x)),
                'printed as\n%s\ninstead of\n%s' % (got, want))
    c.check(type(got) is str, 'repr is a %s' % type(got))
    c.substance += len(lines)
    c.check(c.call(str, a) == got, 'str and repr differ')


@R.scenario(40)
def printed_properties(c):
    a = gen.larry(c.rng, kinds='ffib', inf=c.choice([0, .2]))
    got = c.call(lambda q: (q.shape, q.ndim, q.size, q.dtype, q.nx, q.T.shape),
                 a, name='properties')
    x = a.x
    n = len([v for v in flat(x) if v == v and abs(v) != np.inf])
    c.check(got[:4] == (x.shape, x.ndim, x.size, x.dtype),
            lambda: 'shape, ndim, size, dtype are %r' % (got,))
    c.same_scalar(got[4], n, 'nx')
    c.check(got[5] == x.shape[::-1], 'shape of the transpose')
    c.substance += 1


# Kinds of scalars -----------------------------------------------------------

INT = [int, np.int8, np.int16, np.int32, np.int64]
FLOAT = [float, np.float32, np.float64]
NEITHER = [complex, np.complex64, np.complex128, str, np.string_, bool,
           np.bool_, unicode, tuple, list, type(None), datetime.date,
           np.ndarray, dict, la.larry]


@R.scenario(120)
def kinds_of_scalars(c):
    k = c.choice(['int', 'float', 'neither'])
    if k == 'int':
        t = c.choice(INT)
        x = t(c.choice([0, 1, -1, 7, 100, -128, c.rng.randint(-128, 127)]))
        if t is int and c.chance(.3):
            x = c.choice([sys.maxint, -sys.maxint - 1, 2 ** 40])
    elif k == 'float':
        t = c.choice(FLOAT)
        x = t(c.choice([0, -0., 1, 1.5, np.nan, np.inf, -np.inf, 1e30, 1e-40,
                        c.rng.uniform(-9, 9)]))
    else:
        t = c.choice(NEITHER)
        if t is np.ndarray:
            x = np.array(c.choice([[1], [1.5], [], [1, 2]]))
        elif t is la.larry:
            x = la.larry([1, 2.5])
        elif t is datetime.date:
            x = t(2010, 1, c.rng.randint(1, 31))
        elif t is type(None):
            x = None
        elif t in (str, unicode, np.string_):
            x = t(c.choice(['', 'a', '1', '1.5', 'nan']))
        elif t in (tuple, list, dict):
            x = t(c.choice([(), ((1, 2),)]))
        else:
            x = t(c.choice([0, 1]))
    want = dict(isint=k == 'int', isfloat=k == 'float',
                isscalar=k != 'neither', isstring=t in (str, np.string_))
    for name in c.rng.sample(sorted(want), 4):
        got = c.call(getattr(misc, name), x)
        c.check(bool(got) == want[name] and type(got) in (bool, np.bool_),
                lambda: '%s of the %s %r is %r' % (name, t.__name__, x, got))
        c.substance += 1


# Lists of labels ------------------------------------------------------------

@R.scenario(200)
def flattened_labels(c):
    shape = gen.shape(c.rng, zero=.1)
    label = [gen.labels(c.rng, n, kinds=gen.KINDS) for n in shape]
    order = c.choice('CF')
    if c.chance(.1):
        c.raises(flattenlabel, label, c.choice(['X', 'c', None, 'A']),
                 exc=ValueError)
        return
    kw = {} if order == 'C' and c.chance(.5) else dict(order=order)
    arg = tuple(label) if c.chance(.2) else label
    got = c.call(flattenlabel, arg, **kw)
    if order == 'C':
        want = list(itertools.product(*label))
    else:
        want = [t[::-1] for t in itertools.product(*label[::-1])]
    c.check(type(got) is list and len(got) == 1 and type(got[0]) is list,
            'flattenlabel returned %r' % (got,))
    got = got[0]
    c.check(got == want and [[type(e) for e in t] for t in got] ==
            [[type(e) for e in t] for t in want] and
            [type(t) for t in got] == [tuple] * len(got),
            lambda: 'flattenlabel in %s order is %r instead of %r' % (
                order, got, want))
    x = np.arange(int(np.prod(shape))).reshape(shape)
    if x.size:
        # The same order as that of the data of a larry
        y = c.call(la.larry(x, label).flatten, order)
        c.check(y.label == [want] and y.x.tolist() ==
                x.ravel(order).tolist(), 'flatten in order %s' % order)
    c.substance += len(want) + 1


@R.scenario(250)
def indices_of_lists(c):
    n = c.choice([0, 1, 2, 3, 5, 8, 13, 40])
    pool = gen.labels(c.rng, c.rng.randint(1, max(1, n)),
                      kinds=[k for k in gen.KINDS if k != 'weird'])
    l = [c.choice(pool) for i in range(n)] if pool else []
    arg = tuple(l) if c.chance(.3) else l
    index, unique = c.call(list2index, arg)
    index = list(index)
    c.check(unique == sorted(set(l)), 'unique labels are %r' % (unique,))
    c.check(len(index) == n and [unique[i] for i in index] == l and
            all([0 <= i < len(unique) for i in index]),
            lambda: 'index %r into %r of %r' % (index, unique, l))
    c.substance += n + 1


@R.scenario(250)
def arrays_from_lists(c):
    ndim = c.choice([1, 1, 2, 2, 2, 3, 4])
    if c.chance(.03):
        x, label = c.call(misc.fromlists, [], [])
        c.check(x.shape == (0,) and label is None,
                'fromlists of nothing is %r, %r' % (x, label))
        return
    axes = []
    for i in range(ndim):
        axes.append(gen.labels(c.rng, c.rng.randint(1, 5), kinds=[
            k for k in gen.KINDS if k != 'weird']))
    cells = list(itertools.product(*axes))
    c.rng.shuffle(cells)
    cells = cells[:c.rng.randint(1, len(cells))]
    xs = gen.values(c.rng, len(cells), c.choice(['float64', 'float64',
                                                 'int64', 'bool']))
    labels = [tuple([t[i] for t in cells]) for i in range(ndim)]
    if c.chance(.3):
        labels = [list(l) for l in labels]
    arg = tuple(xs) if c.chance(.3) else list(xs)
    x, label = c.call(misc.fromlists, arg, labels)
    c.check(label == [sorted(set(l)) for l in labels],
            'labels are %r' % (label,))
    want = np.empty([len(l) for l in label])
    want.fill(np.nan)
    for t, v in zip(cells, xs):
        want[tuple([l.index(e) for l, e in zip(label, t)])] = v
    c.same_array(x, want, 'fromlists')


@R.scenario(40)
def random_strings(c):
    n = c.choice([0, 1, 2, 4, 8, 50])
    got = [c.call(misc.randstring, n) for i in range(3)]
    for s in got:
        c.check(type(s) is str and len(s) == n and
                re.match('^[a-zA-Z0-9]*$', s),
                'random string of length %d is %r' % (n, s))
    c.check(n < 8 or len(set(got)) == 3, 'repeated: %r' % (got,))
    c.substance += 1


# Tables ---------------------------------------------------------------------

def cell(c, lines=True):
    k = c.choice([0, 1, 1, 2, 2, 2, 3])
    words = [''.join([c.choice('abcXYZ019.,()-_')
                      for j in range(c.rng.randint(1, 9))]) for i in range(k)]
    s = ' '.join(words)
    if lines and c.chance(.15):
        s += '\n' + ''.join([c.choice('pqr') for j in range(
            c.rng.randint(1, 9))])
    return s


@R.scenario(120)
def tables(c):
    m, n = c.rng.randint(1, 6), c.rng.randint(1, 5)
    rows = [[cell(c) for j in range(n)] for i in range(m)]
    kw = {}
    if c.chance(.6):
        kw['hasHeader'] = c.chance(.6)
    if c.chance(.4):
        kw['separateRows'] = True
    if c.chance(.4):
        kw['headerChar'] = c.choice('-=*')
    if c.chance(.5):
        kw['delim'] = c.choice(['  ', ' | ', '|', ' '])
    if c.chance(.5):
        kw['justify'] = c.choice(['left', 'right', 'center', 'LEFT'])
    if c.chance(.3):
        kw['prefix'], kw['postfix'] = '| ', ' |'
    got = c.call(prettytable.indent, rows, **kw)
    physical = []
    for r in rows:
        parts = [s.split('\n') for s in r]
        h = max([len(p) for p in parts])
        physical.append([[(p + [''] * h)[k] for p in parts]
                         for k in range(h)])
    width = [max([len(p[j]) for r in physical for p in r]) for j in range(n)]
    just = {'left': str.ljust, 'right': str.rjust, 'center': str.center}[
        kw.get('justify', 'left').lower()]
    pre, post = kw.get('prefix', ''), kw.get('postfix', '')
    delim = kw.get('delim', ' | ')
    rule = kw.get('headerChar', '-') * (
        len(pre) + len(post) + sum(width) + len(delim) * (n - 1))
    want = [rule] if kw.get('separateRows') else []
    header = kw.get('hasHeader', False)
    for r in physical:
        for p in r:
            want.append(pre + delim.join([just(s, w) for s, w in
                                          zip(p, width)]) + post)
        if kw.get('separateRows') or header:
            want.append(rule)
        header = False
    c.check(got == '\n'.join(want) + '\n', lambda: 'table\n%s\ninstead of\n%s'
            % (got, '\n'.join(want)))
    c.substance += m * n


@R.scenario(80)
def wrapped_text(c):
    width = c.rng.randint(1, 12)
    s = cell(c) + c.choice(['', ' ' + cell(c)])
    got = c.call(prettytable.wrap_always, s, width)
    if '\n' not in s:
        parts = got.split('\n') if s else []
        c.check(''.join(parts) == s and
                all([len(p) == width for p in parts[:-1]]) and
                (not parts or 0 < len(parts[-1]) <= width),
                lambda: '%r wrapped at %d is %r' % (s, width, got))
    got = c.call(prettytable.wrap_onspace, s, width)
    c.check(got.replace('\n', ' ') == s.replace('\n', ' ') and
            len(got) == len(s), lambda: '%r wrapped at %d is %r' % (s, width,
                                                                   got))
    for line in got.split('\n'):
        c.check(len(line) <= width or len(line.split()) <= 1 or
                max([len(w) for w in line.split()]) >= width,
                lambda: '%r wrapped at %d has the line %r' % (s, width, line))
    c.substance += 1


@R.scenario(4)
def information(c):
    out, sys.stdout = sys.stdout, StringIO()
    try:
        c.call(la.info)
        got = sys.stdout.getvalue()
    finally:
        sys.stdout = out
    rows = dict([re.split('  +', l.strip(), 1) for l in got.splitlines()
                 if l.strip()])
    import bottleneck
    import h5py
    fast = 'la.cflabel' in sys.modules
    kind = 'Faster C version' if fast else 'Slower Python version'
    want = {'la': la.__version__, 'la file': la.__file__,
            'NumPy': np.__version__, 'Bottleneck': bottleneck.__version__,
            'HDF5 archiving': 'Available (h5py %s)' % h5py.version.version,
            'listmap': kind, 'listmap_fill': kind}
    c.check(rows == want, lambda: 'info is %r instead of %r' % (rows, want))
    c.substance += 1
