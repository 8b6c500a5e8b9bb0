"""Seeded generators of labels, arrays, larrys and index expressions."""
from __future__ import division, print_function
import datetime
import string

import numpy as np

BIG = 0.012     # Probability of a shape with 40 to 800 elements along an axis
LONGER = 0.06   # Part of them with 800 to 6400
WIDE2 = 0.006   # Probability of two axes of 8 to 26
CONST = 0.01    # Probability of constant data
ZOOM = 0.0      # Probability of float64 data of another magnitude (ditto)
DEEP = 0.012    # Probability of five axes where four are possible
SHARED = 0.0    # Probability of one list as the label of two axes (ditto)
INTS = ('int64', 'int32', 'int8', 'uint8', 'int16')
FLOATS = ('float64', 'float64', 'float64', 'float32')

# Labels ---------------------------------------------------------------------

KINDS = ('range', 'perm', 'int', 'str', 'float', 'date', 'datetime', 'tuple',
         'mixed', 'long', 'bool', 'npint', 'time')
WEIRD = 0.04    # Probability of uncommon labels
HUGE = False    # Whether integers may be too large for a float
ODD = 0.0       # Probability of an uncommon dtype (set per property)
INF = 0.0       # Probability of infinite values (set per property)
EXTREME = 0.0   # Probability of floats near the limits (set per property)
COMMON = ('range', 'perm', 'int', 'str', 'str', 'date', 'float', 'tuple',
          'mixed')


def pool(rng, kind, n):
    "n distinct labels of a kind, in no particular order."
    out = []
    seen = set()
    if kind == 'range':
        return list(range(n))
    if kind == 'perm':
        out = list(range(n))
        rng.shuffle(out)
        return out
    if kind == 'bool' and n > 2:
        kind = 'int'
    span = max(4, 3 * n)
    days = min(60, 600000 // span)
    tries = 0
    plain, part = True, 0
    if kind in ('date', 'datetime', 'time', 'int', 'str', 'float'):
        plain, part = rng.random() < .85, rng.randint(0, 3)
    while len(out) < n:
        tries += 1
        if kind == 'int':
            x = rng.randint(-span, span)
            if not plain:
                x *= 2 ** 40 + 1
        elif kind == 'npint':
            x = np.int64(rng.randint(-span, span))
        elif kind == 'long':
            x = rng.randint(-span, span) * 2 ** 70
        elif kind == 'str':
            k = rng.randint(0, 3) if tries < 8 * n else rng.randint(3, 6)
            x = ''.join([rng.choice('abAB z1') for i in range(k)])
            if not plain:
                x = x * 4 + 'long label ' * part + x
        elif kind == 'float':
            x = rng.randint(-2 * span, 2 * span) / 4.0
            if not plain:
                x = x / 3 * 10.0 ** rng.randint(-12, 12)
        elif kind == 'date':
            x = datetime.date(2000, 1, 1) + datetime.timedelta(
                rng.randint(-span, span) * (1 if plain else days))
        elif kind == 'datetime':
            x = datetime.datetime(2000, 1, 1, 12) + datetime.timedelta(
                seconds=rng.randint(-span, span) * 1800,
                microseconds=rng.choice([0, 1, 999999]))
            if not plain:
                # Parts of no time at all, the same for the whole axis
                x = x.replace(**dict.fromkeys(
                    ('hour', 'minute', 'second', 'microsecond')[part:], 0))
                x += datetime.timedelta(rng.randint(-span, span) * days)
        elif kind == 'time':
            x = datetime.time(rng.randint(0, 23), rng.randint(0, 59),
                              rng.randint(0, 59), rng.choice([0, 1, 999999]))
            if not plain and part and n <= 12:
                x = x.replace(**dict.fromkeys(
                    ('hour', 'minute', 'second', 'microsecond')[part:], 0))
        elif kind == 'tuple':
            x = tuple([rng.randint(0, n) for i in range(2)])
        elif kind == 'mixed':
            x = rng.choice([rng.randint(-span, span),
                            rng.choice(string.ascii_letters) + str(tries % 7)])
        elif kind == 'bool':
            x = rng.random() < 0.5
        elif kind == 'weird':
            x = rng.choice([None, True, False, 1.5, -.25, '', 'a', u'b', u'',
                            0, 1, -1, rng.randint(-span, span),
                            rng.randint(-span, span) / 4.,
                            unicode(rng.choice(string.ascii_letters)),
                            rng.choice(string.ascii_letters)])
        else:
            raise ValueError(kind)
        if x not in seen:
            seen.add(x)
            out.append(x)
    return out


def order(rng, labels):
    "A list with the same labels in some order."
    labels = list(labels)
    r = rng.random()
    if r < 0.35:
        labels.sort()
    elif r < 0.5:
        labels.sort(reverse=True)
    elif r < 0.85:
        rng.shuffle(labels)
    return labels


def labels(rng, n, kind=None, kinds=COMMON):
    if kind is None:
        kind = rng.choice(kinds)
        if kinds is COMMON and rng.random() < WEIRD:
            kind = rng.choice(['weird', 'weird', 'time', 'datetime', 'long'])
    out = pool(rng, kind, n)
    if kind in ('range', 'perm'):
        return out
    return order(rng, out)


def related(rng, lab, kind=None, rel=None, minlen=0):
    "Another label list with some relation to `lab`."
    if rel is None:
        rel = rng.choice(['equal', 'equal', 'perm', 'perm', 'subset',
                          'superset', 'overlap', 'overlap', 'disjoint',
                          'empty', 'prefix', 'one'])
    n = len(lab)
    if rel == 'equal':
        return list(lab)
    if rel == 'perm':
        out = list(lab)
        rng.shuffle(out)
        return out
    if rel == 'prefix':
        out = list(lab[:rng.randint(minlen, n)] if n >= minlen else lab)
        return out
    if rel == 'subset':
        out = rng.sample(lab, rng.randint(min(minlen, n), n))
        return order(rng, out) if rng.random() < .6 else out
    if rel == 'one' and n:
        return [rng.choice(lab)]
    if rel == 'empty' and minlen == 0:
        return []
    extra = [x for x in more(rng, lab, rng.randint(1, 3)) if x not in lab]
    if rel == 'disjoint':
        return order(rng, extra)
    keep = list(lab)
    if rel == 'overlap':
        keep = rng.sample(lab, rng.randint(0, n))
    return order(rng, keep + extra)


def more(rng, lab, n):
    "n labels of the same kind as those in lab that are not in lab."
    out = []
    k = 0
    seen = set(lab)
    if len(lab) == 0:
        cands = pool(rng, rng.choice(['int', 'str']), n)
        return cands
    while len(out) < n:
        k += 1
        x = rng.choice(lab)
        if type(x) is bool:
            y = rng.randint(2, 9 + k)
        elif isinstance(x, (int, long, np.integer)):
            y = type(x)(x + rng.choice([-1, 1]) * k)
        elif isinstance(x, float):
            y = x + rng.choice([-.25, .5, 1.0]) * k
        elif x is None:
            y = rng.randint(50, 90 + k)
        elif isinstance(x, (str, unicode)):
            y = x + rng.choice('aZ 0') * (1 + k // 4)
        elif isinstance(x, datetime.datetime):
            y = x + datetime.timedelta(hours=rng.choice([-k, k]))
        elif isinstance(x, datetime.date):
            y = x + datetime.timedelta(rng.choice([-k, k]))
        elif isinstance(x, datetime.time):
            y = datetime.time(rng.randint(0, 23), rng.randint(0, 59))
        elif isinstance(x, tuple):
            y = x[:-1] + (rng.randint(-5, 20 + k),)
        else:
            raise ValueError(type(x))
        if y not in seen:
            seen.add(y)
            out.append(y)
    return out


# Shapes and data ------------------------------------------------------------

def shape(rng, ndim=None, maxsize=120, zero=0.06, minlen=1, maxlen=7,
          ndims=(1, 1, 2, 2, 2, 3, 3, 4)):
    if ndim is None:
        ndim = rng.choice(ndims)
        if ndims[-1] == 4 and rng.random() < DEEP:
            ndim = 5
    if maxsize and rng.random() < BIG:
        # One long axis, for what only happens to many labels or values
        s = [rng.randint(1, 2) for i in range(ndim)]
        n = int(40 * 20 ** rng.random())
        if maxsize >= 120 and rng.random() < LONGER:
            n = int(800 * 8 ** rng.random())
        s[rng.randint(0, ndim - 1)] = n
        return tuple([max(n, minlen) for n in s])
    if maxsize and maxsize >= 120 and ndim > 1 and rng.random() < WIDE2:
        s = [1 for i in range(ndim)]
        for i in rng.sample(range(ndim), 2):
            s[i] = rng.randint(8, 26)
        return tuple([max(n, minlen) for n in s])
    while True:
        s = []
        for i in range(ndim):
            r = rng.random()
            if r < zero:
                s.append(0)
            elif r < zero + 0.15:
                s.append(max(1, minlen))
            elif r < 0.97:
                s.append(rng.randint(minlen, maxlen))
            else:
                s.append(rng.randint(minlen, 4 * maxlen))
        if np.prod(s) <= maxsize:
            return tuple(s)


def layout(rng, x, p=0.45):
    "The same array, maybe in another memory layout."
    if rng.random() > p or x.ndim == 0:
        return x
    k = rng.choice(['F', 'strided', 'neg', 'T', 'offset'])
    if k == 'F':
        y = np.asfortranarray(x)
        return y if y is not x else y.copy()
    if k == 'T':
        return np.ascontiguousarray(x.T).T
    ax = rng.randint(0, x.ndim - 1)
    index = [slice(None)] * x.ndim
    if k == 'neg':
        index[ax] = slice(None, None, -1)
        y = x[tuple(index)].copy()
        return y[tuple(index)]
    big = list(x.shape)
    if k == 'strided':
        big[ax] = 2 * x.shape[ax] + 1
        index[ax] = slice(1, None, 2)
    else:
        big[ax] = x.shape[ax] + 3
        index[ax] = slice(2, -1)
    y = np.empty(big, x.dtype)
    fill = y.dtype.type
    if x.dtype == object:
        y.fill('guard')
    elif x.dtype.kind == 'S':
        y.fill('~')
    else:
        y.fill(7)
    y = y[tuple(index)]
    y[...] = x
    return y


def values(rng, n, dtype, nan=0.2, inf=0.0, pos=False, wide=0.1, small=None):
    "n python values that dtype can hold exactly."
    dt = np.dtype(dtype)
    out = []
    scale = rng.random()
    lim = small or 9
    huge = ODD and dt.itemsize == 8 and dt.kind in 'iu' and HUGE and \
        small is None and rng.random() < ODD
    extreme = EXTREME and dt.kind == 'f' and small is None and \
        rng.random() < EXTREME
    if extreme:
        top, tiny = float(np.finfo(dt).max), float(np.finfo(dt).tiny)
    letters = 'abcXYZ01'
    if dt.kind == 'S' and rng.random() < .15:
        letters = rng.choice(['ab ', 'a B_.-', 'aA', 'nanN'])
    for i in range(n):
        if dt.kind == 'f':
            r = rng.random()
            if r < nan:
                v = float('nan')
            elif r < nan + inf:
                v = rng.choice([float('inf'), float('-inf')])
            elif extreme:
                v = rng.choice([top, -top, top / 2, tiny, -tiny, tiny / 4,
                                1.0, 1 + float(np.finfo(dt).eps), 0.0, -0.0,
                                rng.uniform(-1, 1) * top])
                v = float(dt.type(v))
            elif scale < 0.5:
                v = float(rng.randint(-lim, lim))       # Ties
            elif scale < 1 - wide:
                v = rng.randint(-4000, 4000) / 64.0
            else:
                v = rng.randint(-4000, 4000) / 64.0 * 10 ** rng.randint(-3, 4)
                if dt.itemsize < 8:
                    v = float(np.float32(v))
                if dt.itemsize < 4 and abs(v) > 6e4:
                    v = 6e4
            if pos and v == v:
                v = abs(v) + 0.5
        elif dt.kind == 'i':
            v = rng.randint(-lim, lim)
            if scale > 0.8:
                v *= 13
            if pos:
                v = abs(v) + 1
            if huge:
                v += rng.choice([-1, 1]) * 2 ** 60
        elif dt.kind == 'u':
            v = rng.randint(0, 2 * lim)
            if huge:
                v += 2 ** 63
            if pos:
                v += 1
        elif dt.kind == 'b':
            v = rng.random() < 0.5
        elif dt.kind == 'S':
            v = '' if rng.random() < nan else ''.join(
                [rng.choice(letters) for k in range(
                    rng.randint(1, max(1, dt.itemsize)))])
        elif dt.kind == 'O':
            r = rng.random()
            if r < nan:
                v = None
            else:
                v = rng.choice([datetime.date(2000, 1, 1 + rng.randint(0, 20)),
                                'obj%d' % rng.randint(0, 9),
                                rng.randint(-5, 5), rng.random()])
        elif dt.kind == 'c':
            v = complex(rng.randint(-9, 9), rng.randint(-9, 9))
            if rng.random() < nan:
                v = complex(float('nan'), 0)
        else:
            raise ValueError(dt)
        out.append(v)
    return out


UNCOMMON = {'f': ('float16', '>f8', 'float64'), 'i': ('uint64', '>i4',
            'uint16', 'int64'), 'c': ('complex64', '>c16')}


def dtype(rng, kinds='fffiibSO'):
    k = rng.choice(kinds)
    if ODD and k in UNCOMMON and rng.random() < ODD:
        return rng.choice(UNCOMMON[k])
    return {'f': lambda: rng.choice(FLOATS), 'i': lambda: rng.choice(INTS),
            'b': lambda: 'bool', 'S': lambda: 'S%d' % rng.randint(1, 5),
            'O': lambda: 'object', 'c': lambda: 'complex128',
            'd': lambda: 'float64', 'l': lambda: 'int64'}[k]()


def array(rng, shp, dt=None, kinds='fffiibSO', nan=None, inf=None, lay=0.45,
          **kw):
    if inf is None:
        inf = 0.15 if INF and rng.random() < INF else 0.0
    if dt is None:
        dt = dtype(rng, kinds)
    if nan is None:
        nan = rng.choice([0.0, 0.1, 0.3, 0.7])
    n = int(np.prod(shp))
    x = np.empty(n, dt)
    vals = values(rng, n, dt, nan, inf, **kw)
    for i, v in enumerate(vals):
        x[i] = v
    if ZOOM and x.dtype == np.float64 and rng.random() < ZOOM:
        x = x * 2.0 ** rng.choice([-100, -40, -25, 25, 40, 100])
    if CONST and n and x.dtype.kind in 'fiu' and rng.random() < CONST:
        v = x[rng.randint(0, n - 1)]
        if rng.random() < .7 or x.dtype.itemsize < 8:
            v = rng.randint(1, 9)       # Sums of these are exact
        x[x == x] = v
    x = x.reshape(shp)
    if np.dtype(dt).kind == 'f' and rng.random() < 0.15 and x.size and x.ndim:
        # A whole slice is missing
        ax = rng.randint(0, x.ndim - 1)
        if nan > 0:
            index = [slice(None)] * x.ndim
            index[ax] = rng.randint(0, x.shape[ax] - 1)
            x[tuple(index)] = np.nan
    return layout(rng, x, lay)


def larry(rng, shp=None, dt=None, lab=None, kinds='fffiibSO', ndim=None,
          lkinds=COMMON, **kw):
    import la
    skw = {}
    for k in ('maxsize', 'zero', 'minlen', 'maxlen', 'ndims'):
        if k in kw:
            skw[k] = kw.pop(k)
    if lab is not None:
        shp = tuple([len(l) for l in lab])
    shared = SHARED and lab is None and rng.random() < SHARED
    if shp is None:
        shp = shape(rng, ndim, **skw)
        if shared and len(shp) > 1:
            i, j = rng.sample(range(len(shp)), 2)
            shp = list(shp)
            if np.prod(shp) // max(1, shp[i]) * shp[j] <= 400:
                shp[i] = shp[j]
            shp = tuple(shp)
    x = array(rng, shp, dt, kinds, **kw)
    if lab is None:
        lab = [labels(rng, n, kinds=lkinds) for n in shp]
        if shared:
            for i in range(len(lab)):
                for j in range(i):
                    if len(lab[i]) == len(lab[j]):
                        lab[i] = lab[j]
    return la.larry(x, lab)


def like(rng, lar, rel=None, kinds='fffiibSO', dt=None, **kw):
    "A larry of the same number of dimensions with related labels."
    maxsize = max(kw.pop('maxsize', 300), 3 * lar.size)
    common = rng.random() < 0.75
    for t in range(20):
        lab = [related(rng, l, rel=rel) for l in lar.label]
        if np.prod([len(l) for l in lab]) <= maxsize:
            if rel is None and common and t < 10 and lar.size and \
               min([len(set(a) & set(b)) for a, b in
                    zip(lab, lar.label)]) == 0:
                continue
            break
    else:
        lab = [list(l) for l in lar.label]
    if rng.random() < 0.15:
        lab = [list(l) for l in lar.label]
    return larry(rng, lab=lab, dt=dt, kinds=kinds, **kw)


def axis(rng, ndim, neg=True, none=False):
    if none and rng.random() < 0.25:
        return None
    ax = rng.randint(0, ndim - 1)
    if neg and rng.random() < 0.35:
        ax -= ndim
    return ax


def laxis(rng, ndim):
    return rng.randint(0, ndim - 1)
