"""Reference model: labelled arrays handled one axis and one label at a time.

Nothing in here uses la, or the NumPy functions (take, ix_, putmask, ...) that
la is built on; positions are found by dictionary or list look up in python.
"""
from __future__ import division, print_function
import bisect
import math

import numpy as np


def missing(dt):
    "(has a marker, marker)"
    dt = np.dtype(dt)
    if dt.kind in 'fc':
        return True, np.nan
    if dt.kind == 'S':
        return True, ''
    if dt.kind == 'O':
        return True, None
    return False, None


def ismiss(v):
    return v is None or v == '' if isinstance(v, (str, type(None))) else v != v


def miss_mask(x):
    out = np.zeros(x.shape, bool)
    if x.dtype.kind in 'fc':
        for i in np.ndindex(*x.shape):
            out[i] = bool(x[i] != x[i])
    elif x.dtype.kind == 'S':
        for i in np.ndindex(*x.shape):
            out[i] = x[i] == ''
    elif x.dtype.kind == 'O':
        for i in np.ndindex(*x.shape):
            out[i] = x[i] is None
    return out


def sl(ndim, axis, i):
    index = [slice(None)] * ndim
    index[axis] = i
    return tuple(index)


def posmap(label):
    return dict([(l, i) for i, l in enumerate(label)])


def pick(x, axis, positions):
    "x with only the given positions along axis, in that order."
    shape = list(x.shape)
    shape[axis] = len(positions)
    out = np.empty(shape, x.dtype)
    for j, i in enumerate(positions):
        out[sl(x.ndim, axis, j)] = x[sl(x.ndim, axis, i)]
    return out


def reindex(label, x, axis, newlabel, cast=True):
    """(x along newlabel, was anything missing); None for x if cast is
    refused."""
    pos = posmap(label)
    where = [pos.get(l) for l in newlabel]
    lost = [j for j, i in enumerate(where) if i is None]
    if lost:
        has, mark = missing(x.dtype)
        if not has:
            if not cast:
                return None, True
            x = np.array(x, dtype=float)
            mark = np.nan
    shape = list(x.shape)
    shape[axis] = len(newlabel)
    out = np.empty(shape, x.dtype)
    for j, i in enumerate(where):
        if i is None:
            out[sl(x.ndim, axis, j)] = mark
        else:
            out[sl(x.ndim, axis, j)] = x[sl(x.ndim, axis, i)]
    return out, bool(lost)


def join(l1, l2, how):
    if how == 'left':
        return list(l1)
    if how == 'right':
        return list(l2)
    if how == 'skip':
        return None
    if l1 == l2:
        return list(l1)
    if how == 'inner':
        s = set(l2)
        return sorted([l for l in l1 if l in s])
    if how == 'outer':
        s = set(l1)
        return sorted(list(l1) + [l for l in l2 if l not in s])
    raise ValueError(how)


def align(label1, x1, label2, x2, how, cast=True):
    "x1, x2, label, cast refused"
    out = []
    refused = False
    for ax in range(x1.ndim):
        lab = join(label1[ax], label2[ax], how[ax])
        out.append(lab)
        if lab is None:
            continue
        y1, m = reindex(label1[ax], x1, ax, lab, cast)
        y2, m = reindex(label2[ax], x2, ax, lab, cast)
        if y1 is None or y2 is None:
            return None, None, None, True
        x1, x2 = y1, y2
    return x1, x2, out, refused


def inner(l1, x1, l2, x2):
    x1, x2, lab, r = align(l1, x1, l2, x2, ['inner'] * x1.ndim)
    return x1, x2, lab


# Lanes ----------------------------------------------------------------------

def norm_axis(axis, ndim):
    return axis + ndim if axis < 0 else axis


def lanes(x, axis):
    "Yield (index of the lane without axis, list of python values)."
    axis = norm_axis(axis, x.ndim)
    rest = x.shape[:axis] + x.shape[axis + 1:]
    for i in np.ndindex(*rest):
        idx = i[:axis] + (slice(None),) + i[axis:]
        yield i, x[idx].tolist()


def per_lane(x, axis, f, dtype=float):
    "Reduce: f(list) -> scalar. Array over the other axes, () if 1d."
    axis = norm_axis(axis, x.ndim)
    rest = x.shape[:axis] + x.shape[axis + 1:]
    out = np.empty(rest, dtype)
    for i, lane in lanes(x, axis):
        out[i] = f(lane)
    return out


def map_lane(x, axis, f, dtype=float):
    "f(list) -> list of the same length."
    axis = norm_axis(axis, x.ndim)
    out = np.empty(x.shape, dtype)
    for i, lane in lanes(x, axis):
        idx = i[:axis] + (slice(None),) + i[axis:]
        r = f(lane)
        assert len(r) == x.shape[axis]
        for k, v in enumerate(r):
            out[i[:axis] + (k,) + i[axis:]] = v
    return out


def drop(label, axis):
    axis = norm_axis(axis, len(label))
    return [list(l) for i, l in enumerate(label) if i != axis]


NAN = float('nan')


def good(v):
    return [a for a in v if a == a]


def fsum(v):
    if any([math.isinf(a) for a in v]):
        return sum(v)
    return math.fsum(v)


def s_sum(v):
    v = good(v)
    return fsum(v) if v else NAN


def s_mean(v):
    v = good(v)
    return fsum(v) / len(v) if v else NAN


def s_prod(v):
    v = good(v)
    if not v:
        return NAN
    p = 1.0
    for a in v:
        p *= a
    return p


def s_median(v):
    v = sorted(good(v))
    n = len(v)
    if not n:
        return NAN
    if n % 2:
        return v[n // 2]
    return (v[n // 2 - 1] + v[n // 2]) / 2.0


def s_var(v, ddof=0):
    v = good(v)
    if not v:
        return NAN
    m = fsum(v) / len(v)
    s = fsum([(a - m) ** 2 for a in v])
    d = len(v) - ddof
    if d == 0:
        return NAN if s == 0 else float('inf')
    return s / d


def s_std(v, ddof=0):
    a = s_var(v, ddof)
    if a != a:
        return a
    if a < 0:
        return NAN
    return math.sqrt(a)


def s_max(v):
    v = good(v)
    return max(v) if v else NAN


def s_min(v):
    v = good(v)
    return min(v) if v else NAN


def avgrank(v):
    "0 based average rank of each value of v (no NaN in v)."
    u = sorted(v)
    return [(bisect.bisect_left(u, a) + bisect.bisect_right(u, a) - 1) / 2.0
            for a in v]
