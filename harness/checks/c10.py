"""C10: align_axis, union, intersection, isaligned, stack."""
from __future__ import print_function
import numpy as np

import gen
import model
from core import Registry

import la
R = Registry('C10')


def family(c, n, kinds='fffiibSO', sameaxis=False):
    "n larrys, each with one axis whose labels are related; (lars, axes)."
    kind = c.choice(['int', 'str', 'date', 'float', 'mixed', 'tuple', 'weird',
                     'datetime', 'time', 'long', 'bool', 'perm'])
    long = n < 5 and c.chance(.02)
    base = gen.labels(c.rng, c.rng.randint(40, 150) if long else
                      c.rng.randint(1, 6), kind)
    most = 4 if n < 4 and not long and c.chance(.1) else 3
    lars, axes = [], []
    ax0 = c.rng.randint(0, most - 2)
    for i in range(n):
        rel = c.choice(['equal', 'perm', 'subset', 'superset', 'superset',
                        'overlap', 'overlap', 'prefix', 'disjoint', 'empty'])
        if c.chance(.5 if n < 5 else .93):
            rel = c.choice(['equal', 'perm', 'superset'])
        lab = gen.related(c.rng, base, rel=rel)
        if sameaxis:
            ndim, ax = c.rng.randint(ax0 + 1, most), ax0
        else:
            ndim = c.rng.randint(1, 2 if long else most)
            ax = c.rng.randint(0, ndim - 1)
        labs = []
        for k in range(ndim):
            if k == ax:
                labs.append(lab)
            else:
                # Other axes share labels with the joined axis now and then
                other = gen.labels(c.rng, c.rng.randint(1, 3),
                                   c.choice(['int', 'str']))
                if c.chance(.4):
                    other = gen.related(c.rng, base, rel='subset', minlen=1)
                labs.append(other)
        lars.append(gen.larry(c.rng, lab=labs, kinds=kinds))
        axes.append(ax)
    if n > 1 and c.chance(.04):
        # The same larry twice
        i, j = c.rng.sample(range(n), 2)
        lars[i], axes[i] = lars[j], axes[j]
    return lars, axes


def how_many(c, least=1):
    return c.rng.randint(5, 12) if c.chance(.05) else c.rng.randint(least, 4)


def joined(labs, how):
    if how == 'left':
        return list(labs[0])
    if how == 'right':
        return list(labs[-1])
    out = set(labs[0])
    for l in labs[1:]:
        out = out & set(l) if how == 'inner' else out | set(l)
    return sorted(out)


@R.scenario(900)
def align_axis(c):
    n = how_many(c)
    same = c.chance(.4)
    lars, axes = family(c, n, sameaxis=same)
    how = c.choice(['inner', 'outer', 'left', 'right'])
    lab = joined([l.label[ax] for l, ax in zip(lars, axes)], how)
    arg = list(axes)
    for i in range(n):
        if c.chance(.3):
            arg[i] -= lars[i].ndim
    if same and c.chance(.7):
        arg = axes[0]
    if same and len(set([l.ndim for l in lars])) == 1 and c.chance(.2):
        arg = axes[0] - lars[0].ndim
    kw = {}
    if arg != 0 or c.chance(.5):
        kw['axis'] = arg
    if how != 'inner' or c.chance(.5):
        kw['join'] = how
    seq = lars if c.chance(.6) else tuple(lars)
    got = c.call(la.align_axis, seq, **kw)
    c.check(type(got) is tuple and len(got) == n,
            lambda: 'a %s of %d larrys instead of %d' % (type(got), len(got), n))
    for g, l, ax in zip(got, lars, axes):
        want = [list(k) for k in l.label]
        want[ax] = lab
        x, lost = model.reindex(l.label[ax], l.x, ax, lab)
        c.same(g, want, x, 'align_axis %s %r' % (how, arg))


@R.scenario(250)
def sets(c):
    "union and intersection."
    n = how_many(c)
    lars, axes = family(c, n, sameaxis=True)
    ax = axes[0]
    labs = [l.label[ax] for l in lars]
    if len(set([l.ndim for l in lars])) == 1 and c.chance(.3):
        ax -= lars[0].ndim
    got = c.call(la.union, ax, *lars)
    c.check(got == joined(labs, 'outer'), 'union is %r of %r' % (got, labs))
    got = c.call(la.intersection, ax, *lars)
    c.check(got == joined(labs, 'inner'),
            'intersection is %r of %r' % (got, labs))
    c.substance += 1
    if n > 1:
        lars[c.rng.randint(1, n - 1)] = c.choice([1, None, [1, 2]])
        c.raises(la.union, ax, *lars, exc=TypeError)
        c.raises(la.intersection, ax, *lars, exc=TypeError)


@R.scenario(300)
def isaligned(c):
    a = gen.larry(c.rng)
    b = gen.larry(c.rng, lab=[gen.related(c.rng, l, rel=c.choice(
        ['equal', 'equal', 'equal', 'perm', 'subset', 'superset']))
        for l in a.label])
    if c.chance(.1):
        b = gen.larry(c.rng)
    elif c.chance(.05):
        b = a
    try:
        a.label == b.label
    except ValueError:
        return              # a tuple and a numpy scalar, which broadcast
    got = c.call(la.isaligned, a, b)
    c.check(bool(got) == (a.label == b.label), 'isaligned is %r' % (got,))
    for ax in range(min(a.ndim, b.ndim)):
        if c.chance(.2):
            ax -= min(a.ndim, b.ndim)
        got = c.call(la.isaligned, a, b, axis=ax)
        c.check(bool(got) == (a.label[ax] == b.label[ax]),
                'isaligned axis %d is %r' % (ax, got))
    c.substance += 1


@R.scenario(400)
def stack(c):
    n = how_many(c)
    rows = gen.labels(c.rng, c.rng.randint(1, 5), c.choice(
        ['int', 'str', 'date', 'float', 'datetime', 'tuple', 'mixed']))
    cols = gen.labels(c.rng, c.rng.randint(1, 4), c.choice(
        ['int', 'str', 'int', 'str', 'date', 'float', 'bool']))
    if n < 4 and c.chance(.02):
        rows = gen.labels(c.rng, c.rng.randint(40, 120), 'int')
    kw = {}
    for i in range(n):
        name = c.choice(['x', 'y', 'a', 'B', 'zz', 'open', 'close', 'q1',
                         'Z', 'axis9', 'a_rather_long_name', '_', 'q10',
                         'q2', 'x_1', 'xx'])
        labs = [gen.related(c.rng, rows), gen.related(c.rng, cols)]
        if n > 4 and c.chance(.9):
            labs = [gen.related(c.rng, l, rel=c.choice(
                ['equal', 'perm', 'superset'])) for l in (rows, cols)]
        if kw and c.chance(.03):
            kw[name] = c.choice(sorted(kw.items()))[1]
            continue
        kw[name] = gen.larry(c.rng, lab=labs, kinds='fffib')
    mode = c.choice(['union', 'intersection'])
    how = dict(union='outer', intersection='inner')[mode]
    row = joined([l.label[0] for l in kw.values()], how)
    col = joined([l.label[1] for l in kw.values()], how)
    want = np.empty((len(kw), len(row), len(col)))
    for i, k in enumerate(sorted(kw)):
        x, m = model.reindex(kw[k].label[0], kw[k].x, 0, row)
        x, m = model.reindex(kw[k].label[1], x, 1, col)
        want[i] = x
    got = c.call(la.stack, mode, **kw)
    c.same(got, [sorted(kw), row, col], want, 'stack ' + mode)
    if c.chance(.2):
        c.raises(la.stack, 'outer', exc=ValueError, **kw)
        kw['more'] = gen.larry(c.rng, ndim=c.choice([1, 3]), kinds='f')
        c.raises(la.stack, mode, exc=ValueError, **kw)


@R.scenario(120)
def rejects(c):
    lars, axes = family(c, c.rng.randint(1, 3))
    k = c.choice(['join', 'axis', 'type'])
    if k == 'join':
        c.raises(la.align_axis, lars, axes, c.choice(['skip', 'nope', '']),
                 exc=ValueError)
    elif k == 'axis':
        i = c.rng.randint(0, len(lars) - 1)
        axes[i] = c.choice([lars[i].ndim, -lars[i].ndim - 1])
        c.raises(la.align_axis, lars, axes, exc=ValueError)
    else:
        lars[c.rng.randint(0, len(lars) - 1)] = c.choice(
            [1, np.array([1, 2]), 'abc'])
        c.raises(la.align_axis, lars, axes, exc=ValueError)
