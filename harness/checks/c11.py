"""C11: morph, morph_like, sortaxis, flipaxis, sortby."""
from __future__ import print_function
import numpy as np

import gen
import model
from core import Registry, show

import la
R = Registry('C11')


def reference(a, ax, lab):
    x, lost = model.reindex(a.label[ax], a.x, ax, lab)
    want = [list(l) for l in a.label]
    want[ax] = list(lab)
    return want, x


@R.scenario(1200)
def morph(c):
    a = gen.larry(c.rng, zero=.1)
    ax = gen.laxis(c.rng, a.ndim)
    lab = gen.related(c.rng, a.label[ax])
    want, x = reference(a, ax, lab)
    arg = ax - a.ndim if c.chance(.3) else ax
    got = c.call(a.morph, lab, arg)
    c.same(got, want, x, 'morph')
    c.check(got.label[ax] is not lab, 'the label list passed in is shared')


@R.scenario(300)
def morph_like(c):
    a = gen.larry(c.rng)
    b = gen.like(c.rng, a)
    lab, x = a.label, a.x
    for ax in range(a.ndim):
        x, lost = model.reindex(a.label[ax], x, ax, b.label[ax])
    got = c.call(a.morph_like, b)
    c.same(got, [list(l) for l in b.label], x, 'morph_like')


@R.scenario(300)
def there_and_back(c):
    "Morph to a superset in another order and back."
    a = gen.larry(c.rng, kinds='ffSO', zero=.1)
    y = a
    for ax in range(a.ndim):
        lab = gen.related(c.rng, a.label[ax], rel='superset')
        y = c.call(y.morph, lab, ax)
    for ax in reversed(range(a.ndim)):
        y = c.call(y.morph, list(a.label[ax]), ax)
    c.same(y, a.label, a.x, 'morph there and back')


@R.scenario(700)
def sortaxis(c):
    a = gen.larry(c.rng, zero=.08)
    ax = gen.axis(c.rng, a.ndim, none=True)
    rev = c.chance(.4)
    lab, x = [list(l) for l in a.label], a.x
    for k in range(a.ndim) if ax is None else [ax]:
        new = sorted(lab[k], reverse=rev)
        x = model.pick(x, k % a.ndim, [lab[k].index(l) for l in new])
        lab[k] = new
    kw = {}
    if ax is not None or c.chance(.3):
        kw['axis'] = ax
    if rev or c.chance(.3):
        kw['reverse'] = rev
    c.same(c.call(a.sortaxis, **kw), lab, x, 'sortaxis %r %r' % (ax, rev))


@R.scenario(600)
def flipaxis(c):
    a = gen.larry(c.rng, zero=.08)
    ax = gen.axis(c.rng, a.ndim, none=True)
    lab, x = [list(l) for l in a.label], a.x
    for k in range(a.ndim) if ax is None else [ax]:
        n = len(lab[k])
        x = model.pick(x, k % a.ndim, range(n)[::-1])
        lab[k] = lab[k][::-1]
    args = (ax,) if ax is not None or c.chance(.5) else ()
    if c.chance(.4):
        b = a.copy()
        got = c.call(b.flipaxis, *args, copy=False, inplace=[b])
        c.check(got is b, 'flipaxis(copy=False) returned another larry')
    else:
        got = c.call(a.flipaxis, *args)
    c.same(got, lab, x, 'flipaxis %r' % ax)
    if c.chance(.3):
        again = c.call(got.flipaxis, *args)
        c.same(again, a.label, a.x, 'flipaxis twice')


@R.scenario(700)
def sortby(c):
    a = gen.larry(c.rng, ndim=2, kinds='ffffiibS', zero=.05)
    axis = c.choice([0, 1, -1, -2])
    ax = axis % 2
    if a.shape[ax] == 0:
        c.raises(la.sortby, a, 'nope', axis, exc=IndexError)
        return
    pos = c.rng.randint(0, a.shape[ax] - 1)
    element = a.label[ax][pos]
    rev = c.chance(.4)
    kw = dict(reverse=rev) if rev or c.chance(.3) else {}
    got = c.call(la.sortby, a, element, axis, **kw)
    other = 1 - ax
    lab = list(got.label[other])
    c.check(sorted(map(repr, lab)) == sorted(map(repr, a.label[other])),
            'labels %r are not a permutation' % (lab,))
    want = [list(l) for l in a.label]
    want[other] = lab
    x = model.pick(a.x, other, [a.label[other].index(l) for l in lab])
    c.same(got, want, x, 'sortby')
    row = (x[pos] if ax == 0 else x[:, pos]).tolist()
    if rev:
        row = row[::-1]
    nan = [v for v in row if v != v]
    good = row[:len(row) - len(nan)]
    c.check(good == sorted(good) and not [v for v in good if v != v],
            'not sorted: %r' % (row,))


@R.scenario(200)
def rejects(c):
    a = gen.larry(c.rng, zero=0, minlen=1)
    ax = gen.laxis(c.rng, a.ndim)
    k = c.choice(['dup', 'dup', 'axis', 'like', 'sortby', 'sortby ndim'])
    if k == 'dup':
        lab = gen.related(c.rng, a.label[ax], rel=c.choice(
            ['superset', 'perm', 'disjoint', 'overlap', 'subset']), minlen=1)
        lab = lab or list(a.label[ax])
        lab.insert(c.rng.randint(0, len(lab)), c.choice(lab))
        c.raises(a.morph, lab, ax, exc=IndexError)
    elif k == 'axis':
        c.raises(a.morph, list(a.label[0]), a.ndim + c.rng.randint(0, 2),
                 exc=IndexError)
    elif k == 'like':
        b = gen.larry(c.rng, ndim=a.ndim % 4 + 1)
        c.raises(a.morph_like, b, exc=IndexError)
    elif k == 'sortby':
        a = gen.larry(c.rng, ndim=2, kinds='fi')
        ax = c.rng.randint(0, 1)
        bad = gen.more(c.rng, a.label[ax], 1)[0]
        c.raises(la.sortby, a, bad, ax, exc=IndexError)
    else:
        a = gen.larry(c.rng, ndim=c.choice([1, 3]), kinds='fi', zero=0)
        c.raises(la.sortby, a, a.label[0][0], 0, exc=ValueError)
