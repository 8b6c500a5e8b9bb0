"""One larry through a history of in-place changes and look-ups (C14, C15).

The model holds a list of labels per axis and an array. It is changed along
with the larry, by definition, and is what the larry has to be equal to after
every step, and what every look-up is compared with.
"""
from __future__ import print_function
import operator

import numpy as np

import gen
import model
from core import show
from checks.c13 import element, full, select, tuple_index, getitem
from checks.c14 import (one, cast, setitem, setlix, selected, values, wanted,
                        lixelement, NOLARRY)

import la


def fresh(c, lab):
    return gen.more(c.rng, lab, 1)[0]


class History(object):

    def __init__(self, c, kinds='fffiiSbO'):
        self.c = c
        self.a = gen.larry(c.rng, zero=0, kinds=kinds, maxsize=60)
        self.lab = [list(l) for l in self.a.label]
        self.x = self.a.x.copy()

    # What helpers of other checks need to know about a larry
    label = property(lambda self: self.lab)
    shape = property(lambda self: self.x.shape)
    dtype = property(lambda self: self.x.dtype)
    ndim = property(lambda self: self.x.ndim)

    def axis(self):
        "(axis, axis as it is passed)"
        ax = gen.laxis(self.c.rng, self.x.ndim)
        return ax, ax - self.x.ndim if self.c.chance(.3) else ax

    def cell(self):
        i = tuple([self.c.rng.randint(0, n - 1) for n in self.x.shape])
        return i, [self.lab[ax][j] for ax, j in enumerate(i)]

    def whole(self, what):
        self.c.same(self.a, self.lab, self.x, what)

    # Changes of the data

    def do_set(self):
        i, name = self.cell()
        v = one(self.c, self.x.dtype)
        self.x[i] = cast(v, self.x.dtype)
        self.c.call(self.a.set, name, v, inplace=[self.a])

    def do_fill(self):
        if self.c.chance(.6):
            return self.do_set()
        v = one(self.c, self.x.dtype)
        for i in np.ndindex(*self.x.shape):
            self.x[i] = cast(v, self.x.dtype)
        self.c.call(self.a.fill, v, inplace=[self.a])

    def store(self, fn, index, pos):
        shape, label = selected(self, pos)
        value, f = values(self.c, self, shape, label)
        self.x = wanted(self, pos, f)
        self.c.call(fn, self.a, index, value, inplace=[self.a])

    def do_setitem(self):
        c = self.c
        m = c.rng.randint(1, self.ndim)
        where = c.rng.randint(0, m - 1) if c.chance(.6) else -1
        index, pos = [], full(self)
        for ax in range(m):
            kinds = NOLARRY if ax == where else ['int', 'slice', 'slice']
            i, pos[ax] = element(c, self, ax, kinds)
            index.append(i)
        self.store(setitem, tuple(index), pos)

    def do_setlix(self):
        c = self.c
        index, pos = [], full(self)
        for ax in range(c.rng.randint(1, self.ndim)):
            i, p = lixelement(c, self.lab[ax])
            index.append(i)
            pos[ax] = p if isinstance(p, list) else [p]
        if not [p for p in pos if not p]:
            self.store(setlix, tuple(index), pos)

    def do_setbool(self):
        c = self.c
        m = gen.array(c.rng, self.shape, 'bool')
        index = la.larry(m, [list(l) for l in self.lab])
        v = one(c, self.dtype)
        for i in np.ndindex(*self.shape):
            if m[i]:
                self.x[i] = cast(v, self.dtype)
        c.call(setitem, self.a, index, v, inplace=[self.a])

    def do_edit_x(self):
        "The data is changed by hand."
        c = self.c
        if c.chance(.5):
            i, name = self.cell()
            v = cast(one(c, self.dtype), self.dtype)
            self.x[i] = v
            self.a.x[i] = v
        else:
            x = gen.array(c.rng, self.shape, self.dtype)
            self.x = x.copy()
            self.a.x = x

    def do_refused(self):
        "A failed assignment changes nothing."
        c = self.c
        i, name = self.cell()
        ax = gen.laxis(c.rng, self.ndim)
        name[ax] = fresh(c, self.lab[ax])
        v = one(c, self.dtype)
        if c.chance(.5):
            c.raises(self.a.set, name, v, exc=IndexError)
        else:
            c.raises(setlix, self.a, tuple([[l] for l in name]), v)

    # Changes of the labels

    def do_maplabel(self):
        c = self.c
        ax, arg = self.axis()
        old = self.lab[ax]
        new = gen.related(c.rng, old, rel='perm')
        if c.chance(.4):
            new[c.rng.randint(0, len(new) - 1)] = fresh(c, old)
        d = dict(zip(old, new))
        self.lab[ax] = [d[l] for l in old]
        r = c.call(self.a.maplabel, d.__getitem__, arg, copy=False,
                   inplace=[self.a])
        c.check(r is self.a, 'maplabel without copy returned a copy')

    def do_flipaxis(self):
        c = self.c
        ax, arg = self.axis()
        if c.chance(.2):
            axes, arg = range(self.ndim), None
        else:
            axes = [ax]
        for ax in axes:
            self.lab[ax] = self.lab[ax][::-1]
            p = full(self)
            p[ax] = p[ax][::-1]
            self.x = model.pick(self.x, ax, p[ax])
        r = c.call(self.a.flipaxis, arg, copy=False, inplace=[self.a])
        c.check(r is self.a, 'flipaxis without copy returned a copy')

    def do_shufflelabel(self):
        c = self.c
        ax, arg = self.axis()
        c.call(self.a.shufflelabel, arg, inplace=[self.a])
        got = list(self.a.label[ax])
        if sorted(got, key=repr) == sorted(self.lab[ax], key=repr):
            self.lab[ax] = got

    def do_edit_label(self):
        "The labels are changed by hand."
        c = self.c
        ax, arg = self.axis()
        k = c.choice(['one', 'one', 'swap', 'reverse', 'sort', 'list', 'all'])
        lab = self.a.label[ax]
        n = len(lab)
        i, j = c.rng.randint(0, n - 1), c.rng.randint(0, n - 1)
        if k == 'one':
            new = fresh(c, lab)
            lab[i] = new
            self.lab[ax][i] = new
        elif k == 'swap':
            lab[i], lab[j] = lab[j], lab[i]
            m = self.lab[ax]
            m[i], m[j] = m[j], m[i]
        elif k == 'reverse':
            lab.reverse()
            self.lab[ax].reverse()
        elif k == 'sort':
            lab.sort()
            self.lab[ax].sort()
        else:
            new = gen.related(c.rng, self.lab[ax], rel='perm')
            self.lab[ax] = list(new)
            if k == 'list':
                self.a.label[ax] = list(new)
            else:
                label = list(self.a.label)
                label[ax] = list(new)
                self.a.label = label

    def do_replace(self):
        "Go on with a larry made of this one."
        c = self.c
        k = c.choice(['copy', 'lag', 'T', 'morph', 'sortaxis', 'part'])
        ax, arg = self.axis()
        if k == 'T':
            self.a = self.a.T
            self.lab.reverse()
            self.x = self.x.T.copy()
        elif k == 'morph':
            new = gen.related(c.rng, self.lab[ax], rel='perm')
            p = [self.lab[ax].index(l) for l in new]
            self.a = c.call(self.a.morph, list(new), arg)
            self.lab[ax] = new
            self.x = model.pick(self.x, ax, p)
        elif k == 'sortaxis':
            new = sorted(self.lab[ax])
            p = [self.lab[ax].index(l) for l in new]
            self.a = c.call(self.a.sortaxis, arg)
            self.lab[ax] = new
            self.x = model.pick(self.x, ax, p)
        elif k == 'part' and self.shape[ax] > 1:
            p = sorted(c.rng.sample(range(self.shape[ax]),
                                    self.shape[ax] - 1))
            self.a = c.call(self.a.take, list(p), arg)
            self.lab[ax] = [self.lab[ax][i] for i in p]
            self.x = model.pick(self.x, ax, p)
        elif k == 'lag' and self.shape[ax] > 1:
            n = self.shape[ax]
            self.a = c.call(self.a.lag, 1, arg)
            self.lab[ax] = self.lab[ax][1:]
            self.x = model.pick(self.x, ax, range(n - 1))
        else:
            self.a = c.call(self.a.copy)

    # Look-ups

    def ask_get(self):
        i, name = self.cell()
        self.c.same_scalar(self.c.call(self.a.get, name), self.x[i],
                           'get after the history')

    def ask_unknown(self):
        c = self.c
        ax, arg = self.axis()
        bad = fresh(c, self.lab[ax])
        i, name = self.cell()
        name[ax] = bad
        c.raises(self.a.get, name, exc=IndexError)
        c.raises(self.a.labelindex, bad, arg, exc=IndexError)
        c.raises(self.a.pull, bad, arg, exc=IndexError)
        c.raises(getlix, self.a, tuple([[l] for l in name]))

    def ask_labelindex(self):
        ax, arg = self.axis()
        l = self.c.choice(self.lab[ax])
        i = self.lab[ax].index(l)
        kw = self.c.choice([{}, dict(exact=False)])
        got = self.c.call(self.a.labelindex, l, arg, **kw)
        self.c.check(got == i, 'labelindex of %r is %r not %r' % (l, got, i))

    def part(self, got, pos, what):
        lab, x = select(self.lab, self.x, pos)
        if lab:
            self.c.same(got, lab, x, what)
        else:
            self.c.same_scalar(got, x, what)

    def ask_pull(self):
        ax, arg = self.axis()
        pos = full(self)
        pos[ax] = self.c.rng.randint(0, self.shape[ax] - 1)
        got = self.c.call(self.a.pull, self.lab[ax][pos[ax]], arg)
        self.part(got, pos, 'pull')

    def ask_lix(self):
        c = self.c
        index, pos = [], full(self)
        for ax in range(c.rng.randint(1, self.ndim)):
            i, p = lixelement(c, self.lab[ax])
            index.append(i)
            pos[ax] = p if isinstance(p, list) else [p]
        if [p for p in pos if not p]:
            return
        pos = [p if len(p) > 1 else p[0] for p in pos]
        got = c.call(getlix, self.a, tuple(index))
        self.part(got, pos, 'lix[%s]' % show(index))

    def ask_keep_label(self):
        c = self.c
        ax, arg = self.axis()
        value = gen.related(c.rng, self.lab[ax])
        pos = full(self)
        pos[ax] = [i for i, l in enumerate(self.lab[ax]) if l in value]
        if pos[ax]:
            got = c.call(self.a.keep_label, 'in', value, arg)
            self.part(got, pos, 'keep_label')

    def ask_getlabel(self):
        ax, arg = self.axis()
        c = self.c
        got = c.call(self.a.getlabel, arg)
        c.check(got == self.lab[ax], 'getlabel is %r not %r' %
                (got, self.lab[ax]))
        c.check(c.call(self.a.maxlabel, arg) == max(self.lab[ax]), 'maxlabel')
        c.check(c.call(self.a.minlabel, arg) == min(self.lab[ax]), 'minlabel')

    def ask_index(self):
        index, pos = tuple_index(self.c, self, m=self.ndim)
        # A bool larry made for the labels of the model is aligned
        self.part(self.c.call(getitem, self.a, index), pos,
                  'a[%s]' % show(index))

    def ask_morph(self):
        c = self.c
        ax, arg = self.axis()
        new = gen.related(c.rng, self.lab[ax], rel='perm')
        pos = full(self)
        pos[ax] = [self.lab[ax].index(l) for l in new]
        self.part(c.call(self.a.morph, list(new), arg), pos, 'morph')

    def ask_add(self):
        "The labels as an operation of two larrys sees them."
        c = self.c
        if self.dtype.kind not in 'fi':
            return
        lab = [gen.related(c.rng, l, rel='perm') for l in self.lab]
        b = la.larry(np.zeros(self.shape, self.dtype),
                     [list(l) for l in lab])
        pos = full(self)
        if lab != self.lab:
            want = [l if l == m else sorted(l) for l, m in zip(lab, self.lab)]
            pos = [[m.index(e) for e in w] for w, m in zip(want, self.lab)]
        got = c.call(operator.add, self.a, b)
        if isinstance(got, la.larry):
            got.x = got.x.astype(self.dtype)
        self.part(got, pos, "sum of two")

    def ask_totuples(self):
        got = self.c.call(self.a.totuples)
        want = [tuple([l[j] for l, j in zip(self.lab, i)])
                for i in np.ndindex(*self.shape)]
        self.c.check([t[:-1] for t in got] == want, 'totuples gives %r' % got)

    def ask_iterate(self):
        for i, got in enumerate(self.c.call(list, self.a, name='iterate')):
            pos = full(self)
            pos[0] = i
            self.part(got, pos, 'item %d' % i)


def getlix(a, index):
    return a.lix[index]


DATA = ['set', 'fill', 'setitem', 'setitem', 'setlix', 'setlix', 'setbool',
        'edit_x', 'refused']
LABEL = ['maplabel', 'flipaxis', 'shufflelabel', 'edit_label', 'edit_label',
         'replace']
ASK = ['get', 'get', 'unknown', 'labelindex', 'labelindex', 'pull', 'lix',
       'lix', 'keep_label', 'getlabel', 'index', 'morph', 'add', 'totuples',
       'iterate']


def run(c, changes, n):
    h = History(c)
    for i in range(n):
        k = c.choice(changes)
        c.trace.append('-- ' + k)
        c.stats.bump('history: ' + k)
        getattr(h, 'do_' + k)()
        h.whole('after ' + k)
        while c.chance(.6):
            k = c.choice(ASK)
            c.stats.bump('history: look-up ' + k)
            getattr(h, 'ask_' + k)()
            h.whole('after the look-up ' + k)
