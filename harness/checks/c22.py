"""C22: conversion to and from tuples, lists, dicts, text."""
from __future__ import print_function
import csv
import itertools
import os
import StringIO

import numpy as np

import gen
import model
from core import Registry

import la

R = Registry('C22')
NAN = model.NAN
NUM = 'fffl'
LK = ('range', 'perm', 'int', 'str', 'float', 'date', 'datetime', 'mixed',
      'tuple')


def rows(a):
    "[(label tuple, python value)] in C order."
    out = []
    for i in itertools.product(*[range(n) for n in a.shape]):
        v = a.x[i]
        if isinstance(v, np.generic):
            v = v.item()
        out.append((tuple([a.label[ax][k] for ax, k in enumerate(i)]), v))
    return out


def eq(a, b):
    return a is b or a == b or (a != a and b != b)


def sorted_larry(a):
    lab = [sorted(l) for l in a.label]
    x = a.x
    for ax in range(a.ndim):
        x = model.pick(x, ax, [a.label[ax].index(l) for l in lab[ax]])
    return lab, np.array(x, float)


def build(pairs, ndim):
    lab = [sorted(set([t[k] for t, v in pairs])) for k in range(ndim)]
    x = np.empty([len(l) for l in lab])
    x.fill(NAN)
    for t, v in pairs:
        x[tuple([lab[k].index(e) for k, e in enumerate(t)])] = v
    return lab, x


def same_pairs(c, got, want, what):
    "got: [(labels, value)] in any order."
    c.check(len(got) == len(want), '%s: %d cells instead of %d' %
            (what, len(got), len(want)))
    d = dict(want)
    seen = set()
    for t, v in got:
        c.check(t in d and t not in seen, lambda: '%s: cell %r' % (what, t))
        seen.add(t)
        c.check(eq(v, d[t]) and type(v) == type(d[t]),
                lambda: '%s: %r instead of %r at %r' % (what, v, d[t], t))
    c.substance += len(got) + 1


@R.scenario(500)
def export(c):
    a = gen.larry(c.rng, kinds='ffibSO', zero=.06)
    want = rows(a)
    k = c.choice(['totuples', 'tolist', 'todict'])
    if k == 'totuples':
        got = c.call(a.totuples)
        c.check(type(got) is list, 'not a list')
        same_pairs(c, [(t[:-1], t[-1]) for t in got], want, k)
        c.check([t[:-1] for t in got] == [t for t, v in want], 'order')
    elif k == 'tolist':
        got = c.call(a.tolist)
        c.check(type(got) is list and len(got) == 2 and
                len(got[0]) == len(got[1]), 'tolist: %r' % got)
        same_pairs(c, zip(got[1], got[0]), want, k)
        c.check(got[1] == [t for t, v in want], 'order')
    else:
        got = c.call(a.todict)
        c.check(type(got) is dict, 'not a dict')
        same_pairs(c, got.items(), want, k)


@R.scenario(600)
def roundtrip(c):
    a = gen.larry(c.rng, kinds=NUM, zero=.04, lkinds=LK)
    k = c.choice(['tuples', 'list', 'dict'])
    to = getattr(a, 'to' + k)
    data = c.call(to)
    if c.chance(.4) and k == 'tuples':
        c.rng.shuffle(data)
    got = c.call(getattr(la.larry, 'from' + k), data)
    if a.size == 0:
        c.same(got, [[]], np.array([]), k)
        return
    lab, x = sorted_larry(a)
    c.same(got, lab, x, 'to and from ' + k, types_=True)


@R.scenario(600)
def sparse(c):
    "Some cells only: NaN where there is none."
    ndim = c.rng.randint(1, 4)
    labs = [gen.labels(c.rng, c.rng.randint(1, 4), kinds=LK)
            for i in range(ndim)]
    idx = list(itertools.product(*labs))
    n = len(idx)
    idx = c.rng.sample(idx, c.choice([1, n, c.rng.randint(1, n)]))
    kind = c.choice(['float64', 'int64', 'bool', 'float64'])
    vals = gen.array(c.rng, (len(idx),), kind).tolist()
    pairs = zip(idx, vals)
    lab, x = build(pairs, ndim)
    k = c.choice(['tuples', 'list', 'dict'])
    if k == 'tuples':
        got = c.call(la.larry.fromtuples, [t + (v,) for t, v in pairs])
    elif k == 'list':
        got = c.call(la.larry.fromlist, [vals, idx])
    else:
        got = c.call(la.larry.fromdict, dict(pairs))
    c.same(got, lab, x, 'from' + k, types_=True)


def delimiter(c):
    return c.choice([',', ',', ';', '\t', '|', ' '])


def path(c, name):
    p = os.path.join(c.scratch, name)
    if os.path.exists(p):
        os.remove(p)
    return p


def csvlabels(c, n):
    "Labels that stay distinct as strings."
    k = c.choice(['int', 'str', 'float', 'date', 'quote'])
    if k == 'quote':
        out = ['a,b', 'c;d', 'e"f', "g'h", ' i', 'j|k', 'l\tm', '"n"', '',
               'o\np', 'q\n', '"']
        c.rng.shuffle(out)
        return out[:n]
    return gen.labels(c.rng, n, k)


def text_of(e):
    "What the csv module writes."
    return repr(e) if type(e) is float else str(e)


@R.scenario(500)
def tocsv_fromcsv(c):
    shp = gen.shape(c.rng, zero=.03, ndims=(1, 2, 2, 3, 4))
    if c.chance(.9):
        shp = [min(n, 9) for n in shp]
    lab = [csvlabels(c, n) for n in shp]
    a = gen.larry(c.rng, lab=lab, kinds='ddl', wide=.3, inf=c.choice([0, .1]))
    p = path(c, 'x.csv')
    d = delimiter(c)
    kw = {} if d == ',' and c.chance(.5) else dict(delimiter=d)
    c.call(a.tocsv, p, **kw)
    with open(p) as f:
        text = f.read()
    # Every cell exactly once
    read = list(csv.reader(StringIO.StringIO(text), delimiter=d))
    want = dict([(tuple([text_of(e) for e in t]), v) for t, v in rows(a)])
    c.check(len(read) == len(want), '%d lines for %d cells' %
            (len(read), len(want)))
    for r in read:
        c.check(tuple(r[:-1]) in want and
                eq(float(r[-1]), want[tuple(r[:-1])]),
                lambda: 'line %r' % r)
    skip = c.choice([0, 0, 1, 2, 3])
    if skip:
        with open(p, 'w') as f:
            for k in range(skip):
                f.write('header %d%sone, two;three\n' % (k, d))
            f.write(text)
        kw['skiprows'] = skip
    elif c.chance(.3):
        kw['skiprows'] = 0
    got = c.call(la.larry.fromcsv, p, **kw)
    if a.size == 0:
        c.same(got, [[]], np.array([]), 'fromcsv')
        return
    b = la.larry(a.x, [[text_of(e) for e in l] for l in a.label])
    lab, x = sorted_larry(b)
    c.same(got, lab, x, 'tocsv and fromcsv', types_=True)


@R.scenario(400)
def tofile(c):
    a = gen.larry(c.rng, kinds='ddlibS', ndims=(1, 2, 2), zero=.04)
    d = c.choice([',', ';', '\t', ' | '])
    kw = {} if d == ',' and c.chance(.5) else dict(delimiter=d)
    p = path(c, 'x.txt')
    if c.chance(.6):
        c.call(a.tofile, p, **kw)
    else:
        f = open(p, 'w')
        c.call(a.tofile, f, **kw)
        c.check(not f.closed, 'tofile closed the file it was given')
        f.close()
    with open(p) as f:
        text = f.read()
    lines = text.split('\n')
    c.check(lines.pop() == '', 'no newline at the end')

    def cell(s, v):
        if a.x.dtype.kind == 'f':
            return eq(float(s), float(v)) or \
                abs(float(s) - v) <= 1e-9 * abs(v)
        return s == str(v)

    def line(s, parts):
        # s is the delimited list of parts, strings or values
        f = s.split(d)
        texts = [str(q) for q in parts]
        joined = d.join(texts)
        if s == joined:
            return True
        if len(f) != len(parts):
            return False
        return all([g == t or (k > 0 and cell(g, q)) for k, (g, t, q) in
                    enumerate(zip(f, texts, parts))])
    if a.ndim == 1:
        c.check(len(lines) == a.size, '%d lines' % len(lines))
        for s, l, v in zip(lines, a.label[0], a.x):
            c.check(line(s, [l, v]), lambda: 'line %r for %r' % (s, (l, v)))
    else:
        c.check(len(lines) == a.shape[0] + 1, '%d lines' % len(lines))
        c.check(lines[0] == d + d.join([str(l) for l in a.label[1]]),
                'first line %r' % lines[0])
        for i in range(a.shape[0]):
            c.check(line(lines[i + 1], [a.label[0][i]] + list(a.x[i])),
                    lambda: 'line %r for %r' % (lines[i + 1], a.x[i]))
    c.substance += len(lines) + 1
    if c.chance(.1):
        b = gen.larry(c.rng, kinds='d', ndims=(3, 4))
        c.raises(b.tofile, path(c, 'y.txt'), exc=ValueError)


@R.scenario(300)
def printed(c):
    ndim = c.choice([1, 1, 2, 3])
    shp = [c.choice([0, 1, 3, 9, 10, 11, 12, 25]) for i in range(ndim)]
    if ndim == 3:
        shp = [min(n, 11) for n in shp]
    kinds = 'ffibSO'
    a = gen.larry(c.rng, shp=tuple(shp), kinds=kinds)
    want = []
    for k, l in enumerate(a.label):
        want.append('label_%d' % k)
        show = [str(e) for e in l]
        if len(show) > 10:
            show = show[:3] + ['...'] + show[-3:]
        want += ['    ' + s for s in show]
    want.append('x')
    want = '\n'.join(want) + '\n' + repr(a.x)
    got = c.call(c.choice([repr, str]), a, name='repr')
    c.check([s.rstrip() for s in got.split('\n')] ==
            [s.rstrip() for s in want.split('\n')],
            lambda: 'printed form is\n%s\ninstead of\n%s' % (got, want))
    c.substance += 1
