"""C06: operators on two larrys line up by label."""
from __future__ import print_function
import operator

import numpy as np

import gen
import model
from core import Registry

R = Registry('C06')

ARITH = [('add', operator.add), ('sub', operator.sub), ('mul', operator.mul),
         ('div', operator.div), ('truediv', operator.truediv),
         ('floordiv', operator.floordiv)]
LOGIC = [('and', operator.and_), ('or', operator.or_)]
COMP = [('eq', operator.eq), ('ne', operator.ne), ('lt', operator.lt),
        ('gt', operator.gt), ('le', operator.le), ('ge', operator.ge)]
NPF = {'and': np.logical_and, 'or': np.logical_or, 'eq': np.equal,
       'ne': np.not_equal, 'lt': np.less, 'gt': np.greater,
       'le': np.less_equal, 'ge': np.greater_equal, 'add': np.add,
       'sub': np.subtract, 'mul': np.multiply, 'div': np.divide,
       'truediv': np.true_divide, 'floordiv': np.floor_divide}


def run(c, name, op, a, b):
    x1, x2, lab = model.inner(a.label, a.x, b.label, b.x)
    try:
        want = NPF[name](x1, x2)
    except TypeError:
        want = None
    if want is None or want is NotImplemented:
        return
    got = c.call(op, a, b, name='operator.' + name)
    c.same(got, lab, want, 'larry %s larry' % name)


def pair(c, kinds, **kw):
    a = gen.larry(c.rng, kinds=kinds, inf=c.choice([0, 0, .1]), **kw)
    b = gen.like(c.rng, a, kinds=kinds, inf=c.choice([0, 0, .1]))
    if c.chance(.03):
        b = a
    if c.chance(.5):
        a, b = b, a
    return a, b


@R.scenario(2400)
def numeric(c):
    a, b = pair(c, 'fffiib' if c.chance(.95) else 'cfic')
    name, op = c.choice(ARITH + LOGIC + COMP)
    if name in ('sub', 'floordiv', 'div', 'truediv') and \
       a.x.dtype.kind == 'b' and b.x.dtype.kind == 'b':
        name, op = 'add', operator.add
    run(c, name, op, a, b)


@R.scenario(500)
def every_operator(c):
    a, b = pair(c, 'ffi')
    for name, op in ARITH + LOGIC + COMP:
        run(c, name, op, a, b)


@R.scenario(400)
def one_axis_differs(c):
    "All axes equal but one, which has the same length or labels."
    a = gen.larry(c.rng, kinds='fi', ndims=(1, 2, 3, 3, 4), zero=0)
    lab = [list(l) for l in a.label]
    ax = c.rng.randint(0, a.ndim - 1)
    rel = c.choice(['perm', 'perm', 'disjoint', 'overlap', 'subset'])
    lab[ax] = gen.related(c.rng, lab[ax], rel=rel)
    b = gen.larry(c.rng, lab=lab, kinds='fi')
    if c.chance(.5):
        a, b = b, a
    name, op = c.choice(ARITH + LOGIC + COMP)
    run(c, name, op, a, b)


@R.scenario(250)
def strings(c):
    a = gen.larry(c.rng, kinds='S')
    b = gen.like(c.rng, a, kinds='S')
    name, op = c.choice(COMP)
    x1, x2, lab = model.inner(a.label, a.x, b.label, b.x)
    want = np.zeros(x1.shape, bool)
    for i in np.ndindex(*x1.shape):
        want[i] = op(x1[i], x2[i])
    c.same(c.call(op, a, b, name='operator.' + name), lab, want, name)


@R.scenario(150)
def objects(c):
    a = gen.larry(c.rng, kinds='O')
    b = gen.like(c.rng, a, kinds='O')
    name, op = c.choice(COMP[:2])
    x1, x2, lab = model.inner(a.label, a.x, b.label, b.x)
    want = np.zeros(x1.shape, bool)
    for i in np.ndindex(*x1.shape):
        want[i] = op(x1[i], x2[i])
    c.same(c.call(op, a, b, name='operator.' + name), lab, want, name,
           dtype=True)


@R.scenario(150)
def different_ndim(c):
    a = gen.larry(c.rng, kinds='fi')
    while True:
        b = gen.larry(c.rng, kinds='fi')
        if b.ndim != a.ndim:
            break
    if c.chance(.4) and b.ndim > 1:
        # The common axes are aligned
        b = gen.larry(c.rng, lab=a.label + [['z']], kinds='fi')
        if c.chance(.5):
            a, b = b, a
    name, op = c.choice(ARITH + LOGIC + COMP)
    c.raises(op, a, b, name='operator.' + name)


@R.scenario(150)
def chain(c):
    "Sums and products of several larrys."
    a = gen.larry(c.rng, kinds='f', nan=.2)
    lab, x = a.label, a.x
    y = a
    for i in range(c.rng.randint(2, 4)):
        b = gen.like(c.rng, y if c.chance(.5) else a, kinds='fi')
        name, op = c.choice(ARITH[:3])
        x1, x2, lab2 = model.inner(lab, x, b.label, b.x)
        lab, x = lab2, NPF[name](x1, x2)
        y = c.call(op, y, b, name='operator.' + name)
        c.same(y, lab, x, 'chain ' + name)
