"""C05: the three implementations of listmap and listmap_fill.

In the workers of the asan variants the extension under test is built with
AddressSanitizer and UndefinedBehaviorSanitizer, which end the process on a
report; lists keep their items in memory of their own, so reads of items that
are gone are seen. Reference counts are watched in all variants.
"""
from __future__ import print_function
import gc
import imp
import os
import sys

import numpy as np

import bootstrap
import gen
from core import Registry

import la

R = Registry('C05')
QUICK = 4


def load():
    "{name: (listmap, listmap_fill)} of all the implementations."
    scratch = os.path.dirname(os.getcwd())
    out = {}
    paths = dict(pyx='cflabel', c='c')
    if 'asan' in os.environ.get('LD_PRELOAD', ''):
        paths = dict(pyx='asan-pyx', c='asan-c')
    for name, d in paths.items():
        so = os.path.join(scratch, d, 'cflabel.so')
        old = sys.modules.pop('cflabel', None)
        m = imp.load_dynamic('cflabel', so)
        assert m.__file__ == so
        out[name] = (m.listmap, m.listmap_fill)
        sys.modules.pop('cflabel', None)
    # The fallbacks: flabel.py without extension
    with open(os.path.join(bootstrap.REPO, 'la', 'flabel.py')) as f:
        code = compile(f.read() + '\n', 'flabel.py', 'exec', 0, True)
    saved = sys.modules.get('la.cflabel', 0)
    sys.modules['la.cflabel'] = None
    path = sys.meta_path
    sys.meta_path = [p for p in path
                     if not isinstance(p, bootstrap.SourceImporter)]
    try:
        ns = {'__name__': 'la.flabel_pure', '__package__': 'la'}
        exec(code, ns)
    finally:
        sys.meta_path = path
        if saved == 0:
            del sys.modules['la.cflabel']
        else:
            sys.modules['la.cflabel'] = saved
    out['python'] = (ns['listmap'], ns['listmap_fill'])
    # What la itself uses in this worker
    from la.flabel import listmap, listmap_fill
    out['la'] = (listmap, listmap_fill)
    return out


_impl = None


def impls():
    global _impl
    if _impl is None:
        _impl = load()
        for name in ('pyx', 'c'):
            assert type(_impl[name][0]) is type(len), 'not compiled'
        assert type(_impl['python'][0]) is type(load), 'not pure'
    return _impl


def ref_map(l1):
    pos = {}
    for i in range(len(l1)):
        pos[l1[i]] = i
    return pos


class Key(object):
    "A label with its own hash and equality."
    def __init__(self, v, h=None):
        self.v = v
        self.h = h

    def __hash__(self):
        return hash(self.v) if self.h is None else self.h

    def __eq__(self, other):
        return isinstance(other, Key) and self.v == other.v

    def __ne__(self, other):
        return not self == other

    def __repr__(self):
        return 'Key(%r)' % (self.v,)


ODD = (None, '', (), 0, False, 0.0, frozenset(), u'', 1, True, 1.0, 2 ** 70,
       'a', u'a', u'\xe9', -1, -2, -1.5, float('inf'), 1j, Ellipsis,
       NotImplemented, int, len, (None,), ((), ''), frozenset([1]),
       np.int64(1), np.float64(2), np.str_('b'), np.datetime64('2000-01-01'),
       'b', 2, -(2 ** 63), 2 ** 63 - 1)


def odd(c):
    "Anything that can be hashed; some of it false, some of it equal."
    few = c.rng.sample(ODD, c.rng.randint(1, 8))
    return [c.choice(few if c.chance(.8) else ODD)
            for i in range(c.rng.randint(0, 9))]


def lists(c):
    k = c.choice(['labels', 'labels', 'labels', 'dup', 'keys', 'collide',
                  'big', 'nan', 'empty', 'odd', 'odd'])
    if k == 'odd':
        return odd(c), odd(c)
    if k == 'empty':
        l1, l2 = [], c.choice([[], [1, 'a']])
        return (l1, l2) if c.chance(.5) else (l2, l1)
    if k == 'big':
        n = c.choice([300, 1000, 2000])
        l1 = range(1000, 1000 + n)
        c.rng.shuffle(l1)
        l2 = c.rng.sample(l1, c.rng.randint(0, n))
        if c.chance(.4):
            l2.append(-5)
        return l1, l2
    if k == 'nan':
        nan = float('nan')
        return [1.0, nan, 2.0], c.choice([[nan], [float('nan')], [2.0, nan]])
    l1 = gen.labels(c.rng, c.rng.randint(0, 12), kinds=gen.KINDS)
    l2 = gen.related(c.rng, l1)
    if k == 'dup':
        l1 = l1 + [c.choice(l1) for i in range(3) if l1]
        l2 = l2 + [c.choice(l2) for i in range(3) if l2]
        c.rng.shuffle(l1)
        c.rng.shuffle(l2)
    elif k == 'keys':
        l1 = [Key(v) for v in l1]
        l2 = [Key(v) for v in l2]
    elif k == 'collide':
        l1 = [Key(v, 7) for v in l1]
        l2 = [Key(v, 7) for v in l2]
        for k in range(len(l2)):
            if c.chance(.4):
                l2[k] = c.choice(l1) if l1 else l2[k]
    return l1, l2


def is_index(c, r, name):
    c.check(type(r) is list and all([type(i) is int for i in r]),
            '%s returned %r' % (name, r))


@R.scenario(500)
def mapping(c):
    l1, l2 = lists(c)
    pos = ref_map(l1)
    lost = [l for l in l2 if l not in pos]
    want = [pos[l] for l in l2 if l in pos]
    fill = c.choice([0, 0, -1, 7, -2 ** 31, 2 ** 31 - 1, 1000])
    index = [pos.get(l, fill) for l in l2]
    missing = [i for i, l in enumerate(l2) if l not in pos]
    for name, (f, g) in impls().items():
        c.stats.bump('implementation ' + name)
        if lost:
            e = c.raises(f, l1, l2, exc=KeyError, name='listmap',
                         why='unmappable ' + name)
            c.check(len(e.args) == 1 and e.args[0] is lost[0] or
                    e.args[0] == lost[0],
                    'KeyError names %r, not %r' % (e.args, lost[0]))
        else:
            r = c.call(f, l1, l2, name='listmap')
            is_index(c, r, name)
            c.check(r == want, '%s: %r not %r' % (name, r, want))
        if c.chance(.5):
            r = c.call(f, l1, l2, True, name='listmap')
        else:
            r = c.call(f, l1, l2, ignore_unmappable=True, name='listmap')
        is_index(c, r, name)
        c.check(r == want, '%s ignore: %r not %r' % (name, r, want))
        if fill == 0 and c.chance(.7):
            r = c.call(g, l1, l2, name='listmap_fill')
        elif c.chance(.5):
            r = c.call(g, l1, l2, fill, name='listmap_fill')
        else:
            r = c.call(g, l1, l2, fill=fill, name='listmap_fill')
        c.check(type(r) is tuple and len(r) == 2, '%s gave %r' % (name, r))
        is_index(c, r[0], name)
        is_index(c, r[1], name)
        c.check(r[0] == index and r[1] == missing,
                '%s fill: %r not %r' % (name, r, (index, missing)))
    c.substance += 1 + len(l2)


@R.scenario(1)
def small_cases(c):
    "All pairs of lists of up to four of three labels."
    import itertools
    n = 0
    for letters in ('abc', (None, 0, ''), (1, -1, -2)):
        n += all_small(c, letters)
    c.stats.bump('small cases', n)
    c.substance += n


def all_small(c, letters):
    import itertools
    ls = [list(t) for n in range(5) for t in itertools.product(letters,
                                                               repeat=n)]
    ls2 = [l for l in ls if len(l) < 4] + [list(letters) + list(letters[:2])]
    n = 0
    for name, (f, g) in impls().items():
        for l1 in ls:
            pos = ref_map(l1)
            for l2 in ls2:
                n += 1
                want = [pos[l] for l in l2 if l in pos]
                if f(l1, l2, True) != want:
                    c.fail('%s listmap(%r, %r, True)' % (name, l1, l2))
                try:
                    r = f(l1, l2)
                except KeyError:
                    r = None
                if r != (want if len(want) == len(l2) else None):
                    c.fail('%s listmap(%r, %r) gave %r' % (name, l1, l2, r))
                r = g(l1, l2, -3)
                if r != ([pos.get(l, -3) for l in l2],
                         [i for i, l in enumerate(l2) if l not in pos]):
                    c.fail('%s listmap_fill(%r, %r) gave %r' %
                           (name, l1, l2, r))
    return n


@R.scenario(150)
def bad_arguments(c):
    l1, l2 = lists(c)
    bad = c.choice([(1, 2), 'ab', {'a': 1}, set([1]), None, 5, iter([1]),
                    np.arange(3)])
    for name, (f, g) in impls().items():
        if name in ('python', 'la'):
            continue
        for h in (f, g):
            c.raises(h, bad, l2, exc=TypeError, name='listmap', why=name)
            c.raises(h, l1, bad, exc=TypeError, name='listmap', why=name)
            c.raises(h, exc=TypeError, name='listmap', why=name)
            c.raises(h, l1, exc=TypeError, name='listmap', why=name)
        c.raises(f, l1, l2, c.choice(['a', 2.5, []]), exc=TypeError,
                 name='listmap', why=name)
        c.raises(g, l1, l2, c.choice(['a', None, []]), exc=TypeError,
                 name='listmap', why=name)
    un = c.choice([[], {}, set(), bytearray('ab')])
    a = list(l1)
    a.insert(c.rng.randint(0, len(a)), un)
    b = [l for l in l2 if l in ref_map(l1)]
    b.insert(c.rng.randint(0, len(b)), un)
    for name, (f, g) in impls().items():
        for h in (f, g):
            c.raises(h, a, l1, exc=TypeError, name='listmap',
                     why='unhashable ' + name)
            c.raises(h, l1, b, exc=TypeError, name='listmap',
                     why='unhashable ' + name)
        c.raises(f, l1, b, True, exc=TypeError, name='listmap',
                 why='unhashable ' + name)


# Reference counts -----------------------------------------------------------

class Token(object):
    "A label whose life is counted."
    alive = 0

    def __init__(self, v, bad=None):
        Token.alive += 1
        self.v = v
        self.bad = bad

    def __del__(self):
        Token.alive -= 1

    def __hash__(self):
        if self.bad == 'hash':
            raise Oops('hash')
        return 11 if self.bad == 'same' else hash(self.v)

    def __eq__(self, other):
        if self.bad == 'eq':
            raise Oops('eq')
        return self.v == other.v


class Oops(Exception):
    pass


def outcome(h, args):
    try:
        h(*args)
        r = 'returned'
    except Exception as e:
        r = type(e).__name__
        e = None
    sys.exc_clear()
    return r


def containers():
    t = map(type, gc.get_objects())
    return t.count(list) + t.count(dict)


@R.scenario(200)
def references(c):
    "No call keeps or loses a reference, whether it returns or raises."
    n, m = c.rng.randint(0, 8), c.rng.randint(0, 8)
    kind = c.choice([None, None, 'hash', 'same', 'eq'])
    start = Token.alive
    l1 = [Token(i % 6) for i in range(n)]
    l2 = [Token(c.rng.randint(0, 7)) for i in range(m)]
    for i in range(m):
        if n and c.chance(.3):
            l2[i] = c.choice(l1)
    victims = [t for t in l1 + l2]
    if kind and victims:
        for t in victims:
            if kind == 'same' or c.chance(.3):
                t.bad = kind
    victims = None
    un = [[]] if c.chance(.15) else []
    l1 += un
    total = Token.alive
    calls = [(0, (l1, l2)), (0, (l1, l2, True)), (1, (l1, l2)),
             (1, (l1, l2, -7)), (0, (l1, None)), (0, (l1, l2, 'a')),
             (1, (l1, l2, 'a')), (0, (l1,))]
    c.trace.append('references %d %d %s' % (n, m, kind))
    scan = c.index < 64
    for name, pair in impls().items():
        if scan:
            gc.collect()
        for which, args in calls:
            h = pair[which]
            outcome(h, args)
            before = [sys.getrefcount(t) for t in l1 + l2]
            mine = [sys.getrefcount(l1), sys.getrefcount(l2),
                    sys.getrefcount(True), sys.getrefcount(-7)]
            nlists = containers() if scan else 0
            for i in range(3):
                r = outcome(h, args)
                c.stats.bump('%s %s' % (name, r))
            nlists2 = containers() if scan else 0
            mine2 = [sys.getrefcount(l1), sys.getrefcount(l2),
                     sys.getrefcount(True), sys.getrefcount(-7)]
            after = [sys.getrefcount(t) for t in l1 + l2]
            c.check(before == after, '%s %s%r: reference counts of labels '
                    'went from %r to %r' % (
                        name, h.__name__, args[2:], before, after))
            c.check(abs(mine2[0] - mine[0]) + abs(mine2[1] - mine[1]) +
                    abs(mine2[3] - mine[3]) == 0 and
                    abs(mine2[2] - mine[2]) < 3,
                    '%s: references to arguments went from %r to %r' %
                    (name, mine, mine2))
            c.check(nlists2 - nlists < 3, '%s: %d containers left behind' %
                    (name, nlists2 - nlists))
            c.check(Token.alive == total, '%s: %d labels died' %
                    (name, total - Token.alive))
    c.sig.update(repr((n, m, kind, [t.v for t in l1 + l2
                                    if type(t) is Token])))
    c.substance += 1
    calls = args = t = un = None
    del l1[:], l2[:]
    # The labels of earlier cases may still be alive in reports
    c.check(Token.alive == start, '%d labels are kept alive' %
            (Token.alive - start))


@R.scenario(60)
def result_references(c):
    "The positions returned are referenced by the result alone."
    n = c.rng.randint(400, 900)
    l1 = ['l%d' % i for i in range(n)]
    for name, (f, g) in impls().items():
        for h, args in ((f, ()), (f, (True,)), (g, (3000,))):
            l2 = list(l1)
            c.rng.shuffle(l2)
            if h is not f or args:
                l2[5] = 'x'
                l2[7] = 'x'
            r = h(l1, l2, *args)
            lost = r[1] if h is g else []
            if h is g:
                r = r[0]
            # One reference of r and one for the argument of getrefcount
            refs = map(sys.getrefcount, r)
            for k, m in zip(r, refs):
                if 300 < k < 3000 and m != 2:
                    c.fail('%s: position %d has %d references' % (name, k, m))
            del r, lost, k
    c.sig.update(repr((n, l2[:20])))
    c.substance += n


def rss():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1]) * 4096 / 1e6


@R.scenario(2)
def memory(c):
    "Resident memory does not grow however often the functions are called."
    if 'asan' in os.environ.get('LD_PRELOAD', ''):
        return
    l1 = range(10000, 12000)
    l2 = l1[::-1]
    l3 = l2 + [-1]
    for name, (f, g) in impls().items():
        for k in range(8):
            for i in range(20):
                f(l1, l2)
                f(l1, l3, True)
                g(l1, l3)
                outcome(f, (l1, l3))
                outcome(f, (l1, [[]]))
            if k == 1:
                start = rss()
        grown = rss() - start
        c.check(grown < 8, '%s: %.1f MB more after 600 calls' % (name, grown))
    c.stats.bump('memory probes', 4)
    c.substance += 1


# Hostile labels -------------------------------------------------------------

class Hostile(object):
    "A label that does something when it is hashed or compared."
    def __init__(self, v, plan):
        self.v = v
        self.plan = plan

    def __hash__(self):
        self.plan('hash', self)
        return self.v % 3

    def __eq__(self, other):
        self.plan('eq', self)
        return isinstance(other, Hostile) and self.v == other.v

    def __repr__(self):
        return 'Hostile(%d)' % self.v


class Plan(object):
    def __init__(self, c, when, action, l1, l2):
        self.n = 0
        self.when, self.action = when, action
        self.l1, self.l2 = l1, l2
        self.c = c
        self.busy = False
        self.fired = 0
        self.seed = c.rng.random()
        self.inner = []

    def __call__(self, what, key):
        if self.busy:
            return
        self.n += 1
        if self.n not in self.when:
            return
        self.busy = True
        self.fired += 1
        try:
            self.act(key)
        finally:
            self.busy = False

    def act(self, key):
        a = self.action
        for l in {'1': [self.l1], '2': [self.l2], 'b': [self.l1, self.l2]}[
                a[0]]:
            w = a[1:]
            if w == 'clear':
                del l[:]
            elif w == 'pop' and l:
                l.pop()
            elif w == 'pop0' and l:
                l.pop(0)
            elif w == 'half':
                del l[len(l) // 2:]
            elif w == 'append':
                l.extend(range(50))
            elif w == 'insert':
                l.insert(0, 'new')
            elif w == 'replace':
                l[:] = ['x%d' % i for i in range(len(l))]
            elif w == 'shrinkgrow':
                n = len(l)
                del l[:]
                junk = [object() for i in range(n)]
                l.extend(junk)
            elif w == 'unhashable' and l:
                l[-1] = []
            elif w == 'raise':
                raise Oops('label')
            elif w == 'again':
                for name, (f, g) in impls().items():
                    outcome(f, (list(self.l1), list(self.l2), True))
                    outcome(g, (self.l1, self.l2))
            elif w == 'collect':
                gc.collect()


ACTIONS = [a + w for a in '12b' for w in (
    'clear', 'pop', 'pop0', 'half', 'append', 'insert', 'replace',
    'shrinkgrow', 'unhashable')] + ['braise', 'braise', 'bagain', 'bcollect']


def beyond_lists(objs, lists):
    "The number of references to each object that are not from the lists."
    counts = {}
    for l in lists:
        for i in map(id, l):
            counts[i] = counts.get(i, 0) + 1
    return [n - counts.get(i, 0) for n, i in zip(
        map(sys.getrefcount, objs), map(id, objs))]


@R.scenario(700)
def hostile(c):
    n, m = c.rng.randint(1, 14), c.rng.randint(1, 14)
    va = [c.rng.randint(0, 9) for i in range(n)]
    vb = [c.rng.randint(0, 9) for i in range(m)]
    action = c.choice(ACTIONS)
    when = set([c.rng.randint(1, 2 * (n + m)) for i in range(c.choice(
        [1, 1, 2, 4]))])
    mixed = c.rng.random()
    some = [c.chance(.5) for i in range(n + m)]
    fill = c.rng.randint(-5, 99)
    c.trace.append('hostile %r %r %s %r' % (va, vb, action, sorted(when)))
    c.sig.update(c.trace[-1])
    for name, pair in sorted(impls().items()):
        for which, extra in ((0, ()), (0, (True,)), (1, (fill,))):
            l1, l2 = [], []
            plan = Plan(c, when, action, l1, l2)
            plan.busy = True
            l1 += [Hostile(v, plan) if mixed < .6 or some[i] else v
                   for i, v in enumerate(va)]
            l2 += [Hostile(v, plan) if mixed < .6 or some[n + i] else v
                   for i, v in enumerate(vb)]
            s1, s2 = list(l1), list(l2)
            # What a run without any interference gives
            pos = {}
            for i, k in enumerate(s1):
                pos[k] = i
            want = [pos.get(k) for k in s2]
            pos = k = None
            labels_ = filter(lambda o: isinstance(o, Hostile), s1 + s2)
            refs = beyond_lists(labels_, [s1, s2, l1, l2])
            plan.busy = False
            try:
                r = pair[which](l1, l2, *extra)
                err = None
            except Exception as e:
                r, err = None, e
            sys.exc_clear()
            plan.busy = True
            c.stats.bump('hostile %s' % ('raised' if err else 'returned'))
            c.stats.bump('hostile actions', plan.fired)
            if err is None:
                idx = r if which == 0 else r[0]
                c.check(type(idx) is list, '%s: %r' % (name, r))
                for i in idx:
                    # An implementation may or may not see labels that are
                    # appended meanwhile, up to 60 per action
                    c.check(type(i) is int and (
                        0 <= i < n + 60 * plan.fired or
                        (which == 1 and i == fill)),
                        '%s: positions %r' % (name, idx))
            elif action[1:] == 'raise' and plan.fired:
                # The functions may only be interrupted by this one exception
                c.check(type(err) is Oops or (
                    type(err) is KeyError and which == 0 and not extra),
                    '%s: raised %r instead of Oops' % (name, err))
            if action[1:] == 'raise' and plan.fired:
                c.check(err is not None, '%s: exception of a label was lost'
                        % name)
            if plan.fired == 0 or action[1:] in ('collect', 'again'):
                lost = None in want
                if which == 1:
                    c.check(err is None and r == (
                        [fill if i is None else i for i in want],
                        [k for k, i in enumerate(want) if i is None]),
                        lambda: '%s: %r %r' % (name, r, err))
                elif extra:
                    c.check(err is None and
                            r == [i for i in want if i is not None],
                            lambda: '%s: %r %r' % (name, r, err))
                elif lost:
                    c.check(type(err) is KeyError, '%s: %r' % (name, err))
                else:
                    c.check(err is None and r == want,
                            lambda: '%s: %r %r' % (name, r, err))
            plan.l1 = plan.l2 = None
            err = e = None
            # Nothing keeps the labels
            exp = beyond_lists(labels_, [s1, s2, l1, l2])
            c.check(refs == exp, '%s: references besides the lists are %r '
                    'instead of %r' % (name, exp, refs))
    c.substance += 1
