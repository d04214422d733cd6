"""C18: a failing operation leaves no trace.

Every user callback ticks a counter.  A first run counts the callbacks of an operation; then the operation is run again
once for every callback, which raises; afterwards all collections must be as before and the operation must work.
"""
import copy
import pickle

from core import call, short
from maps import bad

BOUNDS = {
    'quick': 'about 330 operations of vectors, maps, sets, bags, lists, deques, records, classes, checked collections, evolvers, transform, freeze/thaw, serialization, pickling at several sizes and collision patterns; one failure '
             'injected at every single callback (hash, ==, <, repr, __index__, iteration start and step, merge function, predicate, command, factory, default, invariant, serializer), then also at every pair of callbacks of the '
             'failed and the repeated run; three unrelated exception classes and six that collection protocols use; all existing values, empty singletons included, compared before and after; every refused step of an evolver (bad index, key, type) after all histories of up to 2 steps, compared with a twin that was not asked',
    'thorough': 'as quick at more sizes, all pairs of failures and more than two failures in a row',
}
ASSUMPTIONS = ['an operation may interpret exceptions that the collection protocols themselves give a meaning (KeyError, IndexError, AttributeError, StopIteration, TypeError, ValueError); for these it is only required that no value changes and that the repeated operation gives the normal result',
               'an evolver whose extend or update fails part way may keep the elements seen before the failure']


class Boom(Exception):
    pass


class Odd(ArithmeticError):
    pass


class Hard(BaseException):
    """Like KeyboardInterrupt."""


# What the collection protocols give a meaning to: an operation may take these for an answer (a map's get takes a KeyError of the key's hash for
# an absent key), but it still leaves no trace.
SOFT = tuple(type('Soft' + b.__name__, (b,), {}) for b in (KeyError, ValueError, IndexError, AttributeError, TypeError, StopIteration))


class Ticker(object):
    n = 0
    at = None
    exc = None
    cls = Boom
    log = None
    nested = None       # C19: called instead of raising


def tick(what=None):
    T = Ticker
    k = T.n
    T.n += 1
    if T.log is not None:
        T.log.append(what)
    if k == T.at:
        T.at = None
        if T.nested is not None:
            T.nested()
            return
        T.exc = T.cls('at callback %d: %s' % (k, what))
        raise T.exc


class E(object):
    """Element or key: hash as chosen, equality by number, everything ticks."""
    __slots__ = ('n', 'h')

    def __init__(self, n, h=None):
        self.n = n
        self.h = n if h is None else h

    def __hash__(self):
        tick('hash')
        return self.h

    def __eq__(self, o):
        tick('eq')
        return isinstance(o, E) and self.n == o.n

    def __lt__(self, o):
        tick('lt')
        return self.n < o.n

    def __gt__(self, o):
        tick('gt')
        return self.n > o.n

    def __le__(self, o):
        tick('le')
        return self.n <= o.n

    def __ge__(self, o):
        tick('ge')
        return self.n >= o.n

    def __repr__(self):
        tick('repr')
        return 'E%d' % self.n

    def __index__(self):
        tick('index')
        return self.n


def it(xs):
    tick('iter start')
    for x in xs:
        yield x
        tick('iter step')


class Iterable(object):
    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        tick('__iter__')
        return it(self.xs)


class Pairs(object):
    """A mapping-like object with keys() and []."""

    def __init__(self, d):
        self.d = d

    def keys(self):
        tick('keys')
        return it([k for k, _ in self.d])

    def __iter__(self):
        return self.keys()

    def __getitem__(self, k):
        tick('getitem')
        for kk, v in self.d:
            if kk is k:
                return v
        raise KeyError(k)

    def items(self):
        tick('items')
        return it(self.d)


def fn(f, what):
    def g(*a):
        tick(what)
        return f(*a)
    return g


def pred1(f):
    def g(k):
        tick('predicate')
        return f(k)
    return g


def pred2(f):
    def g(k, v):
        tick('predicate')
        return f(k, v)
    return g


# -- comparable forms (the counter is off while these run) -----------------------------------

FIELDS = ('a', 'b', 'c', 'i', 'ps', 'q', 'v', 'xs', 'z')


def norm(x):
    from pyrsistent import PBag, PClass, PDeque, PList, PMap, PSet, PVector
    if isinstance(x, E):
        return 'E%d' % x.n
    if isinstance(x, (PVector, list, tuple, PList, PDeque)):
        r = (type(x).__name__, [norm(y) for y in x])
        if isinstance(x, PDeque):
            r += (x.maxlen,)
        if not isinstance(x, tuple) and len(x) != len(r[1]):
            r += ('len', len(x))
        return r
    if isinstance(x, (PMap, dict)):
        return (type(x).__name__, sorted((repr(norm(k)), repr(norm(v))) for k, v in x.items()), len(x))
    if isinstance(x, PBag):
        return ('bag', sorted(repr(norm(k)) for k in x), len(x))
    if isinstance(x, (PSet, set, frozenset)):
        return (type(x).__name__, sorted(repr(norm(k)) for k in x), len(x))
    if isinstance(x, PClass):
        return (type(x).__name__, [(f, repr(norm(getattr(x, f)))) for f in FIELDS if hasattr(x, f)])
    if isinstance(x, Exception):
        return (type(x).__name__, str(x))
    if hasattr(x, 'persistent') and hasattr(x, 'is_dirty'):
        return 'evolver'
    return x if isinstance(x, (int, str, bool, type(None), float)) else (type(x).__name__, repr(x))


def empties():
    from pyrsistent import b, l, dq, m, pbag, pdeque, plist, pmap, pset, pvector, s, v
    return (pvector(), pmap(), pset(), plist(), pdeque(), pbag([]), v(), m(), s(), l(), dq(), b())


EMPTY = None


def check_empties(tr):
    global EMPTY
    got = [(norm(x), len(x)) for x in empties()]
    if EMPTY is None:
        EMPTY = got
    if got != EMPTY or any(n for _, n in got):
        bad('an empty collection is not empty any more: %s' % short(got), tr)


class Scenario(object):
    """values: existing collections; op: function of nothing; fresh: True if op works on things it creates itself"""

    def __init__(self, name, values, op, reset=None, observe=None):
        self.name, self.values, self.op, self.reset, self.observe = name, values, op, reset, observe


def explore(ctx, sc, pairs=False):
    T = Ticker
    T.at = None

    def snapshot():
        T.at = None
        return [norm(x) for x in sc.values] + ([sc.observe()] if sc.observe else [])
    before = snapshot()
    idents = [id(x) for x in sc.values]

    def clean():
        if sc.reset:
            sc.reset()
        T.at = None
        T.n = 0
        r = call(sc.op)
        n = T.n
        return ('ok', norm(r[1])) if r[0] == 'ok' else ('exc', type(r[1]).__name__), n
    want, total = clean()
    tr0 = (sc.name,)
    if snapshot() != before:
        bad('the operation changed an existing value', tr0)
    ctx.state((ctx.config, sc.name))
    classes = (Boom, Odd, Hard)

    def fail(k, cls, tr):
        """Run the operation with a failure at callback k; returns the number of callbacks seen."""
        T.cls = cls
        T.n = 0
        T.at = k
        T.exc = None
        ctx.step()
        try:
            r = ('ok', sc.op())
        except (Boom, Odd, Hard) as e:
            r = ('exc', e)
        except Exception as e:
            r = ('exc', e)
        T.at = None
        if T.exc is None:
            # fewer callbacks than in the first run (something was cached): nothing was injected
            return False
        if cls in SOFT:
            return True
        if r[0] == 'ok':
            bad('the exception was swallowed, the result is %s' % short(norm(r[1])), tr)
        if r[1] is not T.exc:
            bad('raised %r instead of the exception of the callback' % (r[1],), tr)
        return True

    for k in range(total):
        for cls in ((classes[k % len(classes)],) + SOFT if ctx.quick else classes + SOFT):
            tr = lambda: (sc.name, 'failure at callback %d of %d' % (k, total), cls.__name__)
            ctx.trace(tr)
            ctx.state((ctx.config, sc.name, k))
            if sc.reset:
                sc.reset()
            if not fail(k, cls, tr):
                continue
            after = snapshot()
            if after != before:
                bad('a value changed: %s, before: %s' % (short([a for a, b in zip(after, before) if a != b]), short([b for a, b in zip(after, before) if a != b])), tr)
            check_empties(tr)
            T.n = 0
            r = call(sc.op)
            got = ('ok', norm(r[1])) if r[0] == 'ok' else ('exc', type(r[1]).__name__)
            if got != want:
                bad('repeated without failure it gives %s, normally %s' % (short(got), short(want)), tr)
            if snapshot() != before:
                bad('a value changed when the operation was repeated', tr)
            if pairs and cls not in SOFT:
                for k2 in range(total):
                    if sc.reset:
                        sc.reset()
                    fail(k, cls, tr)
                    fail(k2, cls, lambda: tr() + ('second failure at %d' % k2,))
                    T.n = 0
                    r = call(sc.op)
                    got = ('ok', norm(r[1])) if r[0] == 'ok' else ('exc', type(r[1]).__name__)
                    if got != want or snapshot() != before:
                        bad('after two failures it gives %s, normally %s' % (short(got), short(want)), lambda: tr() + ('second failure at %d' % k2,))


# -- scenarios ----------------------------------------------------------------------------------

HP = [lambda i: i, lambda i: 0, lambda i: 8 * i]


def sc_vector(tier):
    from pyrsistent import discard, pvector
    sizes = (0, 1, 2, 3, 33) if tier == 'quick' else (0, 1, 2, 3, 31, 32, 33, 34, 65)
    for n in sizes:
        xs = [E(i) for i in range(n)]
        v = pvector(xs)
        w = pvector([E(i) for i in range(n)])
        ls = [E(i) for i in range(n)]
        big = pvector(xs + [E(99)])
        vals = [v, w, ls, big]
        new = [E(100 + i) for i in range(3)]

        def S(name, f, reset=None):
            return Scenario('vector %d: %s' % (n, name), vals, f, reset)
        yield S('pvector(iterable)', lambda: pvector(Iterable(xs)))
        yield S('extend', lambda: v.extend(Iterable(new)))
        yield S('+', lambda: v + Iterable(new))
        yield S('== vector', lambda: v == w)
        yield S('!= vector', lambda: v != w)
        yield S('== list', lambda: v == ls)
        yield S('list ==', lambda: ls == v)
        yield S('<', lambda: v < w)
        yield S('< bigger', lambda: v < big)
        yield S('>=', lambda: v >= w)
        yield S('hash', lambda: hash(v))
        yield S('repr', lambda: repr(v))
        yield S('in', lambda: E(n // 2) in v)
        yield S('not in', lambda: E(77) in v)
        yield S('index', lambda: v.index(E(n - 1)))
        yield S('count', lambda: v.count(E(n - 1)))
        yield S('remove', lambda: v.remove(E(n - 1)))
        yield S('remove absent', lambda: v.remove(E(55)))
        yield S('v[index]', lambda: v[E(n // 2)])
        yield S('slice', lambda: v[E(0):E(n):E(1)])
        if n:
            yield S('set index', lambda: v.set(E(n // 2), 'x'))
            yield S('mset index', lambda: v.mset(E(0), 'x', E(n), 'y', E(n - 1), 'z'))
            yield S('delete index', lambda: v.delete(E(0), E(1)))
            yield S('evolver set', lambda: v.evolver().set(E(0), 'x').set(E(n - 1), 'y').persistent())
            yield S('evolver delete', lambda: v.evolver().delete(E(0)).persistent())
            yield S('set', lambda: v.set(0, new[0]))
        yield S('times', lambda: v * E(2))
        yield S('evolver extend', lambda: v.evolver().extend(Iterable(new)).persistent())
        yield S('transform', lambda: v.transform([pred1(lambda i: i % 2 == 0)], fn(lambda x: ('changed', x.n), 'command')))
        yield S('transform 2', lambda: v.transform([pred2(lambda i, x: x.n % 2 == 0)], discard, [pred1(lambda i: True)], fn(lambda x: x, 'command')))
        yield S('deepcopy', lambda: copy.deepcopy(pvector([Reduced(i) for i in range(n)])))
        yield S('pickle', lambda: pickle.dumps(pvector([Reduced(i) for i in range(n)]), 2))
        e = v.evolver()
        e.append(E(500))
        if n:
            e.set(0, E(501))
        vals2 = vals

        def ev(name, f):
            return Scenario('vector %d: evolver %s' % (n, name), vals2, f, observe=lambda: ([norm(e[i]) for i in range(len(e))], e.is_dirty()))
        yield ev('getitem', lambda: e[E(n)])
        yield ev('bad set', lambda: e.set(E(n + 5), 'q'))
        yield ev('bad delete', lambda: e.delete(E(n + 5)))
        yield None


class Reduced(object):
    def __init__(self, i):
        self.i = i

    def __reduce__(self):
        tick('reduce')
        return make_reduced, (self.i,)

    def __deepcopy__(self, memo):
        tick('deepcopy')
        return Reduced(self.i)

    def __repr__(self):
        return 'Reduced(%d)' % self.i

    def __hash__(self):
        return self.i

    def __eq__(self, o):
        return isinstance(o, Reduced) and self.i == o.i


def make_reduced(i):
    tick('make')
    return Reduced(i)


def sc_map(tier, pat):
    from pyrsistent import discard, pmap
    h = HP[pat]
    sizes = (0, 1, 2, 4, 7, 8, 9) if tier == 'quick' else (0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17)
    for n in sizes:
        ks = [E(i, h(i)) for i in range(n)]
        d = [(k, 'v%d' % k.n) for k in ks]
        m = pmap(dict(d))
        m2 = pmap(dict(d[::-1])) if n else pmap({})
        # values that tick too
        mv = pmap({k: E(1000 + k.n) for k in ks})
        mv2 = pmap({k: E(1000 + k.n) for k in ks})
        plain = dict(d)
        vals = [m, m2, mv, mv2, plain, m.keys()]
        old = E(n // 2, h(n // 2))
        absent = E(50, h(n))
        third = E(51, h(1))

        def S(name, f, reset=None):
            return Scenario('map %d pattern %d: %s' % (n, pat, name), vals, f, reset)
        yield S('pmap(dict)', lambda: pmap(dict(d)))
        yield S('pmap(presize)', lambda: pmap(dict(d), pre_size=3))
        yield S('pmap(pairs)', lambda: pmap(Iterable(d)))
        yield S('set old', lambda: m.set(old, 'x'))
        yield S('set new', lambda: m.set(absent, 'x'))
        yield S('set two', lambda: m.set(absent, 'x').set(third, 'y'))
        yield S('get', lambda: m.get(old))
        yield S('get absent', lambda: m.get(absent, 7))
        yield S('[]', lambda: m[old])
        yield S('in', lambda: (old in m, absent in m))
        yield S('remove', lambda: m.remove(old))
        yield S('remove absent', lambda: m.remove(absent))
        yield S('discard', lambda: m.discard(old))
        yield S('discard absent', lambda: m.discard(absent))
        yield S('update', lambda: m.update(dict([(old, 1), (absent, 2)])))
        yield S('update map', lambda: m.update(pmap(dict([(old, 1), (absent, 2), (third, 3)]))))
        yield S('update object', lambda: m.update(Pairs([(old, 1), (absent, 2), (third, 3)])))
        yield S('update_with', lambda: m.update_with(fn(lambda a, b: (a, b), 'merge'), dict([(old, 1), (absent, 2)]), dict([(absent, 3)])))
        yield S('+', lambda: m + dict([(absent, 2)]))
        yield S('|', lambda: m | pmap(dict([(old, 2)])))
        yield S('== same', lambda: m == m2)
        yield S('== dict', lambda: m == plain)
        yield S('dict ==', lambda: plain == m)
        yield S('== values', lambda: mv == mv2)
        yield S('!= values', lambda: mv != mv2)
        yield S('repr', lambda: repr(pmap({k: E(1) for k in range(n)})))
        yield S('hash', lambda: hash(pmap(dict(d))))
        yield S('hash values', lambda: hash(pmap({i: E(i) for i in range(n)})))
        mh = pmap({i: E(i) for i in range(n)})
        yield Scenario('map %d pattern %d: hash of one map' % (n, pat), vals + [mh], lambda: hash(mh))
        yield S('keys in', lambda: absent in m.keys())
        yield S('items in', lambda: (old, 1) in m.items())
        yield S('values in', lambda: E(7) in mv.values())
        yield S('keys algebra', lambda: m.keys() & {old, absent})
        yield S('keys add', lambda: m.keys().add(absent))
        yield S('copy', lambda: copy.copy(m))
        yield S('transform', lambda: m.transform([pred1(lambda k: k.n % 2 == 0)], fn(lambda x: x + '!', 'command')))
        yield S('transform discard', lambda: m.transform([pred2(lambda k, x: x == 'v1')], discard, [absent], 'new', [absent, 'deep'], fn(lambda x: 1, 'command')) if False else m.transform([pred2(lambda k, x: x == 'v1')], discard, [absent], 'new'))
        yield S('transform nested', lambda: pmap({'a': m, 'b': m}).transform([pred1(lambda k: True), pred1(lambda k: True)], fn(lambda x: x + '?', 'command')))
        yield S('evolver', lambda: m.evolver().set(absent, 1).set(old, 2).remove(old).persistent())
        yield S('freeze', lambda: __import__('pyrsistent').freeze({k: [1] for k in ks}))
        yield S('thaw', lambda: __import__('pyrsistent').thaw(m))
        # single steps of an evolver that has pending changes
        for name, f in (('set old', lambda e: e.set(old, 'x')), ('set new', lambda e: e.set(absent, 'x')), ('remove', lambda e: e.remove(old)), ('remove absent', lambda e: e.remove(absent)), ('setitem', lambda e: e.__setitem__(third, 1)),
                        ('getitem', lambda e: e[old]), ('in', lambda e: old in e), ('get', lambda e: e.get(absent)), ('persistent', lambda e: e.persistent())):
            e = m.evolver()
            state = {}

            def reset(e=e, state=state):
                Ticker.at = None
                state['e'] = m.evolver()
                state['e'][third] = 'pending'

            def op(f=f, state=state):
                r = f(state['e'])
                return norm_evolver(state['e']), r
            yield Scenario('map %d pattern %d: evolver %s' % (n, pat, name), vals, op, reset)
        yield None


def norm_evolver(e):
    """Contents of a map evolver by committing a copy (ticks are off while the counter is not armed)."""
    at, n, log = Ticker.at, Ticker.n, Ticker.log
    Ticker.at = None
    r = norm(e.persistent())
    Ticker.at, Ticker.n = at, n
    return r


def sc_set(tier, pat):
    from pyrsistent import pset
    h = HP[pat]
    sizes = (0, 1, 2, 5, 8) if tier == 'quick' else (0, 1, 2, 3, 5, 8, 9, 16)
    for n in sizes:
        es = [E(i, h(i)) for i in range(n)]
        s = pset(es)
        t = pset(es[::-1])
        u = pset(es[n // 2:] + [E(60, h(2))])
        bu = set(es[n // 2:] + [E(60, h(2))])
        vals = [s, t, u, bu]
        old, absent = E(n // 2, h(n // 2)), E(50, h(1))

        def S(name, f, reset=None):
            return Scenario('set %d pattern %d: %s' % (n, pat, name), vals, f, reset)
        yield S('pset(iterable)', lambda: pset(Iterable(es)))
        yield S('add', lambda: s.add(absent))
        yield S('add old', lambda: s.add(old))
        yield S('remove', lambda: s.remove(old))
        yield S('discard', lambda: s.discard(old))
        yield S('discard absent', lambda: s.discard(absent))
        yield S('update', lambda: s.update(Iterable([old, absent])))
        yield S('in', lambda: (old in s, absent in s))
        for o, on in ((u, 'pset'), (bu, 'set')):
            yield S('| ' + on, lambda o=o: s | o)
            yield S('& ' + on, lambda o=o: s & o)
            yield S('- ' + on, lambda o=o: s - o)
            yield S('^ ' + on, lambda o=o: s ^ o)
            yield S('<= ' + on, lambda o=o: s <= o)
            yield S('> ' + on, lambda o=o: s > o)
            yield S('== ' + on, lambda o=o: s == o)
            yield S('isdisjoint ' + on, lambda o=o: s.isdisjoint(o))
            yield S('r| ' + on, lambda o=o: o | s)
            yield S('r- ' + on, lambda o=o: o - s)
        yield S('== equal', lambda: s == t)
        yield S('hash', lambda: hash(pset(es)))
        yield S('hash one', lambda: hash(s))
        yield S('repr', lambda: len(repr(s)))
        yield S('union', lambda: s.union(Iterable([absent])) if hasattr(s, 'union') else None)
        yield S('evolver', lambda: s.evolver().add(absent).remove(old).persistent() if n else s.evolver().add(absent).persistent())
        for name, f in (('add', lambda e: e.add(absent)), ('remove', lambda e: e.remove(old)), ('in', lambda e: old in e)):
            state = {}

            def reset(state=state):
                Ticker.at = None
                state['e'] = s.evolver().add(E(70, h(0)))

            def op(f=f, state=state):
                r = f(state['e'])
                return norm_evolver(state['e']), r
            yield Scenario('set %d pattern %d: evolver %s' % (n, pat, name), vals, op, reset)
        yield None


def sc_bag(tier):
    from pyrsistent import pbag
    for pat in range(3):
        h = HP[pat]
        for n in (0, 1, 3, 6):
            es = [E(i % 3, h(i % 3)) for i in range(n)]
            b = pbag(es)
            c = pbag(es[1:] + [E(9, h(1))])
            vals = [b, c]
            old, absent = E(0, h(0)), E(5, h(2))

            def S(name, f):
                return Scenario('bag %d pattern %d: %s' % (n, pat, name), vals, f)
            yield S('pbag(iterable)', lambda: pbag(Iterable(es)))
            yield S('add', lambda: b.add(old))
            yield S('add new', lambda: b.add(absent))
            yield S('update', lambda: b.update(Iterable([old, absent, old])))
            yield S('remove', lambda: b.remove(old))
            yield S('remove absent', lambda: b.remove(absent))
            yield S('count', lambda: (b.count(old), b.count(absent), old in b))
            for name, f in (('+', lambda: b + c), ('-', lambda: b - c), ('|', lambda: b | c), ('&', lambda: b & c), ('==', lambda: b == c)):
                yield S(name, f)
            yield S('hash', lambda: hash(pbag(es)))
            yield S('repr', lambda: len(repr(b)))
            yield None


def sc_seq(tier):
    from pyrsistent import pdeque, plist
    for n in (0, 1, 2, 4):
        xs = [E(i) for i in range(n)]
        x, y = plist(xs), plist([E(i) for i in range(n)])
        longer = plist(xs + [E(7)])
        vals = [x, y, longer]

        def S(name, f):
            return Scenario('list %d: %s' % (n, name), vals, f)
        yield S('plist(iterable)', lambda: plist(Iterable(xs)))
        yield S('plist(iterable, reverse)', lambda: plist(Iterable(xs), reverse=True))
        yield S('mcons', lambda: x.mcons(Iterable([E(8), E(9)])))
        yield S('remove', lambda: x.remove(E(n - 1)))
        yield S('remove absent', lambda: x.remove(E(66)))
        yield S('index', lambda: x.index(E(n - 1)))
        yield S('count', lambda: (x.count(E(0)), E(3) in x))
        yield S('==', lambda: (x == y))
        yield S('!=', lambda: (x != longer))
        yield S('<', lambda: x < longer)
        yield S('>', lambda: x > y)
        yield S('hash', lambda: hash(x))
        yield S('repr', lambda: repr(x))
        yield None
        for maxlen in (None, 2, 3):
            a = pdeque(xs, maxlen)
            b = pdeque(xs[n // 2:], maxlen)
            for e in reversed(xs[:n // 2]):
                b = b.appendleft(e)
            vals2 = [a, b]

            def D(name, f):
                return Scenario('deque %d max %r: %s' % (n, maxlen, name), vals2, f)
            yield D('pdeque(iterable)', lambda: pdeque(Iterable(xs), maxlen))
            yield D('extend', lambda: b.extend(Iterable([E(8), E(9)])))
            yield D('extendleft', lambda: b.extendleft(Iterable([E(8), E(9)])))
            yield D('remove', lambda: b.remove(E(n - 1)))
            yield D('remove absent', lambda: b.remove(E(66)))
            yield D('index', lambda: b.index(E(n - 1)))
            yield D('count', lambda: (b.count(E(0)), E(3) in b))
            yield D('==', lambda: a == b)
            yield D('<', lambda: a < b)
            yield D('>', lambda: b > pdeque([E(0)]))
            yield D('hash', lambda: hash(a))
            yield D('repr', lambda: repr(b))
            yield None


def sc_records(tier):
    from pyrsistent import CheckedPMap, CheckedPSet, CheckedPVector, InvariantException, PClass, PRecord, field, pmap_field, pset_field, pvector_field
    for base in (PRecord, PClass):
        def ser(format, x):
            tick('serializer')
            return ('ser', x)

        def glob(self):
            tick('class invariant')
            return (True, '')

        def init():
            tick('default')
            return 3
        ns = dict(a=field(type=int, factory=fn(int, 'factory'), invariant=fn(lambda x: (x >= 0, 'neg'), 'invariant'), serializer=ser, mandatory=True),
                  b=field(factory=fn(lambda x: x, 'factory'), invariant=fn(lambda x: (True, ''), 'invariant'), serializer=ser),
                  c=field(initial=init), xs=pvector_field(int, item_invariant=None) if False else field())
        ns['__invariant__'] = glob
        R = type(base)('R', (base,), ns)

        class Item(int):
            pass

        class V(CheckedPVector):
            __type__ = Item
            __invariant__ = staticmethod(fn(lambda x: (x >= 0, 'neg'), 'item invariant')) if False else fn(lambda x: (x >= 0, 'neg'), 'item invariant')

        class Inner(base):
            q = field(factory=fn(lambda x: x, 'factory'), invariant=fn(lambda x: (True, ''), 'invariant'))
        Outer = type(base)('Outer', (base,), dict(i=field(type=Inner), v=field(type=V), ps=pset_field(int, invariant=fn(lambda x: (True, ''), 'invariant')), z=field()))
        r = R(a=1, b=2)
        r2 = R(a=1, b=2)
        rE = R(a=1, b=E(4))
        rE2 = R(a=1, b=E(4))
        o = Outer(i={'q': 1}, v=[Item(1), Item(2)], ps=[1, 2])
        vals = [r, r2, rE, rE2, o]
        nm = base.__name__

        def S(name, f, reset=None):
            return Scenario('%s: %s' % (nm, name), vals, f, reset)
        yield S('new', lambda: R(a='5', b=6))
        yield S('new missing', lambda: R(b=6))
        yield S('new invalid', lambda: R(a=-1))
        yield S('set', lambda: r.set(a=7))
        yield S('set positional', lambda: r.set('b', 7))
        yield S('set two', lambda: r.set(a=7, b=8))
        yield S('set invalid', lambda: r.set(a=-7, b=8))
        if base is PRecord:
            yield S('update', lambda: r.update({'a': 3, 'b': 4}))
            yield S('|', lambda: r | {'a': 3})
            yield S('discard', lambda: r.discard('b'))
        yield S('remove', lambda: r.remove('b'))
        yield S('remove mandatory', lambda: r.remove('a'))
        yield S('evolver', lambda: r.evolver().set('a', 3).set('b', 4).persistent())
        yield S('transform', lambda: r.transform(['a'], fn(lambda x: x + 1, 'command'), ['b'], 9))
        yield S('create', lambda: R.create({'a': 3, 'b': 4}))
        yield S('create extra', lambda: R.create({'a': 3, 'zz': 4}, ignore_extra=True))
        yield S('serialize', lambda: r.serialize())
        yield S('==', lambda: rE == rE2)
        yield S('!=', lambda: rE != rE2)
        yield S('hash', lambda: hash(rE))
        yield S('hash fresh', lambda: hash(R(a=1, b=E(4))))
        yield S('repr', lambda: repr(rE))
        yield S('copy', lambda: copy.copy(r))
        yield S('outer new', lambda: Outer(i={'q': 1}, v=[Item(1), Item(2)], ps=[1, 2]))
        yield S('outer create', lambda: Outer.create({'i': {'q': 1}, 'v': [Item(1), Item(2)], 'ps': [1]}))
        yield S('outer set', lambda: o.set(i={'q': 5}))
        yield S('outer set v', lambda: o.set(v=[Item(3), Item(4), Item(5)]))
        yield S('outer ps iterable', lambda: o.set(ps=Iterable([3, 4])))
        yield S('outer transform', lambda: o.transform(['i', 'q'], fn(lambda x: x + 1, 'command'), ['v', 0], fn(lambda x: Item(x + 1), 'command')))
        yield S('outer transform all', lambda: o.transform(['v', pred1(lambda k: True)], fn(lambda x: Item(x + 1), 'command')))
        yield S('outer serialize', lambda: o.serialize())
        yield None
    inv = fn(lambda x: (x.n < 100, 'big'), 'invariant')
    inv2 = fn(lambda k, v: (k.n < 100, 'big'), 'invariant')

    class CV(CheckedPVector):
        __type__ = E
        __invariant__ = inv

        def __serializer__(self, format, x):
            tick('serializer')
            return ('ser', x.n)

    class CS(CheckedPSet):
        __type__ = E
        __invariant__ = inv

        def __serializer__(self, format, x):
            tick('serializer')
            return ('ser', x.n)

    class CM(CheckedPMap):
        __key_type__ = E
        __invariant__ = inv2

        def __serializer__(self, format, k, v):
            tick('serializer')
            return ('ser', k.n), v
    for n in (0, 1, 3, 9):
        es = [E(i, i % 4) for i in range(n)]
        cv, cs, cm = CV(es), CS(es), CM({e: e.n for e in es})
        vals2 = [cv, cs, cm]
        new, big = E(20, 0), E(200, 0)

        def C(name, f, reset=None):
            return Scenario('checked %d: %s' % (n, name), vals2, f, reset)
        yield C('vector', lambda: CV(Iterable(es)))
        yield C('vector create', lambda: CV.create(Iterable(es)))
        yield C('vector append', lambda: cv.append(new))
        yield C('vector append bad', lambda: cv.append(big))
        yield C('vector extend', lambda: cv.extend(Iterable([new, E(21), E(22)])))
        yield C('vector extend bad', lambda: cv.extend(Iterable([new, big])))
        if n:
            yield C('vector set', lambda: cv.set(0, new))
            yield C('vector mset', lambda: cv.mset(0, new, n - 1, E(23)))
            yield C('vector transform', lambda: cv.transform([pred1(lambda k: True)], fn(lambda x: E(x.n + 1), 'command')))
            yield C('vector evolver', lambda: cv.evolver().set(0, new).append(E(24)).extend(Iterable([E(25)])).persistent())
        yield C('vector serialize', lambda: cv.serialize())
        yield C('vector ==', lambda: cv == CV(es))
        yield C('set', lambda: CS(Iterable(es)))
        yield C('set create', lambda: CS.create(Iterable(es)))
        yield C('set add', lambda: cs.add(new))
        yield C('set add bad', lambda: cs.add(big))
        yield C('set update', lambda: cs.update(Iterable([new, E(21)])))
        yield C('set remove', lambda: cs.remove(es[0]) if n else None)
        yield C('set serialize', lambda: cs.serialize())
        yield C('map', lambda: CM({e: 1 for e in es}))
        yield C('map create', lambda: CM.create({e: 1 for e in es}))
        yield C('map set', lambda: cm.set(new, 1))
        yield C('map set bad', lambda: cm.set(big, 1))
        yield C('map update', lambda: cm.update({new: 1, E(21, 1): 2}))
        yield C('map update_with', lambda: cm.update_with(fn(lambda a, b: (a, b), 'merge'), {new: 1, es[0] if n else E(22): 2}))
        yield C('map remove', lambda: cm.remove(es[0]) if n else None)
        yield C('map serialize', lambda: cm.serialize())
        yield C('map transform', lambda: cm.transform([pred1(lambda k: True)], fn(lambda x: 'q', 'command')))
        yield None


def sc_kept(tier):
    """Reads of a value that has not been read before: what a read stores in the value is not half done after a failure.  After the failure, every read
    (not only the one that failed) gives what it gives on an equal value that nothing was done to."""
    from pyrsistent import CheckedPMap, CheckedPSet, CheckedPVector, PClass, PRecord, field, immutable, pbag, pdeque, plist, pmap, pset, pvector

    class R(PRecord):
        a = field()
        b = field()

    class C(PClass):
        a = field()
        b = field()

    class CV(CheckedPVector):
        __type__ = (E, int)

    class CS(CheckedPSet):
        __type__ = (E, int)

    class CM(CheckedPMap):
        __value_type__ = (E, int)
    I = immutable('a, b', name='I')
    for n in (0, 1, 2, 3, 9) if tier == 'quick' else (0, 1, 2, 3, 8, 9, 17, 33):
        es = [E(i, i % 4) for i in range(n)]
        es2 = [E(i, i % 4) for i in range(n)]
        kinds = [('vector', pvector), ('checked vector', CV), ('set', pset), ('checked set', CS), ('bag', lambda xs: pbag(xs + xs[:1])), ('list', plist), ('deque', pdeque), ('bounded deque', lambda xs: pdeque(xs, maxlen=max(n, 1))),
                 ('map of keys', lambda xs: pmap({x: x.n for x in xs})), ('map of values', lambda xs: pmap({x.n: x for x in xs})), ('checked map', lambda xs: CM({x: x for x in xs})),
                 ('keys', lambda xs: pmap({x: x.n for x in xs}).keys())]
        if n == 2:
            kinds += [('record', lambda xs: R(a=xs[0], b=xs[1])), ('class', lambda xs: C(a=xs[0], b=xs[1])), ('immutable', lambda xs: I(a=xs[0], b=xs[1])),
                      ('nested', lambda xs: pmap({'k': pvector([pset(xs), pmap({1: xs[0]})]), 'c': C(a=pvector(xs))}))]
        for kind, make in kinds:
            reads = [('hash', hash), ('repr', repr), ('list', lambda x: [norm(y) for y in x] if hasattr(x, '__iter__') else 0), ('== equal', lambda x: x == make(es2)), ('equal ==', lambda x: make(es2) == x),
                     ('!=', lambda x: x != make(es2)), ('in', lambda x: E(n // 2, n // 2 % 4) in x), ('not in', lambda x: E(77, 1) in x), ('len', len), ('copy', lambda x: norm(copy.copy(x)))]

            def all_reads(x):
                return [outcome(call(f, x)) for _, f in reads]

            def outcome(r):
                return (r[0], norm(r[1]) if r[0] == 'ok' else type(r[1]).__name__)
            fresh = all_reads(make(es))
            state = {}
            for name, f in reads:
                def reset(state=state, make=make):
                    Ticker.at = None
                    state['x'] = make(es)

                def op(f=f, state=state):
                    return f(state['x'])

                def others(state=state, all_reads=all_reads, kind=kind, fresh=fresh):
                    # reads that the failed one may have prepared wrongly, in all orders of first and second
                    x = state.get('x')
                    return all_reads(x) == fresh if x is not None else True
                yield Scenario('%s of %d: %s' % (kind, n, name), [], op, reset, others)
        yield None


FAMILIES = [('vector', ()), ('map', (0,)), ('map', (1,)), ('map', (2,)), ('set', (0,)), ('set', (1,)), ('set', (2,)), ('bag', ()), ('seq', ()), ('records', ()), ('kept', ())]


def evolvers():
    """(name, maker of an evolver, good steps, refused steps, what it contains)"""
    from pyrsistent import CheckedPMap, CheckedPSet, CheckedPVector, PClass, PRecord, field, pmap, pset, pvector
    from pyrsistent._pvector import python_pvector

    class CV(CheckedPVector):
        __type__ = int

    class CS(CheckedPSet):
        __type__ = int

    class CM(CheckedPMap):
        __key_type__ = str
        __value_type__ = int

    class R(PRecord):
        x = field(type=int)
        y = field(type=(int, str))

    class C(PClass):
        x = field(type=int)
        y = field(type=(int, str))

    def items(e):
        return [e[i] for i in range(len(e))]

    def setitem(k, v):
        def f(e):
            e[k] = v
        return f

    def delitem(k):
        def f(e):
            del e[k]
        return f

    def commit(e):
        e.persistent()
    vgood = [('append', lambda e: e.append(7)), ('set', lambda e: e.set(0, 8)), ('extend', lambda e: e.extend([9, 10])), ('delete', lambda e: e.delete(-1)), ('commit', commit)]
    vbad = [('set far', lambda e: e.set(100, 5)), ('set far negative', lambda e: e.set(-100, 5)), ('delete far', lambda e: e.delete(100)), ('[] far', lambda e: e[100]), ('set str', lambda e: e.set('a', 5)), ('extend 5', lambda e: e.extend(5)),
            ('=', setitem(100, 1)), ('= None', setitem(None, 1))]
    cbad = vbad + [('append str', lambda e: e.append('a')), ('set str', lambda e: e.set(0, 'a')), ('= str', setitem(0, 'a')), ('append by =', lambda e: e.set(len(e), 'a'))]
    cbad += [('extend %r' % (xs,), lambda e, xs=xs: e.extend(list(xs))) for xs in (['a'], [1, 'a'], ['a', 1], [1, 2, 'a'], [1, 'a', 2])]
    for n in (1, 2, 31, 32, 33, 65):
        yield 'vector %d' % n, lambda n=n: pvector(range(n)).evolver(), vgood, vbad, items
        yield 'python vector %d' % n, lambda n=n: python_pvector(range(n)).evolver(), vgood, vbad, items
        yield 'checked vector %d' % n, lambda n=n: CV(range(n)).evolver(), vgood, cbad, items

    def contents(e):
        return sorted((k, e[k]) for k in ('a', 'b', 'c', 'new', 'x', 'y') if k in e), len(e)
    mgood = [('set new', lambda e: e.set('new', 7)), ('set old', lambda e: e.set('a', 8)), ('=', setitem('b', 9)), ('remove', lambda e: e.remove('c')), ('commit', commit)]
    mbad = [('remove', lambda e: e.remove('gone')), ('del', delitem('gone')), ('unhashable', lambda e: e.set([], 1)), ('= unhashable', setitem({}, 1)), ('remove unhashable', lambda e: e.remove([]))]
    yield 'map', lambda: pmap({'a': 1, 'b': 2, 'c': 3}).evolver(), mgood, mbad, contents
    yield 'checked map', lambda: CM({'a': 1, 'b': 2, 'c': 3}).evolver(), mgood, mbad + [('value', lambda e: e.set('a', 'z')), ('new value', lambda e: e.set('z', 'z')), ('key', lambda e: e.set(5, 5)), ('= value', setitem('b', None))], contents
    sgood = [('add', lambda e: e.add(7)), ('add old', lambda e: e.add(1)), ('remove', lambda e: e.remove(2)), ('commit', commit)]
    sbad = [('remove', lambda e: e.remove('gone')), ('unhashable', lambda e: e.add([]))]
    yield 'set', lambda: pset([1, 2, 3]).evolver(), sgood, sbad, len
    yield 'checked set', lambda: CS([1, 2, 3]).evolver(), sgood, sbad + [('str', lambda e: e.add('a')), ('None', lambda e: e.add(None))], len
    rgood = [('x', lambda e: e.set('x', 5)), ('y', setitem('y', 'q')), ('remove', lambda e: e.remove('y')), ('commit', commit)]
    rbad = [('unknown', lambda e: e.set('z', 1)), ('type', lambda e: e.set('x', 'a')), ('= type', setitem('y', None)), ('remove', lambda e: e.remove('gone')), ('del', delitem('gone'))]
    yield 'record', lambda: R(x=1, y=2).evolver(), rgood, rbad, contents
    # a class evolver checks when it commits
    yield 'class', lambda: C(x=1, y=2).evolver(), rgood, [('remove', lambda e: e.remove('gone')), ('del', delitem('gone'))], lambda e: [call(lambda: e[k])[1] if k != 'y' else outcome_only(call(lambda: e[k])) for k in 'xy']


def outcome_only(r):
    return r[1] if r[0] == 'ok' else type(r[1]).__name__


def run_refused(ctx):
    """Evolver steps that are refused: the evolver goes on as if they had never been tried (a twin that is not asked is the reference)."""
    from itertools import product
    for name, make, good, refused, look in evolvers():
        for ln in (0, 1, 2) if ctx.quick else (0, 1, 2, 3):
            for hist in product(good, repeat=ln):
                for bname, b in refused:
                    for aname, a in [('', None)] + good:
                        tr = (name, [h[0] for h in hist], bname, aname)
                        ctx.trace(tr)
                        ctx.state((name, tuple(h[0] for h in hist), bname, aname))
                        e, twin = make(), make()
                        for _, h in hist:
                            ctx.step()
                            x, y = call(h, e), call(h, twin)
                            if x[0] != y[0]:
                                bad('%s and %s for two evolvers with the same history' % (short(x), short(y)), tr)
                        r = call(b, e)
                        ctx.step()
                        if r[0] == 'ok':
                            bad('not refused: %s' % short(r), tr)
                        if a is not None:
                            x, y = call(a, e), call(a, twin)
                            if x[0] != y[0]:
                                bad('after the refused step: %s, without it: %s' % (short(x), short(y)), tr)
                        if look(e) != look(twin):
                            bad('after the refused step the evolver has %s, without it %s' % (short(look(e)), short(look(twin))), tr)
                        p, q = call(e.persistent), call(twin.persistent)
                        if p[0] != 'ok' or q[0] != 'ok' or type(p[1]) is not type(q[1]) or norm(p[1]) != norm(q[1]) or p[1] != q[1]:
                            bad('after the refused step it commits to %s, without it to %s' % (short(p), short(q)), tr)


def shards(tier):
    out = [('c', ['run', i]) for i in range(len(FAMILIES))] + [('c', ['refused']), ('py', ['refused'])]
    out += [('py', ['run', i]) for i in (0, 1, 2, 4, 9, 10)]
    return out


def weight(config, spec):
    if spec[0] == 'refused':
        return 4
    return 5 if FAMILIES[spec[1]][0] in ('map', 'set') else 2


def run_shard(ctx, spec):
    if spec[0] == 'refused':
        check_empties('start')
        run_refused(ctx)
        check_empties('end')
        return
    name, args = FAMILIES[spec[1]]
    check_empties('start')
    for sc in globals()['sc_' + name](ctx.tier, *args):
        if sc is None:      # end of a group of scenarios with the same values
            continue
        Ticker.at = None
        Ticker.n = 0
        if sc.reset:
            sc.reset()
        Ticker.n = 0
        call(sc.op)
        explore(ctx, sc, pairs=(Ticker.n <= (12 if ctx.quick else 60)))
