"""C01: every obtained collection keeps its contents forever."""
import copy
import pickle

from core import call, short
from maps import Key, bad, val

BOUNDS = {
    'quick': 'vectors (both implementations), maps, sets, bags, lists, deques, checked vectors/maps/sets, records, classes and nested structures: all sequences of 3 operations (2 on large values) '
             'out of 25-60 per kind (the whole updating and reading API, evolvers used before and after persistent(), in-place operators, failing operations, mutable sources and results changed '
             'afterwards) from start values at every trie and bucket boundary; all values obtained on the path and all their siblings are compared with their state at creation, iterators started earlier included',
    'thorough': 'as quick with one more operation',
}
ASSUMPTIONS = ['elements equal themselves and are not mutated by the caller', 'no private attribute is assigned and no attribute of a list cell']


class Boom(Exception):
    pass


def raising(xs):
    for x in xs:
        yield x
    raise Boom()


def rset(c, k, v):
    try:
        c[k] = v
    except TypeError:
        return
    bad('item assignment on a persistent value was accepted', (c, k))


def rdel(c, k):
    try:
        del c[k]
    except TypeError:
        return
    bad('item deletion on a persistent value was accepted', (c, k))


class Entry(object):
    """A value with what it looked like when it was obtained."""
    __slots__ = ('v', 'snap', 'hash', 'it', 'seen', 'kind')

    def __init__(self, kind, v, hashed):
        self.kind = kind
        self.v = v
        self.snap = kind.snap(v)
        self.hash = None
        if hashed:
            r = call(hash, v)
            self.hash = r[1] if r[0] == 'ok' else None
        self.it = iter(v) if kind.iterable else None
        self.seen = []
        if self.it is not None:
            for _ in range(len(v) // 2):
                self.seen.append(next(self.it))

    def check(self, tr):
        s = self.kind.snap(self.v)
        if not same(s, self.snap):
            bad('a value changed: %s, it was %s' % (short(s), short(self.snap)), tr)
        if self.hash is not None and hash(self.v) != self.hash:
            bad('the hash of a value changed', tr)

    def finish(self, tr):
        self.check(tr)
        if self.it is not None:
            try:
                got = self.seen + list(self.it)
            except RuntimeError as e:
                bad('an iterator over a persistent value failed: %r' % e, tr)
            if len(got) != len(self.v) or not same(tuple(got), tuple(self.v)):
                bad('an iterator started earlier gives %s' % short(got), tr)


def same(a, b):
    """Equal structure with identical leaves."""
    if type(a) is tuple and type(b) is tuple:
        return len(a) == len(b) and all(map(same, a, b))
    return a is b or (type(a) in (int, str) and type(b) is type(a) and a == b)


# -- kinds -----------------------------------------------------------------------------------

class Kind(object):
    iterable = True

    def snap(self, v):
        return (len(v), tuple(v))

    def common(self, v, out, k):
        """Operations every value supports; results are dropped or emitted."""
        yield 'hash', lambda: hash(v)
        yield 'repr', lambda: (repr(v), str(v))
        yield 'copy', lambda: (out(copy.copy(v)), out(copy.deepcopy(v)))
        yield 'eq', lambda: (v == v, v == self.other(), v != self.other(), call(lambda: v < self.other()), call(lambda: v == 5))


class Vector(Kind):
    def snap(self, v):
        n = len(v)
        return (n, tuple(v.tolist()), tuple(v[i] for i in (0, -1, n // 2, (n - 1) // 32 * 32) if n))

    def starts(self, tier):
        from pyrsistent import pvector
        sizes = [2, 0, 31, 32, 33, 64, 65, 1056, 1057] + ([] if tier == 'quick' else [1, 63, 1024, 1055, 1058, 1088, 1089, 32800, 32801])
        return [(n, lambda n=n: self.make([val(i) for i in range(n)])) for n in sizes]

    def make(self, l):
        from pyrsistent import pvector
        return pvector(l)

    def other(self):
        return self.make([val(0), val('q')])

    def depth(self, n):
        return 3 if n <= 33 else 2

    def ops(self, v, out, k, kept):
        x, y = val('x%d' % k), val('y%d' % k)
        n = len(v)
        for o in self.common(v, out, k):
            yield o
        yield 'append', lambda: out(v.append(x))
        yield 'append2', lambda: out(v.append(y))
        yield 'extend', lambda: out(v.extend([x, y]))
        yield 'extend40', lambda: out(v.extend([x] * 40))
        yield 'extend()', lambda: out(v.extend([]))
        yield '+', lambda: out(v + (x,))
        yield '+self', lambda: out(v + v) if n < 100 else None
        yield '*', lambda: out(v * 2) if n < 100 else None
        yield 'set 0', lambda: out(v.set(0, x))
        yield 'set -1', lambda: out(v.set(-1, x))
        yield 'set mid', lambda: out(v.set(n // 2, y))
        yield 'set n', lambda: out(v.set(n, y))
        yield 'set bad', lambda: call(v.set, n + 1, y)
        yield 'mset', lambda: out(v.mset(0, x, -1, y, n, y))
        yield 'mset bad', lambda: (call(v.mset, 0, y, n + 5, x), call(v.mset, 0))
        yield 'delete 0', lambda: out(v.delete(0))
        yield 'delete -1', lambda: out(v.delete(-1))
        yield 'delete slice', lambda: out(v.delete(1, n - 1))
        yield 'delete bad', lambda: call(v.delete, n + 1)
        yield 'remove', lambda: out(v.remove(v[n // 2]))
        yield 'remove bad', lambda: call(v.remove, object())
        yield 'slice', lambda: out(v[1:])
        yield 'slice all', lambda: out(v[:])
        yield 'slice rev', lambda: out(v[::-1])
        yield 'extend raising', lambda: (call(v.extend, raising([x, y])), call(v.extend, 5))
        yield 'items', lambda: (rset(v, 0, x), rdel(v, 0))
        yield 'reads', lambda: (list(v), x in v, v.count(x), call(v.index, x), sorted(v, key=id), list(reversed(v)), v > v)
        yield 'transform', lambda: (out(v.transform([0], x)), out(v.transform([lambda i: i % 2 == 0], lambda z: y)))

        def evolve():
            e = v.evolver()
            e.append(x)
            e.set(0, y)
            kept.append(e)
            out(e.persistent())
            e[0] = x
            e[-1] = y
            e.append(y)
            out(e.persistent())
            e.delete(0)
            e.extend([x] * 33)
        yield 'evolver', evolve

        def evolve2():
            e = v.evolver()
            e.delete(n // 2)
            e.extend([x, y])
            call(e.set, 100000, x)
            call(e.delete, 100000)
            out(e.persistent())
            for i in range(len(e)):
                e[i] = y
                if i > 70:
                    break
            e2 = v.evolver()
            e2[0] = x
            e2[n - 1] = x
            kept.append(e2)
        yield 'evolver2', evolve2

        def late():
            for e in kept:
                e.append(x)
                e[0] = x
                e[len(e) // 2] = x
                e.delete(0)
                e.append(y)
                out(e.persistent())
        yield 'late', late

        def source():
            l = [x, y]
            r = v.extend(l)
            r2 = v + l
            r3 = self.make(l)
            e = v.evolver()
            e.extend(l)
            r4 = e.persistent()
            for z in (r, r2, r3, r4):
                out(z)
            l[0] = y
            l.append(x)
            l.clear()
            l = v.tolist()
            l.append(x)
            l[0] = y
            l = list(v)
            l.clear()
        yield 'source', source
        yield 'inplace', lambda: self.inplace(v, out, x)
        yield 'pickle', lambda: pickle.loads(pickle.dumps(v)) if n < 40 else None

    def inplace(self, v, out, x):
        w = v
        w += [x]
        out(w)
        w *= 2
        out(w)


class CVector(Vector):
    def __init__(self):
        from pyrsistent import CheckedPVector
        from maps import Val
        global CheckedVec

        class CheckedVec(CheckedPVector):
            __type__ = Val
            __invariant__ = lambda x: (x.n != 'bad', 'is bad')
        CheckedVec.__qualname__ = 'CheckedVec'

    def make(self, l):
        return CheckedVec(l)

    def ops(self, v, out, k, kept):
        for o in super().ops(v, out, k, kept):
            if o[0] not in ('copy', 'pickle'):
                yield o
        yield 'wrong type', lambda: (call(v.append, 3), call(v.set, 0, 'a'), call(v.extend, [val(1), None]), call(v.evolver().append, 4))
        yield 'invariant', lambda: (call(v.append, val('bad')), call(v.set, 0, val('bad')), call(v.extend, [val(1), val('bad')]))

    def starts(self, tier):
        return super().starts(tier)[:5]


class Map(Kind):
    def snap(self, v):
        return (len(v), tuple(v.iteritems()), tuple(v.get(k) for k in self.keys[:4]))

    def __init__(self):
        self.keys = [Key(i, [0, 8, 1, 0, 16, 2, 3, 9, 0][i % 9] + i // 9) for i in range(60)]

    def make(self, d):
        from pyrsistent import pmap
        return pmap(d)

    def starts(self, tier):
        sizes = [2, 0, 5, 12, 13, 24, 25] + ([] if tier == 'quick' else [1, 6, 11, 47, 48, 49])
        return [(n, lambda n=n: self.make({k: val(i) for i, k in enumerate(self.keys[:n])})) for n in sizes]

    def other(self):
        return self.make({self.keys[0]: val('q')})

    def depth(self, n):
        return 3 if n <= 12 else 2

    def ops(self, v, out, k, kept):
        x, y = val('x%d' % k), val('y%d' % k)
        K = self.keys
        new = Key('n%d' % k, 0)
        for o in self.common(v, out, k):
            yield o
        yield 'set 0', lambda: out(v.set(K[0], x))
        yield 'set 1', lambda: out(v.set(K[1], y))
        yield 'set same', lambda: out(v.set(K[0], v[K[0]]))
        yield 'set new', lambda: out(v.set(new, x))
        yield 'set new2', lambda: out(v.set(Key('m%d' % k, 8), x))
        yield 'remove 0', lambda: out(v.remove(K[0]))
        yield 'remove 1', lambda: out(v.remove(K[1]))
        yield 'remove 3', lambda: out(v.remove(K[3]))
        yield 'remove bad', lambda: (call(v.remove, Key('zz', 0)), call(lambda: v[Key('zz', 0)]), call(lambda: v.nosuch))
        yield 'discard', lambda: (out(v.discard(K[0])), out(v.discard(Key('zz', 8))))
        yield 'update', lambda: out(v.update({K[0]: y, new: y}, self.make({K[2]: x})))
        yield 'update()', lambda: out(v.update())
        yield 'update_with', lambda: out(v.update_with(lambda a, b: x, {K[0]: y, K[3]: y}))
        yield 'update raising', lambda: (call(v.update_with, self.boom, {new: x, K[0]: y, K[1]: y}), call(v.update, 5), call(v.update, {new: x}, 5))
        yield '+', lambda: (out(v + {K[1]: x}), out(v | {K[2]: x}))
        yield 'items', lambda: (rset(v, K[0], x), rdel(v, K[0]))
        yield 'unhashable', lambda: (call(v.set, [], x), call(lambda: v[[]]), call(v.remove, []), call(v.update, {K[0]: x}, [([], 1)]))
        yield 'reads', lambda: (list(v.keys()), list(v.values()), list(v.items()), K[0] in v, v.get(new), dict(v), list(v.iteritems()), call(lambda: v == {K[0]: x}))
        yield 'transform', lambda: (out(v.transform([K[0]], x)), out(v.transform([lambda q: True], lambda z: y)))

        def evolve():
            e = v.evolver()
            e[K[0]] = x
            e[new] = y
            kept.append(e)
            out(e.persistent())
            e[K[0]] = y
            e.remove(new)
            e[K[3]] = x
            out(e.persistent())
            for q in K[:30]:
                e[q] = x
            out(e.persistent())
            for q in K[:30]:
                del e[q]
        yield 'evolver', evolve

        def evolve2():
            e = v.evolver()
            for q in list(v):
                e.remove(q)
            out(e.persistent())
            e[K[1]] = x
            call(e.remove, Key('zz', 0))
            kept.append(e)
            e2 = v.evolver()
            for q in list(v):
                e2[q] = y
            kept.append(e2)
        yield 'evolver2', evolve2

        def late():
            for e in kept:
                e[K[0]] = x
                e[K[1]] = x
                e.remove(K[0])
                e[Key('l%d' % k, 8)] = y
                out(e.persistent())
        yield 'late', late

        def source():
            d = {K[0]: x, new: y}
            for z in (self.make(d), v.update(d), v + d, v.update_with(lambda a, b: b, d)):
                out(z)
            d[K[0]] = y
            d.clear()
            for l in (list(v.items()), list(v.keys()), list(v.values())):
                l.append(1)
                l.clear()
            d = dict(v)
            d.clear()
            d = dict(v.items())
            d[K[0]] = y
            for f in ('keys', 'values', 'items', 'iteritems', 'iterkeys', 'itervalues'):
                z = getattr(v, f)()
                for m in ('append', 'clear', 'pop', 'sort', 'remove', 'reverse'):
                    if hasattr(z, m):
                        call(getattr(z, m), *([1] if m in ('append', 'remove') else []))
        yield 'source', source
        yield 'inplace', lambda: self.inplace(v, out, x)

    def boom(self, a, b):
        raise Boom()

    def inplace(self, v, out, x):
        w = v
        w += {self.keys[0]: x}
        out(w)
        w |= {self.keys[1]: x}
        out(w)


class CMap(Map):
    def __init__(self):
        super().__init__()
        from pyrsistent import CheckedPMap
        from maps import Val

        class CheckedM(CheckedPMap):
            __key_type__ = Key
            __value_type__ = Val
            __invariant__ = lambda k, v: (v.n != 'bad', 'is bad')
        self.cls = CheckedM

    def make(self, d):
        return self.cls(d)

    def starts(self, tier):
        return super().starts(tier)[:5]

    def ops(self, v, out, k, kept):
        for o in super().ops(v, out, k, kept):
            if o[0] != 'copy':
                yield o
        yield 'wrong type', lambda: (call(v.set, 3, val(0)), call(v.set, self.keys[0], 'a'), call(v.update, {self.keys[0]: val(1), self.keys[1]: 3}), call(v.evolver().set, 4, 4))
        yield 'invariant', lambda: (call(v.set, self.keys[0], val('bad')), call(v.update, {self.keys[0]: val('bad')}))


class SetK(Kind):
    def __init__(self):
        self.keys = Map().keys

    def snap(self, v):
        return (len(v), tuple(v), sum(1 << i for i, k in enumerate(self.keys[:6]) if k in v))

    def make(self, it):
        from pyrsistent import pset
        return pset(it)

    def starts(self, tier):
        sizes = [2, 0, 5, 12, 13, 24, 25] + ([] if tier == 'quick' else [1, 6, 47, 48, 49])
        return [(n, lambda n=n: self.make(self.keys[:n])) for n in sizes]

    def other(self):
        return self.make(self.keys[1:3])

    def depth(self, n):
        return 3 if n <= 12 else 2

    def ops(self, v, out, k, kept):
        K = self.keys
        new = Key('n%d' % k, 0)
        for o in self.common(v, out, k):
            yield o
        yield 'add', lambda: (out(v.add(K[0])), out(v.add(K[3])))
        yield 'add new', lambda: out(v.add(new))
        yield 'remove', lambda: out(v.remove(K[0]))
        yield 'remove 1', lambda: out(v.remove(K[1]))
        yield 'remove bad', lambda: (call(v.remove, new), call(v.remove, []), call(v.add, []))
        yield 'discard', lambda: (out(v.discard(K[1])), out(v.discard(new)))
        yield 'update', lambda: out(v.update([new, K[0], K[3]]))
        yield 'update raising', lambda: (call(v.update, raising([new, K[0]])), call(v.update, [new, []]))
        for name, f in (('&', lambda a, b: a & b), ('|', lambda a, b: a | b), ('-', lambda a, b: a - b), ('^', lambda a, b: a ^ b)):
            yield name, lambda f=f: (out(f(v, self.other())), out(f(v, {K[0], new})), out(f({K[0], new}, v)))
        yield 'reads', lambda: (K[0] in v, list(v), v <= self.other(), v.isdisjoint([K[0]]), sorted(v, key=id), set(v), frozenset(v))

        def evolve():
            e = v.evolver()
            e.add(new)
            kept.append(e)
            out(e.persistent())
            e.remove(new)
            for q in K[:30]:
                e.add(q)
            out(e.persistent())
            for q in K[:30]:
                e.remove(q)
            out(e.persistent())
            e.add(K[0])
        yield 'evolver', evolve

        def late():
            for e in kept:
                e.add(Key('l%d' % k, 8))
                e.add(K[0])
                out(e.persistent())
                e.remove(K[0])
        yield 'late', late

        def source():
            for d in ({new, K[0]}, [new, K[0]], {new: 1, K[0]: 2}):
                for z in (self.make(d), v.update(d)):
                    out(z)
                d.clear()
            d = set(v)
            d.clear()
        yield 'source', source

        def inplace():
            w = v
            w |= {new}
            out(w)
            w &= {new, K[0]}
            out(w)
            w -= {new}
            out(w)
            w ^= {K[1]}
            out(w)
        yield 'inplace', inplace


class CSet(SetK):
    def __init__(self):
        super().__init__()
        from pyrsistent import CheckedPSet

        class CheckedS(CheckedPSet):
            __type__ = Key
            __invariant__ = lambda x: (x.name != 'bad', 'is bad')
        self.cls = CheckedS

    def make(self, it):
        return self.cls(it)

    def starts(self, tier):
        return super().starts(tier)[:5]

    def ops(self, v, out, k, kept):
        for o in super().ops(v, out, k, kept):
            if o[0] != 'copy':
                yield o
        yield 'wrong', lambda: (call(v.add, 3), call(v.update, [self.keys[0], 3]), call(v.add, Key('bad', 0)), call(v.update, [Key('bad', 8)]), call(v.evolver().add, 3))


class Bag(Kind):
    def __init__(self):
        self.keys = Map().keys

    def make(self, it):
        from pyrsistent import pbag
        return pbag(it)

    def snap(self, v):
        return (len(v), tuple(v), tuple(v.count(k) for k in self.keys[:4]))

    def starts(self, tier):
        return [(n, lambda n=n: self.make(self.keys[:n] * 2)) for n in (2, 0, 1, 5, 13)]

    def other(self):
        return self.make([self.keys[0], self.keys[0], self.keys[3]])

    def depth(self, n):
        return 3

    def ops(self, v, out, k, kept):
        K = self.keys
        new = Key('n%d' % k, 0)
        for o in self.common(v, out, k):
            yield o
        yield 'add', lambda: (out(v.add(K[0])), out(v.add(new)))
        yield 'remove', lambda: out(v.remove(K[0]))
        yield 'remove 1', lambda: out(v.remove(K[1]).remove(K[1]))
        yield 'remove bad', lambda: (call(v.remove, new), call(v.add, []))
        yield 'update', lambda: (out(v.update([new, K[0], K[0]])), out(v.update([])))
        yield 'update raising', lambda: (call(v.update, raising([new, K[0]])), call(v.update, [K[0], []]))
        for name, f in (('+', lambda a, b: a + b), ('-', lambda a, b: a - b), ('|', lambda a, b: a | b), ('&', lambda a, b: a & b)):
            yield name, lambda f=f: (out(f(v, self.other())), out(f(self.other(), v)), out(f(v, v)))
        yield 'reads', lambda: (K[0] in v, v.count(K[1]), list(v), call(lambda: v < v))

        def source():
            d = [new, K[0]]
            for z in (self.make(d), v.update(d)):
                out(z)
            d.clear()
        yield 'source', source


class ListK(Kind):
    def make(self, it):
        from pyrsistent import plist
        return plist(it)

    def starts(self, tier):
        return [(n, lambda n=n: self.make([val(i) for i in range(n)])) for n in (2, 0, 1, 3, 5)]

    def other(self):
        return self.make([val(1), val(0)])

    def depth(self, n):
        return 3

    def ops(self, v, out, k, kept):
        x, y = val('x%d' % k), val('y%d' % k)
        n = len(v)
        for o in self.common(v, out, k):
            yield o
        yield 'cons', lambda: (out(v.cons(x)), out(v.cons(y)))
        yield 'mcons', lambda: (out(v.mcons([x, y])), out(v.mcons(v)), out(v.mcons([])))
        yield 'mcons raising', lambda: call(v.mcons, raising([x]))
        yield 'reverse', lambda: (out(v.reverse()), list(reversed(v)))
        yield 'remove 0', lambda: out(v.remove(v[0]))
        yield 'remove last', lambda: out(v.remove(v[-1]))
        yield 'remove 1', lambda: out(v.remove(v[1]))
        yield 'remove bad', lambda: (call(v.remove, object()), call(lambda: v[100]))
        for i in range(0, 4):
            yield 'split %d' % i, lambda i=i: [out(z) for z in v.split(i)]
        yield 'rest', lambda: out(v.rest)
        yield 'slice', lambda: (out(v[1:]), out(v[:-1]), out(v[-1:]), out(v[::2]))
        yield 'items', lambda: (rset(v, 0, x), rdel(v, 0))
        yield 'reads', lambda: (v.count(x), call(v.index, x), x in v, v < self.other())

        def source():
            d = [x, y]
            for z in (self.make(d), v.mcons(d)):
                out(z)
            d.clear()
        yield 'source', source


class Deque(Kind):
    def __init__(self, maxlen=None):
        self.maxlen = maxlen

    def make(self, it):
        from pyrsistent import pdeque
        return pdeque(it, self.maxlen)

    def snap(self, v):
        return (len(v), tuple(v), v.left if v else None, v.right if v else None, v.maxlen or -1)

    def starts(self, tier):
        return [(n, lambda n=n: self.make([val(i) for i in range(n)])) for n in (3, 0, 1, 2, 5)]

    def other(self):
        return self.make([val(1), val(0)])

    def depth(self, n):
        return 3

    def ops(self, v, out, k, kept):
        x, y = val('x%d' % k), val('y%d' % k)
        for o in self.common(v, out, k):
            yield o
        yield 'append', lambda: (out(v.append(x)), out(v.append(y)))
        yield 'appendleft', lambda: (out(v.appendleft(x)), out(v.appendleft(y)))
        yield 'extend', lambda: (out(v.extend([x, y])), out(v.extend(v)))
        yield 'extendleft', lambda: (out(v.extendleft([x, y])), out(v.extendleft(v)))
        yield 'extend raising', lambda: (call(v.extend, raising([x])), call(v.extendleft, raising([x])))
        for i in (1, 2, 3, -1):
            yield 'pop %d' % i, lambda i=i: (out(v.pop(i)), out(v.popleft(i)))
        for i in (1, -1, 2, -3):
            yield 'rotate %d' % i, lambda i=i: out(v.rotate(i))
        yield 'reverse', lambda: out(v.reverse())
        yield 'remove first', lambda: out(v.remove(v[0]))
        yield 'remove last', lambda: out(v.remove(v[-1]))
        yield 'remove bad', lambda: call(v.remove, object())
        yield 'slice', lambda: (out(v[1:]), out(v[:-1]), out(v[::2]))
        yield 'items', lambda: (rset(v, 0, x), rdel(v, 0))
        yield 'reads', lambda: (v.count(x), call(v.index, x), x in v, v < self.other())

        def source():
            d = [x, y]
            for z in (self.make(d), v.extend(d), v.extendleft(d)):
                out(z)
            d.clear()
        yield 'source', source


class Record(Kind):
    def __init__(self):
        from pyrsistent import PRecord, field, pvector_field

        class R(PRecord):
            a = field()
            b = field(type=(int, str))
            c = field(invariant=lambda x: (x != 'bad', 'is bad'))
            w = pvector_field(str)
        self.cls = R

    def make(self, d):
        return self.cls(**d)

    def snap(self, v):
        return (len(v), tuple(v.items()), v.get('a'), v.get('b'))

    def starts(self, tier):
        return [(n, lambda n=n: self.make(dict(list({'a': val(0), 'b': 1, 'c': 'c', 'w': ['s']}.items())[:n]))) for n in (2, 0, 1, 4)]

    def other(self):
        return self.make({'a': val(0)})

    def depth(self, n):
        return 3 if n <= 12 else 2

    def ops(self, v, out, k, kept):
        x = val('x%d' % k)
        for o in self.common(v, out, k):
            if o[0] != 'copy':
                yield o
        yield 'set a', lambda: (out(v.set(a=x)), out(v.set('a', 3)))
        yield 'set many', lambda: out(v.set(a=1, b=k, c='new'))
        yield 'set w', lambda: (out(v.set(w=['p', 'q'])), out(v.set('w', v.w.append('z'))))
        yield 'set bad', lambda: (call(v.set, b=1.5), call(v.set, c='bad'), call(v.set, nosuch=1), call(v.set, w=[3]), call(v.set, a=x, nosuch=1), call(v.set, a=x, b=None))
        yield 'update', lambda: (out(v.update({'a': x, 'b': 'q'})), out(v + {'c': 3}))
        yield 'remove', lambda: out(v.remove('a'))
        yield 'remove b', lambda: out(v.discard('b'))
        yield 'remove bad', lambda: (call(v.remove, 'nosuch'), call(v.remove, 'w'))
        yield 'transform', lambda: (out(v.transform(['a'], x)), out(v.transform(['w', 0], 'tt')))
        yield 'create', lambda: (out(self.cls.create({'a': 1, 'zz': 2}, ignore_extra=True)), out(self.cls.create(v)), v.serialize().clear())
        yield 'attrs', lambda: [call(setattr, v, q, 1) for q in ('a', 'zz')] + [call(delattr, v, 'a')] + [rset(v, 'a', 1), rdel(v, 'a')]
        yield 'reads', lambda: (dict(v), v.serialize(), repr(v), call(lambda: v.nosuch))

        def evolve():
            e = v.evolver()
            e.set('a', x)
            kept.append(e)
            out(e.persistent())
            e['a'] = 3
            e['b'] = 7
            out(e.persistent())
            e.remove('a')
            out(e.persistent())
            for f, z in (('b', 1.5), ('nosuch', 1), ('c', 'bad')):
                e = v.evolver()
                call(e.set, f, z)
                call(e.persistent)
        yield 'evolver', evolve

        def late():
            for e in kept:
                e.set('a', 'late%d' % k)
                e.set('b', 'late%d' % k)
                out(e.persistent())
        yield 'late', late

        def source():
            l = ['m', 'n']
            d = {'a': x, 'w': l}
            for z in (self.make(d), self.cls.create(d), v.update(d), v.set(**d)):
                out(z)
            l.clear()
            d.clear()
        yield 'source', source


class Class_(Record):
    iterable = False

    def __init__(self):
        from pyrsistent import PClass, field, pvector_field

        class C(PClass):
            a = field()
            b = field(type=(int, str))
            c = field(invariant=lambda x: (x != 'bad', 'is bad'))
            w = pvector_field(str)
        self.cls = C

    def snap(self, v):
        return tuple((f, getattr(v, f)) for f in 'abcw' if hasattr(v, f))

    def ops(self, v, out, k, kept):
        for o in super().ops(v, out, k, kept):
            if o[0] not in ('update', 'remove b', 'reads', 'source', 'attrs'):
                yield o
        yield 'attrs', lambda: self.attrs(v)

        def source():
            l = ['m', 'n']
            d = {'a': 5, 'w': l}
            for z in (self.make(d), self.cls.create(d), v.set(**d)):
                out(z)
            l.clear()
            d.clear()
            v.serialize().clear()
        yield 'source', source

    def attrs(self, v):
        for q in ('a', 'b', 'w'):
            if call(setattr, v, q, 1)[0] == 'ok':
                bad('attribute assignment on a class instance was accepted', (v, q))
            if call(delattr, v, q)[0] == 'ok':
                bad('attribute deletion on a class instance was accepted', (v, q))


class Nested(Kind):
    """Structures of structures: a change below must not show in anything that shares it."""
    iterable = False

    def snap(self, v):
        from pyrsistent import PVector, PMap, PSet
        if isinstance(v, PVector):
            return ('v',) + tuple(self.snap(x) for x in v)
        if isinstance(v, PMap):
            return ('m',) + tuple((k, self.snap(x)) for k, x in v.items())
        if isinstance(v, PSet):
            return ('s',) + tuple(v)
        return v

    def starts(self, tier):
        from pyrsistent import freeze
        return [(0, lambda: freeze({'l': [1, {'q': [2, 3]}], 'm': {'z': 4, 'y': {'x': 5}}, 's': {6}})),
                (1, lambda: freeze([[1, 2], {'l': [{'q': 1}, {'q': 2}], 'm': {}, 's': 3}])),
                (2, lambda: freeze({'l': [[1, 2], [3]], 'm': [{'q': 1, 'r': 5}, {'q': 2}], 'q': {'q': {'z': 1}}}))]

    def other(self):
        from pyrsistent import freeze
        return freeze({'l': [1]})

    def depth(self, n):
        return 3

    def ops(self, v, out, k, kept):
        from pyrsistent import freeze, thaw, ny, discard, inc, rex, m
        for o in self.common(v, out, k):
            yield o
        yield 'ny', lambda: out(v.transform([ny, ny], k))
        yield 'ny ny', lambda: out(v.transform([ny, ny, ny], k))
        yield 'deep', lambda: out(v.transform(['l', 1, 'q', 0], k)) if not hasattr(v, 'append') else out(v.transform([1, 'l', 0, 'q'], k))
        yield 'deep inc', lambda: out(v.transform([ny, 'q'], inc)) if not hasattr(v, 'append') else out(v.transform([1, 'l', ny, 'q'], inc))
        yield 'discard', lambda: (out(v.transform([ny, ny], discard)), out(v.transform([ny], discard)))
        yield 'create', lambda: out(v.transform(['new', k, 'deep'], 1)) if not hasattr(v, 'append') else out(v.transform([1, 'new', k], 1))
        yield 'rex', lambda: out(v.transform([rex('^[lm]'), ny], lambda x: k))
        yield 'failing', lambda: (call(v.transform, [ny, ny], self.boom), call(v.transform, [self.boom], 1), call(v.transform, [0], 1, [ny], self.boom))

        def mutate():
            t = thaw(v)
            self.smash(t)
            d = {'a': [1, {'b': [2]}], 'c': {3}}
            f = freeze(d)
            out(f)
            self.smash(d)
        yield 'thaw', mutate

    def boom(self, *a):
        raise Boom()

    def smash(self, x):
        if isinstance(x, list):
            for y in x:
                self.smash(y)
            x.append(None)
            x[0] = 'smashed'
        elif isinstance(x, dict):
            for y in x.values():
                self.smash(y)
            x['smashed'] = 1
        elif isinstance(x, set):
            x.clear()


KINDS = {'vector': Vector, 'cvector': CVector, 'map': Map, 'cmap': CMap, 'set': SetK, 'cset': CSet, 'bag': Bag, 'list': ListK, 'deque': Deque, 'deque3': lambda: Deque(5), 'record': Record,
         'class': Class_, 'nested': Nested}
NSTART = {'vector': 9, 'cvector': 5, 'map': 7, 'cmap': 5, 'set': 7, 'cset': 5, 'bag': 5, 'list': 5, 'deque': 5, 'deque3': 5, 'record': 4, 'class': 4, 'nested': 3}
NSTART_T = {'vector': 18, 'map': 13, 'set': 12}


def shards(tier):
    out = []
    for kind in KINDS:
        n = NSTART[kind] if tier == 'quick' else NSTART_T.get(kind, NSTART[kind])
        for i in range(n):
            for config in (('c', 'py') if kind in ('vector', 'map', 'set') else ('c',)):
                parts = 4 if kind in ('vector', 'map', 'cmap', 'cvector') else 2 if i == 0 else 1
                if tier != 'quick':
                    parts *= 6
                for part in range(parts):
                    out.append((config, [kind, i, part, parts]))
    return out


def weight(config, spec):
    return 20 - spec[1] if spec[0] in ('vector', 'map', 'cmap', 'cvector', 'set') else 10 - spec[1]


def run_shard(ctx, spec):
    name, si, part, parts = spec
    kind = KINDS[name]()
    size, start = kind.starts(ctx.tier)[si]
    depth = kind.depth(size) + (0 if ctx.quick else 1)
    if size > 2000:
        depth = 2
    path = []
    base = Entry(kind, start(), False)
    kept = []

    def rec(entry, d):
        """Apply every operation to entry.v; afterwards everything obtained must be unchanged."""
        children = []
        mark = len(kept)

        def out(v):
            if not isinstance(v, type(entry.v)) and kind.__class__ not in (ListK, Nested, CSet, CVector):
                bad('an operation gives a %s' % type(v).__name__, list(path))
            children.append((Entry(kind, v, len(children) % 2 == 0), path[-1]))
            return v

        for j, (opname, fn) in enumerate(kind.ops(entry.v, out, len(path), kept)):
            path.append(opname)
            ctx.step()
            ctx.trace(lambda: [name, size] + list(path))
            before = len(children)
            r = call(fn)
            ctx.outcome('raised' if r[0] == 'exc' else 'ok')
            entry.check((name, size, tuple(path)))
            path.pop()
        for c, opname in children:
            c.check((name, size, tuple(path), opname, 'changed by a sibling'))
        if d > 1:
            for j, (c, opname) in enumerate(children):
                if d < depth or j % parts == part:
                    ctx.state((name, d, short(c.snap, 400)))
                    path.append(opname)
                    rec(c, d - 1)
                    path.pop()
                    entry.check((name, size, tuple(path), opname, 'changed by a descendant'))
        for c, opname in children:
            c.finish((name, size, tuple(path), opname, 'changed later'))
        entry.check((name, size, tuple(path)))
        del kept[mark:]

    rec(base, depth)
    base.finish((name, size))
    # a second look at the shared empty values
    from pyrsistent import b, dq, l, m, pvector, s
    for e in (b(), dq(), l(), m(), pvector(), s()):
        ctx.check(len(e) == 0 and list(e) == [], 'an empty collection is not empty any more')
