"""C29: what an operation gives depends on the contents of its operands only, not on how they came about or on what they share."""
import copy
import pickle
from itertools import permutations, product

from core import call, short
from maps import bad

BOUNDS = {
    'quick': 'every kind of collection with 8 to 20 histories per content (construction routes, growth, shrinking, evolvers alive and discarded, slices, conversions, copies, pickles, hashed before), all contents of up to 3 elements over 2 or 3 letters and sizes around '
             'block boundaries; every operation, every sequence of two operations at the small contents, and every two-operand operation with the second operand independent, the same object, derived from the first, or the first derived from the second',
    'thorough': 'as quick with contents of up to 4 elements and sequences of two operations at every content',
}
ASSUMPTIONS = ['the order of maps, sets and bags is left out of the comparison', 'elements are compared by identity where the operation keeps them']
NPART = 4


class E(object):
    __slots__ = ('n', 'h')

    def __init__(self, n, h):
        self.n = n
        self.h = h

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, E) and self.n == o.n

    def __lt__(self, o):
        return self.n < o.n

    def __gt__(self, o):
        return self.n > o.n

    def __repr__(self):
        return 'E%r' % (self.n,)

    def __reduce__(self):
        return element, (self.n,)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


ALL = {}


def element(n):
    if n not in ALL:
        ALL[n] = E(n, n % 3 if n < 100 else n)
    return ALL[n]


def els(ns):
    return [element(n) for n in ns]


def form(x, depth=0):
    """Everything there is to see of a result."""
    from pyrsistent import PBag, PClass, PDeque, PList, PMap, PSet, PVector
    t = type(x)
    if t is E:
        return ('E', x.n)
    if t in (int, str, bool, float, type(None), bytes):
        return x
    if isinstance(x, (PVector, PList, PDeque, list, tuple)):
        name = 'vector' if t.__name__ in ('PVector', 'PythonPVector', 'pvectorc.PVector') else t.__name__
        xs = [y.n if type(y) is E else form(y) for y in x]
        r = (name, xs, len(x))
        if len(x) > 100:
            return r + (hash(x[len(x) - 1]),)
        if isinstance(x, PDeque):
            r += (x.maxlen,) + ((form(x.left), form(x.right)) if x else ())
        if isinstance(x, (PVector, PList, PDeque)):
            r += ([form(x[i]) for i in range(-len(x), len(x))] if len(x) < 8 else form(x[len(x) // 2]), call(hash, x)[0] == 'ok' and hash(x) == hash(x), repr(x) if len(x) < 40 else None)
        return r
    if isinstance(x, (PMap, dict)):
        r = (t.__name__, sorted([(form(k), form(v)) for k, v in x.items()], key=repr), len(x))
        if isinstance(x, PMap):
            r += (sorted((form(k) for k in x), key=repr), sorted((form(k) for k in x.values()), key=repr), [form(x.get(k)) for k in probes(x)], [k in x for k in probes(x)])
        return r
    if isinstance(x, (PSet, set, frozenset)):
        return (t.__name__, sorted((form(k) for k in x), key=repr), len(x), [k in x for k in probes(x)])
    if isinstance(x, PBag):
        return (t.__name__, sorted((form(k) for k in x), key=repr), len(x), [x.count(k) for k in probes(x)])
    if isinstance(x, PClass):
        return (t.__name__, [(f, form(getattr(x, f))) for f in ('a', 'b', 'c') if hasattr(x, f)])
    return (t.__name__, repr(x))


def probes(x):
    return els(range(5)) + ['a', 'b', 'c']


def result(f, *a):
    r = call(f, *a)
    if r[0] == 'exc':
        return ('exc', type(r[1]).__name__)
    return ('ok', form(r[1]))


def used(x):
    """Reads that may fill caches."""
    call(hash, x)
    list(x)
    len(x)
    repr(x)
    x == x
    return x


def pickled(x):
    return pickle.loads(pickle.dumps(x, 2))


class Kind(object):
    two = True

    def pairs(self, tier):
        """The small contents that are combined with each other."""
        return self.small(tier)


# -- sequences ----------------------------------------------------------------------------------

def words(k, letters):
    return [w for n in range(k + 1) for w in product(letters, repeat=n)]


class Vector(Kind):
    name = 'vector'
    ordered = True

    def small(self, tier):
        return words(3 if tier == 'quick' else 4, (0, 1))

    def large(self, tier):
        out = []
        for n in (31, 32, 33, 64, 65, 1056, 1057) if tier == 'quick' else (31, 32, 33, 34, 63, 64, 65, 66, 1055, 1056, 1057, 1058):
            out.append(tuple(i % 90 for i in range(n)))
        return out

    def new(self, xs):
        from pyrsistent import pvector
        return pvector(xs)

    def histories(self):
        new = self.new

        def appended(c):
            v = new([])
            for x in c:
                v = v.append(x)
            return v

        def evolved(c):
            e = new([None] * len(c)).evolver()
            for i, x in enumerate(c):
                e[i] = x
            return e.persistent()

        def alive(c):
            e = new(c[:1]).evolver()
            e.extend(c[1:])
            v = e.persistent()
            e.append('q')
            if c:
                e[0] = 'q'
            return v, e

        def shrunk(c):
            e = new(list(c) + ['q'] * 3).evolver()
            for i in range(3):
                e.delete(len(e) - 1)
            return e.persistent()

        def sets(c):
            v = new(['q'] * len(c))
            if len(c) > 100:
                return v.mset(*[y for p in enumerate(c) for y in p])
            for i, x in enumerate(c):
                v = v.set(i, x)
            return v
        half = lambda c: len(c) // 2
        return [
            ('new', lambda c: new(c)), ('iterator', lambda c: new(iter(c))), ('appended', appended), ('extended', lambda c: new([]).extend(c)), ('halves', lambda c: new(c[:half(c)]).extend(c[half(c):])),
            ('one and the rest', lambda c: new(c[:1]).extend(tuple(c[1:]))), ('added', lambda c: new(c[:half(c)]) + new(c[half(c):])), ('times one', lambda c: new(c) * 1), ('slice', lambda c: new(['q'] + list(c) + ['q'])[1:-1]),
            ('reversed slices', lambda c: new(c)[::-1][::-1]), ('deleted', lambda c: new(list(c) + ['q']).delete(len(c))), ('deleted first', lambda c: new(['q'] + list(c)).delete(0)), ('removed', lambda c: new(list(c) + ['q']).remove('q')),
            ('evolved', evolved), ('evolver alive', alive), ('shrunk', shrunk), ('sets', sets), ('set at the end', lambda c: new(c[:-1]).set(len(c) - 1, c[-1]) if c else new(c)), ('transformed', lambda c: new([(x,) for x in c]).transform([lambda i: True], lambda x: x[0])),
            ('pickled', lambda c: pickled(new(c))), ('copied', lambda c: copy.deepcopy(new(c))), ('used', lambda c: used(new(c))), ('used and appended', lambda c: used(new(c[:-1])).append(c[-1]) if c else used(new(c))),
            ('frozen', lambda c: self.freeze(c)),
        ]

    def freeze(self, c):
        from pyrsistent import freeze
        return freeze(list(c))

    def relatives(self, x, cx, cy):
        """Values with contents cy that share with x."""
        n = len(cx)
        if cy[:n] == cx:
            yield 'extended', x.extend(els(cy[n:]))
            e = x.evolver()
            e.extend(els(cy[n:]))
            yield 'evolver', e.persistent()
        if cx[:len(cy)] == cy:
            yield 'prefix', x[:len(cy)]
        if len(cx) == len(cy) and cx != cy:
            yield 'sets', x.mset(*[y for p in enumerate(els(cy)) for y in p])

    def unary(self, n):
        q = element(7)
        a = element(0)
        from pyrsistent import discard, pbag, pdeque, plist, pset, pvector, thaw

        def evolve(x):
            e = x.evolver()
            e.append(q)
            if n:
                e[0] = q
                e[-1] = a
            y = e.persistent()
            e.extend([a, q])
            e.delete(0)
            return (y, e.persistent(), len(e), e.is_dirty(), x)
        ops = {
            'append': lambda x: x.append(q), 'extend': lambda x: x.extend([q, a]), 'extend none': lambda x: x.extend([]), 'set first': lambda x: x.set(0, q), 'set last': lambda x: x.set(-1, q), 'set end': lambda x: x.set(n, q), 'set past': lambda x: x.set(n + 1, q),
            'mset': lambda x: x.mset(0, q, n, a), 'delete first': lambda x: x.delete(0), 'delete last': lambda x: x.delete(-1), 'delete part': lambda x: x.delete(0, 2), 'remove': lambda x: x.remove(a), 'slice': lambda x: x[1:], 'step': lambda x: x[::2],
            'prefix': lambda x: x[:-1], 'reverse': lambda x: x[::-1], 'times': lambda x: x * 2, 'times zero': lambda x: x * 0, 'times one': lambda x: x * 1, '+ list': lambda x: x + [q], 'evolve': evolve, 'transform': lambda x: x.transform([lambda i: i % 2 == 0], lambda y: (y,)),
            'transform one': lambda x: x.transform([0], q), 'discard': lambda x: x.transform([lambda i: i != 1], discard), 'index': lambda x: x.index(a), 'count': lambda x: x.count(a), 'in': lambda x: (a in x, q in x), 'hash': lambda x: hash(x), 'repr': repr,
            'tolist': lambda x: x.tolist(), 'reversed': lambda x: list(reversed(x)), 'pickle': pickled, 'copy': copy.copy, 'deepcopy': copy.deepcopy, 'bool': bool, 'thaw': thaw, 'pvector': pvector, 'plist': plist, 'pdeque': pdeque, 'pset': pset, 'pbag': pbag,
            'nested': lambda x: x.append(x), 'sorted': lambda x: sorted(x), 'pop': lambda x: x.delete(n - 1),
        }
        return ops

    def binary(self):
        def evolve(x, y):
            e = x.evolver()
            e.extend(y)
            z = e.persistent()
            e.extend(z)
            e.extend(y)
            return z, e.persistent(), x, y
        return {
            '+': lambda x, y: x + y, 'extend': lambda x, y: x.extend(y), 'extend iterator': lambda x, y: x.extend(iter(y)), 'append': lambda x, y: x.append(y), '==': lambda x, y: (x == y, x != y), '<': lambda x, y: (x < y, x <= y, x > y, x >= y),
            'evolve': evolve, 'in': lambda x, y: x in y, 'set': lambda x, y: x.set(0, y), 'transform': lambda x, y: x.transform([lambda i: True], y), 'get': lambda x, y: y.index(x[0]), 'extend twice': lambda x, y: x.extend(y).extend(y), 'remove each': self.remove_each,
            'pair': lambda x, y: self.new([x, y]) == self.new([y, x]),
        }

    @staticmethod
    def remove_each(x, y):
        for e in y[:4]:
            x = x.remove(e)
        return x


class PyVector(Vector):
    name = 'python vector'

    def new(self, xs):
        from pyrsistent._pvector import python_pvector
        return python_pvector(xs)


class CheckedVector(Vector):
    name = 'checked vector'

    def new(self, xs):
        return declared()['CV'](xs)

    def histories(self):
        drop = ('frozen', 'slice', 'reversed slices', 'times one', 'removed', 'deleted', 'deleted first')       # their class is left open
        return [h for h in Vector.histories(self) if h[0] not in drop]

    def unary(self, n):
        ops = Vector.unary(self, n)
        for k in ('slice', 'step', 'prefix', 'reverse', 'times', 'times zero', 'times one', 'delete first', 'delete last', 'delete part', 'remove', 'pop', 'discard', 'mset'):
            f = ops[k]
            ops[k] = lambda x, f=f: list(f(x))
        return ops

    def binary(self):
        ops = Vector.binary(self)
        f = ops['remove each']
        ops['remove each'] = lambda x, y: list(f(x, y))
        return ops

    def relatives(self, x, cx, cy):
        for name, y in Vector.relatives(self, x, cx, cy):
            if name != 'prefix':
                yield name, y


class List(Kind):
    name = 'list'
    ordered = True

    def small(self, tier):
        return words(3 if tier == 'quick' else 4, (0, 1))

    def large(self, tier):
        return [tuple(i % 90 for i in range(n)) for n in (5, 8, 40)]

    def histories(self):
        from pyrsistent import l, plist

        def consed(c):
            x = l()
            for y in reversed(c):
                x = x.cons(y)
            return x
        h = lambda c: len(c) // 2
        return [
            ('new', plist), ('l', lambda c: l(*c)), ('consed', consed), ('mcons', lambda c: l().mcons(list(c)[::-1])), ('reverse', lambda c: plist(list(c)[::-1]).reverse()), ('plist reverse', lambda c: plist(list(c)[::-1], reverse=True)),
            ('twice', lambda c: plist(c).reverse().reverse()), ('rest', lambda c: plist(['q'] + list(c)).rest), ('slice', lambda c: plist(['q'] + list(c))[1:]), ('slice end', lambda c: plist(list(c) + ['q'])[:-1]), ('split', lambda c: plist(['q', 'q'] + list(c)).split(2)[1]),
            ('split first', lambda c: plist(list(c) + ['q']).split(len(c))[0]), ('removed', lambda c: plist(list(c) + ['q']).remove('q')), ('pickled', lambda c: pickled(plist(c))), ('copied', lambda c: copy.deepcopy(plist(c))), ('used', lambda c: used(plist(c))),
            ('iterator', lambda c: plist(iter(c))), ('joined', lambda c: plist(list(c)[h(c):]).mcons(list(c)[:h(c)][::-1])),
        ]

    def relatives(self, x, cx, cy):
        n = len(cx)
        if n and cy[-n:] == cx or not n:
            yield 'mcons', x.mcons(els(cy[:len(cy) - n])[::-1])
        if cx[len(cx) - len(cy):] == cy and len(cy) <= n:
            y = x
            for i in range(n - len(cy)):
                y = y.rest
            yield 'rest', y
            yield 'slice', x[n - len(cy):]

    def unary(self, n):
        q, a = element(7), element(0)
        from pyrsistent import pdeque, plist, pvector
        return {
            'cons': lambda x: x.cons(q), 'mcons': lambda x: x.mcons([q, a]), 'mcons none': lambda x: x.mcons([]), 'reverse': lambda x: x.reverse(), 'rest': lambda x: x.rest, 'first': lambda x: x.first, 'remove': lambda x: x.remove(a), 'remove absent': lambda x: x.remove(q),
            'split 0': lambda x: x.split(0), 'split 1': lambda x: x.split(1), 'split n': lambda x: x.split(n), 'slice': lambda x: x[1:], 'slice end': lambda x: x[:-1], 'step': lambda x: x[::2], 'back': lambda x: x[::-1], 'index': lambda x: x.index(a), 'count': lambda x: x.count(a),
            'in': lambda x: (a in x, q in x), 'hash': hash, 'repr': repr, 'len': len, 'bool': bool, 'pickle': pickled, 'copy': copy.copy, 'pvector': pvector, 'pdeque': pdeque, 'plist': plist, 'plist reverse': lambda x: plist(x, reverse=True), 'iterate': list, 'nested': lambda x: x.cons(x),
        }

    def binary(self):
        return {
            'mcons': lambda x, y: x.mcons(y), 'cons': lambda x, y: x.cons(y), '==': lambda x, y: (x == y, x != y), '<': lambda x, y: (x < y, x > y), 'in': lambda x, y: y in x, 'both': lambda x, y: x.mcons(y).mcons(x), 'hash': lambda x, y: (hash(x) == hash(y)) or x != y,
        }


class Deque(Kind):
    name = 'deque'
    ordered = True

    def small(self, tier):
        ws = words(3 if tier == 'quick' else 4, (0, 1))
        return [(w, b) for w in ws for b in (None, len(w), len(w) + 1)]

    def pairs(self, tier):
        return [c for c in self.small(tier) if tier != 'quick' or len(c[0]) < (3 if c[1] is None else 2)]

    def large(self, tier):
        return [(tuple(range(n)), b) for n in (5, 8, 40) for b in (None, n, n + 1)]

    def histories(self):
        from pyrsistent import pdeque, plist

        def left(k):
            def make(cb):
                c, b = cb
                k2 = min(k, len(c))
                return pdeque(c[k2:], b).extendleft(list(c[:k2])[::-1])
            return make

        def right(k):
            def make(cb):
                c, b = cb
                k2 = min(k, len(c))
                return pdeque([], b).extendleft(list(c[:k2])[::-1]).extend(c[k2:])
            return make

        def appended(cb):
            x = pdeque([], cb[1])
            for y in cb[0]:
                x = x.append(y)
            return x

        def prepended(cb):
            x = pdeque([], cb[1])
            for y in reversed(cb[0]):
                x = x.appendleft(y)
            return x

        def full(cb):
            c, b = cb
            return pdeque(['q'] * 3 + list(c), b if b is not None and b == len(c) else None if b is None else b) if b is not None and b == len(c) else pdeque(['q'] * 3 + list(c)).popleft(3) if b is None else pdeque(c, b)
        out = [('new', lambda cb: pdeque(cb[0], cb[1])), ('iterator', lambda cb: pdeque(iter(cb[0]), cb[1])), ('appended', appended), ('prepended', prepended), ('pushed out', full)]
        for k in range(1, 5):
            out += [('left %d' % k, left(k)), ('right %d' % k, right(k))]
        out += [
            ('reverse', lambda cb: pdeque(list(cb[0])[::-1], cb[1]).reverse()), ('rotate', lambda cb: pdeque(list(cb[0])[1:] + list(cb[0])[:1], cb[1]).rotate(1)), ('rotate back', lambda cb: pdeque(list(cb[0])[-1:] + list(cb[0])[:-1], cb[1]).rotate(-1)),
            ('popped', lambda cb: pdeque(list(cb[0]) + ['q']).pop() if cb[1] is None else pdeque(cb[0], cb[1])), ('popped left', lambda cb: pdeque(['q'] + list(cb[0])).popleft() if cb[1] is None else pdeque(cb[0], cb[1])),
            ('popped many', lambda cb: pdeque(list(cb[0]) + ['q', 'q']).pop(2) if cb[1] is None else pdeque(cb[0], cb[1])), ('slice', lambda cb: pdeque(['q'] + list(cb[0]))[1:] if cb[1] is None else pdeque(cb[0], cb[1])),
            ('removed', lambda cb: pdeque(list(cb[0]) + ['q']).remove('q') if cb[1] is None else pdeque(cb[0], cb[1])), ('removed first', lambda cb: pdeque([]).extendleft((['q'] + list(cb[0]))[::-1]).remove('q') if cb[1] is None else pdeque(cb[0], cb[1])),
            ('pickled', lambda cb: pickled(pdeque(cb[0], cb[1]))), ('used', lambda cb: used(pdeque(cb[0], cb[1]))), ('from list', lambda cb: pdeque(plist(cb[0]), cb[1])),
        ]
        return out

    def relatives(self, x, cx, cy):
        (c, b), (d, b2) = cx, cy
        if b != b2:
            return
        n = len(c)
        if d[:n] == c:
            yield 'extended', x.extend(els(d[n:]))
        if not n or d[-n:] == c:
            yield 'extended left', x.extendleft(els(d[:len(d) - n])[::-1])
        if c[:len(d)] == d:
            yield 'popped', x.pop(n - len(d))

    def unary(self, n):
        q, a = element(7), element(0)
        from pyrsistent import pdeque, plist, pvector
        ops = {
            'append': lambda x: x.append(q), 'appendleft': lambda x: x.appendleft(q), 'extend': lambda x: x.extend([q, a]), 'extendleft': lambda x: x.extendleft([q, a]), 'extend none': lambda x: x.extend([]), 'pop': lambda x: x.pop(), 'popleft': lambda x: x.popleft(),
            'left': lambda x: x.left, 'right': lambda x: x.right, 'remove': lambda x: x.remove(a), 'remove absent': lambda x: x.remove(q), 'reverse': lambda x: x.reverse(), 'index': lambda x: x.index(a), 'count': lambda x: x.count(a), 'in': lambda x: (a in x, q in x),
            'hash': hash, 'repr': repr, 'len': len, 'bool': bool, 'slice': lambda x: x[1:], 'slice end': lambda x: x[:-1], 'step': lambda x: x[::2], 'back': lambda x: x[::-1], 'pickle': pickled, 'copy': copy.copy, 'pvector': pvector, 'plist': plist, 'pdeque': pdeque,
            'pdeque bound': lambda x: pdeque(x, 2), 'iterate': list, 'reversed': lambda x: list(reversed(x)), 'maxlen': lambda x: x.maxlen, 'nested': lambda x: x.append(x),
        }
        for k in (-2, -1, 0, 1, 2, 3):
            ops['rotate %d' % k] = lambda x, k=k: x.rotate(k)
        for k in (2, 3):
            ops['pop %d' % k] = lambda x, k=k: x.pop(k)
            ops['popleft %d' % k] = lambda x, k=k: x.popleft(k)
        return ops

    def binary(self):
        return {
            'extend': lambda x, y: x.extend(y), 'extendleft': lambda x, y: x.extendleft(y), 'append': lambda x, y: x.append(y), '==': lambda x, y: (x == y, x != y), '<': lambda x, y: (x < y, x > y), 'in': lambda x, y: y in x,
            'both': lambda x, y: x.extendleft(y).extend(x), 'hash': lambda x, y: (hash(x) == hash(y)) or x != y,
        }


# -- maps, sets, bags ---------------------------------------------------------------------------

def declared(cache={}):
    if not cache:
        from pyrsistent import CheckedPMap, CheckedPSet, CheckedPVector, PClass, PRecord, field

        class CV(CheckedPVector):
            pass

        class CM(CheckedPMap):
            pass

        class CS(CheckedPSet):
            pass

        class R(PRecord):
            a = field()
            b = field()
            c = field()

        class C(PClass):
            a = field()
            b = field()
            c = field()
        for k in (CV, CM, CS, R, C):
            k.__qualname__ = k.__name__
            globals()[k.__name__] = k
            cache[k.__name__] = k
    return cache


class Map(Kind):
    name = 'map'
    keys = staticmethod(element)

    def small(self, tier):
        ns = (0, 1, 3) if tier == 'quick' else (0, 1, 3, 6)
        return [tuple((k, v) for k, v in zip(ns, vs) if v) for vs in product((0, 1, 2), repeat=len(ns))]

    def pairs(self, tier):
        return [c for c in self.small(tier) if tier != 'quick' or len(c) < 3]

    def large(self, tier):
        return [tuple((i if n < 50 else i + 100, 1 + i % 2) for i in range(n)) for n in (7, 8, 9, 16, 17, 40, 130)]

    def dict(self, c):
        return {self.keys(k): element(v) for k, v in c}

    def new(self, d):
        from pyrsistent import pmap
        return pmap(d)

    def histories(self):
        new, dic, keys = self.new, self.dict, self.keys

        def one(order):
            def make(c):
                m = new({})
                for k, v in order(list(dic(c).items())):
                    m = m.set(k, v)
                return m
            return make

        def alive(c):
            e = new({}).evolver()
            for k, v in dic(c).items():
                e[k] = v
            m = e.persistent()
            e[self.other()] = 'q'
            for k in list(dic(c))[:1]:
                e.remove(k)
            return m, e

        def shrunk(c):
            m = new(dict(dic(c), **self.extra(3)))if self.strings else new({**dic(c), **self.extra(3)})
            for k in self.extra(3):
                m = m.remove(k)
            return m

        def grown(c):
            if self.strings:
                return shrunk(c)
            e = new(dic(c)).evolver()
            for k in self.extra(40):
                e[k] = 'q'
            for k in self.extra(40):
                del e[k]
            return e.persistent()

        def overwritten(c):
            m = new({k: 'q' for k in dic(c)})
            return m.update(dic(c))
        out = [
            ('new', lambda c: new(dic(c))), ('set', one(list)), ('set backwards', one(lambda x: x[::-1])), ('set rotated', one(lambda x: x[1:] + x[:1])), ('update', lambda c: new({}).update(dic(c))), ('update map', lambda c: new({}).update(new(dic(c)))),
            ('halves', lambda c: new(dic(c[:len(c) // 2])).update(dic(c[len(c) // 2:]))), ('added', lambda c: new(dic(c[1:])) + new(dic(c[:1]))), ('or', lambda c: new(dic(c[:1])) | new(dic(c[1:]))), ('evolver alive', alive), ('shrunk', shrunk), ('grown and shrunk', grown),
            ('overwritten', overwritten), ('update with', lambda c: new(dic(c)).update_with(lambda a, b: b, dic(c))), ('pickled', lambda c: pickled(new(dic(c)))), ('copied', lambda c: copy.deepcopy(new(dic(c)))), ('used', lambda c: used(new(dic(c)))),
            ('used and set', lambda c: used(new(dic(c[1:]))).update(dic(c[:1]))), ('discarded', lambda c: new({**dic(c), self.other(): 1}).discard(self.other())),
        ]
        return out

    strings = False

    def extra(self, n):
        return {element(2000 + 8 * i): 'x' for i in range(n)}

    def other(self):
        return element(95)

    def relatives(self, x, cx, cy):
        dx, dy = dict(cx), dict(cy)
        y = x.update(self.dict([(k, v) for k, v in cy if dx.get(k) != v]))
        for k in dx:
            if k not in dy:
                y = y.remove(self.keys(k))
        yield 'changed', y
        e = x.evolver()
        for k in dx:
            if k not in dy:
                e.remove(self.keys(k))
        for k, v in cy:
            e[self.keys(k)] = element(v)
        yield 'evolver', e.persistent()

    def unary(self, n):
        k0, k9, q = self.keys(0), self.other(), element(7)
        from pyrsistent import discard, pmap, pset, thaw

        def evolve(x):
            e = x.evolver()
            e[k0] = q
            e[k9] = q
            y = e.persistent()
            e.remove(k0)
            e.set(k0, k9)
            return y, e.persistent(), len(e), x, e.is_dirty()
        return {
            'set': lambda x: x.set(k0, q), 'set new': lambda x: x.set(k9, q), 'remove': lambda x: x.remove(k0), 'discard': lambda x: x.discard(k0), 'discard new': lambda x: x.discard(k9), 'get': lambda x: (x.get(k0), x.get(k9), x.get(k9, 3)), 'item': lambda x: x[k0],
            'update': lambda x: x.update({k0: q, k9: q}), 'update with': lambda x: x.update_with(lambda a, b: (a, b), {k0: q, k9: q}), 'update none': lambda x: x.update(), 'evolve': evolve, 'transform': lambda x: x.transform([k0], q),
            'transform all': lambda x: x.transform([lambda k: True], lambda v: (v,)), 'discard all': lambda x: x.transform([lambda k: k != k0], discard), 'keys': lambda x: set(x.keys()), 'items': lambda x: set(x.items()), 'len': len, 'bool': bool, 'hash': lambda x: hash(x),
            'in': lambda x: (k0 in x, k9 in x), 'thaw': thaw, 'pickle': pickled, 'copy': copy.copy, 'dict': dict, 'pmap': pmap, 'pset': pset, 'nested': lambda x: x.set(k9, x), '== dict': lambda x: (x == dict(x), x == {}), 'sorted repr': lambda x: sorted(repr(x)),
        }

    def binary(self):
        return {
            '+': lambda x, y: x + y, '|': lambda x, y: x | y, 'update': lambda x, y: x.update(y), 'update twice': lambda x, y: x.update(y, x, y), 'update with': lambda x, y: x.update_with(lambda a, b: (a, b), y), 'update with twice': lambda x, y: x.update_with(lambda a, b: (a, b), y, x),
            '==': lambda x, y: (x == y, x != y, y == x), 'keys &': lambda x, y: set(x.keys() & y.keys()), 'keys -': lambda x, y: set(x.keys() - y.keys()), 'keys |': lambda x, y: set(x.keys() | y.keys()), 'items ==': lambda x, y: set(x.items()) == set(y.items()),
            'views': lambda x, y: (x.keys() == y.keys(), x.items() == y.items(), x.keys() <= y.keys()), 'value': lambda x, y: x.set(self.other(), y), 'hash': lambda x, y: hash(x) == hash(y) or x != y,
        }


class CheckedMap(Map):
    name = 'checked map'

    def new(self, d):
        return declared()['CM'](d)

    def large(self, tier):
        return Map.large(self, tier)[:3]

    def histories(self):
        return [h for h in Map.histories(self) if h[0] not in ('added', 'or')]


class Record(Map):
    name = 'record'
    strings = True

    @staticmethod
    def keys(n):
        return {0: 'a', 1: 'b', 3: 'c', 6: 'd'}[n]

    def small(self, tier):
        return Map.small(self, 'quick')

    def large(self, tier):
        return []

    def new(self, d):
        return declared()['R'](**d)

    def extra(self, n):
        return {}

    def other(self):
        return 'c'

    def histories(self):
        R = declared()['R']

        def kw(order):
            def make(c):
                return R(**dict(order(list(self.dict(c).items()))))
            return make

        def chain(c):
            r = R()
            for k, v in self.dict(c).items():
                r = r.set(**{k: v})
            return r

        def removed(c):
            r = R(a=1, b=2, c=3)
            for k in 'abc':
                if k not in self.dict(c):
                    r = r.remove(k)
            return r.update(self.dict(c))
        return [h for h in Map.histories(self) if h[0] not in ('discarded', 'evolver alive', 'or', 'added')] + [('keywords backwards', kw(lambda x: x[::-1])), ('create', lambda c: R.create(self.dict(c))), ('chain', chain), ('removed', removed)]

    def unary(self, n):
        ops = Map.unary(self, n)
        ops['set keywords'] = lambda x: x.set(a=5, b=6)
        ops['serialize'] = lambda x: x.serialize()
        ops['attribute'] = lambda x: x.a
        return ops

    def binary(self):
        ops = Map.binary(self)
        ops['create'] = lambda x, y: declared()['R'].create(y)
        return ops


class Cls(Kind):
    name = 'class'
    keys = staticmethod(Record.keys)
    dict = Map.dict

    def small(self, tier):
        return Map.small(self, 'quick')

    def large(self, tier):
        return []

    def histories(self):
        C = declared()['C']

        def chain(c):
            r = C()
            for k, v in self.dict(c).items():
                r = r.set(k, v)
            return r

        def evolved(c):
            e = C().evolver()
            for k, v in self.dict(c).items():
                e[k] = v
            r = e.persistent()
            e.set('a', 'q')
            return r, e

        def removed(c):
            r = C(a=1, b=2, c=3)
            for k in 'abc':
                if k not in self.dict(c):
                    r = r.remove(k)
            return r.set(**self.dict(c))

        def attr(c):
            e = C().evolver()
            for k, v in self.dict(c).items():
                setattr(e, k, v)
            return e.persistent()
        return [('new', lambda c: C(**self.dict(c))), ('backwards', lambda c: C(**dict(list(self.dict(c).items())[::-1]))), ('create', lambda c: C.create(self.dict(c))), ('chain', chain), ('evolver alive', evolved), ('evolver attributes', attr), ('removed', removed),
                ('pickled', lambda c: pickled(C(**self.dict(c)))), ('copied', lambda c: copy.deepcopy(C(**self.dict(c)))), ('transformed', lambda c: C(**{k: 'q' for k in self.dict(c)}).transform(*[z for k, v in self.dict(c).items() for z in ([k], v)]))]

    def relatives(self, x, cx, cy):
        y = x.set(**self.dict(cy))
        for k in dict(cx):
            if k not in dict(cy):
                y = y.remove(self.keys(k))
        yield 'changed', y

    def unary(self, n):
        from pyrsistent import discard

        def evolve(x):
            e = x.evolver()
            e.a = 5
            e['b'] = 6
            y = e.persistent()
            e.remove('a')
            return y, e.persistent(), x, e.is_dirty()
        return {
            'set': lambda x: x.set('a', 5), 'set two': lambda x: x.set(a=5, c=6), 'remove': lambda x: x.remove('a'), 'get': lambda x: x.a, 'evolve': evolve, 'transform': lambda x: x.transform(['a'], 9), 'repr': repr, 'hash': hash, 'serialize': lambda x: x.serialize(),
            'pickle': pickled, 'copy': copy.copy, 'hasattr': lambda x: [hasattr(x, f) for f in 'abcd'], 'nested': lambda x: x.set(a=x), 'set none': lambda x: x.set(),
        }

    def binary(self):
        return {'==': lambda x, y: (x == y, x != y, y == x), 'hash': lambda x, y: hash(x) == hash(y) or x != y, 'nested': lambda x, y: x.set(a=y), 'create': lambda x, y: declared()['C'].create(y)}


class Set(Kind):
    name = 'set'

    def small(self, tier):
        ns = (0, 1, 3, 6) if tier == 'quick' else (0, 1, 3, 6, 2)
        return [tuple(n for n, b in zip(ns, bs) if b) for bs in product((0, 1), repeat=len(ns))]

    def large(self, tier):
        return [tuple(range(100, 100 + n)) for n in (8, 9, 17, 40)]

    def new(self, xs):
        from pyrsistent import pset
        return pset(xs)

    def histories(self):
        from pyrsistent import pmap
        new = self.new

        def one(order):
            def make(c):
                s = new([])
                for x in order(list(c)):
                    s = s.add(x)
                return s
            return make

        def alive(c):
            e = new([]).evolver()
            for x in c:
                e.add(x)
            s = e.persistent()
            e.add('q')
            for x in c[:1]:
                e.remove(x)
            return s, e

        def shrunk(c):
            s = new(list(c) + els(range(200, 240)))
            for x in els(range(200, 240)):
                s = s.discard(x)
            return s
        out = [('new', new), ('iterator', lambda c: new(iter(c))), ('duplicates', lambda c: new(list(c) + list(c)[::-1])), ('added', one(list)), ('added backwards', one(lambda x: x[::-1])), ('updated', lambda c: new([]).update(c)), ('halves', lambda c: new(c[:1]).update(c[1:])),
               ('evolver alive', alive), ('shrunk', shrunk), ('removed', lambda c: new(list(c) + ['q']).remove('q')), ('pickled', lambda c: pickled(new(c))), ('used', lambda c: used(new(c))), ('used and added', lambda c: used(new(c[1:])).update(c[:1])), ('copied', lambda c: copy.deepcopy(new(c)))]
        if self.name == 'set':
            out += [('or', lambda c: new(c[:1]) | new(c[1:])), ('and', lambda c: new(c) & new(list(c) + ['q'])), ('minus', lambda c: new(list(c) + ['q']) - new(['q'])), ('xor', lambda c: new(list(c) + ['q']) ^ new(['q']))]
        return out

    def relatives(self, x, cx, cy):
        y = x.update(els([k for k in cy if k not in cx]))
        for k in cx:
            if k not in cy:
                y = y.remove(element(k))
        yield 'changed', y

    def unary(self, n):
        a, k9, q = element(0), element(9), element(7)
        from pyrsistent import pbag, pmap, pset, pvector

        def evolve(x):
            e = x.evolver()
            e.add(a)
            e.add(k9)
            y = e.persistent()
            e.remove(a)
            return y, e.persistent(), len(e), x
        return {
            'add': lambda x: x.add(a), 'add new': lambda x: x.add(k9), 'remove': lambda x: x.remove(a), 'discard': lambda x: x.discard(a), 'discard new': lambda x: x.discard(k9), 'update': lambda x: x.update([a, k9]), 'evolve': evolve, 'in': lambda x: (a in x, k9 in x),
            'len': len, 'bool': bool, 'hash': lambda x: hash(x), 'pickle': pickled, 'copy': copy.copy, 'pset': pset, 'pbag': pbag, 'set': set, '| set': lambda x: x | {a, k9}, 'sorted': sorted, '- set': lambda x: x - {a}, '== set': lambda x: (x == set(x), x == {a}),
            'nested': lambda x: x.add(x), 'repr': lambda x: sorted(repr(x)),
        }

    def binary(self):
        ops = {
            '|': lambda x, y: x | y, '&': lambda x, y: x & y, '-': lambda x, y: x - y, '^': lambda x, y: x ^ y, '==': lambda x, y: (x == y, x != y), '<=': lambda x, y: (x <= y, x < y, x >= y, x > y), 'isdisjoint': lambda x, y: x.isdisjoint(y),
            'update': lambda x, y: x.update(y), 'add': lambda x, y: x.add(y), 'hash': lambda x, y: hash(x) == hash(y) or x != y, 'union': lambda x, y: x.union(y), 'difference': lambda x, y: x.difference(y), 'issubset': lambda x, y: (x.issubset(y), x.issuperset(y)),
            'xor': lambda x, y: x.symmetric_difference(y), 'in': lambda x, y: x in y, 'remove each': self.remove_each,
        }
        return ops

    @staticmethod
    def remove_each(x, y):
        for e in y:
            x = x.discard(e)
        return x


class KeySet(Set):
    name = 'key set'

    def histories(self):
        from pyrsistent import pmap
        return [(n, f) for n, f in [
            ('keys', lambda c: pmap({x: 1 for x in c}).keys()), ('keys of other values', lambda c: pmap({x: i for i, x in enumerate(c)}).keys()), ('keys backwards', lambda c: pmap({x: 1 for x in list(c)[::-1]}).keys()),
            ('keys removed', lambda c: pmap({x: 1 for x in list(c) + ['q']}).remove('q').keys()), ('keys used', lambda c: used(pmap({x: 1 for x in c}).keys()))]]

    def unary(self, n):
        ops = Set.unary(self, n)
        for k in ('pickle', 'copy', 'repr'):
            del ops[k]
        return ops


class CheckedSet(Set):
    name = 'checked set'

    def new(self, xs):
        return declared()['CS'](xs)

    def binary(self):
        ops = Set.binary(self)
        for k in ('|', '&', '-', '^', 'union', 'difference', 'xor'):
            f = ops[k]
            ops[k] = lambda x, y, f=f: set(f(x, y))
        return ops

    def unary(self, n):
        ops = Set.unary(self, n)
        for k in ('| set', '- set'):
            f = ops[k]
            ops[k] = lambda x, f=f: set(f(x))
        return ops


class Bag(Kind):
    name = 'bag'

    def small(self, tier):
        return [tuple(n for n, k in zip((0, 1, 3), ks) for _ in range(k)) for ks in product((0, 1, 2), repeat=3)]

    def large(self, tier):
        return [tuple(i // 2 for i in range(n)) for n in (20, 60)]

    def histories(self):
        from pyrsistent import b, pbag

        def one(order):
            def make(c):
                x = b()
                for y in order(list(c)):
                    x = x.add(y)
                return x
            return make

        def removed(c):
            x = pbag(list(c) + ['q', 'q'] + list(c[:1]))
            x = x.remove('q').remove('q')
            for y in c[:1]:
                x = x.remove(y)
            return x
        return [('new', pbag), ('b', lambda c: b(*c)), ('iterator', lambda c: pbag(iter(c))), ('added', one(list)), ('added backwards', one(lambda x: x[::-1])), ('updated', lambda c: b().update(c)), ('halves', lambda c: pbag(c[:1]).update(c[1:])), ('removed', removed),
                ('sum', lambda c: pbag(c[:1]) + pbag(c[1:])), ('minus', lambda c: pbag(list(c) + ['q']) - pbag(['q'])), ('or', lambda c: pbag(c) | pbag(c[:1])), ('and', lambda c: pbag(c) & pbag(list(c) + ['q'])), ('pickled', lambda c: pickled(pbag(c))), ('used', lambda c: used(pbag(c))),
                ('used and added', lambda c: used(pbag(c[1:])).update(c[:1]))]

    def relatives(self, x, cx, cy):
        y = x
        rest = list(cy)
        for k in cx:
            if k in rest:
                rest.remove(k)
            else:
                y = y.remove(element(k))
        yield 'changed', y.update(els(rest))

    def unary(self, n):
        a, k9 = element(0), element(9)
        from pyrsistent import pbag, pset, pvector
        return {'add': lambda x: x.add(a), 'add new': lambda x: x.add(k9), 'update': lambda x: x.update([a, a, k9]), 'remove': lambda x: x.remove(a), 'count': lambda x: (x.count(a), x.count(k9)), 'in': lambda x: (a in x, k9 in x), 'len': len, 'bool': bool, 'hash': hash, 'sorted': sorted,
                'pickle': pickled, 'copy': copy.copy, 'pbag': pbag, 'pset': pset, '- one': lambda x: x - pbag([a]), 'remove twice': lambda x: x.remove(a).remove(a), 'repr': lambda x: sorted(repr(x))}

    def binary(self):
        return {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '|': lambda x, y: x | y, '&': lambda x, y: x & y, '==': lambda x, y: (x == y, x != y), 'update': lambda x, y: x.update(y), 'hash': lambda x, y: hash(x) == hash(y) or x != y}


KINDS = [Vector, PyVector, CheckedVector, List, Deque, Map, CheckedMap, Record, Cls, Set, KeySet, CheckedSet, Bag]


def shards(tier):
    out = []
    for config in ('c', 'py'):
        for i, k in enumerate(KINDS):
            if config == 'py' and k is PyVector:
                continue
            for p in range(NPART):
                out.append((config, ['kind', i, p]))
    return out


def weight(config, spec):
    return {'vector': 4, 'python vector': 6, 'checked vector': 4, 'deque': 6, 'map': 4, 'record': 4}.get(KINDS[spec[1]].name, 1)


def run_shard(ctx, spec):
    globals()['run_' + spec[0]](ctx, *spec[1:])


def build(kind, hist, c):
    """A value with contents c made by the given history, and what has to stay alive."""
    if isinstance(kind, Deque):
        r = hist((els(c[0]), c[1]))
    elif isinstance(kind, (Map, Cls)):
        r = hist(c)
    else:
        r = hist(els(c))
    return r if type(r) is tuple else (r, None)


def size(kind, c):
    return len(c[0]) if isinstance(kind, Deque) else len(c)


def run_kind(ctx, i, part):
    kind = KINDS[i]()
    hists = kind.histories()
    small, large = kind.small(ctx.tier), kind.large(ctx.tier)
    refname, ref = hists[0]
    n = 0
    for c in small + large:
        un = kind.unary(size(kind, c))
        n += 1
        if n % NPART != part:
            continue
        x0 = build(kind, ref, c)[0]
        f0 = form(x0)
        want = {name: result(op, x0) for name, op in un.items()}
        two = c in small
        want2 = {}
        if two:
            for n1, op1 in un.items():
                r = call(op1, x0)
                if r[0] == 'ok' and type(r[1]) is type(x0):
                    want2[n1] = {n2: result(op2, r[1]) for n2, op2 in un.items()}
        for hname, hist in hists:
            tr = (kind.name, c, hname)
            ctx.trace(tr)
            x, alive = build(kind, hist, c)
            ctx.state(tr)
            f = form(x)
            if f != f0:
                bad('made by %r it is %s, made by %r %s' % (hname, short(f), refname, short(f0)), tr)
            if not (x == x0 and x0 == x) or x != x0:
                bad('made by %r it is not equal to the one made by %r' % (hname, refname), tr)
            for name, op in un.items():
                ctx.step()
                r = result(op, x)
                if r != want[name]:
                    bad('%s gives %s, for the one made by %r %s' % (name, short(r), refname, short(want[name])), tr + (name,))
            for n1 in want2:
                y = un[n1](x)
                w = want2[n1]
                for n2, op2 in un.items():
                    ctx.step()
                    r = result(op2, y)
                    if r != w[n2]:
                        bad('%s gives %s, for the one made by %r %s' % (n2, short(r), refname, short(w[n2])), tr + (n1, n2))
            if form(x) != f0:
                bad('the value changed: %s, it was %s' % (short(form(x)), short(f0)), tr)
    # two operands
    bi = kind.binary()
    n = 0
    little = kind.pairs(ctx.tier)
    if ctx.quick and ctx.config == 'py' and kind.name in ('checked map', 'record', 'class', 'bag', 'list', 'deque', 'checked set'):
        little = little[::2]
    pairs = list(product(little, little)) + [(a, b) for a in large for b in large if abs(size(kind, a) - size(kind, b)) < 3]
    for c, d in pairs:
        n += 1
        if n % NPART != part:
            continue
        x0, y0 = build(kind, ref, c)[0], build(kind, ref, d)[0]
        want = {name: result(op, x0, y0) for name, op in bi.items()}
        fx, fy = form(x0), form(y0)

        def compare(x, y, tr):
            ctx.trace(tr)
            ctx.state(tr)
            for name, op in bi.items():
                ctx.step()
                r = result(op, x, y)
                if r != want[name]:
                    bad('%s gives %s, for independent operands %s' % (name, short(r), short(want[name])), tr + (name,))
            if form(x) != fx or form(y) != fy:
                bad('an operand changed', tr)

        for hname, hist in hists if c in small else hists[:1]:
            x = build(kind, hist, c)[0]
            y = build(kind, hist, d)[0]
            if hname != refname:
                compare(x, y0, (kind.name, c, hname, d, refname))
                compare(x0, y, (kind.name, c, refname, d, hname))
            compare(x, y, (kind.name, c, hname, d, hname))
        for hname, hist in hists if size(kind, c) < 500 or not ctx.quick else hists[:1]:
            x = build(kind, hist, c)[0]
            if c == d:
                compare(x, x, (kind.name, c, hname, 'the same object'))
            for rname, y in kind.relatives(x, c, d):
                compare(x, y, (kind.name, c, hname, d, 'derived', rname))
            y = build(kind, hist, d)[0]
            for rname, x in kind.relatives(y, d, c):
                compare(x, y, (kind.name, d, hname, c, 'derived', rname))
