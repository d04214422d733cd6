"""C26: arguments are only read: no operation changes a mutable object that it is given, or keeps it; iterators do as well as lists."""
import copy
from collections import Counter, OrderedDict, UserDict, UserList, defaultdict, deque
from itertools import product

from core import call, short
from maps import bad

BOUNDS = {
    'quick': 'about 200 operations of the public interface that take a container, path or keyword arguments, each with every suitable argument of 12 mutable kinds (list, dict, set, deque, OrderedDict, defaultdict, Counter, user containers, '
             'bytearray, nested combinations) and all contents of length 0..3 over valid and invalid elements, also at lengths 31..33 and 65; after the call the argument is compared by identity, order and type, '
             'the call is repeated with the same argument, then the argument is emptied and the results compared with what they were; one-shot iterators give what lists give',
    'thorough': 'as quick with contents of length 0..4 and second arguments of every kind',
}
ASSUMPTIONS = ['elements themselves are not containers unless the operation converts deeply (freeze, thaw, create)', 'a mapping that creates its entries on access is asked for existing keys only']


class E(object):
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'E%r' % (self.n,)


def picture(x, depth=0):
    """Everything there is to see of an argument: type, order, identity of the leaves."""
    if isinstance(x, (list, deque, UserList, tuple)):
        return (type(x).__name__, id(x), [picture(y) for y in x])
    if isinstance(x, (dict, UserDict)):
        return (type(x).__name__, id(x), [(picture(k), picture(v)) for k, v in x.items()], getattr(x, 'default_factory', None))
    if isinstance(x, (set, bytearray)):
        return (type(x).__name__, id(x), sorted(map(repr, x)))
    return id(x)


def empty(x):
    """Empty a mutable argument, and what it holds."""
    kids = list(x.values()) if isinstance(x, (dict, UserDict)) else list(x) if isinstance(x, (list, deque, UserList, tuple)) else []
    for y in kids:
        if isinstance(y, (list, dict, set, deque, tuple)):
            empty(y)
    if hasattr(x, 'clear'):
        x.clear()
        if isinstance(x, (list, deque, UserList)):
            x.append('changed')
        elif isinstance(x, (dict, UserDict)) and not isinstance(x, Counter):
            x['changed'] = 1
        elif isinstance(x, set):
            x.add('changed')


FIELDS = ('a', 'b', 'c', 'd', 'xs', 'm', 's')


def value(r):
    """A comparable form of a result."""
    if r[0] == 'exc':
        return ('exc', type(r[1]).__name__)
    return ('ok', form(r[1]))


def form(x):
    from pyrsistent import PBag, PClass, PDeque, PList, PMap, PSet, PVector
    if isinstance(x, (PVector, PList, PDeque, list, tuple)):
        return (type(x).__name__, [form(y) for y in x])
    if isinstance(x, (PMap, dict)):
        return (type(x).__name__, sorted(repr((form(k), form(v))) for k, v in x.items()))
    if isinstance(x, (PSet, PBag, set, frozenset)):
        return (type(x).__name__, sorted(repr(form(y)) for y in x))
    if isinstance(x, PClass):
        return (type(x).__name__, [(f, form(getattr(x, f))) for f in FIELDS if hasattr(x, f)])
    return repr(x)


def declared():
    from pyrsistent import CheckedPMap, CheckedPSet, CheckedPVector, PClass, PRecord, field, pmap_field, pset_field, pvector_field

    class CV(CheckedPVector):
        __type__ = int
        __invariant__ = lambda x: (x >= 0, 'negative')

    class CS(CheckedPSet):
        __type__ = int

    class CM(CheckedPMap):
        __key_type__ = str
        __value_type__ = int

    class Inner(PRecord):
        a = field(type=int)
        b = field()

    class CVI(CheckedPVector):
        __type__ = Inner

    class CMI(CheckedPMap):
        __key_type__ = str
        __value_type__ = Inner

    class R(PRecord):
        a = field(type=int)
        b = field(initial=0)
        c = field(type=Inner)
        xs = pvector_field(int)
        m = pmap_field(str, int)
        s = pset_field(int)

    class C(PClass):
        a = field(type=int)
        b = field(initial=0)
        c = field(type=Inner)
        xs = pvector_field(int)
        m = pmap_field(str, int)
        s = pset_field(int)
    return CV, CS, CM, CVI, CMI, R, C, Inner


def seq_ops():
    """(name, function of an iterable)"""
    from pyrsistent import pbag, pdeque, plist, pset, pvector
    CV, CS, CM, CVI, CMI, R, C, Inner = declared()
    v, s, b, l, d = pvector([1, 2]), pset([1, 2]), pbag([1, 2, 2]), plist([1, 2]), pdeque([1, 2])
    d2 = pdeque([1, 2], maxlen=2)
    cv, cs = CV([1, 2]), CS([1, 2])
    r, c = R(), C()

    def evolve(x, method, arg):
        e = x.evolver()
        getattr(e, method)(arg)
        return e.persistent()
    ops = [('pvector', pvector), ('extend', v.extend), ('v +', lambda x: v + x), ('v ==', lambda x: v == x), ('== v', lambda x: x == v), ('v <', lambda x: v < x), ('evolver.extend', lambda x: evolve(v, 'extend', x)),
           ('evolver +=', lambda x: iadd(v, x)), ('in vector', lambda x: x in v), ('append', v.append), ('set', lambda x: v.set(0, x)), ('index', lambda x: v.index(x)), ('mset', lambda x: v.mset(0, x, 1, x)), ('remove', v.remove),
           ('mset args', lambda x: v.mset(*x)),
           ('pset', pset), ('set.update', s.update), ('union', lambda x: s.union(x)), ('intersection', lambda x: s.intersection(x)), ('difference', lambda x: s.difference(x)), ('symmetric_difference', lambda x: s.symmetric_difference(x)),
           ('issubset', s.issubset), ('issuperset', s.issuperset), ('isdisjoint', s.isdisjoint), ('s |', lambda x: s | x), ('s &', lambda x: s & x), ('s -', lambda x: s - x), ('s ^', lambda x: s ^ x), ('| s', lambda x: x | s), ('& s', lambda x: x & s),
           ('- s', lambda x: x - s), ('s ==', lambda x: s == x), ('s <=', lambda x: s <= x), ('s >', lambda x: s > x),
           ('pbag', pbag), ('bag.update', b.update), ('bag +', lambda x: b + pbag(x)),
           ('plist', plist), ('plist reverse', lambda x: plist(x, reverse=True)), ('mcons', l.mcons), ('cons', l.cons), ('l ==', lambda x: l == x), ('list split', lambda x: plist(x).split(1)),
           ('pdeque', pdeque), ('pdeque bounded', lambda x: pdeque(x, maxlen=2)), ('deque.extend', d.extend), ('deque.extendleft', d.extendleft), ('bounded extend', d2.extend), ('bounded extendleft', d2.extendleft), ('deque.append', d.append),
           ('d ==', lambda x: d == x), ('deque.remove', lambda x: d.remove(x)), ('deque.count', lambda x: d.count(x)),
           ('CheckedPVector', CV), ('CheckedPVector.create', CV.create), ('checked extend', cv.extend), ('checked +', lambda x: cv + x), ('checked evolver.extend', lambda x: evolve(cv, 'extend', x)), ('checked mset', lambda x: cv.mset(*x)),
           ('CheckedPSet', CS), ('CheckedPSet.create', CS.create), ('checked update', cs.update), ('checked |', lambda x: cs | x),
           ('record field', lambda x: R(xs=x, s=x)), ('record set', lambda x: r.set(xs=x)), ('record set 2', lambda x: r.set('s', x)), ('record evolver', lambda x: evset(r, 'xs', x)), ('record transform', lambda x: r.transform(['xs'], x)),
           ('record create', lambda x: R.create({'xs': x})), ('class field', lambda x: C(xs=x, s=x)), ('class set', lambda x: c.set(xs=x)), ('class evolver', lambda x: evset(c, 'xs', x)), ('class create', lambda x: C.create({'xs': x, 's': x})),
           ('record b', lambda x: type(R(b=x))), ('class b', lambda x: type(C(b=x)))]
    return ops


def iadd(v, x):
    e = v.evolver()
    e += x
    return e.persistent()


def evset(v, k, x):
    e = v.evolver()
    e[k] = x
    return e.persistent()


def map_ops():
    from pyrsistent import m as mk, pmap
    CV, CS, CM, CVI, CMI, R, C, Inner = declared()
    m = pmap({'a': 1, 'z': 2})
    cm = CM({'a': 1, 'z': 2})
    r, c, i = R(a=1), C(a=1), Inner(a=1)
    r0 = {'a': 5, 'q': 6}

    def kw(f):
        return lambda x: f(**x)
    return [('pmap', pmap), ('pmap presized', lambda x: pmap(x, pre_size=3)), ('m(**)', kw(mk)), ('update', m.update), ('update two', lambda x: m.update(x, r0, x)), ('update_with', lambda x: m.update_with(lambda p, q: (p, q), x)),
            ('update_with two', lambda x: m.update_with(lambda p, q: (p, q), x, x)), ('m +', lambda x: m + x), ('m |', lambda x: m | x), ('m ==', lambda x: m == x), ('== m', lambda x: x == m), ('set value', lambda x: type(m.set('v', x))),
            ('transform', lambda x: m.transform(['k'], x)), ('keys ==', lambda x: m.keys() == x.keys()), ('items in', lambda x: [kv in m.items() for kv in x.items()]), ('pmap items', lambda x: pmap(x.items())), ('pmap keys', lambda x: m.keys() | x.keys()),
            ('CheckedPMap', CM), ('CheckedPMap.create', CM.create), ('checked update', cm.update), ('checked update_with', lambda x: cm.update_with(lambda p, q: q, x)), ('checked |', lambda x: cm | x),
            ('R(**)', kw(R)), ('R.create', R.create), ('R.create extra', lambda x: R.create(x, ignore_extra=True)), ('record update', r.update), ('record set(**)', kw(r.set)), ('record |', lambda x: r | x), ('record ==', lambda x: r == x),
            ('record field m', lambda x: R(m=x)), ('record set m', lambda x: r.set(m=x)), ('record field c', lambda x: R(c=x)), ('record set c', lambda x: r.set('c', x)), ('record create nested', lambda x: R.create({'c': x, 'm': x}, ignore_extra=True)),
            ('record evolver m', lambda x: evset(r, 'm', x)), ('C(**)', kw(C)), ('C.create', C.create), ('C.create extra', lambda x: C.create(x, ignore_extra=True)), ('class set(**)', kw(c.set)), ('class field m', lambda x: C(m=x)), ('class set c', lambda x: c.set(c=x)),
            ('class create nested', lambda x: C.create({'c': x, 'm': x}, ignore_extra=True)), ('class evolver c', lambda x: evset(c, 'c', x)), ('Inner.create', Inner.create), ('transform Inner', lambda x: r.transform(['c'], x))]


def make_seq(kind, xs):
    if kind == 'list':
        return list(xs)
    if kind == 'deque':
        return deque(xs)
    if kind == 'set':
        return set(xs)
    if kind == 'UserList':
        return UserList(xs)
    if kind == 'dict':
        return {x: x for x in xs}
    if kind == 'defaultdict':
        return defaultdict(list, {x: x for x in xs})
    if kind == 'OrderedDict':
        return OrderedDict((x, x) for x in xs)
    if kind == 'bytearray':
        return bytearray([x for x in xs if type(x) is int and 0 <= x])
    if kind == 'Counter':
        return Counter(xs)


SEQ = ('list', 'deque', 'set', 'UserList', 'dict', 'defaultdict', 'OrderedDict', 'bytearray', 'Counter')
MAP = ('dict', 'defaultdict', 'OrderedDict', 'UserDict', 'Counter', 'odd dict')


class Odd(dict):
    """Makes up the entries it does not have, and remembers them."""

    def __missing__(self, k):
        self[k] = 0
        return 0


def make_map(kind, d):
    if kind == 'dict':
        return dict(d)
    if kind == 'defaultdict':
        x = defaultdict(int)
        x.update(d)
        return x
    if kind == 'OrderedDict':
        return OrderedDict(d)
    if kind == 'UserDict':
        return UserDict(d)
    if kind == 'Counter':
        x = Counter()
        for k, v in d.items():
            x[k] = v
        return x
    o = Odd()
    o.update(d)
    return o


NPART = 4


def shards(tier):
    out = []
    for c in ('c', 'py'):
        out += [(c, ['seqs', p, NPART]) for p in range(NPART)]
        out += [(c, ['once', 0]), (c, ['maps', 0]), (c, ['deep', 0]), (c, ['paths', 0])]
    return out


def run_shard(ctx, spec):
    globals()['run_' + spec[0]](ctx, *spec[1:])


def try_one(ctx, name, op, make, tr, same=True):
    """The whole protocol for one operation and one argument."""
    arg = make()
    ctx.trace(tr)
    ctx.state(tr)
    ctx.step(2)
    before = picture(arg)
    r = call(op, arg)
    if picture(arg) != before:
        bad('the argument has become %s' % short(arg), tr)
    w = value(r)
    r2 = call(op, arg)
    if picture(arg) != before:
        bad('the argument has become %s (second call)' % short(arg), tr)
    if same and value(r2) != w:
        bad('the second call gives %s, the first %s' % (short(r2), short(r)), tr)
    ctx.outcome(r[0])
    if r[0] == 'ok' and name not in KEEPS:
        empty(arg)
        if value(r) != w:
            bad('the result has become %s, it was %s' % (short(r), short(w)), tr)


# these hold the argument itself as an element
KEEPS = ('append', 'set', 'mset', 'cons', 'deque.append', 'record b', 'class b', 'set value', 'transform')


def words(tier):
    for n in range(0, 4 if tier == 'quick' else 5):
        for w in product((1, 2, -1, 'x'), repeat=n):
            yield w
    for n in (31, 32, 33, 65):
        yield tuple(range(n))


def run_seqs(ctx, part, parts):
    ops = seq_ops()
    for i, w in enumerate(words(ctx.tier)):
        if i % parts != part:
            continue
        for kind in SEQ:
            for name, op in ops:
                try_one(ctx, name, op, lambda: make_seq(kind, w), (name, kind, w))


def run_once(ctx, _):
    """One-shot iterators: the same result as from a list."""
    ops = seq_ops()
    comparing = ('v ==', '== v', 'v <', 's ==', 's <=', 's >', 'l ==', 'd ==', 'in vector', 'append', 'set', 'index', 'mset', 'remove', 'cons', 'deque.append', 'deque.remove', 'deque.count', '| s', '& s', '- s', 'mset args', 'checked mset', 'record b', 'class b')

    class Once(object):
        def __init__(self, xs):
            self.xs, self.i = list(xs), 0

        def __iter__(self):
            return self

        def __next__(self):
            if self.i == len(self.xs):
                raise StopIteration
            self.i += 1
            return self.xs[self.i - 1]
    for w in words(ctx.tier):
        for name, op in ops:
            if name in comparing:
                continue
            if name in ('record field', 'class field', 'class create'):
                continue        # two fields from one iterator
            tr = (name, 'iterator', w)
            ctx.trace(tr)
            ctx.state(tr)
            ctx.step()
            o = Once(w)
            r = call(op, o)
            want = call(op, list(w))
            if value(r) != value(want):
                bad('gives %s, from a list %s' % (short(r), short(want)), tr)


def run_maps(ctx, _):
    ops = map_ops()
    alphabet = [('a', 1), ('a', 'x'), ('b', 2), ('c', 3), ('zz', 4), ('xs', 5), (1, 1)]
    ds = [dict(t) for n in range(0, 4 if ctx.quick else 5) for t in product(alphabet, repeat=n) if len(dict(t)) == n]
    ds += [{'k%d' % i: i for i in range(n)} for n in (31, 33)]
    for d in ds:
        for kind in MAP:
            for name, op in ops:
                try_one(ctx, name, op, lambda: make_map(kind, d), (name, kind, str(d)))


def run_deep(ctx, _):
    """Arguments that hold mutable data themselves."""
    from pyrsistent import field, freeze, get_in, immutable, mutant, optional, pmap, pvector, thaw, PRecord, PClass
    CV, CS, CM, CVI, CMI, R, C, Inner = declared()

    @mutant
    def fn(x, *rest, **kw):
        return [x, rest, kw]
    inners = [lambda: {'a': 1}, lambda: {'a': 1, 'b': [1]}, lambda: {}, lambda: {'a': 'bad'}, lambda: {'a': 1, 'zz': [2]}, lambda: defaultdict(int, a=1), lambda: Inner(a=3)]
    ops = [('CVI.create', CVI.create, list), ('CVI.create extra', lambda x: CVI.create(x, ignore_extra=True), list), ('CMI.create', CMI.create, dict), ('CMI.create extra', lambda x: CMI.create(x, ignore_extra=True), dict),
           ('CVI', CVI, list), ('R.create c', lambda x: R.create({'c': x[0]} if x else {}), list), ('C.create c', lambda x: C.create({'c': x[0]} if x else {}, ignore_extra=True), list),
           ('freeze', freeze, list), ('freeze not strict', lambda x: freeze(x, strict=False), list), ('freeze dict', freeze, dict), ('freeze tuple', freeze, tuple), ('freeze deque', lambda x: len(freeze(x)), deque), ('mutant', fn, list), ('mutant kw', lambda x: fn(1, k=x), dict),
           ('thaw of a vector', lambda x: thaw(pvector(x)), list), ('thaw of a map', lambda x: thaw(pmap(x)), dict), ('thaw', thaw, list)]
    for n in (0, 1, 2, 3):
        for w in product(range(len(inners)), repeat=n):
            for name, op, shape in ops:
                def make():
                    xs = [inners[j]() for j in w]
                    return {'k%d' % j: x for j, x in enumerate(xs)} if shape is dict else shape(xs)
                tr = (name, shape.__name__, w)
                if 1 in w and not name.startswith(('freeze', 'thaw', 'mutant')):
                    continue        # the list is a value of a field without type, not a part of the structure
                if 5 in w and name.startswith(('thaw', 'mutant')):
                    continue        # thawing leaves default dicts alone
                try_one(ctx, name, op, make, tr)
    # declarations
    for base in (PRecord, PClass):
        for t, types in product((list, set, tuple), ((int,), (int, str), (int, type(None)), ())):
            arg = t(types)
            before = picture(arg)
            ctx.step()
            cls = type(base)('T', (base,), {'x': field(type=arg)})
            ok = [call(lambda: cls(x=q))[0] for q in (1, 'a', None)]
            if picture(arg) != before:
                bad('the declaration changed its argument to %s' % short(arg), ('field', t.__name__, str(types)))
            if t is not tuple:
                arg.clear()
                (arg.append if t is list else arg.add)(float)
                if [call(lambda: cls(x=q))[0] for q in (1, 'a', None)] != ok:
                    bad('the declaration changes with the argument', ('field', t.__name__, str(types)))
    for members in (['x', 'y_'], ['x'], []):
        arg = list(members)
        I = immutable(arg, name='I')
        if arg != members:
            bad('immutable() changed its argument', 'immutable')
        arg.append('zz')
        if I(*range(len(members)))._fields != tuple(members):
            bad('immutable() keeps its argument', 'immutable')
    # paths of get_in
    data = pmap({'a': pvector([1, pmap({'b': 2})])})
    plain = {'a': [1, {'b': 2}], 'd': defaultdict(list)}
    for path in ([], ['a'], ['a', 1], ['a', 1, 'b'], ['a', 5], ['q'], ['d', 'x'], ['d', 'x', 0]):
        for coll in (data, plain):
            for dflt in (None, [], {}):
                for strict in (False, True):
                    before = picture(path), picture(plain), picture(dflt)
                    ctx.step()
                    ctx.trace(('get_in', path))
                    call(lambda: get_in(path, coll, dflt, strict))
                    after = picture(path), picture(plain), picture(dflt)
                    if path[:1] == ['d'] and coll is plain:
                        plain['d'].clear()          # the default dict makes its entry, that is its own doing
                        after = before
                    if after != before:
                        bad('get_in changed an argument', ('get_in', path))


def run_paths(ctx, _):
    """Paths and commands of transform given as lists."""
    from pyrsistent import discard, inc, ny, pmap, pvector
    CV, CS, CM, CVI, CMI, R, C, Inner = declared()
    values = [pmap({'a': pvector([1, 2]), 'b': pmap({'a': 1})}), pvector([pvector([1]), pmap({'a': 1})]), R(a=1, c=Inner(a=2)), C(a=1, c=Inner(a=2)), CVI([Inner(a=1)]), pmap()]
    steps = ['a', 'b', 'c', 0, 1, ny, lambda k: True, lambda k, v: False]
    for n in range(0, 4):
        for path in product(steps, repeat=n):
            for kind in (list, deque, UserList, tuple):
                for cmd in (inc, discard, 7, [1], {'a': 1}, lambda x: x):
                    for vi, v in enumerate(values):
                        if kind is deque and n:
                            continue        # paths are sliced
                        arg = kind(path)
                        c = copy.copy(cmd) if isinstance(cmd, (list, dict)) else cmd
                        before = picture(arg), picture(c)
                        tr = ('transform', vi, str(path), kind.__name__, str(cmd))
                        ctx.trace(tr)
                        ctx.step(2)
                        ctx.state(tr)
                        r = call(v.transform, arg, c)
                        w = value(r)
                        if (picture(arg), picture(c)) != before:
                            bad('the path has become %s, the command %s' % (short(arg), short(c)), tr)
                        r2 = call(v.transform, arg, c, arg, c)
                        if (picture(arg), picture(c)) != before:
                            bad('the path has become %s, the command %s' % (short(arg), short(c)), tr)
                        if kind is not tuple and n:
                            arg[:] = ['changed']
                            if value(r) != w:
                                bad('the result has become %s, it was %s' % (short(r), short(w)), tr)
