"""C28: persistent collections can be used wherever the built-in ones can: protocols, abstract base classes, unpacking, pattern matching, consumers of the language and its library."""
import array
import bisect
import collections
import collections.abc as abc
import copy
import functools
import heapq
import itertools
import operator
import random
import string
import types
from itertools import product

from core import call, short
from maps import bad

BOUNDS = {
    'quick': 'sequences (10 kinds), mappings (6), sets (5) and bags (2), built in several ways, of all contents of length 0..3 over 4 elements (numbers, strings) and sizes 31..33, 65, 1057: every one of about 130 consumers of the language and its library (conversions, unpacking, '
             'pattern matching, iteration and search functions, base classes, copying, formatting, in-place extension of built-in containers) gives what it gives for the built-in type',
    'thorough': 'as quick with contents up to length 5',
}
ASSUMPTIONS = ['a mapping and a set have the order of their own iteration; what a consumer gives for the built-in type in that order is expected', 'an exception has to be of the same class or a subclass of it; where the built-in type refuses, any exception will do']
NPART = 4


def star(x):
    def f(*a):
        return a
    return f(*x)


def kwargs(x):
    def f(**k):
        return k
    return f(**x)


def head_tail(x):
    a, *b = x
    return a, b


def ends(x):
    a, *_, b = x
    return a, b


def pair(x):
    a, b = x
    return a, b


def for_else(x):
    out = []
    for y in x:
        out.append(y)
    else:
        out.append('end')
    return out


def match_seq(x):
    match x:
        case []:
            return 'none'
        case [a]:
            return 'one', a
        case [a, b]:
            return 'two', a, b
        case [a, *rest]:
            return 'more', a, rest
    return 'no match'


def match_map(x):
    match x:
        case {'a': v, 'b': w, **rest}:
            return 'ab', v, w, rest
        case {'a': v, **rest}:
            return 'a', v, rest
        case {'b': v}:
            return 'b', v
        case {}:
            return 'other'
    return 'no match'


def yield_from(x):
    def g():
        r = yield from x
        yield 'r', r
    return list(g())


def partial_then_rest(x):
    it = iter(x)
    first = list(itertools.islice(it, 2))
    return first, list(it), list(it)


def into(f):
    def g(x):
        t = f()
        r = None
        if isinstance(t, list):
            t += x
            t.extend(x)
            t[1:1] = x
            t[::] = x
        elif isinstance(t, collections.deque):
            t.extend(x)
            t.extendleft(x)
        elif isinstance(t, set):
            t.update(x)
            r = t.union(x), t.intersection(x), t.difference(x), t.symmetric_difference(x), t.issubset(x), t.issuperset(x), t.isdisjoint(x)
            t.difference_update(x)
            t.symmetric_difference_update(x)
            t.intersection_update(x)
        elif isinstance(t, dict):
            t.update(x)
        return t, r
    return g


def both(f):
    return lambda x: (f(x), f(x))


ALL = {
    'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset, 'deque': collections.deque, 'sorted': sorted, 'sorted by str': lambda x: sorted(x, key=str, reverse=True), 'enumerate': lambda x: list(enumerate(x, 1)),
    'zip': lambda x: list(zip(x, x)), 'zip short': lambda x: list(zip(x, 'ab')), 'zip strict': lambda x: list(zip(x, 'ab', strict=True)), 'map': lambda x: list(map(str, x)), 'filter': lambda x: list(filter(None, x)), 'sum': sum, 'min': min, 'max': max, 'any': any, 'all': all, 'len': len,
    'bool': bool, 'not': operator.not_, 'if': lambda x: 'yes' if x else 'no', 'star': star, 'list star': lambda x: [0, *x, *x], 'set star': lambda x: {*x}, 'head and tail': head_tail, 'ends': ends, 'pair': pair, 'for': for_else, 'nested for': lambda x: [(p, q) for p in x for q in x], 'dict of': lambda x: {p: 1 for p in x},
    'iter twice': both(lambda x: list(iter(x))), 'partial': partial_then_rest, 'next': lambda x: next(iter(x)), 'next default': lambda x: next(iter(x), 'd'), 'in': lambda x: [p in x for p in (0, 1, 2, 'a', 'b', 'zz', 1.0, True, None)], 'not in': lambda x: [p not in x for p in (0, 1, 'a')],
    'reduce': lambda x: functools.reduce(lambda a, b: (a, b), x), 'reduce from': lambda x: functools.reduce(lambda a, b: (a, b), x, 0), 'chain': lambda x: list(itertools.chain(x, x)), 'chain.from_iterable': lambda x: list(itertools.chain.from_iterable([x, x])), 'islice': lambda x: list(itertools.islice(x, 1, 3)),
    'accumulate': lambda x: list(itertools.accumulate(x, lambda a, b: (a, b))), 'product': lambda x: list(itertools.product(x, repeat=2)), 'permutations': lambda x: list(itertools.permutations(x, 2))[:50], 'combinations': lambda x: list(itertools.combinations(x, 2))[:50], 'groupby': lambda x: [(k, list(g)) for k, g in itertools.groupby(x)],
    'pairwise': lambda x: list(itertools.pairwise(x)), 'tee': lambda x: [list(t) for t in itertools.tee(x)], 'cycle': lambda x: list(itertools.islice(itertools.cycle(x), 7)), 'zip_longest': lambda x: list(itertools.zip_longest(x, range(2))), 'takewhile': lambda x: list(itertools.takewhile(bool, x)), 'compress': lambda x: list(itertools.compress(x, [1, 0, 1])),
    'join': lambda x: '-'.join(x), 'join str': lambda x: '-'.join(map(str, x)), 'bytes': bytes, 'bytearray': bytearray, 'array': lambda x: array.array('i', x), 'fromkeys': dict.fromkeys, 'Counter': lambda x: sorted(collections.Counter(x).items(), key=str), 'dict(zip)': lambda x: dict(zip(x, range(9))),
    'nlargest': lambda x: heapq.nlargest(2, x, key=str), 'nsmallest': lambda x: heapq.nsmallest(2, x, key=str), 'merge': lambda x: list(heapq.merge(x, x, key=str)), 'countOf': lambda x: [operator.countOf(x, p) for p in (0, 1, 'a')], 'indexOf': lambda x: operator.indexOf(x, 1), 'contains': lambda x: operator.contains(x, 1),
    'length_hint': operator.length_hint, 'into list': into(lambda: [9, 8]), 'into deque': into(lambda: collections.deque([9], 40)), 'into set': into(lambda: {1, 9}), 'yield from': yield_from, 'abc': lambda x: [isinstance(x, c) for c in (abc.Iterable, abc.Sized, abc.Container, abc.Collection)],
    'hashable': lambda x: isinstance(x, abc.Hashable), 'mutable': lambda x: [isinstance(x, c) for c in (abc.MutableSequence, abc.MutableMapping, abc.MutableSet)], 'iterator': lambda x: isinstance(x, abc.Iterator), 'callable': callable, 'key in dict': lambda x: {x: 1}[x], 'key in set': lambda x: x in {x}, 'hash twice': lambda x: hash(x) == hash(x),
    'copy': lambda x: sorted(copy.copy(x), key=str), 'deepcopy': lambda x: sorted(copy.deepcopy(x), key=str), 'setitem': lambda x: operator.setitem(x, 0, 1), 'delitem': lambda x: operator.delitem(x, 0), 'truth of twice': lambda x: bool(x) == (len(x) > 0), 'print': lambda x: len(str(x)) > 0 and '{0}'.format(x) == str(x) == '%s' % (x,) == f'{x}',
}

SEQ = {
    'reversed': lambda x: list(reversed(x)), 'reversed twice': both(lambda x: list(reversed(x))), 'getitem': lambda x: [call2(lambda: x[i]) for i in range(-5, 6)], 'itemgetter': lambda x: operator.itemgetter(0, -1)(x), 'getitem function': lambda x: operator.getitem(x, 1), 'slice': lambda x: [list(x[a:b]) for a in range(-4, 5) for b in range(-4, 5)],
    'slice step': lambda x: [list(x[::s]) for s in (1, 2, -1, -2)], 'slice object': lambda x: list(x[slice(None, None)]), 'index': lambda x: [call2(lambda: x.index(p)) for p in (0, 1, 2, 'a', 'zz')], 'index from': lambda x: [call2(lambda: x.index(1, s)) for s in range(4)], 'index within': lambda x: [call2(lambda: x.index(1, s, e)) for s in range(4) for e in range(4)],
    'count': lambda x: [x.count(p) for p in (0, 1, 'a', 'zz')], 'match': match_seq, 'abc seq': lambda x: [isinstance(x, c) for c in (abc.Sequence, abc.Reversible)], 'not others': lambda x: [isinstance(x, c) for c in (abc.Mapping, abc.Set)], 'choice': lambda x: random.Random(1).choice(x), 'sample': lambda x: random.Random(1).sample(x, 2), 'choices': lambda x: random.Random(1).choices(x, k=3),
    'bisect': lambda x: bisect.bisect_left([str(p) for p in x], '1'), 'bisect in': lambda x: bisect.bisect_right(x, '1', key=str), 'range(len)': lambda x: [x[i] for i in range(len(x))], 'abc.index': lambda x: call2(lambda: abc.Sequence.index(x, 1)), 'abc.count': lambda x: abc.Sequence.count(x, 1), 'abc.contains': lambda x: abc.Sequence.__contains__(x, 1),
    'abc.iter': lambda x: list(abc.Sequence.__iter__(x)), 'abc.reversed': lambda x: list(abc.Sequence.__reversed__(x)), 'UserList': lambda x: list(collections.UserList(x)), 'bool index': lambda x: x[True], 'setslice': lambda x: operator.setitem(x, slice(0, 1), [1]), 'namedtuple': lambda x: tuple(collections.namedtuple('N', 'a b')._make(x)),
    'dict of pairs': lambda x: dict((p, q) for p, q in zip(x, x)), 'str index': lambda x: x['a'], 'none index': lambda x: x[None], 'float index': lambda x: x[1.0],
}

MAP = {
    'dict': dict, 'dict with': lambda x: dict(x, zz=1), 'double star': lambda x: {**x}, 'double star both': lambda x: {'b': 0, **x, 'c': 5}, 'kwargs': kwargs, 'OrderedDict': lambda x: list(collections.OrderedDict(x).items()), 'defaultdict': lambda x: dict(collections.defaultdict(int, x)), 'ChainMap': lambda x: dict(collections.ChainMap({'a': 0}, x)), 'chainmap first': lambda x: dict(collections.ChainMap(x, {'zz': 0})),
    'UserDict': lambda x: dict(collections.UserDict(x)), 'Counter map': lambda x: dict(collections.Counter(x)) if all(type(v) is int for v in dict(x).values()) else None, 'proxy': lambda x: dict(types.MappingProxyType(x)), 'proxy get': lambda x: types.MappingProxyType(x).get('a', 'd'), 'update dict': into(lambda: {'a': 9, 'q': 9}), 'dict or': lambda x: {'q': 1} | dict(x), 'format_map': lambda x: '{a}'.format_map(x),
    'percent': lambda x: '%(a)s' % x, 'template': lambda x: string.Template('$a').substitute(x), 'safe template': lambda x: string.Template('$a $nosuch').safe_substitute(x), 'match': match_map, 'abc map': lambda x: isinstance(x, abc.Mapping), 'not others': lambda x: [isinstance(x, c) for c in (abc.Sequence, abc.Set)], 'getitem': lambda x: [call2(lambda: x[k]) for k in ('a', 'b', 'c', 'zz', 0, None)],
    'get': lambda x: [x.get(k) for k in ('a', 'b', 'zz', 0)], 'get default': lambda x: [x.get(k, 'd') for k in ('a', 'b', 'zz', 0)], 'get keyword': lambda x: x.get('zz', default='d') if not isinstance(x, dict) else x.get('zz', 'd'), 'keys': lambda x: list(x.keys()), 'values': lambda x: list(x.values()), 'items': lambda x: list(x.items()), 'len views': lambda x: (len(x.keys()), len(x.values()), len(x.items())), 'keys and': lambda x: set(x.keys() & {'a', 'b'}),
    'keys or': lambda x: set(x.keys() | {'q'}), 'keys minus': lambda x: set(x.keys() - {'a'}), 'keys xor': lambda x: set(x.keys() ^ {'a', 'q'}), 'keys compare': lambda x: [x.keys() <= {'a', 'b'}, x.keys() >= {'a'}, x.keys() == {'a'}, x.keys() == set(), x.keys().isdisjoint({'a'})], 'in keys': lambda x: [k in x.keys() for k in ('a', 'zz', 0)], 'in values': lambda x: [k in x.values() for k in (0, 1, 'a', 'zz', 0.0, 1.0, True, False, 2, None, [], (1,), ''.join(['', 'a']))],
    'in items': lambda x: [k in x.items() for k in (('a', 0), ('a', 1), ('b', 1), ('b', 'a'), ('zz', 1), ('zz', None), ('a', None), (None, None), ('a', 0.0), ('a', True), ('a', 1.0), 'zz', None, ('a',))], 'for items': lambda x: [(v, k) for k, v in x.items()], 'sorted items': lambda x: sorted(x.items(), key=str), 'max by': lambda x: max(x, key=lambda k: str(x[k])), 'set item': lambda x: operator.setitem(x, 'a', 1), 'del item': lambda x: operator.delitem(x, 'a'), 'itemgetter': lambda x: operator.itemgetter('a', 'b')(x),
    'abc.get': lambda x: abc.Mapping.get(x, 'a', 'd'), 'abc.items': lambda x: list(abc.Mapping.items(x)), 'abc.values': lambda x: list(abc.Mapping.values(x)), 'abc.contains': lambda x: abc.Mapping.__contains__(x, 'a'), 'abc.eq': lambda x: abc.Mapping.__eq__(x, dict(x)), 'ItemsView': lambda x: list(abc.ItemsView(x)), 'KeysView': lambda x: set(abc.KeysView(x)), 'partial': lambda x: functools.partial(kwargs_of, **x)(), 'eq dict': lambda x: [x == dict(x), dict(x) == x, x != dict(x), x == {'a': 99}],
    'SimpleNamespace': lambda x: vars(types.SimpleNamespace(**x)), 'exec locals': lambda x: eval('a', {}, x), 'zip(*items)': lambda x: list(zip(*x.items())), 'slice': lambda x: x[1:2],
}

SET = {
    'abc set': lambda x: isinstance(x, abc.Set), 'not others': lambda x: [isinstance(x, c) for c in (abc.Sequence, abc.Mapping)], 'set ops': lambda x: [set({0, 1, 'a'} | x), set({0, 1, 'a'} & x), set({0, 1, 'a'} - x), set({0, 1, 'a'} ^ x)], 'ops set': lambda x: [set(x | {0, 1, 'a'}), set(x & {0, 1, 'a'}), set(x - {0, 1, 'a'}), set(x ^ {0, 1, 'a'})],
    'compare': lambda x: [f(a, b) for f in (operator.lt, operator.le, operator.gt, operator.ge, operator.eq, operator.ne) for a, b in ((x, {0, 1}), ({0, 1}, x), (x, frozenset()), (x, set(x)))], 'set methods': lambda x: [{0, 1}.union(x), {0, 1}.issubset(x), {0, 1}.issuperset(x), frozenset('ab').isdisjoint(x), frozenset('ab').intersection(x)], 'named': lambda x: [set(x.union({1})), set(x.intersection({1})), set(x.difference({1})), set(x.symmetric_difference({1})), x.issubset({0, 1}), x.issuperset({0, 1}), x.isdisjoint({0, 1})],
    'getitem': lambda x: x[0], 'abc ops': lambda x: [abc.Set.__le__(x, {0, 1}), abc.Set.__eq__(x, set(x)), abc.Set.isdisjoint(x, {0})], 'keys ops': lambda x: [set({0: 1, 'a': 2}.keys() & x), set({0: 1}.keys() | x), {0: 1}.keys() <= x, {0: 1}.keys() == x], 'update set': into(lambda: {1, 9}), 'abc hash': lambda x: abc.Set._hash(x) == abc.Set._hash(frozenset(x)),
}

BAG = {'sorted all': lambda x: sorted(x, key=str), 'Counter equal': lambda x: collections.Counter(x) == collections.Counter(list(x)), 'count': lambda x: [x.count(p) for p in (0, 1, 'a', 'zz')], 'getitem': lambda x: x[0]}


def kwargs_of(**k):
    return k


def call2(f):
    o = call(f)
    return o[1] if o[0] == 'ok' else type(o[1])


def classes(cache={}):
    if not cache:
        from pyrsistent import CheckedPMap, CheckedPSet, CheckedPVector, PRecord, field

        class CV(CheckedPVector):
            __type__ = object

        class CS(CheckedPSet):
            __type__ = object

        class CM(CheckedPMap):
            __key_type__ = object
            __value_type__ = object

        class R(PRecord):
            a = field()
            b = field()
            c = field()
        cache.update(CV=CV, CS=CS, CM=CM, R=R)
    return cache


def sequences():
    from pyrsistent import l, pdeque, plist, pvector, v
    from pyrsistent._pvector import python_pvector

    def spread(xs):
        d = pdeque()
        for x in reversed(xs[:1]):
            d = d.appendleft(x)
        return d.extend(xs[1:])

    def evolved(xs):
        e = pvector().evolver()
        for x in xs:
            e.append(x)
        return e.persistent()
    return [('vector', pvector), ('v()', lambda xs: v(*xs)), ('evolved vector', evolved), ('python vector', python_pvector), ('checked vector', classes()['CV']), ('list', plist), ('l()', lambda xs: l(*xs)), ('deque', pdeque), ('deque of both ends', spread), ('bounded deque', lambda xs: pdeque(xs, maxlen=len(xs) + 1))]


def mappings():
    from pyrsistent import m, pmap

    def stepwise(d):
        x = pmap()
        for k in d:
            x = x.set(k, d[k])
        return x
    return [('map', pmap), ('m()', lambda d: m(**d)), ('stepwise map', stepwise), ('crowded map', lambda d: pmap(d, pre_size=1)), ('checked map', classes()['CM']), ('record', lambda d: classes()['R'](**d))]


def sets():
    from pyrsistent import pmap, pset, s
    return [('set', pset), ('s()', lambda xs: s(*xs)), ('checked set', classes()['CS']), ('key set', lambda xs: pmap({x: 1 for x in xs}).keys()), ('shrunk set', lambda xs: pset(list(xs) + ['gone']).remove('gone'))]


def bags():
    from pyrsistent import b, pbag
    return [('bag', pbag), ('b()', lambda xs: b(*xs))]


# consumers whose answer for a persistent collection is its own: what is expected instead
REFUSED = {'setitem', 'delitem', 'setslice', 'set item', 'del item'}
RESULT = {'hashable': lambda want: True, 'mutable': lambda want: [False] * 3, 'key in dict': lambda want: 1, 'key in set': lambda want: True, 'hash twice': lambda want: True}


def plain(x):
    """Comparable form of a result, with types."""
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(plain(y) for y in x)
    if isinstance(x, dict):
        return (type(x).__name__,) + tuple((plain(k), plain(v)) for k, v in x.items())
    if isinstance(x, (set, frozenset)):
        return type(x).__name__, frozenset(plain(y) for y in x)
    if isinstance(x, collections.deque):
        return ('deque',) + tuple(plain(y) for y in x)
    if isinstance(x, array.array):
        return ('array', tuple(x))
    if isinstance(x, type):
        return x
    return type(x).__name__, repr(x)


def same_class(got, want):
    return issubclass(got, want) or issubclass(want, got)


def agree(got, want):
    """Nested results; where the built-in type raises a class, a subclass or superclass is enough."""
    if isinstance(got, type) and isinstance(want, type):
        return same_class(got, want)
    if type(got) is not type(want):
        return False
    if isinstance(got, tuple):
        return len(got) == len(want) and all(agree(a, b) for a, b in zip(got, want))
    return got == want


def judge(ctx, family, name, x, model, cname, f, tr):
    ctx.step()
    got = call(f, x)
    want = ('exc', TypeError()) if cname in REFUSED else call(f, model)
    if cname in RESULT:
        want = 'ok', RESULT[cname](want[1])
    if got[0] != want[0]:
        bad('%s of a %s %s, of a %s it %s' % (cname, name, told(got), type(model).__name__, told(want)), tr)
    if got[0] == 'exc':
        return
    if not agree(plain(got[1]), plain(want[1])):
        bad('%s of a %s gives %s, of a %s %s' % (cname, name, short(got[1]), type(model).__name__, short(want[1])), tr)


def told(o):
    return 'gives ' + short(o[1]) if o[0] == 'ok' else 'raises %r' % (o[1],)


def words(n, alphabet):
    for k in range(n + 1):
        for w in product(alphabet, repeat=k):
            yield list(w)


def contents(ctx):
    n = 3 if ctx.quick else 5
    for w in words(n, (0, 1, 2, 'a')):
        yield w
    for w in words(2, ('', 'b', None, 1.5, (1, 2))):
        if w:
            yield w
    for k in (31, 32, 33, 65):
        yield list(range(k))
        yield [1] * k
    yield list(range(1057))


def shards(tier):
    return [(c, [what, p]) for c in ('c', 'py') for what in ('sequences', 'mappings', 'sets', 'bags') for p in range(NPART)]


def run_shard(ctx, spec):
    what, part = spec
    globals()['run_' + what](ctx, part)


def heavy(cname, n):
    return n > 40 and cname in ('product', 'nested for', 'permutations', 'combinations', 'slice', 'accumulate', 'reduce', 'reduce from') or n > 100 and cname in ('range(len)', 'abc.iter', 'abc.reversed', 'abc.index', 'abc.count')


def drive(ctx, family, name, x, model, tables, tr):
    before = list(x)
    ctx.trace(tr)
    for table in tables:
        for cname, f in table.items():
            if heavy(cname, len(model)):
                continue
            judge(ctx, family, name, x, model, cname, f, tr + (cname,))
    after = list(x)
    if len(before) != len(after) or any(a is not b for a, b in zip(before, after)):
        bad('the %s has changed' % name, tr)


def run_sequences(ctx, part):
    for k, w in enumerate(contents(ctx)):
        if k % NPART != part:
            continue
        for name, make in sequences():
            if ctx.config == 'py' and name not in ('vector', 'v()', 'evolved vector'):
                continue
            tr = (name, w if len(w) < 10 else (w[:2], len(w)))
            ctx.state((name, tuple(map(str, w))))
            model = tuple(w)
            drive(ctx, 'sequence', name, make(w), model, (ALL, SEQ), tr)


def dicts(ctx):
    vals = (0, 1, 'a', None)
    for keys in words(3, 'abc'):
        if list(dict.fromkeys(keys)) != keys:
            continue
        for vs in product(vals if ctx.quick else vals + (1.5,), repeat=len(keys)):
            yield dict(zip(keys, vs))
    for k in (31, 33, 65):
        yield {'k%d' % i: i for i in range(k)}


def run_mappings(ctx, part):
    for k, d in enumerate(dicts(ctx)):
        if k % NPART != part:
            continue
        for name, make in mappings():
            if name == 'record' and len(d) > 5 or name == 'crowded map' and len(d) > 40:
                continue
            tr = (name, tuple(d.items())[:10])
            ctx.state((name, tuple(d.items())))
            x = make(d)
            model = {key: d[key] for key in x}
            if len(model) != len(d) or len(x) != len(d):
                bad('the %s has %d keys, given %d' % (name, len(x), len(d)), tr)
            drive(ctx, 'mapping', name, x, model, (ALL, MAP), tr)


def run_sets(ctx, part):
    for k, w in enumerate(contents(ctx)):
        if k % NPART != part or sorted(map(str, set(w))) != sorted(map(str, w)) or len(w) > 100:
            continue
        for name, make in sets():
            tr = (name, tuple(w)[:10])
            ctx.state((name, tuple(w)))
            x = make(w)
            # a model with the same elements; its order is that of the set itself where the order shows
            drive(ctx, 'set', name, x, Ordered(x, w), (ALL, SET), tr)


def run_bags(ctx, part):
    for k, w in enumerate(contents(ctx)):
        if k % NPART != part:
            continue
        for name, make in bags():
            tr = (name, tuple(w)[:10])
            ctx.state((name, tuple(w)))
            x = make(w)
            order = tuple(x)
            if sorted(map(repr, order)) != sorted(map(repr, w)):
                bad('the elements of the bag are %s, given %s' % (short(order), short(w)), tr)
            drive(ctx, 'bag', name, x, Many(order), (ALL, BAG), tr)


class Ordered(frozenset):
    """A frozen set that is iterated over in the order of another one."""
    def __new__(cls, x, elements):
        self = super().__new__(cls, elements)
        self.order = list(x)
        if len(self.order) != len(self) or set(self.order) != self:
            bad('the elements of the set are %s, given %s' % (short(self.order), short(elements)), elements)
        return self

    def __iter__(self):
        return iter(self.order)

    def __reduce__(self):
        return frozenset, (self.order,)

    def __copy__(self):
        return self.order

    def __deepcopy__(self, memo):
        return self.order


class Many(object):
    """What is expected of a bag."""
    def __init__(self, order):
        self.order = order

    def __iter__(self):
        return iter(self.order)

    def __len__(self):
        return len(self.order)

    def __contains__(self, x):
        return x in self.order

    def count(self, x):
        return self.order.count(x)
