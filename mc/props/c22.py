"""C22: get_in follows a path through any nesting."""
from itertools import product
from collections import ChainMap, OrderedDict, deque

from core import call, outcome_class, short
from maps import MISSING, bad

BOUNDS = {
    'quick': 'all nestings of depth <= 3 over persistent map, vector, list, deque, record, checked map and vector, dict, list, tuple and user-defined container, at depth <= 2 also sets, bags, classes, named tuples, evolvers, views and other containers, ending in 7 leaves (falsy ones and strings included); all paths of length 0..2 over 11 keys and '
             'of length 3 over 7, of length 1 and 2 also 28 others (names of methods, slices, huge numbers, present, absent, negative, out of range, of the wrong type, None, unhashable), given as list, tuple and iterator; with and without default and no_default',
    'thorough': 'as quick with nestings of depth 4 and paths of length 4 over 7 keys',
}
ASSUMPTIONS = []

KEYS = ['k', 'n', 0, 1, -1, 5, None, 'zz', 2.5, True, (0,)]
MORE = ['items', 'keys', 'get', 'set', 'first', 'left', 'index', 'append', '_size', '__class__', '__len__', '', '0', 'k.n', b'k', 0.0, False, -2, 2, 10 ** 30, -10 ** 30, frozenset(), slice(0, 1), slice(None), [], Ellipsis, (), ('k',)]
SHORT = ['k', 0, 1, -1, 5, 'zz', None]


class Weird(object):
    """A container of the user: an unusual exception has to come through."""

    def __init__(self, x):
        self.x = x

    def __getitem__(self, k):
        if k == 5:
            raise ArithmeticError('weird')
        if k in ('k', 0):
            return self.x
        raise KeyError(k)


def wrappers():
    from pyrsistent import CheckedPMap, CheckedPVector, PClass, PRecord, field, immutable, pbag, pdeque, plist, pmap, pset, pvector

    class Rec(PRecord):
        k = field()
        n = field()

    class CV(CheckedPVector):
        pass

    class CM(CheckedPMap):
        pass
    Imm = immutable('k, n')

    class C(PClass):
        k = field()
    return [('pmap', lambda x: pmap({'k': x, 'n': 0, None: x})), ('pvector', lambda x: pvector([x, 0])), ('plist', lambda x: plist([0, x])), ('pdeque', lambda x: pdeque([x, None])), ('Rec', lambda x: Rec(k=x)),
            ('CV', lambda x: CV([x])), ('CM', lambda x: CM({0: x, 'k': 1})), ('dict', lambda x: {'k': x, 0: None, True: 3}), ('list', lambda x: [x, x]), ('tuple', lambda x: (x,)), ('weird', Weird)], [('named', lambda x: Imm(x, 0)), ('class', lambda x: C(k=x)), ('set', lambda x: pset(['k', 0])), ('bag', lambda x: pbag(['k', 0])), ('chain', lambda x: ChainMap({'n': x}, {'k': x})), ('ordered', lambda x: OrderedDict(k=x)),
            ('deque', lambda x: deque([x, 1])), ('values', lambda x: pmap({'k': x}).values()), ('items', lambda x: pmap({'k': x}).items()), ('evolver', lambda x: pvector([x]).evolver()), ('map evolver', lambda x: pmap({'k': x}).evolver()), ('pmap many', lambda x: pmap({i: x for i in range(20)})), ('long vector', lambda x: pvector([x] * 40))]


LEAVES = [1, None, 0, '', 'kn', False, ()]


def shards(tier):
    n = 8 if tier == 'quick' else 32
    return [(c, ['paths', p, n]) for c in ('c', 'py') for p in range(n)]


def run_shard(ctx, spec):
    globals()['run_' + spec[0]](ctx, *spec[1:])


def walk(x, path):
    """('ok', value) or ('exc', exception), one step at a time"""
    for k in path:
        try:
            x = x[k]
        except Exception as e:
            return 'exc', e
    return 'ok', x


def paths(length, depth):
    for path in product(KEYS if length < 3 else SHORT, repeat=length):
        yield path
    if length == 1 or length == 2 and depth < 3:
        for odd in MORE:
            if length == 1:
                yield odd,
            else:
                for k in SHORT + [odd]:
                    yield k, odd
                    yield odd, k


def run_paths(ctx, part, parts):
    from pyrsistent import get_in
    ws, others = wrappers()
    default = object()
    most = 3 if ctx.quick else 4
    n = 0
    for d in range(most + 1):
        for combo in list(product(ws, repeat=d)) + ([c for c in product(ws + others, repeat=d) if any(w in others for w in c)] if d < 3 else []):
            n += 1
            if n % parts != part:
                continue
            for leaf in LEAVES if d < 3 else LEAVES[:2]:
                x = leaf
                for _, w in combo:
                    x = w(x)
                name = tuple(c[0] for c in combo[::-1]) + (short(leaf),)
                ctx.state(name)
                for length in range(0, most + 1):
                    if length == 3 and d < 3:
                        continue
                    for path in paths(length, d):
                        ctx.trace((name, path))
                        ctx.step()
                        want = walk(x, path)
                        soft = want[0] == 'exc' and isinstance(want[1], (KeyError, IndexError, TypeError))
                        forms = ((list(path), 'list'),) if length == 3 else ((list(path), 'list'), (path, 'tuple'), (iter(path), 'iterator'))
                        for p, form in forms:
                            r = call(get_in, p, x, default) if length == 3 or form != 'list' else call(get_in, keys=p, coll=x, default=default)
                            if want[0] == 'ok':
                                good = r[0] == 'ok' and (r[1] is want[1] or (type(r[1]) is type(want[1]) and r[1] == want[1]))
                            elif soft:
                                good = r == ('ok', default)
                            else:
                                good = outcome_class(r) == outcome_class(want)
                            if not good:
                                bad('get_in(%r, %s, default) gives %s, step by step gives %s' % (path, short(x), short(r), short(want)), (name, path, form))
                        if soft:
                            r = call(get_in, list(path), x)
                            if r != ('ok', None):
                                bad('get_in(%r, %s) gives %s, expected None' % (path, short(x), short(r)), (name, path))
                        for r in (call(get_in, list(path), x, no_default=True), call(get_in, list(path), x, default, True)):
                            if outcome_class(r) != outcome_class(want) or (want[0] == 'ok' and r[1] is not want[1] and r[1] != want[1]):
                                bad('get_in(%r, %s, no_default=True) gives %s, step by step gives %s' % (path, short(x), short(r), short(want)), (name, path))
