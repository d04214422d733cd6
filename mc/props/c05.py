"""C05: maps behave like dicts under every key and collision pattern."""
from collections import OrderedDict, defaultdict
from itertools import permutations, product

from core import call, outcome_class, short
from maps import Key, MISSING, bad, full_map, hash_patterns, light_map, val

BOUNDS = {
    'quick': 'all sequences of 4 operations over 14 operations (set, remove, discard, update, +, | and evolver commits) on 4 keys '
             'for all set partitions of the keys into buckets, realised by equal hashes, equal remainders, far and negative hashes; all insertion x '
             'removal orders of 5 keys for 8 collision patterns; every size 0..420 for 7 hash sequences and 7 construction routes with every '
             'size of pre-sizing 0..20; all pairs/triples of maps over 2 keys in update/update_with; equal-but-distinct and falsy keys',
    'thorough': 'as quick with 5 operations, 6 keys in permutations, sizes 0..3100',
}
ASSUMPTIONS = ['keys satisfy the hash contract (equal keys have equal hashes) and are equal to themselves', 'iteration order is unspecified but consistent']


def shards(tier):
    q = tier == 'quick'
    pats = list(hash_patterns(4))
    out = []
    for config in ('c', 'py'):
        k = 6 if q else 12
        for r in range(k):
            out.append((config, ['seq', r, k, 4 if q else 5]))
        for i in range(8):
            out.append((config, ['perm', i, 5 if q else 6]))
        for kind in range(7):
            out.append((config, ['grow', kind, 420 if q else 3100]))
        out.append((config, ['presize']))
        out.append((config, ['merge', 2 if q else 3]))
        out.append((config, ['odd']))
        out.append((config, ['api']))
        out.append((config, ['sources']))
    return out


def weight(config, spec):
    return {'seq': 10, 'perm': 4, 'grow': 9, 'presize': 3, 'merge': 2, 'odd': 1, 'api': 1, 'sources': 1}[spec[0]]


def run_shard(ctx, spec):
    globals()['run_' + spec[0]](ctx, *spec[1:])


def m_ops(keys, k):
    a, b = keys[0], keys[1]
    x, y = val('x%d' % k), val('y%d' % k)
    ops = [('set', key, x) for key in keys]
    ops += [('remove', key) for key in keys]
    ops += [('discard', keys[0]), ('update', {a: y, keys[2]: x}), ('or', {b: y, keys[3]: y}), ('evolver', a, x, b), ('setnew', keys[1], y), ('updates', {a: x}, {a: y, b: y})]
    return ops


def do_op(m, d, op, tr):
    """Apply to map and dict; None when both raised."""
    name = op[0]
    d2 = dict(d)
    if name in ('set', 'setnew'):
        key = op[1] if name == 'set' else Key(op[1].name, op[1].h)     # an equal, different key object
        r = call(m.set, key, op[2])
        d2[key] = op[2]
    elif name == 'remove':
        r = call(m.remove, op[1])
        if op[1] not in d2:
            if outcome_class(r) != 'KeyError':
                bad('remove of a missing key gives %s' % short(r), tr)
            return None
        del d2[op[1]]
    elif name == 'discard':
        r = call(m.discard, op[1])
        if op[1] not in d2:
            if r[0] != 'ok' or r[1] is not m:
                bad('discard of a missing key does not return the map itself', tr)
        d2.pop(op[1], None)
    elif name == 'update':
        r = call(m.update, op[1])
        d2.update(op[1])
    elif name == 'updates':
        r = call(m.update, op[1], op[2])
        d2.update(op[1])
        d2.update(op[2])
    elif name == 'or':
        r = call(lambda: m | op[1])
        d2.update(op[1])
    elif name == 'add':
        r = call(lambda: m + op[1])
        d2.update(op[1])
    elif name == 'evolver':
        e = m.evolver()
        e[op[1]] = op[2]
        d2[op[1]] = op[2]
        if op[3] in d2:
            del e[op[3]]
            del d2[op[3]]
        e.set(op[3], op[2])
        d2[op[3]] = op[2]
        if len(e) != len(d2) or e[op[3]] is not op[2] or op[1] not in e:
            bad('reads from the evolver', tr)
        r = call(e.persistent)
    if r[0] == 'exc':
        bad('%s raised %r' % (short(op), r[1]), tr)
    return r[1], d2


def run_seq(ctx, rem, mod, depth):
    from pyrsistent import pmap
    for i, hs in enumerate(hash_patterns(4)):
        if i % mod != rem:
            continue
        keys = [Key(n, h) for n, h in zip('abcd', hs)]
        universe = keys + [Key('z', hs[0])]
        trace = [keys]

        def rec(m, d, k):
            if k == depth:
                ctx.trace(lambda: list(trace))
                return
            for op in m_ops(keys, k):
                trace.append(op)
                ctx.step()
                r = do_op(m, d, op, trace)
                if r is not None:
                    if ctx.state((hs, tuple(sorted((x.name, v.n) for x, v in r[1].items())))):
                        full_map(r[0], r[1], universe, trace)
                    else:
                        light_map(r[0], r[1], trace)
                    rec(r[0], r[1], k + 1)
                    if k + 1 < depth:
                        light_map(r[0], r[1], trace)
                trace.pop()
            light_map(m, d, trace)

        rec(pmap(), {}, 0)
        ctx.check(len(pmap()) == 0 and list(pmap()) == [], 'the empty map changed', trace)


PERM_PATTERNS = [lambda i: 0, lambda i: i, lambda i: 8 * i, lambda i: i % 2, lambda i: i // 2, lambda i: -i, lambda i: 16 * (i % 2) + i // 3, lambda i: 2 ** 60 - 8 * i]


def run_perm(ctx, pattern, k):
    from pyrsistent import pmap
    f = PERM_PATTERNS[pattern]
    keys = [Key(n, f(i)) for i, n in enumerate('abcdef'[:k])]
    ext = [Key('f%d' % i, f(i + 3)) for i in range(9)]         # so that a growth step happens on the way
    for fill in (0, 9):
        for ins in permutations(range(k)):
            m0, d0 = pmap({x: val(x.name) for x in ext[:fill]}, pre_size=8), {x: val(x.name) for x in ext[:fill]}
            for i in ins:
                m0 = m0.set(keys[i], val(i))
                d0 = dict(d0)
                d0[keys[i]] = val(i)
                ctx.step()
                light_map(m0, d0, ('insert', ins, i))
            if k > 5 and ins[0] > ins[-1]:
                continue

            def rec(m, d, left):
                if not left:
                    ctx.trace(('insert', pattern, ins))
                for i in left:
                    m2 = m.remove(keys[i])
                    d2 = dict(d)
                    del d2[keys[i]]
                    ctx.step()
                    ctx.state((fill, ins if fill else 0, left, i))
                    light_map(m2, d2, ('insert', ins, 'remove', i, 'left', left))
                    rec(m2, d2, tuple(j for j in left if j != i))
                light_map(m, d, ('insert', ins, 'left', left))

            rec(m0, d0, tuple(range(k)) if fill == 0 else tuple(range(0, k, 2)))


GROW = [lambda i: i, lambda i: 0, lambda i: 8 * i, lambda i: -i, lambda i: (i * 2654435761) % 1024, lambda i: i // 7, lambda i: 1024 * i]


def run_grow(ctx, kind, top):
    from pyrsistent import pmap, m as mk
    f = GROW[kind]
    if kind in (1, 2, 6):
        top = min(top, 150)       # everything in few buckets: quadratic
    keys = [Key(i, f(i)) for i in range(top + 1)]
    m = pmap()
    d = {}
    versions = []
    ev = pmap().evolver()
    for n in range(top + 1):
        tr = ('grow', kind, n)
        ctx.trace(tr)
        ctx.state(tr)
        light_map(m, d, tr)
        versions.append((m, dict(d)))
        near = sorted({0, 1, n // 2, n - 1, n} & set(range(top)))
        if n <= 60 or n % 8 == 0:
            full_map(m, d, [keys[i] for i in near], tr)
            for name, r in (('pmap(dict)', pmap(dict(d))), ('pmap(pairs)', pmap(list(d.items()))), ('pmap(pmap)', pmap(m)), ('update', pmap().update(d)),
                            ('pre_size', pmap(dict(d), pre_size=max(1, n // 3))), ('+', pmap({keys[0]: val('o')}) + d if n else pmap() + d),
                            ('evolver', ev.persistent())):
                ctx.step()
                light_map(r, d, (name,) + tr)
                ctx.check(r == m and m == r and not (r != m), 'maps built differently are not equal', (name,) + tr)
                ctx.check(hash(r) == hash(m), 'hashes of maps built differently differ', (name,) + tr)
        for i in near:
            ctx.step(2)
            k = keys[i]
            if k in d:
                r = m.remove(k)
                d2 = dict(d)
                del d2[k]
                light_map(r, d2, ('remove', i) + tr)
                light_map(r.set(k, val('again')), dict(d2, **{}) | {k: val('again')}, ('remove and set', i) + tr)
                r = m.set(k, val('other'))
                light_map(r, d | {k: val('other')}, ('replace', i) + tr)
            else:
                ctx.check(m.discard(k) is m, 'discard of a missing key', tr)
                ctx.check(outcome_class(call(m.remove, k)) == 'KeyError', 'remove of a missing key', tr)
        light_map(m, d, tr)
        if n < top:
            m = m.set(keys[n], val(n))
            ev.set(keys[n], val(n))
            ctx.check(len(ev) == n + 1 and ev[keys[n]] is val(n) and keys[0] in ev, 'reads from an evolver', tr)
            d[keys[n]] = val(n)
            ctx.step()
    for v, dd in versions[::7]:
        light_map(v, dd, ('old version', kind, len(dd)))
    # removal in different orders, down to empty and up again
    for order in (range(top), reversed(range(top)), sorted(range(top), key=lambda i: (i * 7919) % 1009)):
        r, rd, e = m, dict(d), m.evolver()
        for j, i in enumerate(order):
            r = r.remove(keys[i])
            e.remove(keys[i])
            del rd[keys[i]]
            ctx.step(2)
            if j % 5 == 0 or len(rd) < 20:
                light_map(r, rd, ('remove down', kind, i))
                ctx.check(len(e) == len(rd), 'length of an evolver', ('remove down', kind, i))
        light_map(e.persistent(), {}, ('remove all from an evolver', kind))
        ctx.check(r == pmap() and len(r) == 0 and list(r) == [], 'not empty after removing everything')
        ctx.check(r.set(keys[0], val(0)) == {keys[0]: val(0)}, 'map emptied and filled again')
    light_map(m, d, ('after removals', kind))


def run_presize(ctx):
    from pyrsistent import pmap
    for pre in range(0, 21):
        for n in range(0, 40):
            for f in (lambda i: i, lambda i: 3 * i, lambda i: 0 if i % 2 else i):
                keys = [Key(i, f(i)) for i in range(n + 12)]
                d = {k: val(k.name) for k in keys[:n]}
                ctx.step()
                tr = ('pre_size', pre, n)
                ctx.trace(tr)
                ctx.state(tr)
                m = pmap(dict(d), pre)
                light_map(m, d, tr)
                light_map(pmap((kv for kv in list(d.items())), pre), d, tr)
                ctx.check(m == pmap(d) and hash(m) == hash(pmap(d)), 'pre_size changes equality', tr)
                e, r = m.evolver(), m
                for k in keys[n:]:
                    e[k] = val('n')
                    r = r.set(k, val('n'))
                    d[k] = val('n')
                ctx.step(24)
                light_map(e.persistent(), d, tr)
                light_map(r, d, tr)


def run_merge(ctx, k):
    """update, update_with, + and |: all small maps, all kinds of operands."""
    from pyrsistent import pmap
    calls = []

    def join(l, r):
        calls.append((l, r))
        return '(%s%s)' % (l, r)

    def alias():
        pass

    def model(base, others, fn):
        d = dict(base)
        c = []
        for o in others:
            for key, v in o.items():
                if key in d:
                    c.append((d[key], v))
                    d[key] = fn(d[key], v)
                else:
                    d[key] = v
        return d, c

    for hs in ((0, 1), (0, 0), (0, 8)):
        a, b = Key('a', hs[0]), Key('b', hs[1])
        small = [{}, {a: '1'}, {b: '2'}, {a: '3', b: '4'}]
        for base, o1, o2 in product(small, repeat=3):
            for others in ([], [o1], [o1, o2], [o1, o2, o1]):
                for wrap in (dict, pmap, OrderedDict, alias):
                    m = pmap(base)
                    if wrap is alias:
                        made = [(base, m)]              # equal operands are one object, and the map itself where they equal it
                        args = []
                        for o in others:
                            for d, x in made:
                                if d == o:
                                    break
                            else:
                                x = m.update(o) if base.items() <= o.items() else pmap(o)
                                made.append((o, x))
                            args.append(x)
                    elif wrap is pmap and any(len(o) > 1 for o in others):
                        args = [pmap(o) for o in others]
                    else:
                        args = [wrap(o) for o in others]
                    ctx.step(2)
                    tr = ('merge', base, others, wrap.__name__)
                    ctx.trace(tr)
                    ref = [dict(x.items()) for x in args]
                    want, wc = model(base, ref, join)
                    del calls[:]
                    got = m.update_with(join, *args)
                    got_calls = list(calls)
                    ctx.state((len(base), len(others), str(sorted(want.values()))))
                    ctx.check(dict(got) == want and len(got) == len(want), lambda: 'update_with gives %s, expected %s' % (short(got), short(want)), tr)
                    ctx.check(sorted(got_calls) == sorted(wc), lambda: 'merge function called with %s, expected %s' % (got_calls, wc), tr)
                    last = {}
                    last.update(base)
                    for o in others:
                        last.update(o)
                    ctx.check(dict(m.update(*args)) == last, 'update', tr)
                    ctx.check(dict(m) == base, 'source changed', tr)
                    ctx.check(all(dict(x.items()) == y for x, y in zip(args, ref)), 'argument changed', tr)
                    if len(args) == 1:
                        ctx.check(dict(m + args[0]) == last and dict(m | args[0]) == last, '+ and |', tr)


def run_odd(ctx):
    """Falsy keys and values, keys equal across types, tuple and string keys, None."""
    from pyrsistent import pmap
    keys = [0, 0.0, False, '', None, (), 1, 1.0, True, -1, -2, 'a', b'a', (1,), (1.0,), frozenset(), 2 ** 61 - 1, 2 ** 61, float('inf'), 'keys', '_size', '_buckets', '_cached_hash', 'set']
    values = [None, 0, False, '', []]
    for k1, k2 in product(keys, keys):
        for v1, v2 in ((None, 0), (0, False), ([], []), ('', None)):
            tr = ('odd', k1, k2, v1, v2)
            ctx.trace(tr)
            ctx.step(6)
            ctx.state((type(k1).__name__, type(k2).__name__, k1 == k2))
            d = {k1: v1}
            m = pmap().set(k1, v1)
            light_map(m, d, tr)
            d2 = dict(d)
            d2[k2] = v2
            m2 = m.set(k2, v2)
            full_map(m2, d2, keys, tr)
            full_map(pmap({k1: v1, k2: v2}), {k1: v1, k2: v2}, keys, tr)
            m3 = m2.remove(k1)
            d3 = dict(d2)
            del d3[k1]
            light_map(m3, d3, tr)
            light_map(m2.discard(k2).discard(k1), {}, tr)
            light_map(m2, d2, tr)
            light_map(m, d, tr)
            ctx.check(hash_or_none(m2) == hash_or_none(pmap(d2)), 'hash depends on history', tr)


def hash_or_none(m):
    try:
        return hash(m)
    except TypeError:
        return None


def run_sources(ctx):
    from pyrsistent import PMap, pmap
    import sources
    pre = {1: 'old', 'a': 'old', 'z': 9}

    def evolved(s):
        e = pmap(pre).evolver()
        for k, v in s.items():
            e[k] = v
        return e.persistent()
    ops = [('pmap', {}, pmap), ('pmap of items', {}, lambda s: pmap(s.items())), ('pmap presized', {}, lambda s: pmap(s, pre_size=5)), ('update of empty', {}, lambda s: pmap().update(s)), ('| of empty', {}, lambda s: pmap() | s),
           ('update', pre, lambda s: pmap(pre).update(s)), ('update twice', pre, lambda s: pmap(pre).update(s, s)), ('|', pre, lambda s: pmap(pre) | s), ('+', pre, lambda s: pmap(pre) + s),
           ('update_with', pre, lambda s: pmap(pre).update_with(lambda a, b: b, s)), ('evolver', pre, evolved), ('copy', {}, lambda s: pmap(s).copy())]
    sources.run_mappings(ctx, ops, PMap)


def run_api(ctx):
    from pyrsistent import pmap, m as mk
    ctx.state('api')
    ctx.trace('api')
    x = mk(a=1, b=None, c=0)
    ctx.check(dict(x) == {'a': 1, 'b': None, 'c': 0}, 'm()')
    ctx.check(x.a == 1 and x.b is None and x.c == 0, 'attribute access')
    for f in (lambda: x.d, lambda: mk().a, lambda: pmap({1: 2}).b):
        ctx.check(outcome_class(call(f)) == 'AttributeError', 'no AttributeError for a missing key')
    ctx.check(hasattr(x, 'a') and not hasattr(x, 'zz') and getattr(x, 'zz', 5) == 5, 'hasattr')
    ctx.check(outcome_class(call(lambda: x['d'])) == 'KeyError', 'no KeyError')
    ctx.check(eval(repr(x), {'pmap': pmap}) == x and str(x) == repr(x), 'repr')
    ctx.check(x.copy() is x or x.copy() == x, 'copy')
    for f in (lambda: x < x, lambda: x > {}, lambda: reversed(x), lambda: x.set([], 1), lambda: x[[]], lambda: [] in x, lambda: x.remove({}), lambda: pmap([([], 1)]),
              lambda: pmap(5), lambda: pmap({'a': 1}).get([])):
        ctx.step()
        ctx.check(outcome_class(call(f)) == 'TypeError', 'no TypeError')
    for other in (None, 5, 'a', [], [('a', 1)], (), object()):
        ctx.check(not (x == other) and x != other and not (other == x), 'equality with %r' % (other,))
    dd = defaultdict(list, {'a': 1, 'b': None, 'c': 0})
    ctx.check(x == dd and dd == x and len(dd) == 3, 'comparison with a defaultdict')
    ctx.check(list(pmap({}).items()) == [] and list(pmap().values()) == [] and len(pmap().keys()) == 0, 'views of the empty map')
    ctx.check(x.items() == mk(a=1, b=None, c=0).items() and x.items() != mk(a=1).items(), 'equality of item views')
    ctx.check(('a', 1) in x.items() and ('a', 2) not in x.items() and ('q', 1) not in x.items() and 5 not in x.items() and ('a',) not in x.items(), 'membership in the items view')
    ctx.check(1 in x.values() and None in x.values() and 7 not in x.values(), 'membership in the values view')
    ctx.check(pmap([('a', 1), ('a', 2)]) == {'a': 2} and len(pmap([('a', 1), ('a', 2)])) == 1, 'duplicate keys in the argument')
    e = x.evolver()
    ctx.check(outcome_class(call(lambda: e['zz'])) == 'KeyError' and outcome_class(call(e.remove, 'zz')) == 'KeyError', 'missing key in an evolver')
    ctx.check(e.persistent() is x, 'evolver without changes')
    ctx.check(x.set('a', 1) is x or x.set('a', 1) == x, 'set of the same value')
    ctx.check(len({x: 1, mk(c=0, b=None, a=1): 2}) == 1, 'as dict key')
