"""C07: sets obey set algebra under every hash and history."""
from collections.abc import Hashable, Set
from itertools import permutations, product

from core import call, outcome_class, short
from maps import Key, bad, hash_patterns
from seqs import iterables

BOUNDS = {
    'quick': 'all pairs of subsets of 4 elements for 10 collision patterns x 7 x 7 construction routes (key sets of maps and checked sets among them), every operator and named method, second operand '
             'a persistent set, set, frozenset, key view, map key set or iterable; all sequences of 5 of 13 update operations for all hash patterns of 3 '
             'elements; key sets of maps, checked maps and records under all sequences of 4 updates; all insertion orders of 5; every size 0..300 with removal in 3 orders',
    'thorough': 'as quick with 5 elements, sequences of 6, sizes up to 2100',
}
ASSUMPTIONS = ['elements satisfy the hash contract and equal themselves', 'iteration order is unspecified but the same for every iteration of one set']

PATTERNS = [lambda i: 0, lambda i: i, lambda i: 8 * i, lambda i: i % 2, lambda i: i // 2, lambda i: -i - 2, lambda i: 16 * (i % 2) + i // 3,
            lambda i: 2 ** 60 - 8 * i, lambda i: (i == 0) * 8, lambda i: 7 - i]


def shards(tier):
    q = tier == 'quick'
    out = []
    for config in ('c', 'py'):
        for p in range(len(PATTERNS)):
            out.append((config, ['pairs', p, 4 if q or p % 3 else 5]))
        for r in range(4):
            out.append((config, ['seq', r, 4, 5 if q else 6]))
        out.append((config, ['orders', 5 if q else 6]))
        for k in range(4):
            out.append((config, ['grow', k, 300 if q else 2100]))
        out.append((config, ['api']))
        out.append((config, ['sources']))
        out.append((config, ['keyset', 4 if q else 5]))
    return out


def weight(config, spec):
    return {'pairs': 9, 'seq': 10, 'orders': 4, 'grow': 6, 'api': 1, 'keyset': 8}.get(spec[0], 1)


def run_shard(ctx, spec):
    globals()['run_' + spec[0]](ctx, *spec[1:])


def routes(elems, universe):
    from pyrsistent import pset, s, pmap
    rest = [u for u in universe if u not in elems]
    yield 'pset', pset(list(elems))
    x = s()
    for e in reversed(list(elems)):
        x = x.add(e).add(e)
    yield 'add reversed', x
    x = pset(universe, pre_size=1)
    for e in rest:
        x = x.remove(e)
    yield 'all minus rest', x
    e = pset(rest[:1]).evolver()
    for r in rest[:1]:
        e.remove(r)
    for y in elems:
        e.add(y)
    yield 'evolver', e.persistent()
    yield 'keys of a map', pmap({u: i for i, u in enumerate(elems)}).keys()
    yield 'set of keys of a map', pset(pmap({u: None for u in elems}).keys())
    yield 'checked', checked()(elems)


def checked():
    global _checked
    if _checked is None:
        from pyrsistent import CheckedPSet

        class Checked(CheckedPSet):
            __type__ = Key
        _checked = Checked
    return _checked


_checked = None


def light(s, ref, tr):
    if len(s) != len(ref):
        bad('len() is %d, expected %d: %s' % (len(s), len(ref), short(s)), tr)
    got = list(s)
    if len(got) != len(ref) or not all(x in ref for x in got) or len(set(got)) != len(got):
        bad('contains %s, expected %s' % (short(got), short(ref)), tr)


def full(s, ref, universe, tr):
    light(s, ref, tr)
    if list(s) != list(s):
        bad('two iterations differ', tr)
    for u in universe:
        if (u in s) != (u in ref):
            bad('%r in set is %s' % (u, u in s), tr)
    if not (s == ref) or s != ref or not (ref == s) or ref != s:
        bad('comparison with the equal set', tr)
    if hash(s) != hash(frozenset(ref)):
        bad('hash differs from that of the equal frozenset', tr)
    if bool(s) != bool(ref):
        bad('truth value', tr)


BIN = [('&', lambda a, b: a & b), ('|', lambda a, b: a | b), ('-', lambda a, b: a - b), ('^', lambda a, b: a ^ b)]
NAMED = [('intersection', '&'), ('union', '|'), ('difference', '-'), ('symmetric_difference', '^')]
CMP = [('<', lambda a, b: a < b), ('<=', lambda a, b: a <= b), ('>', lambda a, b: a > b), ('>=', lambda a, b: a >= b), ('==', lambda a, b: a == b),
       ('!=', lambda a, b: a != b)]


def run_pairs(ctx, pattern, k):
    from pyrsistent import PSet, pmap, pset
    f = PATTERNS[pattern]
    universe = [Key(n, f(i)) for i, n in enumerate('abcde'[:k])]
    alien = Key('zz', f(0))
    uni = universe + [alien]
    subsets = [[u for i, u in enumerate(universe) if m >> i & 1] for m in range(2 ** k)]
    built = [(list(routes(sub, universe)), set(sub)) for sub in subsets]
    for rs, ref in built:
        for name, s in rs:
            full(s, ref, uni, (name, ref))
            ctx.state((pattern, name, len(ref)))
    for i, (ra, a) in enumerate(built):
        for j, (rb, b) in enumerate(built):
            if len(ra) and i == j:
                pass
            ctx.state((pattern, i, j))
            for x, y in product(range(len(ra)), range(len(rb))):
                if x != y and (x + y + i + j) % 2 and ctx.quick:
                    continue        # every route with itself and half of the mixed ones per pair of subsets
                (na, sa), (nb, sb) = ra[x], rb[y]
                others = [(nb, sb)]
                if x == y:
                    others += [('set', set(b)), ('frozenset', frozenset(b)), ('dict keys', dict.fromkeys(b).keys())]
                for on, o in others:
                    tr = ('pairs', pattern, na, sorted(e.name for e in a), on, sorted(e.name for e in b))
                    ctx.trace(tr)
                    ctx.step(14)
                    for op, fn in BIN:
                        r = fn(sa, o)
                        want = fn(a, b)
                        if na != 'checked' and type(r) is not PSet:
                            bad('%s gives a %s' % (op, type(r).__name__), tr)
                        light(r, want, (op,) + tr)
                        light(fn(o, sa), fn(b, a), ('reversed ' + op,) + tr)
                    for nm, op in NAMED:
                        light(getattr(sa, nm)(o), dict(BIN)[op](a, b), (nm,) + tr)
                    for op, fn in CMP:
                        if fn(sa, o) is not fn(a, b):
                            bad('%s gives %s' % (op, fn(sa, o)), tr)
                        if fn(o, sa) is not fn(b, a):
                            bad('reversed %s gives %s' % (op, fn(o, sa)), tr)
                    if sa.isdisjoint(o) != a.isdisjoint(b) or sa.issubset(o) != a.issubset(b) or sa.issuperset(o) != a.issuperset(b):
                        bad('isdisjoint/issubset/issuperset', tr)
                    light(sa.update(o), a | b, ('update',) + tr)
                if x == y:
                    tr = ('pairs', pattern, na, sorted(e.name for e in a), 'iterable', sorted(e.name for e in b))
                    ctx.step(4)
                    light(sa.update(iter(list(b) * 2)), a | b, ('update from iterator',) + tr)
                    light(sa.union(list(b)), a | b, ('union with list',) + tr)
                    light(sa.intersection(list(b) * 2), a & b, ('intersection with list',) + tr)
                    light(sa.difference(tuple(b)), a - b, ('difference with tuple',) + tr)
                    if sa.isdisjoint(list(b)) != a.isdisjoint(b):
                        bad('isdisjoint with list', tr)
                light(sb, b, ('operand changed',) + tr)
            for na, sa in ra:
                light(sa, a, ('operand changed', na, i, j))


def run_seq(ctx, rem, mod, depth):
    from pyrsistent import pset
    for i, hs in enumerate(hash_patterns(3)):
        if i % mod != rem:
            continue
        keys = [Key(n, h) for n, h in zip('abc', hs)]
        a, b, c = keys
        alien = Key('z', hs[0])
        ops = [('add', a), ('add', b), ('add', c), ('remove', a), ('remove', b), ('remove', c), ('discard', a), ('update', (a, b, a)), ('&', (b, c)), ('-', (c, alien)),
               ('^', (a, c)), ('|', (b,)), ('evolver', a, b)]
        trace = [keys]

        def apply(s, ref, op):
            n = op[0]
            if n == 'add':
                return s.add(op[1]), ref | {op[1]}
            if n in ('remove', 'discard'):
                r = call(getattr(s, n), op[1])
                if op[1] not in ref:
                    if n == 'remove':
                        if outcome_class(r) != 'KeyError':
                            bad('remove of a missing element gives %s' % short(r), trace)
                    elif r[0] != 'ok' or r[1] is not s:
                        bad('discard of a missing element gives another set', trace)
                    return None
                if r[0] != 'ok':
                    bad('%s raised %r' % (n, r[1]), trace)
                return r[1], ref - {op[1]}
            if n == 'update':
                return s.update(op[1]), ref | set(op[1])
            if n == 'evolver':
                e = s.evolver()
                ref = set(ref)
                if op[1] in ref:
                    e.remove(op[1])
                    ref.discard(op[1])
                else:
                    e.add(op[1])
                    ref.add(op[1])
                e.add(op[2])
                ref.add(op[2])
                if len(e) != len(ref):
                    bad('length of an evolver', trace)
                return e.persistent(), ref
            fn = dict(BIN)[n]
            return fn(s, pset(op[1])), fn(ref, set(op[1]))

        def rec(s, ref, d):
            if d == depth:
                ctx.trace(lambda: list(trace))
                return
            for op in ops:
                trace.append(op)
                ctx.step()
                r = apply(s, ref, op)
                if r is not None:
                    if ctx.state((hs, d, tuple(sorted(x.name for x in r[1])))):
                        full(r[0], r[1], keys + [alien], trace)
                    else:
                        light(r[0], r[1], trace)
                    rec(r[0], r[1], d + 1)
                trace.pop()
            light(s, ref, trace)

        rec(pset(), set(), 0)
        ctx.check(len(pset()) == 0 and list(pset()) == [], 'the empty set changed', trace)


def run_orders(ctx, k):
    from pyrsistent import pset, s
    for p, f in enumerate(PATTERNS):
        keys = [Key(n, f(i)) for i, n in enumerate('abcdef'[:k])]
        want = set(keys)
        ref = pset(keys)
        for perm in permutations(keys):
            ctx.step(k + 2)
            tr = ('orders', p, perm)
            ctx.trace(tr)
            ctx.state((p, tuple(x.name for x in perm)))
            x = pset()
            for e in perm:
                x = x.add(e)
            light(x, want, tr)
            ctx.check(x == ref and ref == x and hash(x) == hash(ref), 'insertion order affects equality or hash', tr)
            light(s(*perm), want, tr)
            for i, e in enumerate(perm):
                x = x.remove(e) if i % 2 else x.discard(e)
                light(x, want - set(perm[:i + 1]), ('remove',) + tr)


def run_grow(ctx, kind, top):
    from pyrsistent import pset
    f = [lambda i: i, lambda i: i % 64, lambda i: -3 * i, lambda i: (i * 2654435761) % 4096][kind]
    keys = [Key(i, f(i)) for i in range(top + 1)]
    s, ref = pset(), set()
    ev = pset().evolver()
    old = []
    for n in range(top):
        tr = ('grow', kind, n)
        ctx.trace(tr)
        ctx.state(tr)
        ctx.step(3)
        old.append(s)
        s = s.add(keys[n])
        ev.add(keys[n])
        ref.add(keys[n])
        if n < 80 or n % 16 == 0:
            full(s, ref, (keys[0], keys[n], keys[n // 2], keys[n + 1]), tr)
            light(pset(keys[:n + 1]), ref, tr)
            light(ev.persistent(), ref, tr)
            light(s.remove(keys[n // 2]), ref - {keys[n // 2]}, tr)
            ctx.check(s == pset(reversed(keys[:n + 1])), 'equality', tr)
    for n in range(0, top, 5):
        light(old[n], set(keys[:n]), ('old version', kind, n))
    for order in (range(top), reversed(range(top)), sorted(range(top), key=lambda i: (i * 7919) % 1009)):
        r, rr = s, set(ref)
        e = s.evolver()
        for j, i in enumerate(order):
            r = r.remove(keys[i])
            e.remove(keys[i])
            rr.discard(keys[i])
            ctx.step(2)
            if j % 7 == 0 or len(rr) < 10:
                light(r, rr, ('remove down', kind, i))
        light(e.persistent(), set(), ('remove down', kind))


def run_sources(ctx):
    from pyrsistent import PSet, pset
    import sources
    pre = ['p', 1]

    def evolved(s):
        e = pset(pre).evolver()
        for x in s:
            e.add(x)
        return e.persistent()
    grow = lambda x, y: x.add(y)
    ops = [('pset', [], pset, grow), ('presized', [], lambda s: pset(s, pre_size=7), grow), ('update of empty', [], lambda s: pset().update(s), grow), ('update', pre, lambda s: pset(pre).update(s), grow),
           ('union', pre, lambda s: pset(pre).union(s), grow), ('evolver', pre, evolved, lambda x, y: x.update([y]))]
    sources.run_iterables(ctx, ops, False, PSet, lambda p, xs: list(dict.fromkeys(p + xs)))


def run_api(ctx):
    from pyrsistent import PSet, pmap, pset, s
    ctx.trace('api')
    ctx.state('api')
    x = s(1, 2, 2, 3)
    ctx.check(len(x) == 3 and sorted(x) == [1, 2, 3], 's()')
    ctx.check(pset('abca') == set('abc') and pset(range(5)) == set(range(5)) and pset(i for i in (1, 1)) == {1}, 'pset()')
    ctx.check(isinstance(x, Set) and isinstance(x, Hashable) and isinstance(x, PSet), 'ABCs')
    for f in (lambda: x < [1], lambda: x <= [1], lambda: x > 3, lambda: x >= None, lambda: pset([[]]), lambda: x.add([]), lambda: x.remove({}), lambda: [] in x,
              lambda: pset(5), lambda: x & 5, lambda: x | None, lambda: x.update(5), lambda: x - 5, lambda: x ^ 5):
        ctx.step()
        ctx.check(outcome_class(call(f)) == 'TypeError', 'no TypeError')
    for o in (None, 5, [1, 2, 3], (1, 2, 3), 'abc', {1: 1, 2: 2, 3: 3}, object()):
        ctx.check(not (x == o) and x != o and not (o == x), 'equality with %r' % (o,))
    for name, u in iterables():
        for start in ('', 'p', 'pq', 'xyz'):
            ctx.step(3)
            w, a = set(u()), set(start)
            tr = ('iterable', name, start)
            ctx.trace(tr)
            full(pset(u()), w, list(w) + ['p'], tr)
            full(s(*u()), w, list(w), tr)
            y = pset(start)
            full(y.update(u()), a | w, list(w) + list('pqx'), tr)
            full(y.union(u()), a | w, list(w) + list('pqx'), tr)
            full(y.intersection(u()), a & w, list(w) + list('pqx'), tr)
            full(y.difference(u()), a - w, list(w) + list('pqx'), tr)
            full(y.symmetric_difference(u()), a ^ w, list(w) + list('pqx'), tr)
            ctx.check(y.isdisjoint(u()) == a.isdisjoint(w), 'isdisjoint', tr)
    odd = [0, 0.0, False, '', None, (), 1, 1.0, True, -1, -2, 'a', b'a', (1,), frozenset(), pset(), pset([1]), pmap(), 2 ** 61 - 1, float('inf')]
    for k in range(2):
        for a, b in product(odd, odd):
            ctx.step(4)
            ref = {a, b}
            y = pset([a, b]) if k else pset().add(a).add(b)
            light(y, ref, ('odd', a, b))
            ctx.check(all((z in y) == (z in ref) for z in odd), 'membership', ('odd', a, b))
            light(y.discard(a), ref - {a}, ('odd', a, b))
            light(y & {b}, {b}, ('odd', a, b))
            ctx.check(hash(y) == hash(frozenset(ref)), 'hash', ('odd', a, b))
    ctx.check(eval(repr(x), {'pset': pset}) == x and str(x) == repr(x), 'repr')
    ctx.check(x.copy() == x, 'copy')
    ctx.check(pset(pmap(a=1, b=2) if False else pmap({'a': 1, 'b': 2})) == {'a', 'b'}, 'pset of a map')
    d = {x: 1}
    ctx.check(d[pset([3, 2, 1])] == 1 and d[frozenset([1, 2, 3])] == 1 and {frozenset([1, 2, 3]): 2}[x] == 2, 'as dict key')
    for pre in range(0, 20):
        for n in range(0, 30):
            ctx.step()
            light(pset(range(n), pre_size=pre), set(range(n)), ('pre_size', pre, n))
            light(pset(range(n), pre).add(-1), set(range(n)) | {-1}, ('pre_size', pre, n))


def run_keyset(ctx, depth):
    """The key set of any map is a set like any other, and updating it does not touch the map."""
    from pyrsistent import CheckedPMap, PRecord, PSet, field, m, pmap

    class R(PRecord):
        a = field(type=int, mandatory=True)
        b = field(type=str, invariant=lambda x: (x != 'q', 'q'))
        c = field()

    class M(CheckedPMap):
        __key_type__ = str
        __value_type__ = (int, str)
        __invariant__ = lambda k, v: (v is not True, 'no True')

    sources = [m(a=1, b='x'), pmap({'a': None}), R(a=1), R(a=1, b='x', c=3), M({'a': 1, 'b': 'z'}), M(), pmap()]
    ops = [('add', 'a'), ('add', 'b'), ('add', 'q'), ('add', 7), ('remove', 'a'), ('remove', 'b'), ('discard', 'a'), ('update', ('c', 'a')), ('evolver', 'a', 'b'), ('|', ('z', 'a'))]
    for si, src in enumerate(sources):
        items = dict(src)
        trace = [src]

        def rec(s, ref, d):
            if d == depth:
                ctx.trace(lambda: list(trace))
                return
            for op in ops:
                trace.append(op)
                ctx.step()
                n = op[0]
                if n in ('remove', 'discard') and op[1] not in ref:
                    r = call(getattr(s, n), op[1])
                    if n == 'remove' and outcome_class(r) != 'KeyError' or n == 'discard' and r != ('ok', s):
                        bad('%s of a missing element gives %s' % (n, short(r)), trace)
                else:
                    if n == 'evolver':
                        e = s.evolver()
                        w = set(ref)
                        if op[1] in w:
                            e.remove(op[1])
                            w.remove(op[1])
                        e.add(op[2])
                        w.add(op[2])
                        if len(e) != len(w):
                            bad('length of an evolver', trace)
                        x = e.persistent()
                    elif n == '|':
                        x, w = s | set(op[1]), ref | set(op[1])
                    else:
                        x = getattr(s, n)(op[1])
                        w = ref | {op[1]} if n == 'add' else ref - {op[1]} if n in ('remove', 'discard') else ref | set(op[1])
                    if not isinstance(x, PSet):
                        bad('result is a %s' % type(x).__name__, trace)
                    if ctx.state((si, d, tuple(sorted(map(str, w))))):
                        full(x, w, ['a', 'b', 'c', 'q', 7, 'z'], trace)
                    else:
                        light(x, w, trace)
                    rec(x, w, d + 1)
                trace.pop()
            light(s, ref, trace)

        ks = src.keys()
        full(ks, set(items), ['a', 'b', 'c', 'q', 7], trace)
        rec(ks, set(items), 0)
        ctx.check(dict(src) == items and len(src) == len(items), 'the map changed', trace)
