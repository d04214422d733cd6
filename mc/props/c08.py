"""C08: bags behave like multisets."""
from collections import Counter
from collections.abc import Container, Hashable, Iterable, Sized
from itertools import product

from core import call, outcome_class, short
from maps import Key, bad, hash_patterns
from seqs import iterables

BOUNDS = {
    'quick': 'all pairs of bags over 3 elements with counts 0..3 for 6 collision patterns x 3 construction routes, all operators; all sequences of 4 of '
             '14 update operations for all hash patterns of 3 elements; counts up to 200 and up to 120 distinct elements',
    'thorough': 'as quick with counts 0..4, sequences of 6',
}
ASSUMPTIONS = ['elements satisfy the hash contract and equal themselves']

PATTERNS = [lambda i: 0, lambda i: i, lambda i: 8 * i, lambda i: i % 2, lambda i: -i - 2, lambda i: 2 ** 60 - 8 * i]


def shards(tier):
    q = tier == 'quick'
    out = []
    for config in ('c', 'py'):
        for p in range(len(PATTERNS)):
            out.append((config, ['pairs', p, 4 if q else 5]))
        for r in range(4):
            out.append((config, ['seq', r, 4, 4 if q else 6]))
        out.append((config, ['api']))
        out.append((config, ['sources']))
    return out


def weight(config, spec):
    return {'pairs': 5, 'seq': 10, 'api': 1}.get(spec[0], 1)


def run_shard(ctx, spec):
    globals()['run_' + spec[0]](ctx, *spec[1:])


def light(b, ref, tr):
    n = sum(ref.values())
    if len(b) != n:
        bad('len() is %d, expected %d: %s' % (len(b), n, short(b)), tr)
    got = Counter(b)
    if got != ref:
        bad('contains %s, expected %s' % (short(got), short(ref)), tr)


def full(b, ref, universe, tr):
    light(b, ref, tr)
    for u in universe:
        c = b.count(u)
        if c != ref[u] or type(c) is not int:
            bad('count(%r) is %r, expected %d' % (u, c, ref[u]), tr)
        if (u in b) != (ref[u] > 0):
            bad('%r in bag is %s' % (u, u in b), tr)
    if bool(b) != bool(+ref):
        bad('truth value', tr)
    if list(b) != list(b):
        bad('two iterations differ', tr)


def routes(keys, counts):
    from pyrsistent import b as mk, pbag
    flat = [k for k, c in zip(keys, counts) for _ in range(c)]
    yield pbag(flat)
    x = mk()
    for i in range(max(counts) if counts else 0):
        for k, c in reversed(list(zip(keys, counts))):
            if i < c:
                x = x.add(k)
    yield x
    x = pbag(flat + list(keys) * 2)
    for k in keys:
        x = x.remove(k)
    for k in reversed(keys):
        x = x.remove(k)
    yield x


OPS = [('+', lambda a, b: a + b), ('-', lambda a, b: a - b), ('|', lambda a, b: a | b), ('&', lambda a, b: a & b)]


def run_pairs(ctx, pattern, m):
    from pyrsistent import PBag
    f = PATTERNS[pattern]
    keys = [Key(n, f(i)) for i, n in enumerate('abc')]
    uni = keys + [Key('z', f(0))]
    bags = []
    for counts in product(range(m), repeat=3):
        ref = Counter({k: c for k, c in zip(keys, counts) if c})
        rs = list(routes(keys, counts))
        for r, x in enumerate(rs):
            full(x, ref, uni, ('bag', pattern, counts, r))
        for x in rs:
            for y in rs:
                ctx.check(x == y and not (x != y) and hash(x) == hash(y), 'equal bags', ('bag', pattern, counts))
        bags.append((counts, ref, rs))
    for ca, a, ra in bags:
        for cb, b, rb in bags:
            ctx.state((pattern, ca, cb))
            for r in range(3):
                x, y = ra[r], rb[(r + sum(ca)) % 3]
                tr = ('pairs', pattern, ca, cb, r)
                ctx.trace(tr)
                ctx.step(6)
                for name, fn in OPS:
                    z = fn(x, y)
                    if type(z) is not PBag:
                        bad('%s gives a %s' % (name, type(z).__name__), tr)
                    full(z, fn(a, b), uni, (name,) + tr)
                if (x == y) is not (a == b) or (x != y) is not (a != b):
                    bad('equality', tr)
                if a == b and hash(x) != hash(y):
                    bad('hash', tr)
                light(y, b, ('operand changed',) + tr)
                light(x.update(y), a + b, ('update',) + tr)
        for x in ra:
            light(x, a, ('operand changed', ca))


def run_seq(ctx, rem, mod, depth):
    from pyrsistent import pbag
    for i, hs in enumerate(hash_patterns(3)):
        if i % mod != rem:
            continue
        keys = [Key(n, h) for n, h in zip('abc', hs)]
        a, b, c = keys
        ops = [('add', a), ('add', b), ('add', c), ('remove', a), ('remove', b), ('remove', c), ('update', (a, b, a)), ('update', ()), ('updateit', (c, c)), ('+', (a, c)), ('-', (a, b)),
               ('|', (b, b)), ('&', (a, b, b)), ('same+',)]
        trace = [keys]

        def apply(x, ref, op):
            n = op[0]
            if n == 'add':
                return x.add(op[1]), ref + Counter([op[1]])
            if n == 'remove':
                r = call(x.remove, op[1])
                if not ref[op[1]]:
                    if outcome_class(r) != 'KeyError':
                        bad('remove of a missing element gives %s' % short(r), trace)
                    return None
                if r[0] != 'ok':
                    bad('remove raised %r' % (r[1],), trace)
                return r[1], ref - Counter([op[1]])
            if n == 'update':
                return x.update(op[1]), ref + Counter(op[1])
            if n == 'updateit':
                return x.update(iter(op[1])), ref + Counter(op[1])
            if n == 'same+':
                return x + x, ref + ref
            fn = dict(OPS)[n]
            return fn(x, pbag(op[1])), fn(ref, Counter(op[1]))

        def rec(x, ref, d):
            if d == depth:
                ctx.trace(lambda: list(trace))
                return
            for op in ops:
                trace.append(op)
                ctx.step()
                r = apply(x, ref, op)
                if r is not None:
                    if ctx.state((hs, tuple(sorted((k.name, n) for k, n in r[1].items())))):
                        full(r[0], r[1], keys + [Key('z', hs[0])], trace)
                    else:
                        light(r[0], r[1], trace)
                    rec(r[0], r[1], d + 1)
                trace.pop()
            light(x, ref, trace)

        rec(pbag([]), Counter(), 0)
        ctx.check(len(pbag([])) == 0, 'the empty bag changed', trace)


def run_sources(ctx):
    from pyrsistent import PBag, pbag
    import sources
    pre = ['p', 1, 1]
    grow = lambda x, y: x.add(y)
    ops = [('pbag', [], pbag, grow), ('update of empty', [], lambda s: pbag([]).update(s), grow), ('update', pre, lambda s: pbag(pre).update(s), grow), ('+', pre, lambda s: pbag(pre) + pbag(s), lambda x, y: x.update([y]))]
    sources.run_iterables(ctx, ops, False, PBag, lambda p, xs: p + xs)


def run_api(ctx):
    from pyrsistent import PBag, b, pbag
    ctx.trace('api')
    ctx.state('api')
    x = b(1, 2, 2)
    ctx.check(isinstance(x, (Container,)) and isinstance(x, Iterable) and isinstance(x, Sized) and isinstance(x, Hashable), 'ABCs')
    for f in (lambda: x < x, lambda: x <= x, lambda: x > x, lambda: x >= x, lambda: x + [1], lambda: x - {1}, lambda: x | 3, lambda: x & [1], lambda: x.add([]), lambda: pbag([[]]),
              lambda: pbag(5), lambda: x.remove([]), lambda: [] in x, lambda: x.update(5), lambda: x.count([])):
        ctx.step()
        ctx.check(outcome_class(call(f)) == 'TypeError', 'no TypeError')
    ctx.check(eval(repr(x), {'pbag': pbag}) == x, 'repr')
    for name, u in iterables():
        for start in ('', 'p', 'ppq', 'xyz'):
            ctx.step(3)
            w = list(u())
            tr = ('iterable', name, start)
            ctx.trace(tr)
            full(pbag(u()), Counter(w), w + ['p'], tr)
            full(pbag(start).update(u()), Counter(start) + Counter(w), w + list('pqx'), tr)
            full(b(*u()), Counter(w), w, tr)
    odd = [0, 0.0, False, '', None, (), 1, 1.0, True, -1, -2, 'a', (1,), frozenset()]
    for p, q in product(odd, odd):
        ctx.step(3)
        ref = Counter([p, q, p])
        y = pbag([p, q, p])
        full(y, ref, odd, ('odd', p, q))
        full(b(p, q).add(p), ref, odd, ('odd', p, q))
        full(y.remove(p), ref - Counter([p]), odd, ('odd', p, q))
        full(y - b(q), ref - Counter([q]), odd, ('odd', p, q))
    for f in PATTERNS:
        x, ref = pbag([]), Counter()
        keys = [Key(i, f(i)) for i in range(120)]
        for i, k in enumerate(keys):
            x = x.add(k).add(k) if i % 3 else x.add(k)
            ref[k] += 2 if i % 3 else 1
            ctx.step()
            if i % 10 == 0:
                full(x, ref, (keys[0], k, keys[-1]), ('grow', i))
        light(pbag(list(ref.elements())), ref, 'grow')
        for i, k in enumerate(keys):
            x = x.remove(k)
            ref -= Counter([k])
            if i % 10 == 0:
                light(x, ref, ('shrink', i))
    x = pbag([])
    for n in range(1, 201):
        x = x.add('a')
        ctx.step()
        ctx.check(x.count('a') == n and len(x) == n and x == pbag(['a'] * n), 'counting', n)
    for n in range(199, -1, -1):
        x = x.remove('a')
        ctx.step()
        ctx.check(x.count('a') == n and len(x) == n and ('a' in x) == (n > 0), 'counting down', n)
    ctx.check(x == pbag([]) and hash(x) == hash(pbag([])), 'emptied bag')
