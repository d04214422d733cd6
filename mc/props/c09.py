"""C09: linked lists behave like immutable sequences."""
from itertools import product

from core import call, outcome_class, short
from maps import bad
from seqs import bounds, full_seq, iterables, light_seq

BOUNDS = {
    'quick': 'positions far beyond the ends (up to 10**30); all lists over 3 elements up to length 4 and over 2 up to length 6, through 6 construction routes: every read with every index, slice (bounds within 2 of the ends, steps '
             'None,1,-1,2,-2,3) and search range, all comparisons of all pairs up to length 3; all sequences of 5 of 16 operations from all lists up to length 2 and of 4 from length 3, all '
             'versions re-checked; lengths up to 1500',
    'thorough': 'as quick with length 5 / 8 and sequences of 6',
}
ASSUMPTIONS = ['elements equal themselves', 'split() with a negative position is unspecified and not checked', 'only < and > are defined for ordering']


def shards(tier):
    q = tier == 'quick'
    out = [('c', ['reads', 3, 4 if q else 5]), ('c', ['reads', 2, 6 if q else 8]), ('c', ['cmp', 3]), ('c', ['long']), ('c', ['elems']), ('c', ['sources']), ('c', ['far'])]
    for a in range(OPN):
        out.append(('c', ['seq', 2, 5 if q else 6, a]))
        out.append(('c', ['seq', 3, 4 if q else 5, a]))
    return out


OPN = 16


def weight(config, spec):
    if spec[0] == 'seq':
        return 20 if spec[3] < 4 else 8
    return {'reads': 12, 'cmp': 3, 'long': 3, 'elems': 1}.get(spec[0], 1)


def run_shard(ctx, spec):
    globals()['run_' + spec[0]](ctx, *spec[1:])


def routes(t):
    from pyrsistent import l, plist
    yield 'plist', plist(t)
    yield 'l', l(*t)
    yield 'reverse=True', plist(iter(t[::-1]), reverse=True)
    x = plist()
    for e in reversed(t):
        x = x.cons(e)
    yield 'cons', x
    yield 'mcons+reverse', plist().mcons(t).reverse()
    yield 'remove', plist(t + ('x',)).remove('x') if len(t) % 2 else plist(('x', 'y') + t).rest.remove('y')
    yield 'split', plist(t + t).split(len(t))[0] if len(t) % 2 else plist(t + t).split(len(t))[1]


def run_reads(ctx, k, top):
    from pyrsistent import plist
    ab = 'abc'[:k]
    for n in range(top + 1):
        for t in product(ab, repeat=n):
            ctx.state(t)
            built = list(routes(t))
            for name, x in built:
                tr = (name, t)
                ctx.trace(tr)
                ctx.step()
                light_seq(x, t, tr)
                if name in ('plist', 'remove') or n <= 3:
                    full_seq(x, t, plist, ab + 'z', tr)
                for name2, y in built:
                    if not (x == y) or x != y or hash(x) != hash(y) or x < y or x > y:
                        bad('equal lists built by %s and %s' % (name, name2), tr)
            x = built[0][1]
            tr = t
            ctx.step(2 * n + 8)
            light_seq(x.reverse(), t[::-1], ('reverse', tr))
            for i in range(0, n + 3):
                r = x.split(i)
                ctx.check(type(r) is tuple and len(r) == 2, 'split result', tr)
                light_seq(r[0], t[:i], ('split left', i, tr))
                light_seq(r[1], t[i:], ('split right', i, tr))
            for e in ab + 'z':
                light_seq(x.cons(e), (e,) + t, ('cons', e, tr))
                r = call(x.remove, e)
                if e in t:
                    w = list(t)
                    w.remove(e)
                    ctx.check(r[0] == 'ok', 'remove raised', tr)
                    light_seq(r[1], tuple(w), ('remove', e, tr))
                else:
                    ctx.check(outcome_class(r) == 'ValueError', 'remove of an absent element gives %s' % short(r), tr)
            if t:
                ctx.check(x.first is t[0], 'first', tr)
            else:
                ctx.check(outcome_class(call(lambda: x.first)) == 'AttributeError', 'first of the empty list', tr)
            light_seq(x.rest, t[1:], ('rest', tr))
            for u in ((), ('p',), ('p', 'q'), ('p', 'q', 'p')):
                light_seq(x.mcons(u), u[::-1] + t, ('mcons', u, tr))
                light_seq(x.mcons(iter(u)), u[::-1] + t, ('mcons', u, tr))
            light_seq(x.mcons(x), t[::-1] + t, ('mcons itself', tr))
            for name, u in iterables():
                w = tuple(u())
                light_seq(x.mcons(u()), w[::-1] + t, ('mcons', name, tr))
                light_seq(plist(u()), w, ('plist', name))
                light_seq(plist(u(), reverse=True), w[::-1], ('plist reverse', name))
            ctx.check(eval(repr(x), {'plist': plist}) == x and str(x) == repr(x), 'repr', tr)
            for name, y in built:
                light_seq(y, t, ('changed by a later operation', name, t))
    ctx.check(len(plist()) == 0, 'the empty list changed')


def run_cmp(ctx, n):
    from pyrsistent import plist
    vals = [t for k in range(n + 1) for t in product((0, 1, 2), repeat=k)]
    lists = [(t, [x for _, x in routes(t)]) for t in vals]
    for t, xs in lists:
        for u, ys in lists:
            ctx.state((t, u))
            for i, x in enumerate(xs):
                y = ys[(i + len(t)) % len(ys)]
                ctx.step(4)
                tr = ('compare', t, u, i)
                ctx.trace(tr)
                if (x == y) is not (t == u) or (x != y) is not (t != u):
                    bad('equality', tr)
                if (x < y) is not (t < u) or (x > y) is not (t > u):
                    bad('ordering', tr)
                if t == u and hash(x) != hash(y):
                    bad('hash', tr)
    # a common tail
    for t in vals:
        tail = plist(t)
        for a in vals[:13]:
            for b in vals[:13]:
                x, y = tail.mcons(a), tail.mcons(b)
                ctx.step()
                ctx.check((x == y) == (a == b or a[::-1] + t == b[::-1] + t) and (x < y) == (a[::-1] + t < b[::-1] + t), 'comparison with a shared tail', (t, a, b))


def run_seq(ctx, start_len, depth, first):
    from pyrsistent import plist
    ops = [('cons', 'a'), ('cons', 'n'), ('mcons', ('p', 'q')), ('mcons', ()), ('reverse',), ('remove', 'a'), ('remove', 'b'), ('remove', 'p'), ('split', 1, 0), ('split', 1, 1), ('split', 2, 0),
           ('rest',), ('slice', 1, None, None), ('slice', None, -1, None), ('slice', -2, None, None), ('slice', None, None, 2)]
    assert len(ops) == OPN
    trace = []

    def apply(x, t, op):
        n = op[0]
        if n == 'cons':
            return call(x.cons, op[1]), (op[1],) + t
        if n == 'mcons':
            return call(x.mcons, op[1]), op[1][::-1] + t
        if n == 'reverse':
            return call(x.reverse), t[::-1]
        if n == 'remove':
            w = list(t)
            if op[1] not in w:
                r = call(x.remove, op[1])
                if outcome_class(r) != 'ValueError':
                    bad('remove of an absent element gives %s' % short(r), trace)
                return None
            w.remove(op[1])
            return call(x.remove, op[1]), tuple(w)
        if n == 'split':
            r = call(x.split, op[1])
            return ('ok', r[1][op[2]]) if r[0] == 'ok' else r, (t[:op[1]], t[op[1]:])[op[2]]
        if n == 'rest':
            return call(lambda: x.rest), t[1:]
        return call(lambda: x[op[1]:op[2]:op[3]]), t[op[1]:op[2]:op[3]]

    def rec(x, t, d):
        if d == depth:
            ctx.trace(lambda: list(trace))
            return
        for i, op in enumerate(ops):
            if d == 0 and i != first:
                continue
            trace.append(op)
            ctx.step()
            r = apply(x, t, op)
            if r is not None:
                if r[0][0] != 'ok':
                    bad('raised %r' % (r[0][1],), trace)
                if ctx.state((d, r[1])) and len(r[1]) <= 5:
                    full_seq(r[0][1], r[1], plist, 'abz', trace, steps=(None, -1, 2))
                light_seq(r[0][1], r[1], trace)
                rec(r[0][1], r[1], d + 1)
            trace.pop()
        light_seq(x, t, trace)

    starts = [t for k in range(start_len + 1) for t in product('ab', repeat=k)] if start_len < 3 else list(product('ab', repeat=3))
    for t in starts:
        trace[:] = [t]
        x = plist(t)
        rec(x, t, 0)
    ctx.check(len(plist()) == 0 and list(plist()) == [], 'the empty list changed', trace)


def run_long(ctx):
    from pyrsistent import plist
    for n in list(range(0, 70)) + [100, 500, 1500]:
        t = tuple(range(n))
        x = plist(t)
        ctx.trace(('long', n))
        ctx.state(n)
        ctx.step(10)
        light_seq(x, t, n)
        light_seq(x.reverse(), t[::-1], n)
        for i in sorted({0, 1, n // 2, n - 1, n, n + 5} & set(range(n + 6))):
            light_seq(x[i:], t[i:], (n, i))
            light_seq(x[:i], t[:i], (n, i))
            light_seq(x[-i:], t[-i:], (n, -i))
            light_seq(x.split(i)[0], t[:i], (n, i))
            light_seq(x.split(i)[1], t[i:], (n, i))
            if i < n:
                ctx.check(x[i] == i and x[i - n] == i and x.index(i) == i, 'reads', (n, i))
                light_seq(x.remove(i), t[:i] + t[i + 1:], (n, i))
        ctx.check(x == plist(t) and hash(x) == hash(plist(t)) and not (x == plist(t[:-1] + (-1,))) if n else True, 'equality', n)
        light_seq(x, t, n)


def run_sources(ctx):
    from pyrsistent import plist
    import sources
    pre = ['p', 1]
    grow = lambda x, y: x.cons(y)
    cls = type(plist([1]))
    ops = [('plist', ['r'], lambda s: plist(s).cons('r'), grow), ('plist reversed', ['r'], lambda s: plist(s, reverse=True).reverse().cons('r'), grow)]
    sources.run_iterables(ctx, ops, True, cls, lambda p, xs: p + xs)
    ops = [('mcons of empty', ['m'], lambda s: plist().cons('m').mcons(s), grow), ('mcons', pre, lambda s: plist(pre).mcons(s), grow)]
    sources.run_iterables(ctx, ops, True, cls, lambda p, xs: xs[::-1] + p)


def run_elems(ctx):
    """Elements that are falsy, lists, or equal across types."""
    from pyrsistent import l, plist
    odd = [None, 0, False, 0.0, '', (), [], {}, plist(), plist([1]), l(plist()), float('inf'), 1, True]
    for a in odd:
        for b in odd:
            for c in odd[:6]:
                t = (a, b, c)
                x = plist(t)
                tr = ('elems', t)
                ctx.trace(tr)
                ctx.step(6)
                ctx.state((type(a).__name__, type(b).__name__, type(c).__name__))
                light_seq(x, t, tr)
                light_seq(x.reverse(), t[::-1], tr)
                w = list(t)
                w.remove(b)
                light_seq(x.remove(b), tuple(w), tr)
                light_seq(x.split(2)[0], t[:2], tr)
                light_seq(x[1:], t[1:], tr)
                ctx.check(x.count(c) == t.count(c) and x.index(c) == t.index(c) and c in x, 'search', tr)
                ctx.check(x == l(a, b, c) and (x == l(c, b, a)) == (t == t[::-1]), 'equality', tr)
                light_seq(x.rest.cons(a), t, tr)


FAR = (10 ** 6, 10 ** 10, 2 ** 31, 2 ** 63 - 1, 2 ** 63, 10 ** 30)


def run_far(ctx):
    """Positions far beyond the end are answered like near ones."""
    from core import limited, outcome_class
    from pyrsistent import plist
    for n in range(5):
        x, t = plist(range(n)), tuple(range(n))
        for far in FAR:
            for i in (far, -far):
                for name, f in [('item', lambda s: s[i]), ('from', lambda s: tuple(s[i:])), ('to', lambda s: tuple(s[:i])), ('from 1', lambda s: tuple(s[1:i])), ('step', lambda s: tuple(s[i::2])), ('big step', lambda s: tuple(s[::i])), ('near', lambda s: tuple(s[i:1])),
                                ('index', lambda s: s.index(1, i)), ('index to', lambda s: s.index(1, 0, i))]:
                    tr = ('far', n, name, i)
                    ctx.trace(tr)
                    ctx.step()
                    ctx.state((n, name, i > 0))
                    want = call(f, t)
                    got = limited(20, f, x)
                    if outcome_class(got) != outcome_class(want) or (want[0] == 'ok' and got[1] != want[1]):
                        bad('gives %s, expected %s' % (short(got), short(want)), tr)
            got = limited(20, lambda: tuple(map(tuple, x.split(far))))
            if got != ('ok', (t, ())):
                bad('split gives %s' % short(got), ('far', n, far))
