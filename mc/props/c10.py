"""C10: deques behave like bounded double-ended queues."""
from collections import deque
from itertools import product

from core import call, outcome_class, short
from maps import bad
from seqs import full_seq, iterables, light_seq

BOUNDS = {
    'quick': 'positions far beyond the ends (up to 10**30); contents: distinct elements up to length 6 and all words over 2 elements up to length 4; every division between the two ends; maximum length None and every value from '
             'the length (0 included) to length + 2; every operation with every argument in and around range followed by every read, and all pairs of operations; all sequences of 4 of 22 operations from the '
             'empty deque for maximum length None, 0, 1, 2, 3; lengths up to 300',
    'thorough': 'as quick with length 8 / 5, sequences of 5',
}
ASSUMPTIONS = ['elements equal themselves', 'only < and > are defined for ordering', 'equality ignores the maximum length, as for collections.deque']


def shards(tier):
    q = tier == 'quick'
    out = []
    for n in range(0, 7 if q else 9):
        for ml in [None] + list(range(n, n + 3)):
            out.append(('c', ['one', 'distinct', n, ml, 1 if n > 4 and q else 2]))
    for n in range(2, 5 if q else 6):
        for ml in (None, n, n + 1):
            out.append(('c', ['one', 'words', n, ml, 2 if n <= 2 or not q else 1]))
    for ml in (None, 0, 1, 2, 3):
        for a in range(0, NSEQ, 2):
            out.append(('c', ['seq', ml, a, 4 if q else 5]))
    out.append(('c', ['build']))
    out.append(('c', ['far']))
    out.append(('c', ['sources']))
    out.append(('c', ['long']))
    out.append(('c', ['cmp']))
    return out


NSEQ = 22


def weight(config, spec):
    if spec[0] == 'one':
        return 5 + spec[2] + 10 * (spec[1] == 'words')
    return {'seq': 3, 'build': 5, 'long': 4, 'cmp': 4}.get(spec[0], 1)


def run_shard(ctx, spec):
    globals()['run_' + spec[0]](ctx, *spec[1:])


def make(left, right, maxlen):
    """A deque with the given division between the ends (as far as the public API allows)."""
    from pyrsistent import pdeque
    return pdeque((), maxlen).extendleft(left[::-1]).extend(right)


def light(x, d, tr):
    if x.maxlen != d.maxlen:
        bad('maxlen is %r, expected %r' % (x.maxlen, d.maxlen), tr)
    light_seq(x, tuple(d), tr)
    for name, i in (('left', 0), ('right', -1)):
        r = call(getattr, x, name)
        if d:
            if r[0] != 'ok' or r[1] is not d[i]:
                bad('%s is %s, expected %s' % (name, short(r[1]), short(d[i])), tr)
        elif outcome_class(r) != 'IndexError':
            bad('%s of an empty deque gives %s' % (name, short(r)), tr)


def full(x, d, tr, steps=(None, 1, -1, 2)):
    from pyrsistent import pdeque
    light(x, d, tr)
    full_seq(x, tuple(d), lambda t: pdeque(t, d.maxlen), 'abz', tr, steps)


def ref_ops(n):
    """Every operation with every argument in and around range."""
    ops = [('append', 'a'), ('append', 'n'), ('appendleft', 'a'), ('appendleft', 'n')]
    for k in range(-n - 2, n + 3):
        ops += [('pop', k), ('popleft', k)]
    for k in range(-2 * n - 2, 2 * n + 3):
        ops.append(('rotate', k))
    for xs in ((), ('p',), ('p', 'q'), ('p', 'q', 'r', 's'), tuple('pqrstuvw')):
        ops += [('extend', xs), ('extendleft', xs), ('extendit', xs)]
    ops += [('remove', 'a'), ('remove', 'b'), ('remove', 'e'), ('remove', 'z'), ('reverse',), ('extendself',), ('extendleftself',)]
    ops += [('slice', a, b, c) for a in (None, 0, 1, -1, n, -n) for b in (None, 0, 1, -1, n + 1) for c in (None, -1)]
    return ops


def model(d, op):
    d = deque(d, d.maxlen)
    n = op[0]
    if n == 'append':
        d.append(op[1])
    elif n == 'appendleft':
        d.appendleft(op[1])
    elif n in ('pop', 'popleft'):
        k = op[1]
        left = (n == 'popleft') != (k < 0)
        for _ in range(abs(k)):
            if d:
                d.popleft() if left else d.pop()
    elif n == 'rotate':
        d.rotate(op[1])
    elif n in ('extend', 'extendit'):
        d.extend(op[1])
    elif n == 'extendleft':
        d.extendleft(op[1])
    elif n == 'extendself':
        d.extend(tuple(d))
    elif n == 'extendleftself':
        d.extendleft(tuple(d))
    elif n == 'remove':
        d.remove(op[1])
    elif n == 'reverse':
        d.reverse()
    elif n == 'slice':
        d = deque(tuple(d)[op[1]:op[2]:op[3]], d.maxlen)
    return d


def impl(x, op):
    n = op[0]
    if n == 'extendit':
        return x.extend(iter(op[1]))
    if n == 'extendself':
        return x.extend(x)
    if n == 'extendleftself':
        return x.extendleft(x)
    if n == 'slice':
        return x[op[1]:op[2]:op[3]] if op[3] else x[op[1]:op[2]]
    if n in ('pop', 'popleft') and op[1] == 1:
        return getattr(x, n)()
    return getattr(x, n)(*op[1:])


def step(ctx, x, d, op, tr):
    ctx.step()
    r = call(impl, x, op)
    w = call(model, d, op)
    if w[0] == 'exc':
        if outcome_class(r) != outcome_class(w):
            bad('%s gives %s, expected %s' % (op, short(r[1]), outcome_class(w)), tr)
        return None
    if r[0] == 'exc':
        bad('%s raised %r' % (op, r[1]), tr)
    light(r[1], w[1], tr)
    return r[1], w[1]


def run_one(ctx, kind, n, maxlen, depth):
    words = [tuple('abcdefgh'[:n])] if kind == 'distinct' else list(product('ab', repeat=n))
    for t in words:
        for cut in range(n + 1):
            d = deque(t, maxlen)
            x = make(t[:cut], t[cut:], maxlen)
            tr = ['deque', t[:cut], t[cut:], maxlen]
            ctx.trace(lambda: list(tr))
            full(x, d, tr, (None, 1, -1, 2, -2, 3))
            for op in ref_ops(n):
                tr.append(op)
                r = step(ctx, x, d, op, tr)
                if r is not None:
                    y, e = r
                    if ctx.state((t, cut, maxlen, op)) and (n <= 3 or op[0] != 'slice'):
                        full(y, e, tr, (None,) if n > 2 else (None, 2))
                    if depth > 1:
                        ops2 = ref_ops(len(e))
                        if kind == 'words' or op[0] == 'slice':
                            ops2 = [o for o in ops2 if o[0] != 'slice']
                        for op2 in ops2:
                            tr.append(op2)
                            ctx.trace(lambda: list(tr))
                            step(ctx, y, e, op2, tr)
                            tr.pop()
                        light(y, e, tr)
                tr.pop()
                light(x, d, tr)


def seq_ops(k):
    n = 'n%d' % k
    ops = [('append', n), ('appendleft', n), ('pop', 1), ('popleft', 1), ('pop', 2), ('popleft', 2), ('pop', -1), ('rotate', 1), ('rotate', -1), ('rotate', 2), ('rotate', -3), ('reverse',),
           ('extend', (n, 'b', 'a')), ('extendleft', (n, 'b', 'a')), ('remove', 'a'), ('remove', 'b'), ('slice', 1, None, None), ('slice', None, -1, None), ('slice', 1, 3, None), ('extendself',),
           ('slice', None, None, 2), ('extendit', (n,))]
    assert len(ops) == NSEQ
    return ops


def run_seq(ctx, maxlen, first, depth):
    from pyrsistent import pdeque
    for start in ((), ('a', 'b')):
        trace = [('start', start, maxlen)]

        def rec(x, d, k):
            if k == depth:
                ctx.trace(lambda: list(trace))
                return
            for i, op in enumerate(seq_ops(k)):
                if k == 0 and i not in (first, first + 1):
                    continue
                trace.append(op)
                r = step(ctx, x, d, op, trace)
                if r is not None:
                    if ctx.state((k, tuple(r[1]), maxlen)) and len(r[1]) <= 4:
                        full(r[0], r[1], trace, (None,))
                    rec(r[0], r[1], k + 1)
                trace.pop()
            light(x, d, trace)

        rec(pdeque(start, maxlen), deque(start, maxlen), 0)


def run_sources(ctx):
    from pyrsistent import PDeque, dq, pdeque
    import sources
    pre = ['p', 1]
    ops = [('pdeque', [], pdeque, lambda x, y: x.append(y)), ('extend of empty', [], lambda s: dq().extend(s), lambda x, y: x.appendleft(y)), ('extend', pre, lambda s: pdeque(pre).extend(s), lambda x, y: x.append(y)),
           ('extend of bounded', pre, lambda s: pdeque(pre, maxlen=50).extend(s), lambda x, y: x.append(y))]
    sources.run_iterables(ctx, ops, True, PDeque, lambda p, xs: p + xs)
    ops = [('extendleft', pre, lambda s: pdeque(pre).extendleft(s), lambda x, y: x.append(y))]
    sources.run_iterables(ctx, ops, True, PDeque, lambda p, xs: xs[::-1] + p)


def run_build(ctx):
    from pyrsistent import dq, pdeque
    for n in range(0, 20):
        t = tuple('abcdefghijklmnopqrst'[:n])
        for ml in [None] + list(range(0, 23)):
            tr = ('pdeque', n, ml)
            ctx.trace(tr)
            ctx.step(4)
            ctx.state(tr)
            d = deque(t, ml)
            for x in (pdeque(t, ml), pdeque(iter(t), maxlen=ml), pdeque(pdeque(t), ml)):
                light(x, d, tr)
            if n < 7 and (ml is None or ml < 9):
                full(pdeque(t, ml), d, tr)
            x, e = pdeque(t, ml), d
            for k in range(4):
                x = x.append(k)
                e.append(k)
                light(x, e, tr)
            for k in range(4):
                x = x.appendleft(k)
                e.appendleft(k)
                light(x, e, tr)
            ctx.check(eval(repr(x), {'pdeque': pdeque}) == x and eval(repr(x), {'pdeque': pdeque}).maxlen == x.maxlen, 'repr', tr)
        light(dq(*t), deque(t), n)
    for name, u in iterables():
        for t in ((), ('a',), ('a', 'b', 'c')):
            for ml in (None, 0, 1, 2, 3, 4, 7):
                for cut in range(len(t) + 1):
                    tr = ('iterable', name, t, ml, cut)
                    ctx.trace(tr)
                    ctx.step(3)
                    w = tuple(u())
                    x = make(t[:cut], t[cut:], ml) if ml is None or ml >= len(t) else pdeque(t, ml)
                    light(pdeque(u(), ml), deque(w, ml), tr)
                    d = deque(t, ml)
                    d.extend(w)
                    light(x.extend(u()), d, tr)
                    d = deque(t, ml)
                    d.extendleft(w)
                    light(x.extendleft(u()), d, tr)
    for f, cls in ((lambda: pdeque([1], -1), 'ValueError'), (lambda: pdeque([1], 'a'), 'TypeError'), (lambda: pdeque([], 1.5), 'TypeError'), (lambda: pdeque(5), 'TypeError')):
        ctx.check(outcome_class(call(f)) == cls, 'bad argument')


def run_long(ctx):
    from pyrsistent import pdeque
    for ml in (None, 50, 1):
        x, d = pdeque((), ml), deque((), ml)
        for i in range(300):
            op = [('append', i), ('appendleft', -i), ('append', i), ('rotate', i), ('extend', (i, 'x')), ('popleft', i % 3), ('reverse',)][i % 7]
            r = step(ctx, x, d, op, ('long', ml, i, op))
            ctx.trace(('long', ml, i))
            ctx.state((ml, i))
            x, d = r
            t = tuple(d)
            n = len(t)
            for j in sorted({0, 1, n // 2, n - 1} & set(range(n))):
                ctx.check(x[j] == t[j] and x[j - n] == t[j - n], 'index', ('long', ml, i, j))
                light(x[j:], deque(t[j:], ml), ('long', ml, i, j))
                light(x[:j], deque(t[:j], ml), ('long', ml, i, j))
                light(x.rotate(j), model(d, ('rotate', j)), ('long', ml, i, j))
        while len(d):
            d = model(d, ('pop', 3))
            x = x.pop(3)
            light(x, d, ('drain', ml, len(d)))


def run_cmp(ctx):
    from pyrsistent import pdeque
    vals = [t for k in range(5) for t in product((0, 1), repeat=k)]
    ds = [(t, [make(t[:c], t[c:], ml) for c in range(len(t) + 1) for ml in (None, 4)]) for t in vals]
    for t, xs in ds:
        for u, ys in ds:
            ctx.state((t, u))
            for i, x in enumerate(xs):
                for y in ys:
                    ctx.step(4)
                    tr = ('compare', t, u, i)
                    ctx.trace(tr)
                    if (x == y) is not (t == u) or (x != y) is not (t != u):
                        bad('equality of %r and %r' % (x, y), tr)
                    if (x < y) is not (t < u) or (x > y) is not (t > u):
                        bad('ordering of %r and %r' % (x, y), tr)
                    if t == u and hash(x) != hash(y):
                        bad('hash', tr)


def run_far(ctx):
    """Positions and counts far beyond the end are answered like near ones."""
    from collections import deque
    from core import limited, outcome_class
    from pyrsistent import pdeque
    from props.c09 import FAR
    for n in range(5):
        for maxlen in (None, n, n + 1, 10 ** 30):
            for left in range(n + 1):
                t = tuple(range(n))
                x = pdeque([], maxlen).extendleft(reversed(t[:left])).extend(t[left:])
                for far in FAR:
                    for i in (far, -far):
                        for name, f, g in [('item', lambda: x[i], lambda: t[i]), ('from', lambda: x[i:], lambda: t[i:]), ('to', lambda: x[:i], lambda: t[:i]), ('step', lambda: x[i::2], lambda: t[i::2]), ('big step', lambda: x[::i], lambda: t[::i]),
                                           ('pop', lambda: x.pop(i), lambda: ()), ('popleft', lambda: x.popleft(i), lambda: ()), ('rotate', lambda: x.rotate(i), lambda: t[-(i % n):] + t[:-(i % n)] if n and i % n else t),
                                           ('index', lambda: x.index(1, i), lambda: t.index(1, i)), ('index to', lambda: x.index(1, 0, i), lambda: t.index(1, 0, i))]:
                            tr = ('far', n, maxlen, left, name, i)
                            ctx.trace(tr)
                            ctx.step()
                            ctx.state((n, maxlen, left, name, i > 0))
                            want = call(g)
                            got = limited(20, f)
                            if outcome_class(got) == outcome_class(want) == 'ok' and isinstance(want[1], tuple):
                                if tuple(got[1]) != want[1] or got[1].maxlen != maxlen or len(got[1]) != len(want[1]):
                                    bad('gives %s, expected %s' % (short(got), short(want)), tr)
                            elif outcome_class(got) != outcome_class(want) or (want[0] == 'ok' and got[1] != want[1]):
                                bad('gives %s, expected %s' % (short(got), short(want)), tr)
