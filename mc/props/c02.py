"""C02: vectors behave like lists for every size, index and history."""
from itertools import product

from core import call, outcome_class, short
from vecs import Twin, apply, bad, boundary_positions, full, ident, light, medium, tok, toks

BOUNDS = {
    'quick': 'all sizes 0..1120 and 32767..32769, 32799..32802, 32832..32833 (every route, every operation at all trie '
             'boundary positions; all positions for sizes <= 130 and 1020..1092), 1048600..1048612; all operation sequences '
             'of depth 4 from 16 boundary sizes over 9-12 operations; all slices/ranges over boundary indexes for 14 sizes; '
             'all ordered pairs of vectors of length <= 3 over 3 values in 6 comparisons',
    'thorough': 'as quick with sizes 0..2300 (all positions up to 1100), 32736..32895, 1048560..1048680; sequences of '
                'depth 5; slices for 40 sizes; pairs up to length 4',
}
ASSUMPTIONS = ['elements compare reflexively (x == x)', 'vector lengths beyond 1.05 million elements are not explored']

BASES = [0, 1, 2, 31, 32, 33, 34, 63, 64, 65, 1023, 1024, 1025, 1055, 1056, 1057]


def shards(tier):
    q = tier == 'quick'
    out = []
    for config in ('c', 'py'):
        top = 1120 if q else 2300
        k = 4 if q else 8
        for r in range(k):
            out.append((config, ['sizes', 0, top, r, k]))
        if q:
            for a, b in ((32767, 32769), (32799, 32800), (32801, 32802), (32832, 32833)):
                out.append((config, ['sizes', a, b, 0, 1]))
        else:
            for a in range(32736, 32896, 4):
                out.append((config, ['sizes', a, a + 3, 0, 1]))
        out.append((config, ['huge', 1048600 if q else 1048560, 1048612 if q else 1048680]))
        for b in BASES:
            out.append((config, ['hist', b, 4 + (0 if q else 1)]))
        sizes = [0, 1, 2, 3, 5, 31, 32, 33, 34, 63, 64, 65, 66, 1057] if q else \
            list(range(0, 8)) + [30, 31, 32, 33, 34, 35, 62, 63, 64, 65, 66, 67, 95, 96, 97, 128, 129, 1023, 1024, 1025,
                                 1055, 1056, 1057, 1058, 1088, 1089, 2047, 2048, 2049, 2080, 2081]
        for n in sizes:
            out.append((config, ['slices', n]))
        out.append((config, ['order', 3 if q else 4]))
        out.append((config, ['args']))
        out.append((config, ['sources']))
        out.append((config, ['twins', 2 if q else 3]))
    return out


def weight(config, spec):
    return {'sizes': 50, 'huge': 40, 'hist': 30 + spec[1] if len(spec) > 1 and isinstance(spec[1], int) else 0,
            'slices': 5, 'order': 2, 'args': 1, 'twins': 20}.get(spec[0], 1)


def run_shard(ctx, spec):
    globals()['run_' + spec[0]](ctx, *spec[1:])


# -- construction routes --------------------------------------------------------------

def routes(n):
    from pyrsistent import pvector, v
    l = toks(n)
    yield 'pvector(list)', pvector(l)
    yield 'pvector(tuple)', pvector(tuple(l))
    yield 'pvector(generator)', pvector(x for x in l)
    yield 'pvector(pvector)', pvector(pvector(l))
    yield 'v(*list)', v(*l)
    for first in (1, 31, 32, 33):
        if first < n:
            yield 'pvector + rest after %d' % first, pvector(l[:first]) + l[first:]
    if n:
        yield 'extend last', pvector(l[:-1]).extend([l[-1]])
        yield 'append last', pvector(l[:-1]).append(l[-1])
        yield 'set at end', pvector(l[:-1]).set(n - 1, l[-1])
    if n > 40:
        yield 'extend by vector', pvector(l[:n - 40]).extend(pvector(l[n - 40:]))
    yield 'slice of larger', pvector(toks(n + 7))[:n]
    e = pvector().evolver()
    for x in l:
        e.append(x)
    yield 'evolver append', e.persistent()
    e = pvector(l[:n // 2]).evolver()
    e.extend(l[n // 2:])
    yield 'evolver extend', e.persistent()
    if n:
        e = pvector(l).evolver()
        e[0] = tok('x')
        e.append(tok('y'))
        w = e.persistent()
        yield 'undo', w.delete(n).set(0, l[0])


def ops_at(n, positions):
    x, y = tok('x'), tok('y')
    ops = [('append', x), ('extend', [x, y]), ('extend', toks(33, 5000)), ('add', (x,)), ('extend', []),
           ('mul', 0), ('mul', 1), ('mul', -1), ('set', n, x), ('set', n + 1, x), ('set', -n - 1, x), ('set', n + 40, x),
           ('delete', n), ('delete', -n - 1), ('remove', x), ('slice', None, None, None), ('slice', None, None, -1),
           ('mset',), ('mset', 0), ('mset', n + 1, x), ('mset', n, x, n + 1, y)]
    if n <= 3000:
        ops += [('mul', 2), ('mul', 3), ('rmul', 2), ('extend', toks(1100, 5000))]
    for p in positions:
        ops += [('set', p, x), ('set', p - n, x), ('delete', p), ('mset', p, x, n, y, p, y)]
    for p in boundary_positions(n):
        ops += [('delete', p - n), ('delete', p, p + 2), ('delete', p, None), ('delete', p, n), ('delete', p - n, -1),
                ('remove', tok(p)), ('slice', p, None, None), ('slice', None, p, None), ('slice', p, p + 3, None)]
        for r in (0, n - 1, p - 1, p + 1, p - 32, p + 32):
            if 0 <= r < n:
                ops.append(('mset', p, x, r, y))
                ops.append(('mset', p - n, x, r - n, y))
    return ops


def run_sizes(ctx, lo, hi, rem, mod):
    from pyrsistent import pvector
    chain = pvector(toks(lo))
    model = toks(lo)
    for n in range(lo, hi + 1):
        if n > lo:
            chain = chain.append(tok(n - 1))
            model = model + [tok(n - 1)]
            ctx.step()
        if n % mod != rem:
            continue
        ctx.state(('size', n))
        medium(chain, model, ['append one by one', n])
        for name, v in routes(n):
            tr = ['build', n, name]
            ctx.trace(tr)
            ctx.step()
            medium(v, model, tr)
            if n < 70:
                full(v, model, tr)
        if n > 30000:
            positions = boundary_positions(n)
        elif n <= 130 or (1020 <= n <= 1092) or (not ctx.quick and n <= 1100):
            positions = range(n)
        else:
            positions = boundary_positions(n)
        for base, how in ((chain, 'chain'), (pvector(model), 'bulk')):
            if how == 'bulk' and n > 200 and n % 3:
                continue
            for op in ops_at(n, positions):
                tr = [how, n, op]
                ctx.trace(tr)
                ctx.step()
                r = apply(base, model, op, tr)
                if r is not None:
                    light(r[0], r[1], tr)
                    if n <= 70:
                        medium(r[0], r[1], tr)
            light(base, model, ['source after all operations', how, n])


def run_huge(ctx, lo, hi):
    from pyrsistent import pvector
    x = tok('x')
    l = list(range(lo))
    v = pvector(l)
    tr = ['bulk', lo]
    ctx.trace(tr)
    ctx.check(v.tolist() == l, 'contents of a vector of %d elements' % lo, tr)
    marks = boundary_positions(lo - 2)
    keep = []
    for n in range(lo, hi + 1):
        ctx.state(('huge', n))
        keep.append((v, n))
        ctx.trace(['append up to', n])
        for p in marks + [n - 1]:
            ctx.step()
            ctx.check(v[p] == p and v[p - n] == p, 'v[%d] of %d elements is %s' % (p, n, short(v[p])), ['append up to', n])
            w = v.set(p, x)
            e = v.evolver()
            e[p] = x
            e.append(x)
            u = e.persistent()
            for q in marks + [n - 1]:
                want = x if q == p else q
                ctx.check(w[q] == want, 'set %d of %d: element %d is %s' % (p, n, q, short(w[q])), ['set', n, p])
                ctx.check(u[q] == want, 'evolver set %d of %d: element %d is %s' % (p, n, q, short(u[q])), ['evolver', n, p])
            ctx.check(len(w) == n and len(u) == n + 1 and u[n] is x, 'length after set', ['set', n, p])
        if n % 4 == 0:
            ctx.check(v.tolist() == list(range(n)), 'contents of %d elements' % n, ['append up to', n])
        v = v.append(n)
        l.append(n)
    for w, n in keep:
        ctx.check(len(w) == n and w[n - 1] == n - 1 and call(lambda: w[n])[0] == 'exc', 'old version of %d elements changed' % n,
                  ['append up to', hi])
    w, n = keep[0]
    w = w.extend(range(n, hi + 1))
    ctx.check(w.tolist() == l, 'extend from %d' % n, ['extend', n])
    w = v[5:]
    ctx.check(w.tolist() == l[5:], 'slice of %d' % len(v), ['slice', len(v)])


# -- histories ------------------------------------------------------------------------

def hist_ops(n):
    x = tok('h%d' % n)
    ops = [('append', x), ('extend', toks(2, 7000 + n)), ('delete', -1), ('set', 0, x), ('set', -1, x)]
    if n > 33:
        t = ((n - 1) >> 5) << 5
        ops += [('set', t - 1, x), ('mset', 1, x, -1, x, n, x)]
    else:
        ops += [('mset', n, x), ('slice', None, None, -1)]
    ops += [('extend', toks(32, 8000)), ('slice', 0, -33, None) if n > 40 else ('slice', 1, None, None)]
    if n < 100:
        ops += [('mul', 2), ('remove', tok(0)), ('extend', toks(1024, 9000))]
    return ops


def run_hist(ctx, base, depth):
    from pyrsistent import pvector
    trace = ['pvector of %d' % base]

    def rec(v, model, d):
        if d == 0:
            ctx.trace(lambda: list(trace))
            return
        before = hash(v)
        for op in hist_ops(len(model)):
            trace.append(op)
            ctx.step()
            r = apply(v, model, op, trace)
            if r is not None:
                ctx.state((tuple(x.n for x in r[1][:40]), len(r[1]), tuple(x.n for x in r[1][-40:])))
                if d == 1:
                    light(r[0], r[1], trace)
                else:
                    medium(r[0], r[1], trace)
                rec(r[0], r[1], d - 1)
                light(r[0], r[1], trace)
            trace.pop()
            light(v, model, trace)
        if hash(v) != before:
            bad('hash changed', trace)

    rec(pvector(toks(base)), toks(base), depth)


# -- arguments ------------------------------------------------------------------------

def bounds_for(n):
    s = {0, 1, 2, 3, -1, -2, -3, n - 1, n, n + 1, -n, -n - 1, -n + 1, 31, 32, 33, -31, -32, -33, n - 32, n // 2, 10 ** 30, -10 ** 30}
    return [None] + sorted(s)


def run_slices(ctx, n):
    from pyrsistent import pvector
    model = toks(n)
    v = pvector(model)
    ctx.state(('slices', n))
    bs = bounds_for(n)
    small = [b for b in bs if b is None or abs(b) <= n + 1]
    for a, b in product(bs, bs):
        for c in (None, 1, 2, 3, -1, -2, -3, 31, 32, 33, -32, 10 ** 30, -10 ** 30):
            ctx.trace(('slice', n, a, b, c))
            ctx.step()
            light(v[a:b:c], model[a:b:c], ('slice', n, a, b, c))
        ctx.step()
        r = call(lambda: v[a:b:0])
        ctx.check(outcome_class(r) == 'ValueError', 'slice step 0', ('slice', n, a, b, 0))
        if a is not None and abs(a) < 2 ** 60 and (b is None or abs(b) < 2 ** 60):
            r = apply(v, model, ('delete', a, b), ('delete', n, a, b))
            if r is not None:
                light(r[0], r[1], ('delete', n, a, b))
    # index with bounds
    vals = sorted({0, 1, n // 2, n - 1, n - 2, 31, 32} & set(range(n)))
    if n > 100:
        vals = vals[:2] + vals[-2:]
    dup = model + model
    w = pvector(dup)
    for i in vals + [-99]:
        for seq, vec in ((model, v), (dup, w)):
            x = tok(i)
            for a, b in product([x for x in small if x is not None], small):
                args = (a,) if b is None else (a, b)
                ctx.trace(('index', n, i, args))
                ctx.step()
                want, got = call(seq.index, x, *args), call(vec.index, x, *args)
                ctx.check(outcome_class(want) == outcome_class(got) and (want[0] == 'exc' or want[1] == got[1]),
                          lambda: 'index of %r in %d elements with %r: %s, list: %s' % (x, len(seq), args, short(got), short(want)))
    light(v, model, ('slices', n))


def run_order(ctx, k):
    """Comparisons, with vectors and lists on either side."""
    import operator
    from pyrsistent import pvector
    seqs = [list(s) for i in range(k + 1) for s in product((0, 1, 2), repeat=i)]
    base = [7] * 40
    if k == 3:
        longer = [base, base + [8], base[:33], base[:31] + [8] + base[32:], base[:32] + [6] + base[33:], [8] + base[1:], base[:39] + [6]]
        seqs = seqs + longer
    vs = [(s, pvector(s)) for s in seqs]
    ops = [operator.lt, operator.le, operator.eq, operator.ne, operator.gt, operator.ge]
    for (s, v), (t, w) in product(vs, vs):
        ctx.state((len(s), len(t), s < t, s == t))
        for op in ops:
            ctx.trace((op.__name__, s, t))
            ctx.step(3)
            want = op(s, t)
            for a, b, how in ((v, w, 'vector/vector'), (v, t, 'vector/list'), (s, w, 'list/vector')):
                r = call(op, a, b)
                ctx.check(r == ('ok', want), lambda: '%s %s: %s, expected %s' % (op.__name__, how, short(r), want))
    for op in ops[:2] + ops[4:]:
        for a, b in ((pvector([1]), pvector(['a'])), (pvector([1, 2]), pvector([1, None]))):
            ctx.step()
            ctx.check(outcome_class(call(op, a, b)) == 'TypeError', 'ordering of unorderable elements')
    for other in (1, None, 'ab', object()):
        ctx.check(not (pvector([1]) == other) and pvector([1]) != other, 'equality with %r' % (other,))


def run_sources(ctx):
    from pyrsistent import pvector
    import sources
    pre = ['p', 1]

    def evolved(s):
        e = pvector(pre).evolver()
        e.extend(s)
        return e.persistent()
    grow = lambda x, y: x.append(y)
    ops = [('pvector', [], pvector, grow), ('extend of empty', [], lambda s: pvector().extend(s), grow), ('extend', pre, lambda s: pvector(pre).extend(s), grow), ('+', pre, lambda s: pvector(pre) + s, grow),
           ('evolver', pre, evolved, grow), ('append all', pre * 16, lambda s: pvector(pre * 16).extend(s), lambda x, y: x.evolver().append(y).persistent())]
    sources.run_iterables(ctx, ops, True, type(pvector()), lambda p, xs: p + xs)


def run_args(ctx):
    """Equal but different objects, odd arguments, iterables of every kind."""
    from pyrsistent import pvector, pset, pmap, plist, pdeque, v
    # True == 1 == 1.0: positions are found by equality, the objects kept are the ones put in
    l = [0, 1, 1.0, True, '1', None, False, 1]
    p = pvector(l)
    for x in [0, 1, 1.0, True, '1', None, False, 2]:
        ctx.trace(('equal elements', x))
        ctx.step(3)
        ctx.check((x in p) == (x in l) and p.count(x) == l.count(x), 'count of %r' % (x,))
        a, b = call(l.index, x), call(p.index, x)
        ctx.check(outcome_class(a) == outcome_class(b) and (a[0] == 'exc' or a[1] == b[1]), 'index of %r' % (x,))
        r = apply(p, l, ('remove', x), ('remove', x))
        if r:
            ctx.check([(type(y), y) for y in r[0]] == [(type(y), y) for y in r[1]], 'remove %r gives %r' % (x, r[0]))
    for make in (list, tuple, set, frozenset, iter, dict.fromkeys, pvector, pset, plist, pdeque, lambda x: pmap(dict.fromkeys(x)), ''.join, lambda x: (y for y in x)):
        for n in (0, 1, 31, 32, 33, 40):
            items = [chr(200 + i) for i in range(n)]
            for base in (0, 1, 31, 32):
                b = [str(i) for i in range(base)]
                ctx.trace(('iterable', n, base))
                ctx.step()
                want = b + list(make(items))
                light(pvector(b).extend(make(items)), want, ('extend', n, base))
                light(pvector(b) + make(items), want, ('add', n, base))
    for f in (lambda: pvector([1]) + 1, lambda: pvector([1]).extend(None), lambda: pvector(5), lambda: pvector([1])['a'],
              lambda: pvector([1]).set('a', 1), lambda: pvector([1])[None], lambda: pvector([1]).set(0.0, 1), lambda: pvector([1]).delete('a')):
        ctx.step()
        ctx.check(outcome_class(call(f)) == 'TypeError', 'no TypeError for a wrong argument')
    for big in (2 ** 40,):
        for f in (lambda: pvector([1]).set(big, 1), lambda: pvector([1]).delete(big), lambda: pvector([1])[big], lambda: pvector([1])[-big]):
            ctx.step()
            ctx.check(outcome_class(call(f)) == 'IndexError', 'no IndexError for a large index')
    ctx.check(v() == pvector() and pvector() == [], 'empty vectors')
    ctx.state('args')


def run_twins(ctx, depth):
    """Elements that are all equal: replacing one by another must still replace it."""
    from pyrsistent import pvector
    pool = [Twin(i) for i in range(1100)]
    new = [Twin('n%d' % i) for i in range(4)]
    other = tok('unequal')

    def ops(n, k):
        out = [('append', new[k]), ('extend', new[:2]), ('mset', 0, new[k], n - 1, new[k]), ('remove', new[k]), ('mul', 2), ('slice', None, None, -1), ('slice', 1, None, None)]
        for p in boundary_positions(n):
            out += [('set', p, new[k]), ('set', p - n, new[k]), ('delete', p), ('mset', p, new[k]), ('mset', p, other, p, new[k])]
        return out if n else out[:2]
    for n in (0, 1, 2, 3, 31, 32, 33, 34, 64, 65, 66, 97) + ((1056, 1057) if depth < 3 else ()):
        def rec(v, l, k, tr):
            for op in ops(len(l), k):
                t = tr + [op]
                ctx.trace(t)
                ctx.step()
                r = apply(v, l, op, t)
                if r is not None:
                    ident(r[0], r[1], t)
                    ctx.state((n, len(r[1]), k))
                    if k + 1 < (depth if n < 200 else 1):
                        rec(r[0], r[1], k + 1, t)
            ident(v, l, tr)
            # the first of the equal ones is found
            if l:
                x = new[3]
                ctx.check(v.index(x) == l.index(x) and v.count(x) == l.count(x) and x in v, 'search among equal elements', tr)
                ctx.check(v == list(reversed(l)) or any(not isinstance(y, Twin) for y in l), 'equality', tr)
        rec(pvector(pool[:n]), pool[:n], 0, ['twins', n])
