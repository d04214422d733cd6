"""C04: the C and pure Python vectors are interchangeable.

Both implementations are driven in lock step in one process: configuration `py` has the pure Python implementation behind
pyrsistent.pvector and the C one behind pvectorc.pvector; in configuration `c` the pure Python implementation is
represented by a checked vector class without declarations.
"""
import operator
import pickle
from itertools import product
from unittest import mock

from core import Violation, call, short
from vecs import IMPL, boundary_positions, tok, toks

NEEDS_C_IN_PY = True
BOUNDS = {
    'quick': 'all operation sequences of depth 4 (3 for sizes over 40) over about 24 operations from 12 boundary sizes; all evolver sequences of depth 4 (3 for size 1057) '
             'over 12 operations from 7 sizes; all argument combinations over boundary indexes (incl. bool) for 12 sizes; '
             'comparisons of all pairs of sequences of length <= 2 over 7 values (incl. nan, None, nested) plus boundary lengths, '
             '6 operators, 5 representations; hashes of all sequences of length <= 3 over 9 values and of all sizes 0..1100',
    'thorough': 'depth 5 (sizes < 3) and 4 for vectors, 5 for evolvers, 20 sizes, pairs up to length 3',
}
ASSUMPTIONS = ['indexes are ints (or bools) that fit a machine word', 'elements have reflexive equality or are compared by identity first',
               'the message of an exception, the identity of results, is_dirty() where contents are unchanged, keyword '
               'arguments, slices on evolvers and iteration over evolvers are not compared']

SIZES = [0, 1, 2, 31, 32, 33, 34, 64, 65, 1055, 1056, 1057]
MORE = [3, 63, 66, 96, 97, 128, 1024, 2080]


def shards(tier):
    q = tier == 'quick'
    sizes = SIZES if q else SIZES + MORE
    out = []
    for n in sizes:
        out.append(('py', ['hist', n, (4 if n < 40 else 3) if q else (5 if n < 3 else 4)]))
        out.append(('py', ['args', n]))
    for n in ([0, 1, 2, 32, 33, 65, 1057] if q else sizes):
        out.append(('py', ['evolver', n, (4 if n < 200 else 3) if q else 5]))
    for config in ('py', 'c'):
        out.append((config, ['compare', 2 if q else 3]))
        out.append((config, ['hash', 3]))
        out.append((config, ['sizes', 1100 if q else 2200]))
    return out


def weight(config, spec):
    return {'evolver': 10, 'hist': 8, 'compare': 20, 'hash': 1, 'args': 4, 'sizes': 4}[spec[0]]


def run_shard(ctx, spec):
    globals()['run_' + spec[0]](ctx, *spec[1:])


def impls():
    import pyrsistent
    import pvectorc
    if type(pyrsistent.pvector()).__module__ == 'pvectorc':
        class Plain(pyrsistent.CheckedPVector):
            pass
        return pvectorc.pvector, Plain
    return pvectorc.pvector, pyrsistent.pvector


def norm(r, depth=0):
    """An outcome in a form that can be compared across the implementations."""
    if r[0] == 'exc':
        return 'exc', type(r[1]).__name__
    v = r[1]
    if hasattr(v, 'tolist'):
        return 'vec', [id(x) for x in v.tolist()]
    return 'val', type(v).__name__, v if isinstance(v, (int, str, bool)) else id(v)


def same(ctx, a, b, what, trace):
    if norm(a) != norm(b):
        ctx.violation('%s: C gives %s, Python gives %s' % (short(what), short(a), short(b)), trace)


def observe(ctx, c, p, trace, deep=True):
    """All read operations agree."""
    n = len(c)
    if len(p) != n or [id(x) for x in c.tolist()] != [id(x) for x in p.tolist()]:
        ctx.violation('contents differ: C %s, Python %s' % (short(c), short(p)), trace)
    if not deep:
        return
    for f in (repr, str, hash, bool, list, tuple, lambda v: list(reversed(v))):
        if f in (repr, str) and type(p).__name__ == 'Plain':      # shows its class name
            continue
        a, b = call(f, c), call(f, p)
        if a[0] != b[0] or (a[0] == 'ok' and a[1] != b[1]) or (a[0] == 'exc' and type(a[1]) is not type(b[1])):
            ctx.violation('reading: C gives %s, Python gives %s' % (short(a), short(b)), trace)
    ps = boundary_positions(n)
    for i in ps + [x - n for x in ps] + [n, n + 1, -n - 1, True, False, 2 ** 62, -2 ** 62]:
        same(ctx, call(lambda: c[i]), call(lambda: p[i]), ('v[i]', i), trace)
    for i in ps:
        x = c[i]
        same(ctx, call(c.index, x), call(p.index, x), ('index', i), trace)
        same(ctx, call(c.count, x), call(p.count, x), ('count', i), trace)
        same(ctx, call(lambda: x in c), call(lambda: x in p), ('in', i), trace)
    if n <= 40:
        a, b = call(lambda: pickle.loads(pickle.dumps(tuple(c)))), call(lambda: pickle.loads(pickle.dumps(tuple(p))))
        ctx.check(a[0] == b[0], 'pickling', trace)
    if not (c == p and p == c and not (c != p) and not (p != c)):
        ctx.violation('equal vectors of the two implementations do not compare equal', trace)


def vec_ops(n):
    x, y = tok('x%d' % n), tok('y')
    t = 0 if n < 32 else ((n - 1) >> 5) << 5
    return [('append', x), ('extend', [x, y]), ('extend', []), ('add', toks(33, 5000)), ('set', 0, x), ('set', -1, x), ('set', max(t - 1, 0), x), ('set', n, x),
            ('set', n + 1, x), ('set', -n - 1, x), ('mset', 0, x, -1, y, n, x), ('mset', n + 1, x), ('mset', 1), ('delete', 0), ('delete', -1), ('delete', n),
            ('delete', 1, -1), ('delete', 0, None), ('remove', tok(0)), ('remove', tok('none')), ('slice', None, None, -1), ('slice', 1, -1, None), ('mul', 2 if n < 200 else 1), ('mul', 0)]


def run_hist(ctx, n, depth):
    C, P = impls()

    def rec(c, p, trace, d):
        ops = vec_ops(len(c))
        if d < 3 and len(c) > 200:
            ops = ops[::2]
        for op in ops:
            tr = trace + [op]
            ctx.step()
            a, b = call(IMPL[op[0]], c, *op[1:]), call(IMPL[op[0]], p, *op[1:])
            same(ctx, a, b, op, tr)
            ctx.outcome(norm(a)[0] if a[0] == 'ok' else norm(a)[1])
            if a[0] == 'ok':
                first = ctx.state(tuple(x.n for x in a[1].tolist()[-60:]) + (len(a[1]),))
                observe(ctx, a[1], b[1], tr, first)
                if d > 1:
                    rec(a[1], b[1], tr, d - 1)
                else:
                    ctx.trace(lambda: tr)
        observe(ctx, c, p, trace, False)

    c, p = C(toks(n)), P(toks(n))
    observe(ctx, c, p, [n])
    rec(c, p, [n], depth)


def run_args(ctx, n):
    C, P = impls()
    l = toks(n)
    c, p = C(l), P(l)
    c2, p2 = C(l + l), P(l + l)
    x = tok('x')
    bs = sorted({0, 1, -1, 2, -2, n - 1, n, n + 1, -n, -n - 1, 31, 32, 33, -32, n // 2, 2 ** 62, -2 ** 62})
    ctx.state(('args', n))
    for a in bs + [True, False]:
        for op in (('delete', a), ('set', a, x), ('mset', a, x), ('mset', 0, x, a, x), ('mset', a, x, a, tok('y'))):
            if op[0] == 'delete' or abs(a) < 2 ** 61:
                ctx.trace(('args', n, op))
                ctx.step()
                same(ctx, call(IMPL[op[0]], c, *op[1:]), call(IMPL[op[0]], p, *op[1:]), op, ('args', n))
        for k in ('set', '__setitem__', 'delete', '__delitem__', '__getitem__'):
            if abs(a) < 2 ** 61 or k == '__getitem__':
                args = (a, x) if 'set' in k else (a,)
                ec, ep = c.evolver(), p.evolver()
                ctx.step()
                r, s = call(getattr(ec, k), *args), call(getattr(ep, k), *args)
                if k in ('set', 'delete') and r[0] == 'ok' and s[0] == 'ok':
                    r = s = ('ok', None)
                same(ctx, r, s, ('evolver', k, args), ('args', n))
                same(ctx, call(ec.persistent), call(ep.persistent), ('persistent after', k, args), ('args', n))
    for a, b in product([None] + bs, [None] + bs):
        for s in (None, 1, 2, -1, -2, 32, -32, 0, 2 ** 62):
            ctx.trace(('slice', n, a, b, s))
            ctx.step()
            same(ctx, call(lambda: c[a:b:s]), call(lambda: p[a:b:s]), ('slice', a, b, s), ('args', n))
        if a is not None:
            ctx.step()
            same(ctx, call(c.delete, a, b), call(p.delete, a, b), ('delete', a, b), ('args', n))
            if b is not None:
                for i in (0, n // 2, n - 1, 'none'):
                    y = tok(i)
                    ctx.step()
                    same(ctx, call(c2.index, y, a, b), call(p2.index, y, a, b), ('index', i, a, b), ('args', n))
                    same(ctx, call(c2.index, y, a), call(p2.index, y, a), ('index', i, a), ('args', n))
    for k in (-1, 0, 1, 2, 3, True, False):
        same(ctx, call(lambda: c * k), call(lambda: p * k), ('mul', k), ('args', n))
        same(ctx, call(lambda: k * c), call(lambda: k * p), ('rmul', k), ('args', n))
    for f in (lambda v: v.extend(5), lambda v: v + 5, lambda v: v.mset(0), lambda v: v.evolver().extend(None), lambda v: v < 5, lambda v: v > None,
              lambda v: v < 'a', lambda v: v >= (1,), lambda v: v == 5, lambda v: v == (), lambda v: v != tuple(v), lambda v: 5 == v):
        ctx.step()
        same(ctx, call(f, c), call(f, p), 'other argument types', ('args', n))
    # operands with an answer of their own, with and without a length
    for ln in (None, n, n + 1):
        class Own(object):
            pass
        for k in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            setattr(Own, '__%s__' % k, lambda s, o, k=k: 'own ' + k)
        if ln is not None:
            Own.__len__ = lambda s: ln
        for k in ('eq', 'lt', 'le', 'gt', 'ge'):
            for f in (lambda v: getattr(operator, k)(v, Own()), lambda v: getattr(operator, k)(Own(), v)):
                ctx.step()
                same(ctx, call(f, c), call(f, p), ('operand with its own answer', k, ln), ('args', n))
        for f in (lambda v: v == mock.ANY, lambda v: mock.ANY == v, lambda v: v != mock.ANY, lambda v: v in [mock.ANY], lambda v: [v] == [mock.ANY]):
            ctx.step()
            same(ctx, call(f, c), call(f, p), 'mock.ANY', ('args', n))
    # iterables whose iteration goes wrong
    class Boom(Exception):
        pass

    def gen(k):
        for i in range(k):
            yield l[i % n] if n else x
        raise Boom()

    for k in (0, 1, 31, 32, 33):
        ctx.step(3)
        same(ctx, call(c.extend, gen(k)), call(p.extend, gen(k)), ('raising iterable', k), ('args', n))
        same(ctx, call(C, gen(k)), call(P, gen(k)), ('raising iterable', k), ('args', n))
        same(ctx, call(lambda: c + gen(k)), call(lambda: p + gen(k)), ('raising iterable', k), ('args', n))
    for bad in (Bad('__eq__'), Bad('__hash__'), Bad('__repr__')):
        for v, w in ((C(l + [bad]), P(l + [bad])),):
            for f in (hash, repr, lambda v: v.index(tok('none')), lambda v: v.count(tok('none')), lambda v: v.remove(tok('none')), lambda v: tok('none') in v,
                      lambda v: v == l + [x], lambda v: v == v, lambda v: v != l + [x], lambda v: v < l + [x]):
                ctx.step()
                same(ctx, call(f, v), call(f, w), ('element with failing', bad.what), ('args', n))


class Boom2(Exception):
    pass


class Bad(object):
    def __init__(self, what):
        self.what = what

    def __eq__(self, other):
        if self.what == '__eq__':
            raise Boom2()
        return self is other

    def __hash__(self):
        if self.what == '__hash__':
            raise Boom2()
        return 5

    def __repr__(self):
        if self.what == '__repr__':
            raise Boom2()
        return 'bad'


def ev_ops(n, k, n0):
    x, y = tok('x%d' % k), tok('y%d' % k)
    t = max((0 if n0 < 32 else ((n0 - 1) >> 5) << 5) - 1, 0)
    return [('persistent',), ('set', 0, x), ('__setitem__', -1, y), ('set', t, x), ('set', n, y), ('append', x), ('extend', [x, y]), ('delete', 0), ('__delitem__', -1),
            ('set', n + 1, x), ('delete', n), ('extend', toks(32, 6000 + 40 * k))]


def run_evolver(ctx, n, depth):
    C, P = impls()
    c, p = C(toks(n)), P(toks(n))

    def rec(prefix):
        ec, ep = c.evolver(), p.evolver()
        made = []
        ctx.trace(lambda: [n] + prefix)
        for op in prefix:
            ctx.step()
            a, b = call(getattr(ec, op[0]), *op[1:]), call(getattr(ep, op[0]), *op[1:])
            if op[0] == 'persistent':
                made.append((a[1], b[1]))
            if op[0] in ('set', 'append', 'extend', 'delete') and a[0] == b[0] == 'ok':
                ctx.check((a[1] is ec) == (b[1] is ep), 'return value of %s' % op[0], [n] + prefix)
                a = b = ('ok', None)
            same(ctx, a, b, op, [n] + prefix)
        m = len(ec)
        ctx.check(len(ep) == m, lambda: 'len(): C %d, Python %d' % (m, len(ep)), [n] + prefix)
        for i in boundary_positions(m) + [m, -m - 1, -1]:
            same(ctx, call(lambda: ec[i]), call(lambda: ep[i]), ('evolver[i]', i), [n] + prefix)
        a, b = ec.persistent(), ep.persistent()
        first = ctx.state(tuple(x.n for x in a.tolist()[-40:]) + (len(a),))
        observe(ctx, a, b, [n] + prefix, first)
        for a, b in made:
            observe(ctx, a, b, [n] + prefix, False)
        if len(prefix) < depth:
            for op in ev_ops(m, len(prefix), n):
                rec(prefix + [op])

    rec([])
    observe(ctx, c, p, [n])


OPS = [operator.lt, operator.le, operator.eq, operator.ne, operator.gt, operator.ge]


def run_compare(ctx, k):
    C, P = impls()
    nan = float('nan')
    values = [0, 1, 1.0, 'a', None, nan, (1,)]
    seqs = [list(s) for i in range(k + 1) for s in product(values, repeat=i)]
    if k == 3:
        seqs = [s for s in seqs if len(s) < 3 or len(set(map(id, s))) < 3]
    base = [7] * 66
    seqs += [base, base[:64], base[:65], base[:31] + [8] + base[32:], base[:32] + [6] + base[33:], base[:63] + [9, 7, 7], base[:65] + [5]]
    reps = [(s, C(s), P(s)) for s in seqs]
    for (s, c, p), (t, c2, p2) in product(reps, reps):
        for op in OPS:
            ctx.step(9)
            ctx.trace(lambda: (op.__name__, s, t))
            want = call(op, s, t)
            key = want[1] if want[0] == 'ok' else type(want[1]).__name__
            ctx.state((len(s), len(t), op.__name__, key))
            for a, b, how in ((c, c2, 'C/C'), (p, p2, 'Py/Py'), (c, p2, 'C/Py'), (p, c2, 'Py/C'), (c, t, 'C/list'), (p, t, 'Py/list'), (s, c2, 'list/C'), (s, p2, 'list/Py')):
                r = call(op, a, b)
                got = r[1] if r[0] == 'ok' else type(r[1]).__name__
                if got is not key and got != key:
                    ctx.violation('%s of %s: %s, lists give %s' % (op.__name__, how, short(r), short(want)), (op.__name__, s, t))
            if want == ('ok', True) and op is operator.eq and (s, t) != ([nan], [nan]):
                ctx.check(hash(c) == hash(p2) == hash(c2) == hash(p), 'hashes of equal vectors differ', (s, t))
    for s, c, p in reps:
        for other in (5, None, 'ab', (), tuple(s), object(), {}):
            for op in OPS:
                a, b = call(op, c, other), call(op, p, other)
                same(ctx, a, b, (op.__name__, other), (s, other))
                same(ctx, call(op, other, c), call(op, other, p), (op.__name__, other, 'reflected'), (s, other))


def run_hash(ctx, k):
    C, P = impls()
    values = [0, 1, -1, 'a', None, (1, 2), 2.5, frozenset([1]), 2 ** 70]
    values += [C([1, 2]), P([1, 2]), C([]), P(range(40))]
    for i in range(k + 1):
        for s in product(values, repeat=i):
            ctx.step()
            ctx.trace(lambda: ('hash', s))
            h = hash(C(s))
            ctx.state(h)
            ctx.check(h == hash(P(s)), lambda: 'hash of %s: C %d, Python %d' % (short(s), h, hash(P(s))))
    for bad in ([], {}, set()):
        for s in ([bad], [1, bad], list(range(40)) + [bad]):
            same(ctx, call(hash, C(s)), call(hash, P(s)), 'hash of an unhashable element', s)


def run_sizes(ctx, top):
    C, P = impls()
    c, p = C([]), P([])
    for n in range(top + 1):
        ctx.step()
        ctx.state(n)
        ctx.trace(('append to', n))
        if n:
            c, p = c.append(tok(n - 1)), p.append(tok(n - 1))
        observe(ctx, c, p, ('append to', n), n < 200 or n % 32 < 3)
        observe(ctx, C(toks(n)), P(toks(n)), ('bulk', n), n % 32 < 2)
