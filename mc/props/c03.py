"""C03: a vector evolver is an isolated mutable list with repeatable commits."""
from core import Violation, call, outcome_class, short
from vecs import Twin, bad, boundary_positions, ident, light, tok, toks

BOUNDS = {
    'quick': 'all sequences of up to 4 operations (3 for sizes over 200) over 16 operations on one evolver, of up to 4 operations over 2x8 '
             'operations on two interleaved evolvers (both of the same vector, or the second of a vector produced by the first), '
             '(3 for sizes over 200), of up to 4 (3) over 12 with operations on the vector in between, for 10 base sizes at trie boundaries; commits of every '
             'subset of 12 positions of a 3-level vector; chain and bulk construction',
    'thorough': 'as quick with up to 5 operations on one evolver and with vector operations in between, 5 over 2x6 on two, 21 base sizes',
}
ASSUMPTIONS = ['is_dirty() may be true although the contents are unchanged', 'an evolver is used by one thread',
               'extend() with an iterator that raises is not part of this property']

QUICK = [0, 1, 2, 31, 32, 33, 64, 65, 1056, 1057]
MORE = [3, 34, 96, 1090, 63, 66, 97, 128, 1024, 1025, 1088]


def shards(tier):
    out = []
    sizes = QUICK if tier == 'quick' else QUICK + MORE
    d = 4 if tier == 'quick' else 5
    for config in ('c', 'py'):
        for n in sizes:
            for route in ('bulk', 'chain'):
                if route == 'chain' and tier == 'quick' and n not in (33, 65):
                    continue
                out.append((config, ['one', n, route, d]))
                out.append((config, ['two', n, route, d, 'same']))
                out.append((config, ['two', n, route, d, 'produced']))
                out.append((config, ['with', n, route, d]))
        out.append((config, ['subsets', 1090, 12 if tier == 'quick' else 15]))
        out.append((config, ['subsets', 33000, 8 if tier == 'quick' else 11]))
        out.append((config, ['args']))
        out.append((config, ['twins', d]))
    return out


def weight(config, spec):
    return (10 if config == 'py' else 5) * {'one': 6, 'two': 8, 'with': 5, 'subsets': 3, 'args': 0, 'twins': 4}[spec[0]] + \
        (30 if len(spec) > 1 and spec[1] > 1000 else 0)


class Ev(object):
    """A real evolver with its model."""

    def __init__(self, v, model):
        self.e = v.evolver()
        self.l = list(model)
        self.last = list(model)       # contents at creation or the last commit
        self.last_v = v
        self.touched = False
        self.made = []

    def do(self, op, tr):
        e, l, name = self.e, self.l, op[0]
        n = len(l)
        if name == 'persistent':
            v = e.persistent()
            if not self.touched and v is not self.last_v:
                bad('persistent() of an untouched evolver is not the original vector', tr)
            light(v, l, tr)
            self.made.append((v, list(l)))
            self.last, self.last_v, self.touched = list(l), v, False
            return
        m = list(l)
        if name == 'set':
            want = call(mset, m, op[1], op[2])
            got = call(e.set, op[1], op[2])
        elif name == 'setitem':
            want = call(mset, m, op[1], op[2])
            got = call(e.__setitem__, op[1], op[2])
        elif name == 'append':
            want = call(m.append, op[1])
            got = call(e.append, op[1])
        elif name == 'extend':
            want = call(m.extend, op[1])
            got = call(e.extend, op[1])
        elif name == 'delete':
            want = call(m.__delitem__, op[1])
            got = call(e.delete, op[1])
        else:
            want = call(m.__delitem__, op[1])
            got = call(e.__delitem__, op[1])
        if outcome_class(want) != outcome_class(got):
            bad('%s on an evolver of %d elements gives %s, a list %s' % (short(op), n, short(got), short(want)), tr)
        if got[0] == 'ok':
            if name in ('set', 'append', 'extend', 'delete') and got[1] is not e:
                bad('%s does not return the evolver' % name, tr)
            self.l = m
        self.touched = True

    def verify(self, tr):
        e, l = self.e, self.l
        n = len(l)
        if len(e) != n:
            bad('len(evolver) is %d, expected %d' % (len(e), n), tr)
        for i in (range(n) if n <= 40 else boundary_positions(n)):
            if e[i] is not l[i] or e[i - n] is not l[i]:
                bad('evolver[%d] is %s, expected %s' % (i, short((e[i], e[i - n])), short(l[i])), tr)
        for i in (n, -n - 1, n + 32):
            r = call(lambda: e[i])
            if outcome_class(r) != 'IndexError':
                bad('evolver[%d] of length %d gives %s' % (i, n, short(r)), tr)
        d = e.is_dirty()
        if d is not True and d is not False:
            bad('is_dirty() gives %r' % (d,), tr)
        if l != self.last and not d:
            bad('is_dirty() is false although the contents changed', tr)
        if not self.touched and d:
            bad('is_dirty() is true although nothing was done', tr)
        if not self.touched and e.persistent() is not self.last_v:
            bad('persistent() without changes is not the last vector', tr)

    def finish(self, tr):
        self.verify(tr)
        v = self.e.persistent()
        light(v, self.l, tr)
        if self.e.is_dirty():
            bad('dirty right after persistent()', tr)
        w = self.e.persistent()
        if w is not v:
            bad('persistent() twice in a row gives another vector', tr)
        light(w, self.l, tr)
        # the evolver goes on working, without touching what it produced
        self.e.append(tok('z'))
        self.e[0] = tok('z0')
        light(v, self.l, tr)
        u = self.e.persistent()
        light(u, [tok('z0')] + (self.l + [tok('z')])[1:], tr)
        light(v, self.l, tr)
        for v, l in self.made:
            light(v, l, tr)


def mset(m, i, x):
    if i == len(m):
        m.append(x)
    else:
        m[i] = x


def make(n, route):
    from pyrsistent import pvector
    if route == 'bulk':
        return pvector(toks(n))
    v = pvector()
    for x in toks(n):
        v = v.append(x)
    return v


def ops_for(l, n0, k, small=False):
    """The operations on an evolver with contents l, base size n0; k numbers the step."""
    n = len(l)
    x, y = tok('x%d' % k), tok('y%d' % k)
    t = 0 if n0 < 32 else ((n0 - 1) >> 5) << 5      # where the tail of the base begins
    ops = [('persistent',), ('set', 0, x), ('append', y), ('setitem', -1, x), ('set', n, y), ('delete', -1), ('extend', [x, y])]
    if t:
        ops.append(('setitem', t - 1, x))
    elif not small:
        ops.append(('setitem', n // 2, x))
    if small:
        return ops[:6] + ops[7:] if t else ops
    ops += [('delete', 0), ('delitem', n - 2), ('set', n + 1, x), ('delete', n), ('set', -n - 1, x), ('extend', toks(33, 5000 + 40 * k)),
            ('extend', []), ('set', min(t, n - 1) if n else 1, x)]
    if t:
        ops.append(('set', 1, y))
    return ops


def run_shard(ctx, spec):
    globals()['run_' + spec[0]](ctx, *spec[1:])


def run_one(ctx, n, route, depth):
    base, model = make(n, route), toks(n)
    if n > 200 and ctx.quick:
        depth -= 1

    def rec(prefix):
        ev = Ev(base, model)
        ctx.trace(lambda: [n, route] + prefix)
        for i, op in enumerate(prefix):
            ctx.step()
            ev.do(op, prefix)
        ctx.state(tuple(x.n for x in ev.l[-70:]) + (len(ev.l), ev.touched, len(ev.made)))
        nxt = ops_for(ev.l, n, len(prefix)) if len(prefix) < depth else ()
        ev.finish(prefix)
        light(base, model, prefix)
        for op in nxt:
            rec(prefix + [op])

    rec([])


def run_two(ctx, n, route, depth, how):
    base, model = make(n, route), toks(n)
    if (n > 200 or route == 'chain') and ctx.quick:
        depth -= 1

    def rec(prefix):
        a = Ev(base, model)
        b = Ev(base, model) if how == 'same' else None
        ctx.trace(lambda: [n, route, how] + prefix)
        for who, op in prefix:
            ctx.step()
            if who == 'fork':
                v = a.e.persistent()
                light(v, a.l, prefix)
                a.last, a.last_v, a.touched = list(a.l), v, False
                b = Ev(v, a.l)
            else:
                (a if who == 'a' else b).do(op, prefix)
        ctx.state((tuple(x.n for x in a.l[-40:]), len(a.l), b and (tuple(x.n for x in b.l[-40:]), len(b.l))))
        nxt = []
        if len(prefix) < depth:
            k = len(prefix)
            nxt = [('a', o) for o in ops_for(a.l, n, k, True)]
            if b is not None:
                nxt += [('b', o) for o in ops_for(b.l, n, k, True)]
            else:
                nxt.append(('fork', None))
        # each evolver is verified before and after the other one is finished
        a.verify(prefix)
        if b is not None:
            b.verify(prefix)
            b.finish(prefix)
            a.verify(prefix)
        a.finish(prefix)
        light(base, model, prefix)
        for op in nxt:
            rec(prefix + [op])

    rec([])


def run_with(ctx, n, route, depth):
    """Operations on the vector and on produced vectors while the evolver has pending changes."""
    model = toks(n)
    from vecs import apply

    def rec(prefix):
        v, l = make(n, route), model
        ev = Ev(v, l)
        vs = [(v, l)]
        ctx.trace(lambda: [n, route, 'with'] + prefix)
        for op in prefix:
            ctx.step()
            if op[0] == 'vec':
                r = apply(vs[-1][0], vs[-1][1], op[1], prefix)
                if r is not None:
                    vs.append(r)
            elif op[0] == 'drop':
                vs = [(ev.e.persistent(), list(ev.l))]
                ev.last, ev.last_v, ev.touched = list(ev.l), vs[0][0], False
                ev.made = []
            else:
                ev.do(op, prefix)
        ctx.state((tuple(x.n for x in ev.l[-40:]), len(ev.l), len(vs), len(vs[-1][1])))
        nxt = []
        if len(prefix) < depth:
            k = len(prefix)
            x = tok('v%d' % k)
            m = len(vs[-1][1])
            nxt = ops_for(ev.l, n, k, True)[:7] + [('vec', ('append', x)), ('vec', ('set', 0, x)), ('vec', ('set', m - 1, x)),
                                                   ('vec', ('delete', m - 1)), ('drop',)]
        for w, wl in vs:
            light(w, wl, prefix)
        v = w = None
        ev.finish(prefix)
        for w, wl in vs:
            light(w, wl, prefix)
        for op in nxt:
            rec(prefix + [op])

    if n > 200:
        depth -= 1
    rec([])


def run_subsets(ctx, n, k):
    """Every subset of k positions is changed in one commit, and then every other position in a second one."""
    from pyrsistent import pvector
    model = toks(n)
    base = pvector(model)
    pos = [p for p in boundary_positions(n)]
    step = max(1, len(pos) // k)
    pos = sorted(set(pos[::step][:k - 1] + [n - 1]))[:k]
    for mask in range(1 << len(pos)):
        tr = ['subset', n, [p for i, p in enumerate(pos) if mask >> i & 1]]
        ctx.trace(tr)
        ctx.step()
        ctx.state((n, mask))
        e = base.evolver()
        l, l2 = list(model), None
        for i, p in enumerate(pos):
            if mask >> i & 1:
                e[p] = l[p] = tok(('s', i))
        v1 = e.persistent()
        for i, p in enumerate(pos):
            if not mask >> i & 1 and (n < 5000 or i % 2):
                e.set(p, tok(('r', i)))
        l2 = list(l)
        for i, p in enumerate(pos):
            if not mask >> i & 1 and (n < 5000 or i % 2):
                l2[p] = tok(('r', i))
        if n < 5000 or mask % 8 == 0:
            light(v1, l, tr)
            light(e.persistent(), l2, tr)
            light(v1, l, tr)
            light(base, model, tr)
        else:
            v2 = e.persistent()
            for p in pos:
                if v1[p] is not l[p] or v2[p] is not l2[p] or base[p] is not model[p]:
                    bad('element %d after a commit' % p, tr)


def run_args(ctx):
    from pyrsistent import pvector
    e = pvector([1]).evolver()
    for f in (lambda: e['a'], lambda: e.set('a', 1), lambda: e.__setitem__(None, 1), lambda: e.extend(5), lambda: e[0.0]):
        ctx.step()
        ctx.trace('wrong argument')
        ctx.check(outcome_class(call(f)) == 'TypeError', 'no TypeError for a wrong argument')
    ctx.check(list(e.persistent()) == [1], 'failed operations changed the evolver')
    for make in (list, tuple, set, iter, pvector, ''.join, lambda x: (y for y in x)):
        for n in (0, 1, 31, 32, 33, 65):
            items = [chr(200 + i) for i in range(n)]
            for b in (0, 1, 31, 32, 33):
                ctx.step()
                e = pvector(range(b)).evolver()
                want = list(range(b)) + list(make(items))
                e.extend(make(items))
                ctx.check([e[i] for i in range(len(e))] == want and e.persistent().tolist() == want, 'extend with an iterable', ('extend', n, b))
    ctx.state('args')


def run_twins(ctx, depth):
    """Elements that are all equal: replacing one by another must still replace it, in the evolver and what it produces."""
    from pyrsistent import pvector
    from itertools import product
    pool = [Twin(i) for i in range(1100)]
    new = [[Twin('n%d' % k) for i in range(2)] for k in range(depth)]
    for n in (0, 1, 2, 32, 33, 65) + ((1057,) if depth < 5 else ()):
        v0, l0 = pvector(pool[:n]), pool[:n]
        for path in product(range(9), repeat=depth if n < 200 else 3):
            tr = ['twins', n, path]
            ctx.trace(tr)
            ctx.step(len(path))
            ctx.state((n, path))
            e, l, made = v0.evolver(), list(l0), []
            for k, o in enumerate(path):
                a, b = new[k]
                m = len(l)
                if o == 0:
                    v = e.persistent()
                    ident(v, l, tr)
                    made.append((v, list(l)))
                elif o == 1:
                    e.append(a)
                    l.append(a)
                elif o == 2:
                    e.extend([a, b])
                    l += [a, b]
                elif not l:
                    continue
                elif o == 3:
                    e[0] = a
                    l[0] = a
                elif o == 4:
                    e.set(-1, a)
                    l[-1] = a
                elif o == 5:
                    e.set(m // 2, b)
                    l[m // 2] = b
                elif o == 6:
                    e[m - 2 if m > 1 else 0] = b
                    l[m - 2 if m > 1 else 0] = b
                elif o == 7:
                    e.delete(0)
                    del l[0]
                else:
                    del e[-1]
                    del l[-1]
                for i in boundary_positions(len(l)):
                    if e[i] is not l[i]:
                        bad('evolver[%d] is %r, expected the equal but distinct %r' % (i, e[i], l[i]), tr)
            ident(e.persistent(), l, tr)
            for v, m in made:
                ident(v, m, tr)
            ident(v0, l0, tr)
