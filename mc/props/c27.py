"""C27: iterators and views stand alone: every iterator gives the elements of its collection, once each and in order, whatever goes on around it."""
import copy
import gc
import pickle
from itertools import permutations, product

from core import call, short
from maps import bad

BOUNDS = {
    'quick': 'every kind of iteration (plain, reversed, keys, values, items, views kept and made afresh) over 21 kinds of collections of size 0..2 (3 with dropping only): all interleavings of two iterators, with one of 12 disturbances (updates, evolvers, failing '
             'operations, other iterators made, advanced, finished or abandoned, reads, garbage collection, dropping the last reference to the collection) at every point; all interleavings of three iterators at size 2; sizes 31..33, 64, 65, 97, 1025, 1057 with two '
             'iterators at every distance out of {0, 1, 2, 31, 32, 33} and the disturbance at every position near a block boundary',
    'thorough': 'as quick with sizes 0..4, pairs of disturbances, and every position at the large sizes',
}
ASSUMPTIONS = ['the order of maps, sets and bags is that of a twin built in the same way']
NPART = 8
EVENTS = ('none', 'update', 'evolve', 'fail', 'read', 'gc', 'drop', 'whole', 'abandon', 'finish', 'copy', 'same')


class V(object):
    __slots__ = ('n', '__weakref__')

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 'v%r' % (self.n,)


class K(object):
    """Collides with every third one."""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __hash__(self):
        return self.n % 3

    def __eq__(self, o):
        return isinstance(o, K) and self.n == o.n

    def __lt__(self, o):
        return self.n < o.n

    def __repr__(self):
        return 'k%r' % (self.n,)


PAIRS = ('items', 'iteritems', 'kept items')
FIELDS = ['f%d' % i for i in range(4)]


def classes(cache={}):
    if not cache:
        from pyrsistent import CheckedPMap, CheckedPSet, CheckedPVector, PRecord, field

        class CV(CheckedPVector):
            pass

        class CS(CheckedPSet):
            pass

        class CM(CheckedPMap):
            pass
        R = type(PRecord)('R', (PRecord,), dict({f: field() for f in FIELDS}, __module__=__name__))
        cache.update(CV=CV, CS=CS, CM=CM, R=R)
    return cache


# -- kinds: (name, maker of (collection, ordered elements or None), iterations) --------------------

def seq_iters(rev=True):
    out = [('iter', iter)]
    if rev:
        out.append(('reversed', lambda x: iter(reversed(x))))
    return out


MAP_ITERS = [('iter', iter), ('keys', lambda m: iter(m.keys())), ('values', lambda m: iter(m.values())), ('items', lambda m: iter(m.items())), ('iterkeys', lambda m: m.iterkeys()), ('itervalues', lambda m: m.itervalues()),
             ('iteritems', lambda m: m.iteritems()), ('kept keys', None), ('kept values', None), ('kept items', None)]


def kinds():
    from pyrsistent import l, pbag, pdeque, plist, pmap, pset, pvector
    from pyrsistent._pvector import python_pvector
    c = classes()

    def vs(n):
        return [V(i) for i in range(n)]

    def ks(n):
        return [K(i) for i in range(n)]

    def ordered(f):
        def make(n):
            xs = vs(n)
            return f(xs), xs
        return make

    def grown(xs):
        v = pvector()
        for x in xs:
            v = v.append(x)
        return v

    def evolved(xs):
        e = pvector([None] * len(xs)).evolver()
        for i, x in enumerate(xs):
            e[i] = x
        return e.persistent()

    def spread(xs):
        d = pdeque()
        for x in xs[len(xs) // 2:]:
            d = d.append(x)
        for x in reversed(xs[:len(xs) // 2]):
            d = d.appendleft(x)
        return d

    def mapping(f, keys=ks):
        def make(n):
            d = {k: V(i) for i, k in enumerate(keys(n))}
            return f(d), f(d)
        return make

    def unordered(f, count=lambda i: 1):
        def make(n):
            xs = [k for i, k in enumerate(ks(n)) for _ in range(count(i))][:n]
            return f(xs), f(xs)
        return make

    def stepwise(d):
        m = pmap()
        for k, v in d.items():
            m = m.set(k, v)
        return m
    kk = [('vector', ordered(pvector), seq_iters()), ('grown vector', ordered(grown), seq_iters()), ('evolved vector', ordered(evolved), seq_iters()), ('slice', ordered(lambda xs: pvector([None] + xs)[1:]), seq_iters()),
          ('python vector', ordered(python_pvector), seq_iters()), ('checked vector', ordered(c['CV']), seq_iters()), ('list', ordered(plist), seq_iters()), ('cons list', ordered(lambda xs: plist(xs[2:]).mcons(xs[:2][::-1])), seq_iters()),
          ('deque', ordered(pdeque), seq_iters()), ('deque of both ends', ordered(spread), seq_iters()), ('right deque', ordered(lambda xs: pdeque().extend(xs)), seq_iters()), ('bounded deque', ordered(lambda xs: pdeque(xs, maxlen=len(xs))), seq_iters()),
          ('map', mapping(pmap), MAP_ITERS), ('stepwise map', mapping(stepwise), MAP_ITERS), ('checked map', mapping(c['CM']), MAP_ITERS), ('record', mapping(lambda d: c['R'](**d), lambda n: FIELDS[:n]), MAP_ITERS),
          ('set', unordered(pset), [('iter', iter)]), ('checked set', unordered(c['CS']), [('iter', iter)]), ('key set', unordered(lambda xs: pmap({k: 1 for k in xs}).keys()), [('iter', iter)]),
          ('bag', unordered(pbag, lambda i: 1 + i % 2), [('iter', iter)]),
          ('fixed map', mapping(lambda d: pmap(d, pre_size=1)), MAP_ITERS)]
    return kk


def update(x):
    """Derive other values."""
    out = []
    for f in (lambda: x.append(V('n')), lambda: x.appendleft(V('n')), lambda: x.set(0, V('n')), lambda: x.set('f0', V('n')), lambda: x.set(K(0), V('n')), lambda: x.set(K(99), V('n')), lambda: x.add(K(98)), lambda: x.add(K(0)), lambda: x.cons(V('n')), lambda: x.pop(),
              lambda: x.popleft(), lambda: x.rest, lambda: x.delete(0), lambda: x.remove(K(0)), lambda: x.remove('f0'), lambda: x.discard(K(1)), lambda: x.extend([V(1)] * 40), lambda: x.update([K(97)]), lambda: x.update({K(96): 1}), lambda: x.reverse(), lambda: x.rotate(1),
              lambda: x[1:], lambda: x + x, lambda: x | x, lambda: x * 2, lambda: x.keys(), lambda: x.mset(0, 1)):
        try:
            out.append(f())
        except Exception:
            pass
    return out


def evolve(x):
    if not hasattr(x, 'evolver'):
        return
    e = x.evolver()
    for f in (lambda: e.set(0, V('e')), lambda: e.append(V('e')), lambda: e.set(K(0), V('e')), lambda: e.set(K(95), V('e')), lambda: e.add(K(94)), lambda: e.remove(K(0)), lambda: e.set('f0', V('e')), lambda: e.delete(0)):
        try:
            f()
        except Exception:
            pass
    e.persistent()
    return e


class Boom(Exception):
    pass


class BadKey(object):
    def __hash__(self):
        return 0

    def __eq__(self, o):
        raise Boom


def boom():
    yield 1
    raise Boom


def fail(x):
    for f in (lambda: x.extend(boom()), lambda: x.update(boom()), lambda: x.remove(BadKey()), lambda: BadKey() in x, lambda: x.index(BadKey()), lambda: x.set(BadKey(), 1), lambda: x.mcons(boom()), lambda: x.add(BadKey()), lambda: x[10 ** 6], lambda: x['gone'],
              lambda: x.transform([lambda k: boom().__next__() and 1 // 0], 1)):
        call(f)


def read(x):
    for f in (lambda: hash(x), lambda: repr(x), lambda: len(x), lambda: x == x, lambda: x == update(x)[0], lambda: list(x), lambda: V(0) in x, lambda: K(0) in x, lambda: x.count(V(0)), lambda: x.index(V(0)), lambda: x.serialize()):
        call(f)


def with_views(iters, x):
    if len(iters) < 3:
        return iters
    # several iterators over one view
    ks, vs, its = x.keys(), x.values(), x.items()
    return iters[:-3] + [('kept keys', lambda m: iter(ks)), ('kept values', lambda m: iter(vs)), ('kept items', lambda m: iter(its))]


class Walk(object):
    """A collection and iterators over it."""
    def __init__(self, ctx, kind, n):
        self.ctx = ctx
        self.name, make, self.iters = kind
        self.x, other = make(n)
        self.want = {}
        if type(other) is list:
            self.want = {'iter': other, 'reversed': other[::-1]}
        else:
            # a twin of the collection shows the order; the collection itself has not been iterated over yet
            self.iters = with_views(kind[2], other)
            for iname, f in self.iters:
                self.want[iname] = [self.plain(iname, y) for y in f(other)]
            if len(self.want['iter']) != len(other):
                bad('%d elements in a %s of length %d' % (len(self.want['iter']), self.name, len(other)), (self.name, n))
            if len(self.iters) > 1:
                w = self.want
                if w['items'] != list(zip(w['iter'], w['values'])) or any(w[a] != w[b] for a, b in (('iteritems', 'items'), ('keys', 'iter'), ('iterkeys', 'iter'), ('itervalues', 'values'), ('kept keys', 'iter'), ('kept values', 'values'), ('kept items', 'items'))):
                    bad('keys, values and items are not in step', (self.name, n))
            self.iters = with_views(kind[2], self.x)
        self.open = []
        self.funcs = dict(self.iters)
        self.kept = []

    @staticmethod
    def plain(iname, y):
        """What the iterator gave (pairs are made afresh)."""
        return (y[0], y[1]) if iname in PAIRS else y

    def start(self, iname):
        it = self.funcs[iname](self.x)
        if iter(it) is not it:
            bad('iter() of an iterator is another object', (self.name, iname))
        self.open.append([iname, it, 0])
        return len(self.open) - 1

    def next(self, i, tr):
        iname, it, pos = o = self.open[i]
        want = self.want[iname]
        self.ctx.step()
        try:
            y = next(it)
        except StopIteration:
            if pos < len(want):
                bad('iterator %d (%s) ends after %d of %d elements' % (i, iname, pos, len(want)), tr)
            return
        if pos >= len(want):
            bad('iterator %d (%s) gives %s after its end' % (i, iname, short(y)), tr)
        w = want[pos]
        if iname in PAIRS:
            ok = type(y) is tuple and len(y) == 2 and y[0] is w[0] and y[1] is w[1]
        else:
            ok = y is w
        if not ok:
            bad('iterator %d (%s) gives %s at position %d, expected %s' % (i, iname, short(y), pos, short(w)), tr)
        o[2] = pos + 1

    def disturb(self, ev, tr):
        x = self.x
        if ev == 'none' or x is None and ev != 'gc':
            return
        if ev == 'update':
            self.kept.append(update(x))
        elif ev == 'evolve':
            self.kept.append(evolve(x))
        elif ev == 'fail':
            fail(x)
        elif ev == 'read':
            read(x)
        elif ev == 'gc':
            gc.collect()
        elif ev == 'drop':
            self.x = None
            del x
            gc.collect(0)
            self.kept.append([[None] * 32 for _ in range(4)])
        elif ev == 'whole':
            for iname, f in self.iters:
                got = [self.plain(iname, y) for y in f(x)]
                w = self.want[iname]
                if len(got) != len(w) or any(a is not b and (type(a) is not tuple or a[0] is not b[0] or a[1] is not b[1]) for a, b in zip(got, w)):
                    bad('a whole iteration (%s) in between gives %s, expected %s' % (iname, short(got), short(w)), tr)
        elif ev == 'abandon':
            for iname, f in self.iters:
                it = f(x)
                next(it, None)
                del it
        elif ev == 'finish':
            for iname, f in self.iters:
                it = f(x)
                for _ in it:
                    pass
                self.kept.append(it)
        elif ev == 'copy':
            self.kept.append(copy.copy(x))
        elif ev == 'same':
            # iterators over derived values that are open at the same time
            for y in update(x)[:6]:
                if hasattr(y, '__iter__'):
                    it = iter(y)
                    next(it, None)
                    self.kept.append(it)


def interleavings(a, b):
    """All orders of a steps of iterator 0 and b steps of iterator 1."""
    if not a:
        yield (1,) * b
    elif not b:
        yield (0,) * a
    else:
        for r in interleavings(a - 1, b):
            yield (0,) + r
        for r in interleavings(a, b - 1):
            yield (1,) + r


def shards(tier):
    out = []
    for c in ('c', 'py'):
        out += [(c, ['pairs', p]) for p in range(NPART)] + [(c, ['triples', p]) for p in range(2)] + [(c, ['large', p]) for p in range(4)]
    return out


def run_shard(ctx, spec):
    classes()
    kinds()
    gc.collect()
    gc.disable()
    gc.freeze()         # what exists now is not looked at again, which makes collections cheap
    try:
        globals()['run_' + spec[0]](ctx, *spec[1:])
    finally:
        gc.enable()


def chosen(ctx, iters):
    names = [i for i, _ in iters]
    if len(names) > 3:
        return [('iter', 'items'), ('values', 'keys'), ('items', 'items'), ('iteritems', 'itervalues'), ('iter', 'iter'), ('values', 'values'), ('iterkeys', 'values'), ('kept values', 'kept values'), ('kept items', 'kept items'), ('kept keys', 'kept keys'), ('kept items', 'iter')]
    return list(product(names, repeat=2))


def run_pairs(ctx, part):
    n_ = 0
    for kind in kinds():
        if ctx.quick and ctx.config == 'py' and kind[0] not in ('vector', 'grown vector', 'evolved vector', 'slice', 'map', 'checked map', 'set'):
            continue
        for n in range(0, 4 if ctx.quick else 5):
            for pair in chosen(ctx, kind[2]):
                for order in interleavings(n + 1, n + 1):
                    n_ += 1
                    if n_ % NPART != part:
                        continue
                    evs = [(e,) for e in EVENTS] if ctx.quick or n > 2 else list(product(EVENTS, EVENTS[1:]))
                    if ctx.quick and n == 3:
                        evs = [('none',), ('drop',)] if order[0] == 0 else []
                    for ev in evs:
                        for at in range(len(order) + 1) if ev[0] != 'none' else (0,):
                            for late in (False, True) if ev[0] in ('none', 'update', 'evolve', 'abandon', 'drop') else (False,):
                                tr = (kind[0], n, pair, order, ev, at, late)
                                ctx.trace(tr)
                                w = Walk(ctx, kind, n)
                                if late:
                                    w.start(pair[0])
                                else:
                                    w.start(pair[0])
                                    w.start(pair[1])
                                if late and (at == 0 or ev[0] == 'drop' or order[0] == 1):
                                    w.start(pair[1])
                                for k, i in enumerate(order):
                                    if k == at:
                                        for e in ev:
                                            w.disturb(e, tr)
                                    if i >= len(w.open):
                                        w.start(pair[1])
                                    w.next(i, tr)
                                if at == len(order):
                                    for e in ev:
                                        w.disturb(e, tr)
                                    w.next(0, tr)
                                    w.next(1, tr)
                                w.disturb('whole', tr)
                    ctx.state((kind[0], n, pair, order))


def run_triples(ctx, part):
    n = 2
    base = (0,) * (n + 1) + (1,) * (n + 1) + (2,) * (n + 1)
    orders = sorted(set(permutations(base[:6]))) if False else sorted(three(n + 1, n + 1, n + 1))
    k_ = 0
    for kind in kinds():
        names = [i for i, _ in kind[2]]
        combos = [(names[0], names[-1], names[len(names) // 2])] + ([('iter',) * 3] if len(names) > 1 else [])
        for combo in combos:
            for order in orders:
                k_ += 1
                if k_ % 2 != part:
                    continue
                tr = (kind[0], n, combo, order)
                ctx.trace(tr)
                ctx.state(tr)
                w = Walk(ctx, kind, n)
                for c in combo:
                    w.start(c)
                for i in order:
                    w.next(i, tr)
                for i in range(3):
                    w.next(i, tr)
                w.disturb('whole', tr)


def three(a, b, c):
    if a + b + c == 0:
        return {()}
    out = set()
    if a:
        out |= {(0,) + r for r in three(a - 1, b, c)}
    if b:
        out |= {(1,) + r for r in three(a, b - 1, c)}
    if c:
        out |= {(2,) + r for r in three(a, b, c - 1)}
    return out


def run_large(ctx, part):
    sizes = (31, 32, 33, 64, 65, 97, 1025, 1057)
    k_ = 0
    for kind in kinds():
        if kind[0] == 'record':
            continue
        for n in sizes:
            if n > 100 and kind[0] == 'fixed map':
                continue
            for pair in ([('iter', 'iter'), ('iter', 'reversed'), ('reversed', 'reversed')] if len(kind[2]) == 2 else [('iter', 'items'), ('values', 'values')] if len(kind[2]) > 2 else [('iter', 'iter')]):
                for lag in (0, 1, 2, 31, 32, 33):
                    for ev in ('none', 'update', 'evolve', 'drop', 'whole', 'gc') if ctx.quick else EVENTS:
                        if n > 100 and kind[2] is MAP_ITERS and ev not in ('none', 'drop', 'evolve'):
                            continue
                        k_ += 1
                        if k_ % 4 != part:
                            continue
                        near = [0, 1, n - 1, n] + [p for b in (32, 64, 1024, 1056) for p in (b - 1, b, b + 1)]
                        near = sorted({p for p in near if 0 <= p <= n}) if (ctx.quick or n > 100) else range(n + 1)
                        if n > 100 and ctx.quick:
                            near = near[::4] if lag in (0, 32) else near[1::6]
                        if ev == 'none':
                            near = near[:1]
                        for at in near:
                            tr = (kind[0], n, pair, lag, ev, at)
                            ctx.trace(tr)
                            ctx.state(tr)
                            w = Walk(ctx, kind, n)
                            w.start(pair[0])
                            w.start(pair[1])
                            for k in range(n + lag + 1):
                                if k == at:
                                    w.disturb(ev, tr)
                                if k <= n:
                                    w.next(0, tr)
                                if k >= lag:
                                    w.next(1, tr)
                            w.next(0, tr)
                            w.next(1, tr)
                            w.disturb('whole', tr)
