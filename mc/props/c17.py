"""C17: the C vector never loses, leaks or prematurely frees objects.

Elements are counted objects (LIVE holds the numbers of those alive); models hold numbers, never the objects, so the
vectors and evolvers under test are the only owners.
"""
import gc
import sys
import weakref
from itertools import permutations, product

from core import call, outcome_class, short
from maps import bad

BOUNDS = {
    'quick': 'all programs of 2 operations at 16 trie shapes (0..2113 elements) and of 3 operations at 7 shapes over 26 vector, evolver and iterator operations applied to any value obtained so far, all values then released in '
             'every order (up to 4 values) with exact liveness of every element checked after each release; block and reference counts of every 1-operation program repeated; a failure at every iteration step, comparison, hash and '
             'repr; 11 re-entrant actions (collection, update, release, commit) at every callback incl. finalizers of replaced, deleted and released elements; collections with garbage cycles through vectors sharing '
             'nodes with live ones; programs of 2 operations and everything re-entrant also under AddressSanitizer',
    'thorough': 'as quick with programs of 3 operations at all shapes and 4 operations at 3 shapes',
}
ASSUMPTIONS = ['garbage cycles running through trie nodes shared by several vectors may stay uncollected', 'contents of an evolver that a callback of its own operation changes are not specified, only that it stays usable',
               'an evolver may keep the elements it ever held alive']

LIVE = set()


class T(object):
    """A counted element."""
    __slots__ = ('n', 'hook', 'ref', '__weakref__')

    def __init__(self, n):
        self.n = n
        self.hook = None
        self.ref = None
        LIVE.add(n)

    def __del__(self):
        LIVE.discard(self.n)
        h = self.hook
        if h is not None:
            self.hook = None
            h()

    def __repr__(self):
        return 'T%r' % (self.n,)


def shards(tier):
    out = []
    q = tier == 'quick'
    for n in SHAPES:
        out.append(('c', ['programs', 2 if q else 3, n, 0, 1]) if n > 70 or q else ('c', ['programs', 3, n, 0, 1]))
        out.append(('asan', ['programs', 2, n, 0, 1]))
    for n in SHAPES3:
        for part in range(3):
            out.append(('c', ['programs', 3, n, part, 3]))
    if not q:
        for n in (1, 32, 33):
            for part in range(8):
                out.append(('c', ['programs', 4, n, part, 8]))
    for config in ('c', 'asan'):
        out.append((config, ['faults']))
        for part in range(3):
            out.append((config, ['reentry', part]))
        out.append((config, ['cycles']))
        out.append((config, ['large']))
    out.append(('c', ['blocks', 0]))
    out.append(('c', ['blocks', 1]))
    return out


def weight(config, spec):
    w = {'programs': 6, 'blocks': 3, 'reentry': 4}.get(spec[0], 2)
    if spec[0] == 'programs':
        w += 10 * (spec[1] - 2)
        if spec[2] > 1000:
            w += 4
    return w * (3 if config == 'asan' else 1)


SHAPES = [0, 1, 2, 31, 32, 33, 63, 64, 65, 96, 1023, 1024, 1055, 1056, 1057, 2113]
SHAPES3 = [0, 1, 31, 32, 33, 64, 65]


def run_shard(ctx, spec):
    gc.collect()
    gc.freeze()
    gc.disable()
    globals()['run_' + spec[0]](ctx, *spec[1:])


class World(object):
    """Entities under test: [kind, object, required numbers (list, in order), allowed extra numbers (set)]"""

    def __init__(self):
        self.next = 0
        self.ents = []

    def fresh(self, k):
        ns = list(range(self.next, self.next + k))
        self.next += k
        return ns, [T(n) for n in ns]


def positions(n):
    """A few positions: first, in the tree, last of the tree, first of the tail, last."""
    t = 0 if n < 32 else ((n - 1) >> 5) << 5
    return sorted({p for p in (0, 31, t - 1, t, n - 1) if 0 <= p < n})


# operations: function (world, entity) -> None; they add entities or change the evolver; they return False if they do not
# apply to the entity

def vec_ops(small):
    ops = []

    def op(name):
        def deco(f):
            ops.append((name, 'v', f))
            return f
        return deco

    @op('append')
    def _(w, e):
        ns, ts = w.fresh(1)
        w.ents.append(['v', e[1].append(ts[0]), e[2] + ns, ()])

    for k in (0, 1, 33):
        def f(w, e, k=k):
            ns, ts = w.fresh(k)
            w.ents.append(['v', e[1].extend(iter(ts)), e[2] + ns, ()])
        ops.append(('extend %d' % k, 'v', f))

    for which in range(3):
        def f(w, e, which=which):
            ps = positions(len(e[2]))
            if which == 0:
                p = ps[0] if ps else None
            elif which == 1:
                p = ps[len(ps) // 2] if len(ps) > 2 else None
            else:
                p = len(e[2]) - 1 if len(ps) > 1 else None
            if p is None:
                return False
            ns, ts = w.fresh(1)
            m = list(e[2])
            m[p] = ns[0]
            w.ents.append(['v', e[1].set(p, ts[0]), m, ()])
        ops.append(('set %d' % which, 'v', f))

    @op('set end')
    def _(w, e):
        ns, ts = w.fresh(1)
        w.ents.append(['v', e[1].set(len(e[2]), ts[0]), e[2] + ns, ()])

    @op('mset')
    def _(w, e):
        ps = positions(len(e[2]))
        if not ps:
            return False
        ns, ts = w.fresh(3)
        m = list(e[2])
        m[ps[0]] = ns[0]
        m[ps[-1]] = ns[1]
        w.ents.append(['v', e[1].mset(ps[0], ts[0], ps[-1], ts[1], len(m), ts[2]), m + [ns[2]], ()])

    @op('mset fails')
    def _(w, e):
        ns, ts = w.fresh(3)
        if call(e[1].mset, len(e[2]), ts[0], 0, ts[1], len(e[2]) + 5, ts[2])[0] == 'ok':
            bad('mset accepted an index out of range', 'mset')

    @op('delete first')
    def _(w, e):
        if not e[2]:
            return False
        w.ents.append(['v', e[1].delete(0), e[2][1:], ()])

    @op('delete last')
    def _(w, e):
        if not e[2]:
            return False
        w.ents.append(['v', e[1].delete(-1), e[2][:-1], ()])

    @op('delete range')
    def _(w, e):
        w.ents.append(['v', e[1].delete(1, 3), e[2][:1] + e[2][3:], ()])

    @op('remove')
    def _(w, e):
        if not e[2]:
            return False
        p = len(e[2]) // 2
        w.ents.append(['v', e[1].remove(e[1][p]), [x for i, x in enumerate(e[2]) if i != e[2].index(e[2][p])], ()])

    @op('slice')
    def _(w, e):
        w.ents.append(['v', e[1][1:], e[2][1:], ()])

    @op('slice step')
    def _(w, e):
        w.ents.append(['v', e[1][::-2], e[2][::-2], ()])

    @op('plus')
    def _(w, e):
        o = w.ents[0]
        if o[0] != 'v' or len(e[2]) + len(o[2]) > 3000:
            return False
        w.ents.append(['v', e[1] + o[1], e[2] + o[2], ()])

    @op('times')
    def _(w, e):
        if len(e[2]) > 1200:
            return False
        w.ents.append(['v', e[1] * 2, e[2] * 2, ()])

    @op('iterator')
    def _(w, e):
        it = iter(e[1])
        k = min(2, len(e[2]))
        for _ in range(k):
            next(it)
        w.ents.append(['i', it, e[2][k:], set(e[2])])

    @op('evolver')
    def _(w, e):
        w.ents.append(['e', e[1].evolver(), list(e[2]), set(e[2])])

    @op('reads')
    def _(w, e):
        v, m = e[1], e[2]
        hash(v), repr(v), v == v, v == list(v), v.count(None), None in v, v < v, tuple(v), reversed(v), len(v), bool(v), v.__reduce__()
        if m and v.index(v[-1]) < 0:
            bad('index', 'reads')

    @op('transform')
    def _(w, e):
        if not e[2]:
            return False
        ns, ts = w.fresh(1)
        w.ents.append(['v', e[1].transform([0], ts[0]), ns + e[2][1:], ()])
    return ops


def ev_ops(small):
    ops = []

    for which in range(2):
        def f(w, e, which=which):
            if not e[2]:
                return False
            p = -which % len(e[2])
            ns, ts = w.fresh(1)
            e[1][p] = ts[0]
            e[2][p] = ns[0]
            e[3].update(ns)
        ops.append(('e.set %d' % which, 'e', f))

    def f(w, e):
        if len(e[2]) < 34:
            return False
        ns, ts = w.fresh(1)
        e[1].set(31, ts[0])
        e[2][31] = ns[0]
        e[3].update(ns)
    ops.append(('e.set tree', 'e', f))

    def f(w, e):
        ns, ts = w.fresh(1)
        e[1].append(ts[0])
        e[2] += ns
        e[3].update(ns)
    ops.append(('e.append', 'e', f))

    def f(w, e):
        ns, ts = w.fresh(33)
        e[1].extend(iter(ts))
        e[2] += ns
        e[3].update(ns)
    ops.append(('e.extend', 'e', f))

    def f(w, e):
        if not e[2]:
            return False
        p = len(e[2]) // 2
        del e[1][p]
        del e[2][p]
    ops.append(('e.delete', 'e', f))

    def f(w, e):
        w.ents.append(['v', e[1].persistent(), list(e[2]), ()])
    ops.append(('e.persistent', 'e', f))

    def f(w, e):
        if call(e[1].__setitem__, len(e[2]) + 3, None)[0] == 'ok' or call(e[1].__delitem__, len(e[2]) + 3)[0] == 'ok' or call(lambda: e[1][len(e[2])])[0] == 'ok':
            bad('evolver accepted an index out of range', 'evolver')
        len(e[1])
        e[1].is_dirty()
    ops.append(('e.fails', 'e', f))
    return ops


def content(e):
    if e[0] == 'v':
        return [t.n for t in e[1]]
    if e[0] == 'e':
        return [e[1][i].n for i in range(len(e[1]))]
    return None


def check_alive(w, ents, tr, deep):
    required = set()
    allowed = set()
    for e in ents:
        required.update(e[2])
        allowed.update(e[3])
    if not required <= LIVE:
        bad('elements %s were released while a live value holds them' % short(sorted(required - LIVE)), tr)
    extra = LIVE - required - allowed
    if extra:
        bad('elements %s are still alive though no live value holds them' % short(sorted(extra)), tr)
    if deep:
        for e in ents:
            if e[0] != 'i' and content(e) != e[2]:
                bad('contents %s, expected %s' % (short(content(e)), short(e[2])), tr)


def start(n):
    from pyrsistent import pvector
    w = World()
    ns, ts = w.fresh(n)
    w.ents.append(['v', pvector(ts), ns, ()])
    return w


def execute(n, prog, OPS):
    """prog: list of (entity index, op index).  None if a step does not apply."""
    w = start(n)
    for ei, oi in prog:
        if ei >= len(w.ents) or w.ents[ei][0] != OPS[oi][1]:
            return None
        if OPS[oi][2](w, w.ents[ei]) is False:
            return None
    return w


def run_programs(ctx, depth, n, part, parts):
    OPS = vec_ops(n <= 65) + ev_ops(n <= 65)
    if depth > 2 and n > 33:
        OPS = [o for o in OPS if o[0] not in ('extend 0', 'reads', 'transform', 'slice step', 'mset fails', 'delete range', 'extend 1', 'set end')]
    count = [0]

    def explore(prog):
        w = execute(n, prog, OPS)
        if w is None:
            LIVE_clear(w)
            return
        tr = lambda: ('size %d' % n, [(ei, OPS[oi][0]) for ei, oi in prog])
        ctx.trace(tr)
        ctx.step(len(prog))
        k = len(w.ents)
        kinds = [e[0] for e in w.ents]
        lens = [len(e[2]) for e in w.ents]
        if n < 1000 or len(prog) < depth:
            ctx.state((n, tuple(prog)))
        check_alive(w, w.ents, tr, True)
        if len(prog) == depth or depth == 2:
            # release in every order
            orders = list(permutations(range(k))) if k <= 3 or (k == 4 and n < 70 and depth == 2) else [tuple(range(k)), tuple(range(k))[::-1], tuple(range(1, k)) + (0,)]
            if n > 1000:
                orders = orders[:1] + orders[-1:] if k > 1 else orders
            for order in orders:
                if w is None:
                    w = execute(n, prog, OPS)
                ents = list(w.ents)
                w.ents = []
                rest = list(range(k))
                for j in order:
                    rest.remove(j)
                    ents[j] = None
                    check_alive(w, [ents[r] for r in rest], tr, n < 1000 and len(order) <= 3)
                if LIVE:
                    bad('elements %s leaked' % short(sorted(LIVE)), tr)
                w = None
        else:
            w.ents = []
            w = None
            if LIVE:
                bad('elements %s leaked' % short(sorted(LIVE)), tr)
        if len(prog) < depth:
            for ei in range(k):
                for oi in range(len(OPS)):
                    if OPS[oi][1] != kinds[ei]:
                        continue
                    if OPS[oi][0] == 'times' and lens[ei] > 300:
                        continue
                    if len(prog) == 0:
                        count[0] += 1
                        if count[0] % parts != part:
                            continue
                    explore(prog + [(ei, oi)])

    def LIVE_clear(w):
        if w is not None:
            w.ents = []
        if LIVE:
            bad('elements %s leaked' % short(sorted(LIVE)), 'an operation that does not apply')
    explore([])


# -- block and reference counts ---------------------------------------------------------------

class Bomb(Exception):
    pass


def bomb_iter(n, k):
    for i in range(n):
        if i == k:
            raise Bomb
        yield i


class OldSeq(object):
    """Iterable by __getitem__ only."""

    def __init__(self, n, k=None):
        self.n, self.k = n, k

    def __getitem__(self, i):
        if i == self.k:
            raise Bomb
        if i >= self.n:
            raise IndexError
        return i


class BadIter(object):
    def __iter__(self):
        raise Bomb


class NotIter(object):
    pass


class EqBomb(object):
    """Raises at the k-th comparison."""

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        self.k -= 1
        if self.k < 0:
            raise Bomb
        return False

    def __lt__(self, o):
        raise Bomb

    __hash__ = None

    def __repr__(self):
        raise Bomb


def simple_programs(n):
    """(name, function without arguments), to be called over and over."""
    from pyrsistent import pvector
    data = [str(i) for i in range(n)]
    v = pvector(data)
    last = n - 1
    out = []

    def add(name, f):
        out.append((name, f))
    add('pvector()', lambda: pvector())
    add('pvector(list)', lambda: pvector(data))
    add('pvector(iter)', lambda: pvector(iter(data)))
    add('append', lambda: v.append(1))
    add('append twice', lambda: v.append(1).append(2))
    add('extend', lambda: v.extend(data))
    add('extend empty', lambda: v.extend([]))
    add('plus', lambda: v + v)
    add('plus list', lambda: v + [1, 2])
    add('times 0', lambda: v * 0)
    add('times 1', lambda: v * 1)
    add('times 3', lambda: v * 3 if n < 1000 else None)
    add('rtimes', lambda: 2 * v if n < 1000 else None)
    add('times bad', lambda: call(lambda: v * 'x'))
    for p in positions(n):
        add('set %d' % p, lambda p=p: v.set(p, 'new'))
        add('get %d' % p, lambda p=p: v[p])
        add('delete %d' % p, lambda p=p: v.delete(p))
        add('mset %d' % p, lambda p=p: v.mset(p, 1, 0, 2, n, 3))
        add('remove %d' % p, lambda p=p: v.remove(data[p]))
        add('index %d' % p, lambda p=p: v.index(data[p]))
    for bad_i in (n + 1, -n - 1, 'x', None, 1.5, 10 ** 30):
        add('get bad', lambda i=bad_i: call(lambda: v[i]))
        add('set bad', lambda i=bad_i: call(v.set, i, 'new'))
        add('mset bad', lambda i=bad_i: call(v.mset, n, 'a', i, 'new'))
        add('delete bad', lambda i=bad_i: call(v.delete, i))
        add('delete bad stop', lambda i=bad_i: call(v.delete, 0, i))
        add('evolver bad', lambda i=bad_i: call(v.evolver().set, i, 1))
        add('evolver del bad', lambda i=bad_i: call(v.evolver().delete, i))
        add('evolver get bad', lambda i=bad_i: call(lambda: v.evolver()[i]))
        add('evolver bad after set', lambda i=bad_i: call(v.evolver().set(n, 1).set, i, 1))
        add('index bad', lambda i=bad_i: call(v.index, 'absent', i))
        add('slice bad', lambda i=bad_i: call(lambda: v[i:]))
    add('set end', lambda: v.set(n, 1))
    add('mset odd', lambda: call(v.mset, 1))
    add('mset none', lambda: v.mset())
    add('delete range', lambda: v.delete(0, 2))
    add('delete all', lambda: v.delete(0, n))
    add('remove absent', lambda: call(v.remove, 'absent'))
    add('index absent', lambda: call(v.index, 'absent'))
    add('index no args', lambda: call(v.index))
    add('count', lambda: v.count('1'))
    add('contains', lambda: 'absent' in v)
    for sl in (slice(None), slice(1, None), slice(None, -1), slice(None, None, -1), slice(5, 2), slice(0, 1), slice(None, None, 2)):
        add('slice', lambda sl=sl: v[sl])
    add('slice zero step', lambda: call(lambda: v[::0]))
    add('iter', lambda: iter(v))
    add('iter some', lambda: next(iter(v), None))
    add('iter all', lambda: list(v))
    it_done = lambda: (lambda it: (list(it), next(it, None), next(it, None)))(iter(v))
    add('iter exhausted', it_done)
    add('reversed', lambda: list(reversed(v)))
    add('tolist', lambda: v.tolist())
    add('hash', lambda: hash(v))
    add('repr', lambda: repr(v))
    add('reduce', lambda: v.__reduce__())
    w = pvector(data)
    x = pvector(data[:-1] + ['other'])
    for name, o in (('vector', w), ('other vector', x), ('list', list(data)), ('tuple', tuple(data)), ('none', None), ('int', 5), ('shorter', pvector(data[:-1])), ('self', v)):
        add('eq ' + name, lambda o=o: (v == o, o == v))
        add('ne ' + name, lambda o=o: (v != o, o != v))
        add('lt ' + name, lambda o=o: (call(lambda: v < o), call(lambda: o < v)))
        add('le ' + name, lambda o=o: (call(lambda: v <= o), call(lambda: o >= v)))
    add('evolver', lambda: v.evolver())
    add('evolver persistent', lambda: v.evolver().persistent())
    add('evolver append', lambda: v.evolver().append(1))
    add('evolver append persistent', lambda: v.evolver().append(1).persistent())
    add('evolver extend', lambda: v.evolver().extend(data))
    add('evolver extend persistent', lambda: v.evolver().extend(data).persistent())
    add('evolver extend none', lambda: call(v.evolver().extend, None))
    for p in positions(n):
        add('evolver set', lambda p=p: v.evolver().set(p, 1))
        add('evolver set twice', lambda p=p: v.evolver().set(p, 1).set(p, 2).persistent())
        add('evolver set dirty drop', lambda p=p: v.evolver().set(p, 1).set(0, 2))
        add('evolver set persistent', lambda p=p: v.evolver().set(p, 1).persistent())
        add('evolver set append persistent', lambda p=p: v.evolver().set(p, 1).append(3).persistent())
        add('evolver delete', lambda p=p: v.evolver().delete(p))
        add('evolver delete persistent', lambda p=p: v.evolver().delete(p).persistent())
        add('evolver set delete', lambda p=p: v.evolver().set(p, 1).append(2).delete(p))
        add('evolver persist set persist', lambda p=p: (lambda e: (e.persistent(), e.set(p, 1).persistent(), e.set(p, 2).persistent(), e.append(1).persistent(), e.persistent()))(v.evolver().append(0)))
        add('evolver getitem', lambda p=p: (lambda e: (e[p], e[-1]))(v.evolver().append(9)))
        add('evolver setitem', lambda p=p: (lambda e: (e.__setitem__(p, 3), e.__setitem__(n, 4), e.__setitem__(n, 5), e.__delitem__(n), e.is_dirty(), len(e)))(v.evolver()))
    add('transform', lambda: v.transform([0], 'x'))
    add('transform all', lambda: v.transform([lambda i: True], lambda x: x))
    add('transform raises', lambda: call(v.transform, [lambda i: 1 / 0], 1))
    add('weakref', lambda: weakref.ref(v.append(1)))
    for k in sorted({0, 1, 2, 31, 32, 33, n // 2}):
        for name, mk in (('generator', lambda k=k: bomb_iter(100, k)), ('sequence', lambda k=k: OldSeq(100, k))):
            add('extend fails', lambda mk=mk: call(v.extend, mk()))
            add('plus fails', lambda mk=mk: call(lambda: v + mk()))
            add('pvector fails', lambda mk=mk: call(pvector, mk()))
            add('evolver extend fails', lambda mk=mk: call(v.evolver().extend, mk()))
            add('evolver set extend fails', lambda mk=mk: call(v.evolver().append(1).extend, mk()))
    for o in (BadIter(), NotIter(), None, 5):
        add('extend not iterable', lambda o=o: call(v.extend, o))
        add('pvector not iterable', lambda o=o: call(pvector, o))
        add('plus not iterable', lambda o=o: call(lambda: v + o))
        add('evolver extend not iterable', lambda o=o: call(v.evolver().extend, o))
    for k in sorted({0, 1, min(31, last), last, n // 2}):
        if k < 0:
            continue
        add('remove comparison fails', lambda k=k: call(v.remove, EqBomb(k)))
        add('index comparison fails', lambda k=k: call(v.index, EqBomb(k)))
        add('count comparison fails', lambda k=k: call(v.count, EqBomb(k)))
        add('contains comparison fails', lambda k=k: call(lambda: EqBomb(k) in v))
        vb = pvector(data[:k] + [EqBomb(0)] + data[k + 1:])
        add('eq fails', lambda vb=vb: call(lambda: vb == v))
        add('eq list fails', lambda vb=vb: call(lambda: vb == list(v)))
        add('lt fails', lambda vb=vb: call(lambda: vb < v))
        add('hash fails', lambda vb=vb: call(hash, vb))
        add('repr fails', lambda vb=vb: call(repr, vb))
    return out


def run_blocks(ctx, half):
    from pyrsistent import pvector
    empty = pvector()
    for n in (SHAPES if half == 0 else SHAPES3 + [2113])[:: 1 if half == 0 else 2]:
        progs = simple_programs(n)
        if half == 1:
            # pairs of programs, results kept across
            progs = [(a[0] + '; ' + b[0], lambda f=a[1], g=b[1]: (f(), g())) for a in progs[::4] for b in progs[::7]]
        for name, f in progs:
            tr = ('blocks', n, name)
            ctx.trace(tr)
            ctx.step()
            ctx.state(tr)
            reps = 8 if half == 0 else 4
            for _ in range(3 if half == 0 else 1):
                f()
            for attempt, calls in enumerate((reps, reps, 60, 500, 500)):
                r0 = sys.getrefcount(empty)
                b0 = sys.getallocatedblocks()
                for _ in range(calls):
                    f()
                d = sys.getallocatedblocks() - b0
                dr = sys.getrefcount(empty) - r0
                if d < calls * 9 // 10 and abs(dr) < calls * 9 // 10:
                    break
            else:
                # the interpreter's own free lists are full by now
                if d >= calls * 9 // 10:
                    bad('every call leaks memory: %d blocks more after %d calls' % (d, calls), tr)
                bad('the reference count of the empty vector changed by %d in %d calls' % (dr, calls), tr)


# -- failures ----------------------------------------------------------------------------------

def run_faults(ctx):
    """Elements are counted, a callback fails at every position."""
    from pyrsistent import pvector
    sizes = (0, 1, 31, 32, 33, 64, 65) if ctx.config == 'c' else (0, 1, 32, 33, 65)

    def tokens(w, total, k):
        for i in range(total):
            if i == k:
                raise Bomb
            yield w.fresh(1)[1][0]
    for n in sizes:
        for k in range(0, 70):
            for name in ('extend', 'plus', 'pvector', 'evolver', 'dirty evolver', 'evolver after delete'):
                w = start(n)
                tr = ('failing iterable', name, n, k)
                ctx.trace(tr)
                ctx.state(tr)
                ctx.step()
                v = w.ents[0][1]
                it = tokens(w, 80, k)
                if name == 'extend':
                    r = call(v.extend, it)
                elif name == 'plus':
                    r = call(lambda: v + it)
                elif name == 'pvector':
                    r = call(pvector, it)
                else:
                    e = v.evolver()
                    if name != 'evolver':
                        e.append(None)
                        e.set(0, None)
                    if name == 'evolver after delete':
                        e.delete(0)
                    r = call(e.extend, it)
                    e = None
                if outcome_class(r) != 'Bomb':
                    bad('the exception of the iterator does not arrive: %s' % short(r), tr)
                r = it = None
                check_alive(w, w.ents, tr, True)
                v = None
                w.ents = []
                if LIVE:
                    bad('elements %s leaked' % short(sorted(LIVE)), tr)
        # comparisons
        class E(T):
            __slots__ = ('armed',)

            def __eq__(self, o):
                if getattr(self, 'armed', False):
                    raise Bomb
                return self is o

            def __lt__(self, o):
                if getattr(self, 'armed', False):
                    raise Bomb
                return False

            def __hash__(self):
                if getattr(self, 'armed', False):
                    raise Bomb
                return 1

            def __repr__(self):
                if getattr(self, 'armed', False):
                    raise Bomb
                return 'E'
        for k in range(n):
            w = World()
            ts = [E(i) for i in range(n)]
            ts[k].armed = True
            v = pvector(ts)
            u = pvector([E(1000 + i) for i in range(n)])
            same = pvector(ts[:k] + [1] + ts[k + 1:])
            ns = list(range(n))
            del ts
            lst = list(same)
            for name, f in (('remove', lambda: v.remove(1)), ('index', lambda: v.index(1)), ('count', lambda: v.count(1)), ('in', lambda: 1 in v), ('hash', lambda: hash(v)), ('repr', lambda: repr(v)),
                            ('eq', lambda: v == same), ('ne', lambda: v != same), ('eq list', lambda: v == lst), ('lt', lambda: v < same), ('list le', lambda: lst <= v), ('str', lambda: str(v))):
                tr = ('failing element', name, n, k)
                ctx.trace(tr)
                ctx.step()
                r = call(f)
                if outcome_class(r) != 'Bomb':
                    bad('the exception of the element does not arrive: %s' % short(r), tr)
                r = None
            if len(LIVE) != 2 * n:
                bad('elements died', ('failing element', n, k))
            if [t.n for t in v] != ns:
                bad('contents changed', ('failing element', n, k))
            v = u = same = lst = f = None
            if LIVE:
                bad('elements %s leaked' % short(sorted(LIVE)), ('failing element', n, k))


# -- re-entrancy -------------------------------------------------------------------------------

def actions():
    """Things a callback may do; each gets a box with the vector 'v', the evolver 'e' and kept values."""
    def new(box):
        return T(('new', next(box['fresh'])))
    return [('nothing', lambda b: None),
            ('collect', lambda b: gc.collect()),
            ('e.set', lambda b: b['e'].set(0, new(b))),
            ('e.set last', lambda b: b['e'].set(len(b['e']) - 1, new(b))),
            ('e.append', lambda b: b['e'].append(new(b))),
            ('e.extend', lambda b: b['e'].extend([new(b) for _ in range(40)])),
            ('e.delete', lambda b: b['e'].delete(0)),
            ('e.persistent', lambda b: b['kept'].append(b['e'].persistent())),
            ('e.persistent, set', lambda b: (b['kept'].append(b['e'].persistent()), b['e'].set(0, new(b)), b['e'].append(new(b)))),
            ('v', lambda b: b['kept'].append(b['v'].append(new(b)).set(0, new(b)))),
            ('drop', lambda b: (b.pop('v', None), b.pop('e', None), b['kept'].clear())),
            ('raise', lambda b: 1 / 0)]


class CB(T):
    """An element whose comparison, hash and repr run a callback."""
    __slots__ = ('cb',)

    def fire(self):
        cb = getattr(self, 'cb', None)
        if cb is not None:
            cb()

    def __eq__(self, o):
        self.fire()
        return self is o

    def __hash__(self):
        self.fire()
        return 7

    def __repr__(self):
        self.fire()
        return 'CB'

    def __lt__(self, o):
        self.fire()
        return False


def readable(v):
    """Read everything of a vector; all elements are alive."""
    for t in v:
        if isinstance(t, T) and t.n not in LIVE:
            return 'element %r was released' % (t.n,)
    if v.tolist() != list(v) or len(v) != len(list(v)):
        return 'inconsistent'


def run_reentry(ctx, part):
    from itertools import count
    from pyrsistent import pvector
    sizes = (1, 2, 31, 32, 33, 34, 64, 65) if ctx.config == 'c' else (1, 2, 32, 33, 65)
    if not ctx.quick:
        sizes = sizes + (1057,)
    idx = 0
    for n in sizes:
        for prep in ('fresh', 'append', 'set', 'set append', 'committed', 'all dirty'):
            for aname, act in actions():
                for opname in ('pvector', 'extend', 'e.extend', 'e.set', 'e.set twice', 'e.delete', 'e.delete twice', 'e.persistent', 'drop e', 'drop v', 'iterate', 'remove', 'eq', 'hash', 'repr', 'index', 'e.set pending', 'lt', 'mset', 'transform'):
                    idx += 1
                    if idx % 3 != part:
                        continue
                    one_reentry(ctx, n, prep, aname, act, opname, count())


def one_reentry(ctx, n, prep, aname, act, opname, fresh):
    from pyrsistent import pvector
    tr = ('re-entry', n, prep, aname, opname)
    ctx.trace(tr)
    ctx.state(tr)
    ctx.step()
    box = {'kept': [], 'fresh': fresh}
    fired = [0]

    def cb(limit=1):
        if fired[0] < limit:
            fired[0] += 1
            act(box)
    ts = [CB(i) for i in range(n)]
    # finalizers of the first, a middle and the last element, and callbacks of comparison etc.
    marked = sorted({0, n // 2, n - 1})
    for i in marked:
        ts[i].cb = cb
        ts[i].hook = cb
    box['v'] = v = pvector(ts)
    other = pvector([x for x in ts[:-1]] + [CB('other')])
    if opname not in ('eq', 'lt'):
        other = None
    i = None
    del ts
    box['e'] = e = v.evolver()

    def tok():
        t = CB(('tok', next(fresh)))
        t.hook = cb
        return t
    if prep in ('append', 'set append'):
        e.append(tok())
    if prep in ('set', 'set append'):
        e.set(0, tok())
    if prep == 'committed':
        e.set(n - 1, tok())
        e.append(tok())
        box['kept'].append(e.persistent())
    if prep == 'all dirty':
        for i in range(n):
            e.set(i, tok())

    def gen():
        for j in range(3):
            cb(3)
            yield tok()
        cb(4)
    ops = {
        'pvector': lambda: pvector(gen()),
        'extend': lambda: v.extend(gen()),
        'e.extend': lambda: e.extend(gen()),
        'e.set': lambda: e.set(n - 1, None),
        'e.set twice': lambda: (e.set(n - 1, tok()), e.set(n - 1, None), e.set(0, None)),
        'e.delete': lambda: e.delete(n - 1),
        'e.delete twice': lambda: (e.delete(0), e.append(tok()), e.delete(0)),
        'e.persistent': lambda: e.persistent(),
        'iterate': lambda: [x == 0 for x in v],
        'remove': lambda: v.remove('absent'),
        'eq': lambda: v == other,
        'lt': lambda: v < other,
        'hash': lambda: hash(v),
        'repr': lambda: repr(v),
        'index': lambda: v.index('absent'),
        'e.set pending': lambda: (e.append(tok()), e.set(len(e) - 1, None)),
        'mset': lambda: v.mset(0, tok(), n - 1, tok(), 0, None),
        'transform': lambda: v.transform([lambda i: cb() or True], lambda x: cb() or 1),
    }
    res = None
    if opname in ops:
        if aname == 'drop':
            # the caller's own references are dropped by the callback as well
            pass
        res = call(ops[opname])
    elif opname == 'drop e':
        e = None
        ops = gen = None
        box.pop('e', None)
    elif opname == 'drop v':
        v = None
        ops = gen = None
        box.pop('v', None)
        if 'e' in box and aname != 'drop':
            e = None
            box['kept'].append(box['e'].persistent())
            box.pop('e', None)
    vals = [x for x in [v, box.get('v')] + box['kept'] if x is not None]
    if res is not None and res[0] == 'ok' and type(res[1]) is type(pvector()):
        vals.append(res[1])
    for x in vals:
        w = readable_fired(x, fired)
        if w:
            bad(w, tr)
    if e is not None:
        fired[0] = 100
        for j in range(len(e)):
            x = e[j]
            if isinstance(x, T) and x.n not in LIVE:
                bad('element %r of the evolver was released' % (x.n,), tr)
        p = e.persistent()
        if len(p) != len(e):
            bad('evolver inconsistent', tr)
        w = readable_fired(p, fired)
        if w:
            bad(w, tr)
    if v is not None and [t.n for t in v] != list(range(n)):
        bad('the vector changed: %s' % short([t.n for t in v]), tr)
    # everything goes
    fired[0] = 100
    x = w = p = vals = res = e = v = other = ops = gen = None
    box.clear()
    box['kept'] = []
    if LIVE:
        gc.collect()
    if LIVE:
        bad('elements %s leaked' % short(sorted(map(str, LIVE))), tr)


def readable_fired(v, fired):
    k = fired[0]
    fired[0] = 100        # no callbacks while looking
    try:
        return readable(v)
    finally:
        fired[0] = k


# -- garbage collection ------------------------------------------------------------------------

class Obj(object):
    """Has a __dict__ that a wrong collection would clear."""

    def __init__(self, n):
        self.n = n
        self.me = 'obj%r' % (n,)
        LIVE.add(n)

    def __del__(self):
        LIVE.discard(self.n)


def run_cycles(ctx):
    from pyrsistent import pmap, pset, pvector
    sizes = [1, 2, 31, 32, 33, 64, 65, 1056, 1057] if ctx.config == 'c' else [1, 2, 32, 33, 65]

    from itertools import count
    counter = count()

    def fresh():
        return ('x', next(counter))

    def derive():
        yield 'same', lambda v: v
        yield 'append', lambda v: v.append(Obj(fresh()))
        yield 'set first', lambda v: v.set(0, Obj(fresh()))
        yield 'set last', lambda v: v.set(len(v) - 1, Obj(fresh()))
        yield 'extend', lambda v: v.extend([Obj(fresh()) for i in range(40)])
        yield 'slice', lambda v: v[:-1]
        yield 'evolver set', lambda v: v.evolver().set(0, Obj(fresh())).persistent()
        yield 'evolver append', lambda v: v.evolver().append(Obj(fresh())).persistent()
        yield 'evolver kept', lambda v: v.evolver()
        yield 'evolver dirty', lambda v: v.evolver().set(0, Obj(fresh()))
        yield 'evolver pending', lambda v: v.evolver().append(Obj(fresh()))
        yield 'iterator', lambda v: iter(v)
        yield 'list', lambda v: v.tolist()
        yield 'delete', lambda v: v.delete(0)
        yield 'map', lambda v: pmap({'v': v})
        yield 'nested', lambda v: pvector([v, v.append(1)])

    def contents(x):
        if isinstance(x, list):
            return x
        if type(x).__name__ == 'pvector_evolver':
            return [x[i] for i in range(len(x))]
        return list(x)
    for n in sizes:
        for d1name, d1 in derive():
            for d2name, d2 in derive():
                if n > 100 and (d1name, d2name) not in (('same', 'set first'), ('append', 'set first'), ('set first', 'append'), ('evolver dirty', 'append'), ('evolver set', 'evolver append')):
                    continue
                for keep in ('both', 'first', 'second', 'none'):
                    tr = ('cycle', n, d1name, d2name, keep)
                    ctx.trace(tr)
                    ctx.state(tr)
                    ctx.step()
                    objs = [Obj(i) for i in range(n)]
                    v = pvector(objs)
                    a = d1(v)
                    b = d2(v)
                    for o in objs[:3] + objs[-3:]:
                        o.cycle = (v, a, b) if keep != 'first' else (v, b)
                    shared = d1name != 'list' or d2name != 'list'
                    first = objs[0]
                    del objs, v, o
                    first = None
                    if keep in ('second', 'none'):
                        a = None
                    if keep in ('first', 'none'):
                        b = None
                    gc.collect()
                    for x in (a, b):
                        if x is None:
                            continue
                        ys = contents(x) if type(x).__name__ not in ('PMap', 'pvector_iterator') else (list(x['v']) if type(x).__name__ == 'PMap' else list(x))
                        for y in ys:
                            if isinstance(y, Obj):
                                if y.n not in LIVE or y.__dict__.get('me') != 'obj%r' % (y.n,):
                                    bad('a collection destroyed the live object %r: %r' % (y.n, y.__dict__), tr)
                        y = ys = None
                    # break the cycles that may go through shared nodes
                    left = [o for o in gc.get_objects() if type(o) is Obj]
                    for o in left:
                        o.__dict__.pop('cycle', None)
                    x = left = o = a = b = None
                    if LIVE:
                        gc.collect()
                    if LIVE:
                        bad('objects %s leaked' % short(sorted(map(str, LIVE))), tr)
    # cycles without shared nodes are collected
    for n in sizes:
        for name, mk in (('vector', lambda objs: pvector(objs)), ('appended', lambda objs: grow(objs)), ('pending', lambda objs: pvector().evolver().extend(objs)), ('evolver product', lambda objs: pvector().evolver().extend(objs).persistent()),
                         ('map', lambda objs: pmap({i: o for i, o in enumerate(objs)})), ('set', lambda objs: pset(objs)), ('iterator', lambda objs: iter(pvector(objs)))):
            tr = ('collectable cycle', n, name)
            ctx.trace(tr)
            ctx.state(tr)
            ctx.step()
            objs = [Obj(i) for i in range(n)]
            x = mk(objs)
            for o in objs:
                o.cycle = x
            del objs, o, x
            gc.collect()
            if LIVE:
                bad('a garbage cycle through an unshared vector is not collected: %s' % short(sorted(map(str, LIVE))), tr)
    # weak references
    for n in sizes:
        v = pvector(range(n))
        died = []
        r = weakref.ref(v, lambda _: died.append(1))
        if r() is not v:
            bad('weak reference', n)
        w = v.append(1)
        v = None
        if r() is not None or died != [1] or w.tolist() != list(range(n)) + [1]:
            bad('weak reference to a released vector', n)
    # deep nesting is released without exhausting the stack
    for depth in (10, 1000, 100000):
        v = pvector()
        for i in range(depth):
            v = pvector([v])
        v = None
        e = pvector().evolver()
        for i in range(depth):
            e = pvector().evolver().append(e)
        e = None
        ctx.step(2)


def grow(objs):
    """The only owner of all its nodes: every earlier version is gone."""
    from pyrsistent import pvector
    v = pvector()
    for o in objs:
        v = v.append(o)
    return v


def run_large(ctx):
    """More nodes than the node cache keeps, released and allocated in turn."""
    from pyrsistent import pvector
    for n in (32 * 1000, 32 * 1024 + 33, 40000, 70000):
        for rnd in range(3):
            ctx.trace(('large', n, rnd))
            ctx.state(('large', n, rnd))
            w = start(n)
            v = w.ents[0][1]
            a = v.set(0, None)
            b = v.set(n - 1, None).append(None)
            e = v.evolver()
            for i in range(0, n, 31):
                e.set(i, None)
            c = e.persistent()
            v = None
            w.ents = []
            ctx.step(5)
            if len(LIVE) != n:
                bad('elements died', n)
            if [t.n for t in a[1:]] != list(range(1, n)) or [t.n for t in b[:-2]] != list(range(n - 1)):
                bad('contents', n)
            a = b = None
            e = None
            got = c.tolist()
            if any((x is not None) if i % 31 == 0 else (x.n != i) for i, x in enumerate(got)):
                bad('contents of the evolver product', n)
            x = got = None
            if len(LIVE) != n - len(range(0, n, 31)):
                bad('%d elements alive' % len(LIVE), n)
            c = None
            if LIVE:
                bad('%d elements leaked' % len(LIVE), n)
