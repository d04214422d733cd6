"""C11: equality and hashing depend on contents only."""
from core import call, outcome_class, short
from maps import Key, bad

BOUNDS = {
    'quick': 'all ordered pairs from pools of contents x construction routes for vectors (13 x 9), maps (14 x 13, 3 collision patterns), sets (9 x 9, 3 patterns), bags, lists, deques (every division), '
             'records and classes, each with neither, either or both operands hashed before and with intermediate values hashed during construction or not; vectors up to 1057 elements and maps up to 60 keys',
    'thorough': 'as quick with more contents and larger sizes',
}
ASSUMPTIONS = ['element equality is an equivalence consistent with element hashes', 'instances of different persistent classes are not compared']

KINDS = ['vector', 'map', 'set', 'bag', 'list', 'deque', 'record', 'class', 'nested']


def shards(tier):
    out = []
    for config in ('c', 'py'):
        for k in KINDS:
            pats = range(3) if k in ('map', 'set') else range(1)
            if config == 'py' and k in ('list', 'deque', 'record', 'class', 'bag'):
                continue
            if config == 'py' and k == 'map':
                pats = [1]
            for p in pats:
                parts = 4 if k in ('map',) else 1
                for part in range(parts):
                    out.append((config, ['pairs', k, p, part, parts]))
        out.append((config, ['large']))
    return out


def weight(config, spec):
    return 5 if spec[0] == 'pairs' and spec[1] in ('map', 'vector') else 2


def run_shard(ctx, spec):
    globals()['run_' + spec[0]](ctx, *spec[1:])


# A pool entry: (content key, route name, builder); builder(h) builds a fresh value and calls h on
# every intermediate value.  Contents are compared with ==.

def pool_vector(pat, tier):
    from pyrsistent import CheckedPVector, pvector, v

    class CV(CheckedPVector):
        pass

    class CVI(CheckedPVector):
        __type__ = (int, float, str, list)
    contents = [(), (1,), (2,), (1, 2), (2, 1), (1, 2, 3), (1, 1), (1.0, 2), (True, 2), ('a', 1), (1, []), ([],), tuple(range(33)), tuple(range(32)), tuple(range(31)) + (99, 32)]

    def routes(c):
        yield 'pvector', lambda h: pvector(c)
        yield 'v', lambda h: v(*c)

        def app(h):
            x = pvector()
            for e in c:
                x = h(x).append(e)
            return x
        yield 'append', app

        def ev(h):
            e = h(pvector([0])).evolver()
            e.extend(c)
            e.delete(0)
            return e.persistent()
        yield 'evolver', ev
        yield 'delete', lambda h: h(pvector(list(c) + [7])).delete(len(c))
        yield 'slice', lambda h: h(pvector([5] + list(c)))[1:]

        def sets(h):
            x = pvector([0] * len(c))
            for i, e in enumerate(c):
                x = h(x).set(i, e)
            return x
        yield 'set', sets
        yield 'checked', lambda h: CV(c)
        yield 'checked typed', lambda h: h(CVI(c[:1])).extend(c[1:])
    return contents, routes


HPATS = [lambda i: i, lambda i: 0, lambda i: 8 * i]


def pool_map(pat, tier):
    from pyrsistent import CheckedPMap, m, pmap
    f = HPATS[pat]
    a, b, c, d = [Key(n, f(i)) for i, n in enumerate('abcd')]
    contents = [{}, {a: 1}, {a: 2}, {b: 1}, {a: 1, b: 2}, {a: 2, b: 1}, {a: 1.0, b: 2}, {a: None}, {a: 1, b: 2, c: 3}, {a: 1, b: 2, d: 3}, {a: 1, b: 2, c: 3, d: 4}, {a: []}, {a: 1, b: []},
                {'_cached_hash': 1}]

    class CM(CheckedPMap):
        pass

    def routes(dd):
        items = list(dd.items())
        yield 'pmap', lambda h: pmap(dict(dd))
        yield 'reversed', lambda h: pmap(dict(items[::-1]))
        yield 'pairs', lambda h: pmap(items)
        yield 'presize', lambda h: pmap(dict(dd), pre_size=40)
        yield 'presize1', lambda h: pmap(dict(dd), 1)

        def sets(h, order=1):
            x = pmap()
            for k, v in items[::order]:
                x = h(x).set(k, v)
            return x
        yield 'set', sets
        yield 'set reversed', lambda h: sets(h, -1)

        def overwritten(h):
            x = pmap({k: 'old' for k in dd})
            for k, v in items:
                x = h(x).set(k, v)
            return x
        yield 'overwritten', overwritten

        def removed(h):
            extra = [Key('x%d' % i, f(i)) for i in range(14)]
            x = pmap(dict(dd)).update({e: 1 for e in extra})
            for e in extra:
                x = h(x).remove(e)
            return x
        yield 'removed', removed

        def ev(h):
            x = h(pmap({Key('z', 0): 1}))
            e = x.evolver()
            for k, v in items:
                e[k] = v
            e.remove(Key('z', 0))
            return e.persistent()
        yield 'evolver', ev
        yield 'update', lambda h: h(pmap(dict(items[:1]))).update(dict(items[1:]))
        yield 'or', lambda h: h(pmap(dict(items[1:]))) | dict(items[:1])
        yield 'checked', lambda h: CM(dict(dd))
    return contents, routes


def pool_set(pat, tier):
    from pyrsistent import CheckedPSet, pmap, pset, s
    f = HPATS[pat]
    a, b, c, d = [Key(n, f(i)) for i, n in enumerate('abcd')]
    contents = [frozenset(x) for x in ((), (a,), (b,), (a, b), (a, c), (a, b, c), (a, b, c, d), (1,), (1.0, 2))]

    class CS(CheckedPSet):
        pass

    def routes(dd):
        items = list(dd)
        yield 'pset', lambda h: pset(items)
        yield 'reversed', lambda h: s(*items[::-1])

        def adds(h):
            x = pset()
            for e in items[::-1]:
                x = h(x).add(e)
            return x
        yield 'add', adds

        def removed(h):
            extra = [Key('x%d' % i, f(i)) for i in range(14)]
            x = pset(items + extra)
            for e in extra:
                x = h(x).remove(e)
            return x
        yield 'removed', removed
        yield 'keys', lambda h: pmap({k: [] for k in items}).keys()
        yield 'algebra', lambda h: h(pset(items + ['q'])) - {'q'} | set(items[:1])
        yield 'checked', lambda h: CS(items)
        yield 'frozenset', lambda h: frozenset(items)
        yield 'keys added', lambda h: h(pmap({k: 7 for k in items}).keys()).add('q').remove('q')
    return contents, routes


def pool_bag(pat, tier):
    from collections import Counter
    from pyrsistent import b as mkbag, pbag
    a, b, c = [Key(n, h) for n, h in zip('abc', (0, 8, 0))]
    lists = [(), (a,), (b,), (a, a), (a, b), (a, a, b), (a, b, b), (a, b, c), (a, a, a), (c, c, a)]

    class Content(object):
        def __init__(self, l):
            self.l, self.c = l, Counter(l)

        def __eq__(self, o):
            return self.c == o.c

        def __repr__(self):
            return repr(self.l)

    def routes(cc):
        l = list(cc.l)
        yield 'pbag', lambda h: pbag(l)
        yield 'b', lambda h: mkbag(*l[::-1])

        def adds(h):
            x = pbag([])
            for e in l[::-1]:
                x = h(x).add(e)
            return x
        yield 'add', adds
        yield 'remove', lambda h: h(pbag([c, b] + l)).remove(c).remove(b)
        yield 'plus', lambda h: h(pbag(l[:1])) + pbag(l[1:])
        yield 'minus', lambda h: h(pbag(l + [a, b, c])) - mkbag(c, b, a)
        yield 'or', lambda h: h(pbag(l)) | pbag(l[1:])
        yield 'update', lambda h: h(pbag(l[:2])).update(l[2:])
    return [Content(l) for l in lists], routes


def seq_contents():
    return [(), (1,), (2,), (1, 2), (2, 1), (1, 1), (1, 2, 3), (3, 2, 1), (1.0, 2), (None,), (1, 2, 3, 4), (1, [])]


def pool_list(pat, tier):
    from pyrsistent import l as mk, plist

    def routes(c):
        yield 'plist', lambda h: plist(c)
        yield 'l', lambda h: mk(*c)
        yield 'mcons', lambda h: h(plist()).mcons(c[::-1])
        yield 'reverse', lambda h: h(plist(c[::-1])).reverse()
        yield 'remove', lambda h: h(plist(c + ('x',))).remove('x')
        yield 'rest', lambda h: h(plist(('x',) + c)).rest
        yield 'split', lambda h: h(plist(c + c)).split(len(c))[0] if c else plist()
        yield 'slice', lambda h: h(plist(c + ('y',)))[:-1]
    return seq_contents(), routes


def pool_deque(pat, tier):
    from pyrsistent import dq, pdeque

    def routes(c):
        yield 'pdeque', lambda h: pdeque(c)
        yield 'dq', lambda h: dq(*c)
        yield 'maxlen', lambda h: pdeque(c, maxlen=9)
        for i in range(len(c) + 1):
            yield 'division %d' % i, lambda h, i=i: h(pdeque().extendleft(c[:i][::-1])).extend(c[i:])
        yield 'rotate', lambda h: h(pdeque(c[-1:] + c[:-1])).rotate(-1)
        yield 'reverse', lambda h: h(pdeque(c[::-1])).reverse()
        yield 'pop', lambda h: h(pdeque(c + ('x',))).pop()
        yield 'popleft', lambda h: h(pdeque(('x',) + c)).popleft()
        yield 'remove', lambda h: h(pdeque(c[:1] + ('x',) + c[1:])).remove('x')
        yield 'bounded', lambda h: pdeque(('x', 'y') + c, maxlen=len(c)) if c else pdeque()
    return seq_contents(), routes


RC = [{}, {'a': 1}, {'a': 2}, {'b': 1}, {'a': 1, 'b': 2}, {'a': 2, 'b': 1}, {'a': None}, {'a': 1, 'b': 2, 'c': 3}, {'a': 1, 'c': 3}, {'a': 1.0}, {'a': []}]


def pool_record(pat, tier):
    from pyrsistent import PRecord, field, pmap, thaw

    class R(PRecord):
        a = field()
        b = field()
        c = field()

    def routes(d):
        items = list(d.items())
        yield 'new', lambda h: R(**d)
        yield 'create', lambda h: R.create(dict(items[::-1]))

        def sets(h):
            x = R()
            for k, v in items[::-1]:
                x = h(x).set(k, v)
            return x
        yield 'set', sets

        def ev(h):
            e = h(R(a='old', b='old', c='old')).evolver()
            for k in 'abc':
                if k in d:
                    e[k] = d[k]
                else:
                    del e[k]
            return e.persistent()
        yield 'evolver', ev

        def removed(h):
            x = R(**dict({'a': 0, 'b': 0, 'c': 0}, **d))
            for k in 'abc':
                if k not in d:
                    x = h(x).remove(k)
            return x
        yield 'removed', removed
        yield 'update', lambda h: h(R()).update(d)
        yield 'pmap', lambda h: pmap(d)
    return RC, routes


def pool_class(pat, tier):
    from pyrsistent import PClass, field

    class C(PClass):
        a = field()
        b = field()
        c = field()

    def routes(d):
        items = list(d.items())
        yield 'new', lambda h: C(**d)
        yield 'create', lambda h: C.create(dict(items[::-1]))

        def sets(h):
            x = C()
            for k, v in items[::-1]:
                x = h(x).set(k, v)
            return x
        yield 'set', sets

        def ev(h):
            e = h(C(a='old', b='old', c='old')).evolver()
            for k in 'abc':
                if k in d:
                    e[k] = d[k]
                else:
                    del e[k]
            return e.persistent()
        yield 'evolver', ev

        def removed(h):
            x = C(**dict({'a': 0, 'b': 0, 'c': 0}, **d))
            for k in 'abc':
                if k not in d:
                    x = h(x).remove(k)
            return x
        yield 'removed', removed
    return RC, routes


def pool_nested(pat, tier):
    from pyrsistent import freeze, m, pbag, pdeque, plist, pmap, pset, pvector, s, v
    contents = [{'a': [1, 2]}, {'a': [2, 1]}, {'a': [1, 2], 'b': {'c': [3]}}, {'a': [1, 2], 'b': {'c': [4]}}, {'a': {'c': 1}}, {'a': {'c': {1, 2}}}, {'a': {'c': {1, 3}}}]

    def routes(d):
        yield 'freeze', lambda h: freeze(d)

        def again(x, h):
            if isinstance(x, dict):
                r = pmap()
                for k in sorted(x, reverse=True):
                    r = h(r).set(k, again(x[k], h))
                return r
            if isinstance(x, list):
                r = pvector([None])
                for y in x:
                    r = h(r).append(again(y, h))
                return r.delete(0)
            if isinstance(x, set):
                r = pset([0])
                for y in sorted(x, reverse=True):
                    r = h(r).add(again(y, h))
                return r.remove(0)
            return x
        yield 'piecewise', lambda h: again(d, h)
        yield 'transform', lambda h: h(freeze(d)).transform(['a'], 'gone').transform(['a'], freeze(d['a']))
    return contents, routes


def nohash(x):
    return x


def dohash(x):
    call(hash, x)
    return x


def run_pairs(ctx, kind, pat, part, parts):
    contents, routes = globals()['pool_' + kind](pat, ctx.tier)
    pool = []
    for ci, c in enumerate(contents):
        for name, b in routes(c):
            pool.append((ci, name + '', lambda b=b: b(nohash)))
            pool.append((ci, name + ' (hashed on the way)', lambda b=b: b(dohash)))
    eq = [[contents[i] == contents[j] for j in range(len(contents))] for i in range(len(contents))]
    for n, (i, ri, bi) in enumerate(pool):
        if n % parts != part:
            continue
        for j, rj, bj in pool:
            want = eq[i][j]
            ctx.state((kind, pat, i, j, ri, rj))
            for ha, hb in ((0, 0), (1, 0), (0, 1), (1, 1)):
                if (ha, hb) != (0, 0) and not want and (i + j) % 2 and ctx.quick and kind not in ('map', 'set'):
                    continue
                tr = (kind, pat, contents[i], ri, contents[j], rj, ('hashed', ha, hb))
                ctx.trace(tr)
                ctx.step(4)
                x, y = bi(), bj()
                hx = call(hash, x) if ha else None
                hy = call(hash, y) if hb else None
                if (x == y) is not want or (y == x) is not want:
                    bad('== gives %s and %s' % (x == y, y == x), tr)
                if (x != y) is want or (y != x) is want:
                    bad('!= gives %s and %s' % (x != y, y != x), tr)
                hx2, hy2 = call(hash, x), call(hash, y)
                if (ha and (hx[0] != hx2[0] or hx[0] == 'ok' and hx != hx2)) or (hb and (hy[0] != hy2[0] or hy[0] == 'ok' and hy != hy2)):
                    bad('hash changed', tr)
                if want:
                    if hx2[0] != hy2[0] or (hx2[0] == 'ok' and hx2[1] != hy2[1]):
                        bad('equal values hash to %s and %s' % (short(hx2), short(hy2)), tr)
                    if hx2[0] == 'ok' and not ha and not hb:
                        if {x: 1}.get(y) != 1 or y not in {x} or len({x, y}) != 1:
                            bad('does not stand in as dict key', tr)
                if (x == y) is not want or not (x == x) or x != x:
                    bad('comparison after hashing', tr)


def run_large(ctx):
    from pyrsistent import CheckedPVector, pbag, pdeque, plist, pmap, pset, pvector

    class CV(CheckedPVector):
        pass
    for n in (31, 32, 33, 64, 65, 1023, 1024, 1025, 1056, 1057) + (() if ctx.quick else (32767, 32768, 32769, 32800, 32801)):
        xs = list(range(n))
        base = pvector(xs)
        app = pvector(xs[:n - 3])
        for e in xs[n - 3:]:
            app = app.append(e)
        ev = pvector(xs + [1, 2, 3]).evolver()
        for _ in range(3):
            ev.delete(n)
        alts = [app, ev.persistent(), CV(xs), pvector([0] + xs)[1:], base.set(n // 2, -1).set(n // 2, n // 2)]
        for k, y in enumerate(alts):
            tr = ('large vector', n, k)
            ctx.trace(tr)
            ctx.state(tr)
            ctx.step(4)
            ctx.check(base == y and y == base and not (base != y) and hash(base) == hash(y), 'equal vectors', tr)
            for i in (0, n // 2, n - 1, 31, 32 if n > 32 else 0):
                if i < n:
                    z = y.set(i, -5)
                    ctx.check(base != z and z != base and not (base == z), 'different vectors', tr + (i,))
            ctx.check(base != y.append(1) and y.append(1) != base and base != y[:-1], 'different length', tr)
    for n in range(0, 61):
        for f in HPATS:
            keys = [Key(i, f(i)) for i in range(n + 1)]
            d = {k: k.name for k in keys[:n]}
            x = pmap(d)
            y = pmap()
            for k in reversed(keys[:n]):
                y = y.set(k, k.name)
            z = pmap(d).set(keys[n], 0).remove(keys[n])
            tr = ('large map', n)
            ctx.trace(tr)
            ctx.state(tr)
            ctx.step(6)
            ctx.check(x == y and y == z and x == d and d == z, 'equal maps', tr)
            hash(y)
            ctx.check(x == y and y == z and hash(x) == hash(y) == hash(z), 'hashes of equal maps', tr)
            if n:
                w = z.set(keys[n // 2], 'other')
                ctx.check(x != w and w != x and not (w == y), 'different maps', tr)
                hash(w)
                ctx.check(x != w and w != x and not (w == y) and x != z.remove(keys[0]), 'different maps', tr)
                w = w.set(keys[n // 2], n // 2)
                ctx.check(x == w and hash(w) == hash(x), 'changed and changed back', tr)
            ctx.check(pset(keys[:n]) == x.keys() and hash(pset(keys[:n])) == hash(y.keys()) == hash(frozenset(keys[:n])), 'key sets', tr)
            bx, by = pbag(keys[:n] * 2), pbag(keys[:n] + keys[:n][::-1])
            ctx.check(bx == by and hash(bx) == hash(by), 'bags', tr)
