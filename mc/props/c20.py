"""C20: updates share structure instead of copying.

Copying an element means referring to it once more, so reference counts of all elements before and after an operation
(with both values alive) tell how many of them were copied, and the allocator tells how much was allocated.
"""
import math
import sys
import tracemalloc

from core import short
from maps import bad

BOUNDS = {
    'quick': 'vectors of 14 sizes from 97 to 33825 (every trie-height class, full and empty tails), built in three ways: 20 single and combined updates at every position (sizes below 150 and around 1057) or all block boundaries, and '
             'pairs of updates; maps, sets, bags and their checked variants of sizes 100 to 1500 grown and shrunk one element at a time, update of every element at four sizes; lists and deques of 100 to 20000 elements; about 60 '
             'operations with nothing to do on every collection type at sizes 0 to 40; reference counts of all elements compared after each step',
    'thorough': 'as quick with more sizes, all positions up to size 2200 and all pairs of updates',
}
ASSUMPTIONS = ['at most 32 elements share a block; the bound checked is 33 new references per touched position plus 33 for the end of the vector',
               'maps and sets may copy everything when their table doubles, which may happen a logarithmic number of times; hash functions without collisions or with pairs of colliding keys',
               'values are unshared objects, so that reference counts can be attributed']


class X(object):
    """Element, key or value: hash as given, identity equality."""
    __slots__ = ('h',)

    def __init__(self, h):
        self.h = h

    def __hash__(self):
        return self.h


def refs(xs):
    rc = sys.getrefcount
    return [rc(x) for x in xs]


def gained(before, xs):
    return sum(1 for b, a in zip(before, refs(xs)) if a > b)


def measure(ctx, xs, f, bound, tr, memory=None):
    """f() returns a new value; at most `bound` of xs may be referred to by it more than before."""
    ctx.step()
    before = refs(xs)
    r = f()
    g = gained(before, xs)
    if g > bound:
        bad('%d of %d elements are referred to once more, at most %d should be' % (g, len(xs), bound), tr)
    if memory:
        low = None
        for _ in range(3):
            tracemalloc.start()
            m0 = tracemalloc.get_traced_memory()[0]
            r2 = f()
            m1 = tracemalloc.get_traced_memory()[0] - m0
            tracemalloc.stop()
            del r2
            low = m1 if low is None else min(low, m1)
            if low <= memory:
                break
        if low > memory:
            bad('the new value takes %d bytes more, at most %d expected' % (low, memory), tr)
    return r


# -- vectors -------------------------------------------------------------------------------

BUILD = ('pvector', 'append', 'evolver', 'checked')


def vector(xs, how):
    from pyrsistent import CheckedPVector, pvector
    if how == 'pvector':
        return pvector(xs)
    if how == 'append':
        v = pvector(xs[:-40])
        for x in xs[-40:]:
            v = v.append(x)
        return v
    if how == 'checked':
        class CV(CheckedPVector):
            __type__ = X
        return CV(xs)
    e = pvector(xs[:50]).evolver()
    e.extend(xs[50:])
    return e.persistent()


def positions(n, every):
    if every:
        return list(range(n))
    out = set()
    for b in (0, 31, 32, 63, 64, 1023, 1024, 1055, 1056, 1087, 1088, 2047, 2048, 32767, 32768, 32799, 32800, n // 2, n - 1, n - 2, n - 32, n - 33, n - 34, n - 64, n - 65):
        if 0 <= b < n:
            out.add(b)
    return sorted(out)


def vops(i, j):
    """(name, function, number of touched positions); needs 0 <= i, j < n"""
    new = X(0)

    def ev(v):
        e = v.evolver()
        e[i] = new
        e[j] = new
        e.append(new)
        return e.persistent()

    def ev2(v):
        e = v.evolver()
        e[i] = new
        w = e.persistent()
        e[j] = new
        return w, e.persistent()
    return [
        ('set', lambda v: v.set(i, new), 1),
        ('set negative', lambda v: v.set(i - len(v), new), 1),
        ('mset', lambda v: v.mset(i, new, j, new), 2),
        ('evolver', ev, 2),
        ('evolver twice', ev2, 4),
        ('transform', lambda v: v.transform([i], new), 1),
        ('transform function', lambda v: v.transform([i], lambda x: new, [j], new), 2),
    ]


def vends():
    new = X(0)

    def ev(v):
        return v.evolver().append(new).append(new).persistent()

    def ev2(v):
        e = v.evolver()
        e.extend([new, new, new])
        w = e.persistent()
        e.append(new)
        return w, e.persistent()
    return [
        ('append', lambda v: v.append(new), 1),
        ('append append', lambda v: v.append(new).append(new), 1),
        ('append 40', lambda v: grow(v, new, 40), 2),
        ('extend', lambda v: v.extend([new, new]), 1),
        ('extend iterator', lambda v: v.extend(iter([new])), 1),
        ('+', lambda v: v + [new], 1),
        ('set one past the end', lambda v: v.set(len(v), new), 1),
        ('evolver append', ev, 1),
        ('evolver extend', ev2, 2),
        ('evolver', lambda v: v.evolver(), 0),
        ('evolver persistent', lambda v: v.evolver().persistent(), 0),
        ('hash and len', lambda v: (len(v), v[0], v[-1]), 2),
    ]


def grow(v, x, n):
    for _ in range(n):
        v = v.append(x)
    return v


def run_vector(ctx, n, how, part, parts):
    xs = [X(i) for i in range(n)]
    v = vector(xs, how)
    every = n < 150 or (ctx.quick and n == 1057 and how == 'pvector') or (not ctx.quick and n <= 2200)
    big = 24000 if n >= 20000 else None
    pos = positions(n, every)
    js = [0, n // 3, n - 1] if every else positions(n, False)[::4]
    for i in pos[part::parts]:
        for j in js:
            for name, f, k in vops(i, j):
                if name in ('set', 'set negative', 'transform') and j != js[0]:
                    continue
                tr = lambda: ('vector', n, how, name, i, j)
                ctx.trace(tr)
                ctx.state((n, how, name, i, j))
                w = measure(ctx, xs, lambda: f(v), 33 * (k + 1), tr, big if j == js[0] else None)
                if not ctx.quick or n < 150:
                    # a second update of the result
                    w = w[-1] if isinstance(w, tuple) else w
                    for name2, f2, k2 in vops(j, i):
                        ctx.state((n, how, name, i, j, name2))
                        measure(ctx, xs, lambda: f2(w), 33 * (k2 + 1), lambda: tr() + (name2,))
    if part == 0:
        for name, f, k in vends():
            tr = lambda: ('vector', n, how, name)
            ctx.trace(tr)
            ctx.state((n, how, name))
            w = measure(ctx, xs, lambda: f(v), 33 * k if k else 0, tr, big)
            if isinstance(w, tuple):
                w = w[-1]
            for name2, f2, k2 in vends():
                if hasattr(w, 'append') and hasattr(w, 'evolver'):
                    measure(ctx, xs, lambda: f2(w), 33 * k2 if k2 else 0, lambda: tr() + (name2,), big)


# -- maps, sets, bags --------------------------------------------------------------------------

def mapping(kind, ks, vs):
    """a collection and the functions add(c, key, value), remove(c, key), evolve(c, changes)"""
    from pyrsistent import CheckedPMap, CheckedPSet, pbag, pmap, pset
    if kind in ('map', 'cmap'):
        if kind == 'map':
            m = pmap(dict(zip(ks, vs)))
        else:
            class CM(CheckedPMap):
                __key_type__ = X
                __value_type__ = X
            m = CM(dict(zip(ks, vs)))

        def evolve(c, adds, removes, v):
            e = c.evolver()
            for k in adds:
                e[k] = v
            for k in removes:
                e.remove(k)
            return e.persistent()
        return m, {'set': lambda c, k, v: c.set(k, v), 'update': lambda c, k, v: c.update({k: v}), 'update_with': lambda c, k, v: c.update_with(lambda a, b: b, {k: v}),
                   'evolver': lambda c, k, v: evolve(c, [k], [], v), '+': lambda c, k, v: c + {k: v}, 'transform': lambda c, k, v: c.transform([k], v)}, \
            {'remove': lambda c, k: c.remove(k), 'discard': lambda c, k: c.discard(k), 'evolver': lambda c, k: evolve(c, [], [k], None)}
    if kind in ('set', 'cset'):
        if kind == 'set':
            s = pset(ks)
        else:
            class CS(CheckedPSet):
                __type__ = X
            s = CS(ks)

        def evolve(c, adds, removes):
            e = c.evolver()
            for k in adds:
                e.add(k)
            for k in removes:
                e.remove(k)
            return e.persistent()
        return s, {'add': lambda c, k, v: c.add(k), 'update': lambda c, k, v: c.update([k]), 'evolver': lambda c, k, v: evolve(c, [k], [])}, \
            {'remove': lambda c, k: c.remove(k), 'discard': lambda c, k: c.discard(k), 'evolver': lambda c, k: evolve(c, [], [k])}
    return pbag(ks), {'add': lambda c, k, v: c.add(k), 'update': lambda c, k, v: c.update([k])}, {'remove': lambda c, k: c.remove(k)}


PATTERNS = (lambda i: i, lambda i: i // 2, lambda i: i * 7919)
LIMIT = 40          # elements of one changed bucket and some slack; far below the sizes explored


def run_map(ctx, kind, pat):
    h = PATTERNS[pat]
    lo, hi = (100, 900) if ctx.quick else (100, 2500)
    ks = [X(h(i)) for i in range(hi)]
    vs = [X(i) for i in range(hi)]
    _, adds, removes = mapping(kind, ks[:3], vs[:3])
    for name, add in adds.items():
        # grow one at a time
        c, _, _ = mapping(kind, ks[:lo], vs[:lo])
        copies = []
        for i in range(lo, hi):
            tr = lambda: (kind, pat, 'grow by', name, i)
            ctx.trace(tr)
            ctx.state((kind, pat, name, i))
            ctx.step()
            n = i if ctx.quick and i % 16 else i
            b, bv = refs(ks[:i]), refs(vs[:i])
            c2 = add(c, ks[i], vs[i])
            g = gained(b, ks[:i]) + gained(bv, vs[:i])
            if g > LIMIT:
                copies.append((i, g))
                if len(copies) > math.log(hi / lo, 2) + 2:
                    bad('adding one element again and again copied the others at sizes %s' % short(copies), tr)
            c = c2
        for i in range(lo):
            # replace
            if kind in ('set', 'cset'):
                break
            tr = lambda: (kind, pat, 'replace by', name, i)
            ctx.state((kind, pat, 'replace', name, i))
            measure(ctx, ks + vs, lambda: add(c, ks[i * 8 % hi], X(1)), LIMIT, tr)
    for name, remove in removes.items():
        c, _, _ = mapping(kind, ks, vs)
        copies = []
        for i in range(hi - 1, lo - 1, -1):
            tr = lambda: (kind, pat, 'shrink by', name, i)
            ctx.trace(tr)
            ctx.state((kind, pat, 'shrink', name, i))
            ctx.step()
            b, bv = refs(ks[:i]), refs(vs[:i])
            c2 = remove(c, ks[i])
            g = gained(b, ks[:i]) + gained(bv, vs[:i])
            if g > LIMIT:
                copies.append((i, g))
                if len(copies) > math.log(hi / lo, 2) + 2:
                    bad('removing one element again and again copied the others at sizes %s' % short(copies), tr)
            c = c2
    # mixed: every element removed from / re-added to a fixed map
    c, _, _ = mapping(kind, ks, vs)
    for i in range(0, hi, 1 if not ctx.quick else 5):
        for rn, r in removes.items():
            tr = lambda: (kind, pat, 'remove element', rn, i)
            ctx.trace(tr)
            ctx.state((kind, pat, 'remove', rn, i))
            d = measure(ctx, ks + vs, lambda: r(c, ks[i]), LIMIT, tr)
            for an, a in adds.items():
                measure(ctx, ks + vs, lambda: a(d, ks[i], vs[i]), LIMIT, lambda: tr() + (an,))
    if kind in ('map', 'cmap'):
        for name, f in (('keys', lambda: c.keys()), ('evolver', lambda: c.evolver()), ('evolver persistent', lambda: c.evolver().persistent()), ('copy', lambda: c.copy())):
            measure(ctx, ks + vs, f, 0, (kind, pat, name))
        s = c.keys()
        measure(ctx, ks + vs, lambda: s.add(X(5)), LIMIT, (kind, pat, 'keys add'))


def run_bigmap(ctx, kind):
    n = 20000
    ks = [X(i) for i in range(n)]
    vs = [X(i) for i in range(n)] if kind in ('map', 'cmap') else [None] * 0
    if not vs:
        vs = ks
    c, adds, removes = mapping(kind, ks, vs)
    every = ks if vs is ks else ks + vs
    for i in (0, 1, n // 2, n - 1):
        for name, add in adds.items():
            tr = (kind, n, name, i)
            ctx.trace(tr)
            ctx.state(tr)
            measure(ctx, every, lambda: add(c, ks[i], X(1)), LIMIT, tr, 24000)
        for name, r in removes.items():
            tr = (kind, n, name, i)
            ctx.trace(tr)
            ctx.state(tr)
            measure(ctx, every, lambda: r(c, ks[i]), LIMIT, tr, 24000)
    if kind == 'map':
        measure(ctx, every, lambda: c.keys(), 0, (kind, n, 'keys'), 24000)


# -- lists and deques ----------------------------------------------------------------------------

def run_seq(ctx):
    from pyrsistent import pdeque, plist
    new = X(0)
    for n in (100, 101, 1000, 20000):
        xs = [X(i) for i in range(n)]
        l = plist(xs)
        big = 24000 if n == 20000 else None
        lops = {
            'cons': lambda l: l.cons(new), 'mcons': lambda l: l.mcons([new, new]), 'rest': lambda l: l.rest, 'rest rest': lambda l: l.rest.rest, '[1:]': lambda l: l[1:], '[50:]': lambda l: l[50:],
            'split right': lambda l: l.split(50)[1],
        }
        for name, f in lops.items():
            tr = ('list', n, name)
            ctx.trace(tr)
            ctx.state(tr)
            bound = 0
            r = measure(ctx, xs, lambda: f(l), bound, tr, big)
            for name2, f2 in lops.items():
                ctx.state(tr + (name2,))
                measure(ctx, xs, lambda: f2(r), bound, tr + (name2,))
        for how in range(4):
            if how == 0:
                d = pdeque(xs)
            elif how == 1:
                d = pdeque(xs[n // 2:]).extendleft(reversed(xs[:n // 2]))
            elif how == 2:
                d = pdeque(xs[:n - 3]).extend(xs[n - 3:])
            else:
                d = pdeque(xs, maxlen=n + 5)
            dops = {
                'append': lambda d: d.append(new), 'appendleft': lambda d: d.appendleft(new), 'extend': lambda d: d.extend([new, new]), 'extendleft': lambda d: d.extendleft([new]),
                'reverse': lambda d: d.reverse(), 'ends': lambda d: (d.left, d.right),
            }
            for name, f in dops.items():
                tr = ('deque', n, how, name)
                ctx.trace(tr)
                ctx.state(tr)
                bound = 2 if name == 'ends' else 0
                r = measure(ctx, xs, lambda: f(d), bound, tr, big)
                if name != 'ends':
                    for name2, f2 in dops.items():
                        ctx.state(tr + (name2,))
                        measure(ctx, xs, lambda: f2(r), 2 if name2 == 'ends' else 0, tr + (name2,))


# -- operations with nothing to do -----------------------------------------------------------------

def run_noop(ctx):
    from pyrsistent import (CheckedPMap, CheckedPSet, CheckedPVector, PClass, PRecord, field, freeze, pbag, pmap, pset, pvector, plist)

    class CV(CheckedPVector):
        __type__ = X

    class CM(CheckedPMap):
        __key_type__ = X

    class CS(CheckedPSet):
        __type__ = X

    class R(PRecord):
        x = field()
        y = field()
        z = field(initial=5)

    class C(PClass):
        x = field()
        y = field()
        z = field(initial=5)

    def check(kind, n, x, ops):
        for name, f in ops.items():
            tr = (kind, n, name)
            ctx.trace(tr)
            ctx.step()
            ctx.state(tr)
            r = f(x)
            if r is not x:
                bad('returned another object: %s' % short(r), tr)

    sizes = (0, 1, 2, 3, 5, 31, 32, 33, 40) if ctx.quick else tuple(range(0, 70)) + (1056, 1057)
    for n in sizes:
        xs = [X(i) for i in range(n)]
        vops = {
            'extend []': lambda v: v.extend([]), 'extend iter': lambda v: v.extend(iter(())), '+ []': lambda v: v + [], '+ empty': lambda v: v + pvector(), 'mset()': lambda v: v.mset(), '* 1': lambda v: v * 1,
            '[:]': lambda v: v[:], 'evolver': lambda v: v.evolver().persistent(), 'evolver extend []': lambda v: v.evolver().extend([]).persistent(),
            'transform()': lambda v: v.transform(), 'transform none': lambda v: v.transform([lambda i: False], 1), 'freeze': lambda v: freeze(v, strict=False),
        }
        check('vector', n, pvector(xs), vops)
        v = pvector(xs[:n // 2]).extend(xs[n // 2:])
        check('extended vector', n, v, vops)
        check('evolved vector', n, pvector().evolver().extend(xs).persistent(), vops)
        cv = CV(xs)
        check('checked vector', n, cv, {k: vops[k] for k in ('extend []', 'extend iter', 'evolver', 'mset()', 'transform()', 'transform none')})
        check('checked vector', n, cv, {'create': lambda x: CV.create(x)})
        for pat in PATTERNS + (lambda i: 0,):
            ks = [X(pat(i)) for i in range(n)]
            d = {k: X(0) for k in ks}
            absent = X(3)
            mops = {
                'update()': lambda m: m.update(), 'update {}': lambda m: m.update({}), '+ {}': lambda m: m + {}, '| {}': lambda m: m | {}, 'discard': lambda m: m.discard(absent), 'evolver': lambda m: m.evolver().persistent(),
                'update_with {}': lambda m: m.update_with(lambda a, b: b, {}), 'set all': lambda m: set_all(m, d), 'update same': lambda m: m.update(d), 'evolver same': lambda m: ev_same(m, d), 'copy': lambda m: m.copy(),
                'transform same': lambda m: m.transform([lambda k: True], lambda x: x), 'transform none': lambda m: m.transform([lambda k: False], 1),
                'evolver undone': lambda m: m, 'freeze': lambda m: freeze(m, strict=False),
            }
            check('map', n, pmap(d), mops)
            check('checked map', n, CM(d), {k: mops[k] for k in mops if k not in ('freeze', '| {}')})
            check('checked map', n, CM(d), {'create': lambda x: CM.create(x)})
            sops = {
                'add all': lambda s: add_all(s, ks), 'update []': lambda s: s.update([]), 'update same': lambda s: s.update(ks), 'discard': lambda s: s.discard(absent), 'evolver': lambda s: s.evolver().persistent(),
                'evolver same': lambda s: sev_same(s, ks),
            }
            check('set', n, pset(ks), sops)
            check('checked set', n, CS(ks), sops)
            check('checked set', n, CS(ks), {'create': lambda x: CS.create(x)})
            check('key set', n, pmap(d).keys(), {k: sops[k] for k in ('update []', 'discard', 'evolver')})
            check('bag', n, pbag(ks), {'update []': lambda b: b.update([])})
        lops = {'mcons []': lambda l: l.mcons([]), '[0:]': lambda l: l[0:]}
        check('list', n, plist(xs), lops)
    a, b = X(1), X(2)
    for kw in ({}, {'x': a}, {'x': a, 'y': b}):
        r = R(**kw)
        check('record', len(kw), r, {'evolver': lambda r: r.evolver().persistent(), 'set same': lambda r: r.set(**kw), 'update {}': lambda r: r.update({}), 'update same': lambda r: r.update(kw), 'discard': lambda r: r.discard('zz'),
                                     'create': lambda r: R.create(r), 'transform none': lambda r: r.transform([lambda k: False], 1)})
        c = C(**kw)
        check('class', len(kw), c, {'evolver': lambda c: c.evolver().persistent(), 'create': lambda c: C.create(c), 'evolver same': lambda c: cev_same(c, kw)})
    # one empty vector, map, set and list
    for name, f in {'vector': (pvector, lambda: pvector([1]).delete(0), lambda: pvector([1])[1:], lambda: pvector([])),
                    'map': (pmap, lambda: pmap({})), 'set': (pset, lambda: pset([])), 'list': (plist, lambda: plist([]), lambda: plist([1]).rest, lambda: plist([1])[1:])}.items():
        for g in f:
            ctx.step()
            if g() is not f[0]():
                bad('there are two empty collections', ('empty', name))


def set_all(m, d):
    for k in d:
        m = m.set(k, d[k])
    return m


def ev_same(m, d):
    e = m.evolver()
    for k in d:
        e[k] = d[k]
    return e.persistent()


def add_all(s, ks):
    for k in ks:
        s = s.add(k)
    return s


def sev_same(s, ks):
    e = s.evolver()
    for k in ks:
        e.add(k)
    return e.persistent()


def cev_same(c, kw):
    e = c.evolver()
    for k in kw:
        e.set(k, kw[k])
    return e.persistent()


def shards(tier):
    out = []
    sizes = (97, 128, 129, 1024, 1056, 1057, 1088, 1089, 1120, 2080, 32768, 32800, 32801, 33825)
    if tier != 'quick':
        sizes += (100, 160, 161, 1023, 1025, 1055, 1058, 2048, 2112, 32767, 32799, 32832, 33824, 34000)
    for cfg in ('c', 'py'):
        for n in sizes:
            for how in BUILD:
                parts = 1 if n < 1000 else 2 if tier == 'quick' else 4
                if n == 1057 and how == 'pvector':
                    parts = 4
                if n > 30000 and tier == 'quick' and how in ('append', 'checked') and n != 32801:
                    continue
                for p in range(parts):
                    out.append((cfg, ['vector', n, how, p, parts]))
        for kind in ('map', 'cmap', 'set', 'cset', 'bag'):
            for pat in range(3):
                out.append((cfg, ['map', kind, pat]))
            out.append((cfg, ['bigmap', kind]))
        out.append((cfg, ['noop']))
    out.append(('c', ['seq']))
    return out


def weight(config, spec):
    return 5 if spec[0] in ('map', 'noop', 'bigmap') else (spec[1] if spec[0] == 'vector' else 0) / 10000 + 1


def run_shard(ctx, spec):
    globals()['run_' + spec[0]](ctx, *spec[1:])
