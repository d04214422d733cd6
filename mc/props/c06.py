"""C06: evolvers of maps, sets, checked collections, records and classes are isolated and repeatable."""
from itertools import product

import factories

from core import call, outcome_class, short
from maps import Key, MISSING, Val, bad, full_map, hash_patterns, identical, light_map, val

BOUNDS = {
    'quick': 'map, set, checked map, set and vector, record, class: all sequences of 4 operations on two evolvers of one value (set/add x 3 keys, remove x 2-3 keys, failing operations, persistent, '
             'evolver of the last product), of 5-6 operations on one evolver, for 4 initial contents and (maps, sets) 7 collision patterns; evolutions of 60 steps from every size 0..70 with 5 commit periods',
    'thorough': 'as quick with sequences of 5 / 7, all 15 collision patterns, every size 0..300',
}
ASSUMPTIONS = ['keys satisfy the hash contract and equal themselves', 'an evolver that reported failed invariants is not used any further',
               'unset class fields and values with wrong types in a class evolver are reported by persistent(), such an evolver is not used any further']

KINDS = ['map', 'set', 'cmap', 'cset', 'cvec', 'record', 'class']
COLL = [(0, 1, 2), (0, 0, 0), (0, 8, 16), (0, 0, 1), (0, 8, 0), (-2, -10, 3), (7, 15, 8)]


def shards(tier):
    q = tier == 'quick'
    out = []
    pats = COLL if q else sorted(set(COLL) | set(hash_patterns(3)))
    for kind in KINDS:
        hs = pats if kind in ('map', 'set', 'cmap', 'cset') else [(0, 1, 2)]
        for h in hs:
            if q and kind in ('cmap', 'cset') and h not in COLL[:3]:
                continue
            out.append(('c', ['two', kind, list(h), 4 if q else 5]))
            out.append(('c', ['one', kind, list(h), 6 if q else 7]))
            if kind in ('map', 'set') and h in ((0, 1, 2), (0, 8, 16)):
                out.append(('py', ['two', kind, list(h), 4 if q else 5]))
    for kind in KINDS[:5]:
        for g in range(4):
            out.append(('c', ['grow', kind, g, 70 if q else 300]))
        out.append(('py', ['grow', kind, 0, 70 if q else 300]))
    for kind in ('record', 'class'):
        out.append(('c', ['factories', kind, 4 if q else 6]))
    return out


def weight(config, spec):
    return {'two': 10, 'one': 8}.get(spec[0], 5)


def run_shard(ctx, spec):
    globals()['run_' + spec[0]](ctx, *spec[1:])


class Base(object):
    """One kind of collection; models are dicts (sets: dict of element to True; vectors: dict of index)."""
    initial = [(), (0,), (0, 1), (0, 1, 2)]

    def __init__(self, hs):
        self.keys = [Key(n, h) for n, h in zip('abc', hs)]

    def ops(self, k):
        a, b, c = self.keys
        return [('set', a, val('x%d' % k)), ('set', b, val('y%d' % k)), ('set', c, val('z%d' % k)), ('remove', a), ('remove', b)]

    def light(self, v, m, tr):
        light_map(v, m, tr)

    def full(self, v, m, tr):
        full_map(v, m, self.keys, tr)

    def apply(self, e, m, op, tr):
        m = dict(m)
        if op[0] == 'set':
            if op[1].name == 'b':
                r = call(e.set, op[1], op[2])
                if r[0] == 'ok' and r[1] is not e:
                    bad('set() does not return the evolver', tr)
            else:
                r = call(e.__setitem__, op[1], op[2])
            m[op[1]] = op[2]
        else:
            r = call(e.remove if op[1].name == 'a' else e.__delitem__, op[1])
            if op[1] not in m:
                if outcome_class(r) != self.missing:
                    bad('remove of a missing key gives %s' % short(r), tr)
                return m
            del m[op[1]]
        if r[0] != 'ok':
            bad('raised %r' % (r[1],), tr)
        return m

    missing = 'KeyError'
    dirty = True

    def reads(self, e, m, tr):
        if len(e) != len(m):
            bad('len() of the evolver is %d, expected %d' % (len(e), len(m)), tr)
        for k in self.keys:
            if (k in e) != (k in m):
                bad('%r in evolver is %s' % (k, k in e), tr)
            r = call(lambda: e[k])
            if k in m:
                if r[0] != 'ok' or r[1] is not m[k]:
                    bad('evolver[%r] gives %s, expected %s' % (k, short(r), short(m[k])), tr)
            elif outcome_class(r) != 'KeyError':
                bad('evolver[%r] of a missing key gives %s' % (k, short(r)), tr)


class Map(Base):
    def make(self, m):
        from pyrsistent import pmap
        return pmap(dict(m))

    def model(self, idx):
        return {self.keys[i]: val(i) for i in idx}


class CMap(Map):
    def __init__(self, hs):
        super().__init__(hs)
        from pyrsistent import CheckedPMap

        class M(CheckedPMap):
            __key_type__ = Key
            __value_type__ = Val
        self.cls = M

    def make(self, m):
        return self.cls(dict(m))

    def ops(self, k):
        return super().ops(k) + [('badkey',)]

    def apply(self, e, m, op, tr):
        if op[0] == 'badkey':
            for f in (lambda: e.set(3, val(0)), lambda: e.set(self.keys[0], 3), lambda: e.__setitem__(self.keys[2], None)):
                if not isinstance(call(f)[1], TypeError):
                    bad('no type error', tr)
            return m
        return super().apply(e, m, op, tr)

    def light(self, v, m, tr):
        if type(v) is not self.cls:
            bad('result is a %s' % type(v).__name__, tr)
        light_map(v, m, tr)


class Set_(Base):
    def make(self, m):
        from pyrsistent import pset
        return pset(list(m))

    def model(self, idx):
        return {self.keys[i]: True for i in idx}

    def ops(self, k):
        a, b, c = self.keys
        return [('add', a), ('add', b), ('add', c), ('remove', a), ('remove', b), ('remove', c)]

    def light(self, v, m, tr):
        if len(v) != len(m):
            bad('len() is %d, expected %d' % (len(v), len(m)), tr)
        got = list(v)
        if len(got) != len(m) or set(got) != set(m):
            bad('contains %s, expected %s' % (short(got), short(list(m))), tr)

    def full(self, v, m, tr):
        self.light(v, m, tr)
        for k in self.keys:
            if (k in v) != (k in m):
                bad('%r in set' % (k,), tr)
        if not (v == set(m)):
            bad('not equal to the set', tr)

    def reads(self, e, m, tr):
        if len(e) != len(m):
            bad('len() of the evolver is %d, expected %d' % (len(e), len(m)), tr)

    def apply(self, e, m, op, tr):
        m = dict(m)
        r = call(getattr(e, op[0]), op[1])
        if op[0] == 'add':
            m[op[1]] = True
        else:
            if op[1] not in m:
                if outcome_class(r) != 'KeyError':
                    bad('remove of a missing element gives %s' % short(r), tr)
                return m
            del m[op[1]]
        if r[0] != 'ok':
            bad('raised %r' % (r[1],), tr)
        if r[1] is not e:
            bad('%s() does not return the evolver' % op[0], tr)
        return m


class CSet(Set_):
    def __init__(self, hs):
        super().__init__(hs)
        from pyrsistent import CheckedPSet

        class S(CheckedPSet):
            __type__ = Key
        self.cls = S

    def make(self, m):
        return self.cls(list(m))

    def ops(self, k):
        return super().ops(k) + [('bad',)]

    def apply(self, e, m, op, tr):
        if op[0] == 'bad':
            if not isinstance(call(e.add, 3)[1], TypeError):
                bad('no type error', tr)
            return m
        return super().apply(e, m, op, tr)

    def light(self, v, m, tr):
        if type(v) is not self.cls:
            bad('result is a %s' % type(v).__name__, tr)
        super().light(v, m, tr)


class CVec(Base):
    def __init__(self, hs):
        super().__init__(hs)
        from pyrsistent import CheckedPVector

        class V(CheckedPVector):
            __type__ = (Val, Key)
        self.cls = V

    def model(self, idx):
        return [val(i) for i in idx]

    def make(self, m):
        return self.cls(m)

    def ops(self, k):
        return [('append', val('a%d' % k)), ('extend', [val('b%d' % k), val('c')]), ('set', 0, val('s%d' % k)), ('set', -1, val('t%d' % k)), ('delete', 0), ('bad',)]

    def light(self, v, m, tr):
        if type(v) is not self.cls:
            bad('result is a %s' % type(v).__name__, tr)
        if not identical(list(v), m):
            bad('contains %s, expected %s' % (short(list(v)), short(m)), tr)

    def full(self, v, m, tr):
        self.light(v, m, tr)
        for i in range(-len(m), len(m)):
            if v[i] is not m[i]:
                bad('index', tr)

    def reads(self, e, m, tr):
        if len(e) != len(m):
            bad('len() of the evolver is %d, expected %d' % (len(e), len(m)), tr)
        for i in range(-len(m), len(m)):
            if e[i] is not m[i]:
                bad('evolver[%d] is %s' % (i, short(e[i])), tr)

    def apply(self, e, m, op, tr):
        m = list(m)
        if op[0] == 'bad':
            for f in (lambda: e.append(3), lambda: e.extend([val(0), 3]), lambda: e.set(0, 'x'), lambda: e.__setitem__(-1, None)):
                if not isinstance(call(f)[1], TypeError):
                    bad('no type error', tr)
            return m
        r = call(getattr(e, op[0]), *op[1:])
        if op[0] in ('set', 'delete') and not m and not (op[0] == 'set' and op[1] == 0):
            if outcome_class(r) != 'IndexError':
                bad('%s on an empty evolver gives %s' % (op, short(r)), tr)
            return m
        if r[0] != 'ok' or r[1] is not e:
            bad('%s gives %s' % (op, short(r)), tr)
        if op[0] == 'append':
            m.append(op[1])
        elif op[0] == 'extend':
            m.extend(op[1])
        elif op[0] == 'set':
            if m:
                m[op[1]] = op[2]
            else:
                m.append(op[2])
        else:
            del m[op[1]]
        return m


class Record(Base):
    def __init__(self, hs):
        from pyrsistent import PRecord, field

        class R(PRecord):
            a = field()
            b = field(type=(Val, int))
            c = field()
        self.cls = R
        self.keys = ['a', 'b', 'c']

    def model(self, idx):
        return {self.keys[i]: val(i) for i in idx}

    def make(self, m):
        return self.cls(**m)

    def ops(self, k):
        return [('set', 'a', val('x%d' % k)), ('set', 'b', val('y%d' % k)), ('set', 'c', val('z%d' % k)), ('remove', 'a'), ('remove', 'b'), ('bad',)]

    def light(self, v, m, tr):
        if type(v) is not self.cls:
            bad('result is a %s' % type(v).__name__, tr)
        light_map(v, m, tr)

    def apply(self, e, m, op, tr):
        m = dict(m)
        if op[0] == 'bad':
            if outcome_class(call(e.set, 'nosuch', 1)) != 'AttributeError' or not isinstance(call(e.set, 'b', 'str')[1], TypeError):
                bad('no error for an unknown field or a wrong type', tr)
            return m
        if op[0] == 'set':
            r = call(e.set, op[1], op[2]) if op[1] != 'a' else call(e.__setitem__, op[1], op[2])
            m[op[1]] = op[2]
        else:
            r = call(e.remove if op[1] == 'a' else e.__delitem__, op[1])
            if op[1] not in m:
                if outcome_class(r) != self.missing:
                    bad('remove of an unset field gives %s' % short(r), tr)
                return m
            del m[op[1]]
        if r[0] != 'ok':
            bad('raised %r' % (r[1],), tr)
        return m


class Class_(Record):
    missing = 'AttributeError'
    dirty = False

    def __init__(self, hs):
        from pyrsistent import PClass, field

        class C(PClass):
            a = field()
            b = field(type=(Val, int))
            c = field()
        self.cls = C
        self.keys = ['a', 'b', 'c']

    def ops(self, k):
        return super().ops(k)[:-1] + [('attr', 'c', val('w%d' % k))]

    def apply(self, e, m, op, tr):
        if op[0] == 'attr':
            m = dict(m)
            setattr(e, op[1], op[2])
            m[op[1]] = op[2]
            return m
        return super().apply(e, m, op, tr)

    def light(self, v, m, tr):
        if type(v) is not self.cls:
            bad('result is a %s' % type(v).__name__, tr)
        for k in self.keys:
            if getattr(v, k, MISSING) is not m.get(k, MISSING):
                bad('field %s is %s, expected %s' % (k, short(getattr(v, k, MISSING)), short(m.get(k, MISSING))), tr)

    full = light

    def reads(self, e, m, tr):
        for k in self.keys:
            r = call(lambda: e[k])
            if k in m:
                if r[0] != 'ok' or r[1] is not m[k] or getattr(e, k) is not m[k]:
                    bad('evolver[%r] gives %s, expected %s' % (k, short(r), short(m[k])), tr)
            elif r[0] == 'ok':
                bad('evolver[%r] of an unset field gives %s' % (k, short(r)), tr)


MAKE = {'map': Map, 'set': Set_, 'cmap': CMap, 'cset': CSet, 'cvec': CVec, 'record': Record, 'class': Class_}


class EvState(object):
    """Evolver plus its model; executions are replayed from the start because evolvers mutate."""
    __slots__ = ('e', 'm', 'src', 'touched', 'base')


def replay(ctx, kind, idx, path, nev, trace):
    """Run one complete sequence; check everything at every step."""
    m0 = kind.model(idx)
    src = kind.make(m0)
    kind.light(src, m0, trace)
    products = [(src, m0)]
    evs = []
    for _ in range(nev):
        s = EvState()
        s.e, s.m, s.src, s.touched, s.base = src.evolver(), m0, src, False, m0
        evs.append(s)
    for j, (i, op) in enumerate(path):
        ctx.step()
        s = evs[i]
        if op[0] == 'persistent':
            v = s.e.persistent()
            kind.light(v, s.m, trace)
            if not s.touched and v is not s.src:
                bad('persistent() without changes does not return the source', trace)
            products.append((v, s.m))
            s.base = s.m
        elif op[0] == 'evolver':
            v, m = products[-1]
            s.e, s.m, s.src, s.touched, s.base = v.evolver(), m, v, False, m
        else:
            m = kind.apply(s.e, s.m, op, trace)
            if op[0] not in ('bad', 'badkey'):
                s.touched = True        # may have become dirty without a difference
            s.m = m
        kind.reads(s.e, s.m, trace)
        if kind.dirty:
            if not s.touched and s.e.is_dirty():
                bad('dirty without changes', trace)
            if not identical(s.m, s.base) and not s.e.is_dirty():
                bad('changed but not dirty', trace)
    for s in evs:
        kind.reads(s.e, s.m, trace)
        v = s.e.persistent()
        kind.light(v, s.m, trace)
        w = s.e.persistent()
        kind.light(w, s.m, trace)
        kind.light(v, s.m, trace)
        products.append((v, s.m))
    for v, m in products:
        kind.light(v, m, trace)
    return products


def sequences(kind, nev, depth):
    alph = []
    for k in range(depth):
        a = []
        for i in range(nev):
            a += [(i, op) for op in kind.ops(k)]
            a.append((i, ('persistent',)))
        if nev > 1:
            a.append((1, ('evolver',)))
        alph.append(a)
    return product(*alph)


def explore(ctx, name, hs, nev, depth, inits):
    kind = MAKE[name](hs)
    for idx in inits:
        for path in sequences(kind, nev, depth):
            # symmetric: the first operation is on the first evolver
            if nev > 1 and path[0][0] == 1:
                continue
            trace = (name, hs, idx, path)
            ctx.trace(trace)
            ps = replay(ctx, kind, idx, path, nev, trace)
            for v, m in ps[-2:]:
                if ctx.state((name, repr(m))):
                    kind.full(v, m, trace)


def run_two(ctx, name, hs, depth):
    explore(ctx, name, tuple(hs), 2, depth, [(0, 1)] if depth < 5 else [(), (0, 1)])


def run_one(ctx, name, hs, depth):
    kind = MAKE[name](tuple(hs))
    if len(kind.ops(0)) > 5:
        depth -= 1
    if name == 'map' and ctx.quick and tuple(hs) not in COLL[:2]:
        depth -= 1
    if name in ('cmap', 'record', 'class', 'cvec') and ctx.quick:
        depth = min(depth, 5)
    explore(ctx, name, tuple(hs), 1, depth, [(), (0, 1), (0, 1, 2)] if depth > 5 or not ctx.quick else kind.initial)


def run_factories(ctx, kind, depth):
    factories.evolvers(ctx, kind, depth)


GROW = [lambda i: i, lambda i: i % 16, lambda i: -5 * i, lambda i: (i * 2654435761) % 512]


def run_grow(ctx, name, g, top):
    f = GROW[g]
    kind = MAKE[name]((0, 1, 2))
    keys = [Key(i, f(i)) for i in range(top + 80)]
    for n in range(top + 1):
        if n > 70 and n % 9:
            continue
        for period in (1, 2, 7, 31, 1000):
            tr = ('grow', name, g, n, period)
            ctx.trace(tr)
            ctx.state(tr)
            if name == 'cvec':
                m = [val(i) for i in range(n)]
            else:
                m = {k: (val(k.name) if 'map' in name else True) for k in keys[:n]}
            src = kind.make(m)
            m0 = m
            m = list(m) if name == 'cvec' else dict(m)
            e, e2 = src.evolver(), src.evolver()
            products = [(src, m0)]
            for j in range(60):
                ctx.step()
                if name == 'cvec':
                    if j % 6 == 5 and m:
                        i = (j * 7) % len(m)
                        e.delete(i)
                        del m[i]
                    elif j % 6 == 2 and m:
                        i = (j * 5) % len(m)
                        e[i] = val('s%d' % j)
                        m[i] = val('s%d' % j)
                    else:
                        e.append(val('j%d' % j))
                        m.append(val('j%d' % j))
                else:
                    k = keys[n + j]
                    if j % 6 == 5 and m:
                        k = list(m)[(j * 7) % len(m)]
                        e.remove(k)
                        del m[k]
                    elif 'set' in name:
                        e.add(k)
                        m[k] = True
                    else:
                        if j % 6 == 2 and m:
                            k = list(m)[(j * 5) % len(m)]
                        e.set(k, val('j%d' % j))
                        m[k] = val('j%d' % j)
                if len(e) != len(m):
                    bad('length of the evolver', tr + (j,))
                if j % period == period - 1:
                    v = e.persistent()
                    products.append((v, list(m) if name == 'cvec' else dict(m)))
                    kind.light(v, m, tr + (j,))
                if j == 30:
                    if name == 'cvec':
                        e2.append(val('other'))
                    elif 'set' in name:
                        e2.add(keys[-1])
                    else:
                        e2.set(keys[-1], val('other'))
            kind.light(e.persistent(), m, tr)
            m2 = (m0 + [val('other')]) if name == 'cvec' else dict(m0, **{}) | {keys[-1]: True if 'set' in name else val('other')}
            kind.light(e2.persistent(), m2, tr)
            for v, mm in products:
                kind.light(v, mm, ('older product',) + tr)
