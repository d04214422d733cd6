"""C12: checked collections only ever hold valid elements."""
import enum
from itertools import product

from core import call, outcome_class, short
from maps import bad

BOUNDS = {
    'quick': 'checked vectors, sets and maps; class hierarchies of one, two and three levels and with two bases over 8 type declarations x 5 invariant declarations per level (two levels: all 1600 combinations, '
             'maps: 600); for each class all element sequences up to length 2 over 9 elements through the constructor, an offending element at every position through 20 update operations, create() and evolvers; create() with 9 mixtures of checked and other types in every position over all pairs of 12 items; '
             'elements of classes that only share the name with the declared ones in all histories of 3',
    'thorough': 'as quick with sequences of length 3 and all three-level hierarchies',
}
ASSUMPTIONS = ['invariants are deterministic functions of the element', 'operations documented to give plain vectors or sets (slices, *, delete, remove of vectors; set algebra) are only required to hold the right elements',
               'when an element is added twice, its error data may be reported twice']


class Color(enum.Enum):
    R = 1
    G = 2


class Sub(int):
    def __repr__(self):
        return 'Sub(%d)' % int(self)


def optional(*t):
    from pyrsistent import optional as o
    return o(*t)


# type declarations: (source for the class body, accepted types)
NOTYPE = (None, ())
TYPES = [NOTYPE, (int, (int,)), ((int, str), (int, str)), ('optional', (int, type(None))), ('builtins.int', (int,)), ([str], (str,)), (Color, (Color,)), (float, (float,))]


def i_neg(n):
    return (not (isinstance(n, int) and n < 0), 'negative')


def i_multi(n):
    return ((n != 13, 'unlucky'), (not (isinstance(n, int) and n > 12), 'big'))


def i_lazy(n):
    return (n != 'x', lambda: 'lazy x')


def i_none(n):
    return (n is not None and n != Color.R, 'none or red')


def codes_neg(n):
    return {'negative'} if isinstance(n, int) and n < 0 else set()


def codes_multi(n):
    t = ()
    if n == 13:
        t += ('unlucky',)
    if isinstance(n, int) and n > 12:
        t += ('big',)
    return {t} if t else set()


def codes_lazy(n):
    return {'lazy x'} if n == 'x' else set()


def codes_none(n):
    return {'none or red'} if n is None or n == Color.R else set()


INVS = [(None, None), (i_neg, codes_neg), (i_multi, codes_multi), (i_lazy, codes_lazy), (i_none, codes_none)]
ELEMS = [1, 2, -1, 13, 99, 'x', 'y', None, 2.5, Color.R, Color.G, Sub(-3), True]


def decl(ti):
    t = TYPES[ti]
    src = optional(int) if t[0] == 'optional' else t[0]
    return src, t[1]


class Family(object):
    """A class with the model of what it accepts."""

    def __init__(self, base, levels, mixin=False):
        self.types, self.invs = (), []
        cls = base
        bases = []
        for depth, (ti, ii) in enumerate(levels):
            body = {'__module__': __name__, '__qualname__': 'K'}
            if TYPES[ti] is not NOTYPE:
                src, acc = decl(ti)
                body['__type__'] = src
                self.types += acc
            if ii:
                body['__invariant__'] = staticmethod(INVS[ii][0]) if depth % 2 == 5 else INVS[ii][0]
                self.invs.append(INVS[ii][1])
            if mixin:
                bases.append(type(base)('B%d' % depth, (base,), body))
            else:
                cls = type(base)('L%d' % depth, (cls,), body)
        if mixin:
            cls = type(base)('Mixed', tuple(bases), {})
        self.cls = cls
        self.desc = (base.__name__, levels, 'mixin' if mixin else 'chain')

    def verdict(self, elems):
        """'type', a set of error codes, or None."""
        if self.types and any(not isinstance(e, self.types) for e in elems):
            return 'type'
        codes = set()
        for e in elems:
            for f in self.invs:
                codes |= f(e)
        return codes or None

    def expect(self, r, verdict, tr):
        from pyrsistent import InvariantException
        if verdict == 'type':
            if r[0] != 'exc' or not isinstance(r[1], TypeError):
                bad('a wrongly typed element gives %s, expected a type error' % short(r), tr)
        elif verdict is not None:
            if r[0] != 'exc' or not isinstance(r[1], InvariantException):
                bad('an element violating an invariant gives %s, expected an InvariantException' % short(r), tr)
            if set(r[1].invariant_errors) != verdict:
                bad('invariant errors are %s, expected %s' % (short(r[1].invariant_errors), short(verdict)), tr)
        elif r[0] != 'ok':
            bad('valid elements were rejected: %r' % (r[1],), tr)


def hierarchies(tier, part, parts):
    n = 0
    for t1, i1, t2, i2 in product(range(len(TYPES)), range(len(INVS)), range(len(TYPES)), range(len(INVS))):
        n += 1
        if n % parts != part:
            continue
        if t2 == 0 and i2 == 0:
            yield [(t1, i1)], False
            yield [(t1, i1), (0, 0), (0, 0)], False
            yield [(0, 0), (t1, i1)], False
        yield [(t1, i1), (t2, i2)], False
        if (t1 + i1 + t2 + i2) % 3 == 0 or tier != 'quick':
            yield [(t1, i1), (0, 0), (t2, i2)], False
            yield [(t1, i1), (t2, i2), (0, 0)], False
            yield [(t1, i1), (t2, i2)], True
        if tier != 'quick':
            for t3, i3 in product(range(0, len(TYPES), 3), range(len(INVS))):
                yield [(t1, i1), (t2, i2), (t3, i3)], False


def shards(tier):
    out = []
    parts = 8 if tier == 'quick' else 24
    for kind in ('vector', 'set', 'map'):
        for p in range(parts):
            out.append(('c', [kind, p, parts]))
    out.append(('c', ['nested']))
    out.append(('c', ['mixed']))
    out.append(('c', ['namesakes']))
    for kind in ('vector', 'set', 'map'):
        out.append(('c', ['evolve', kind, 5 if tier == 'quick' else 7]))
    return out


def run_shard(ctx, spec):
    globals()['run_' + spec[0]](ctx, *spec[1:])


def words(n):
    for k in range(n + 1):
        for w in product(ELEMS, repeat=k):
            yield list(w)


def run_vector(ctx, part, parts):
    from pyrsistent import CheckedPVector, pvector

    class Any(CheckedPVector):
        pass
    for levels, mixin in hierarchies(ctx.tier, part, parts):
        fam = Family(CheckedPVector, levels, mixin)
        cls = fam.cls

        def content(v, want, tr, strict=True):
            if strict and type(v) is not cls:
                bad('result is a %s' % type(v).__name__, tr)
            if len(v) != len(want) or any(a is not b for a, b in zip(v, want)):
                bad('contains %s, expected %s' % (short(list(v)), short(want)), tr)

        for w in words(2 if ctx.quick else 3):
            if len(w) == 2 and ctx.quick and (len(levels) > 2 or mixin) and w[0] not in (1, 'y', -1):
                continue
            ver = fam.verdict(w)
            tr = (fam.desc, 'constructor', w)
            ctx.trace(tr)
            ctx.step()
            r = call(cls, w)
            fam.expect(r, ver, tr)
            if ver is None:
                content(r[1], w, tr)
        good = [e for e in ELEMS if fam.verdict([e]) is None][:2]
        base_l = (good * 2)[:2] if good else []
        base = cls(base_l)
        a = base_l[:1]
        for x in ELEMS:
            ver = fam.verdict([x])
            ctx.state((str(fam.desc), str(x)))
            ops = [
                ('append', lambda: base.append(x), base_l + [x]),
                ('extend', lambda: base.extend([x]), base_l + [x]),
                ('extend first', lambda: base.extend([x] + a + a), base_l + [x] + a + a),
                ('extend mid', lambda: base.extend(iter(a + [x] + a)), base_l + a + [x] + a),
                ('extend last', lambda: base.extend(pvector(a + a + [x])), base_l + a + a + [x]),
                ('set end', lambda: base.set(len(base_l), x), base_l + [x]),
                ('+', lambda: base + [x], base_l + [x]),
                ('+ checked', lambda: base + Any([x]), base_l + [x]),
                ('create', lambda: cls.create([x] + a), [x] + a),
                ('create last', lambda: cls.create(iter(a + [x])), a + [x]),
                ('new from vector', lambda: cls(pvector([x])), [x]),
                ('new from checked', lambda: cls(Any(a + [x])), a + [x]),
                ('evolver append', lambda: base.evolver().append(x).persistent(), base_l + [x]),
                ('evolver extend', lambda: base.evolver().extend(a + [x]).persistent(), base_l + a + [x]),
                ('evolver set end', lambda: base.evolver().set(len(base_l), x).persistent(), base_l + [x]),
            ]
            if base_l:
                ops += [
                    ('set 0', lambda: base.set(0, x), [x] + base_l[1:]),
                    ('set -1', lambda: base.set(-1, x), base_l[:1] + [x]),
                    ('mset', lambda: base.mset(0, base_l[0], 1, x), [base_l[0], x]),
                    ('transform', lambda: base.transform([0], x if not callable(x) else None), [x] + base_l[1:]),
                    ('transform fn', lambda: base.transform([1], lambda _: x), base_l[:1] + [x]),
                    ('evolver set', lambda: base.evolver().set(1, x).persistent(), base_l[:1] + [x]),
                    ('evolver []', lambda: evset(base, 0, x), [x] + base_l[1:]),
                    ('evolver twice', lambda: ev_twice(base, x), base_l + [base_l[0], x]),
                ]
            for name, f, want in ops:
                tr = (fam.desc, base_l, name, x)
                ctx.trace(tr)
                ctx.step()
                r = call(f)
                fam.expect(r, ver, tr)
                if ver is None:
                    content(r[1], want, tr)
            content(base, base_l, (fam.desc, 'changed', x))
        for name, f, want in (('delete', lambda: base.delete(0), base_l[1:]), ('remove', lambda: base.remove(base_l[0]), base_l[1:]), ('slice', lambda: base[:1], base_l[:1]), ('*', lambda: base * 2, base_l * 2),
                              ('evolver delete', lambda: evdel(base), base_l[1:])):
            if base_l:
                ctx.step()
                content(f(), want, (fam.desc, name), False)
        ctx.check(cls.create(base) is base, 'create of an instance gives another one', (fam.desc,))


def evset(v, i, x):
    e = v.evolver()
    e[i] = x
    return e.persistent()


def evdel(v):
    e = v.evolver()
    e.delete(0)
    return e.persistent()


def ev_twice(v, x):
    e = v.evolver()
    e.append(v[0])
    e.persistent()
    e.append(x)
    return e.persistent()


def run_set(ctx, part, parts):
    from pyrsistent import CheckedPSet, pset

    class Any(CheckedPSet):
        pass
    for levels, mixin in hierarchies(ctx.tier, part, parts):
        fam = Family(CheckedPSet, levels, mixin)
        cls = fam.cls

        def content(v, want, tr):
            if type(v) is not cls:
                bad('result is a %s' % type(v).__name__, tr)
            if len(v) != len(set(want)) or set(v) != set(want):
                bad('contains %s, expected %s' % (short(list(v)), short(want)), tr)

        for w in words(2 if ctx.quick else 3):
            if len(w) == 2 and ctx.quick and (len(levels) > 2 or mixin) and w[0] not in (1, 'y', -1):
                continue
            ver = fam.verdict(w)
            tr = (fam.desc, 'constructor', w)
            ctx.trace(tr)
            ctx.step()
            r = call(cls, w)
            fam.expect(r, ver, tr)
            if ver is None:
                content(r[1], w, tr)
        good = [e for e in ELEMS if fam.verdict([e]) is None][:2]
        base = cls(good)
        for x in ELEMS:
            ver = fam.verdict([x])
            ctx.state((str(fam.desc), str(x)))
            ops = [
                ('add', lambda: base.add(x), good + [x]),
                ('update', lambda: base.update([x]), good + [x]),
                ('update mid', lambda: base.update(iter(good[:1] + [x] + good)), good + [x]),
                ('update set', lambda: base.update(pset([x] + good)), good + [x]),
                ('create', lambda: cls.create(good + [x]), good + [x]),
                ('create set', lambda: cls.create({x}), [x]),
                ('new from set', lambda: cls(pset([x])), [x]),
                ('new from checked', lambda: cls(Any([x] + good)), [x] + good),
                ('evolver', lambda: base.evolver().add(x).persistent(), good + [x]),
                ('evolver twice', lambda: evs_twice(base, good, x), good + [x]),
            ]
            for name, f, want in ops:
                tr = (fam.desc, good, name, x)
                ctx.trace(tr)
                ctx.step()
                r = call(f)
                fam.expect(r, ver, tr)
                if ver is None:
                    content(r[1], want, tr)
            for name, f, want in (('|', lambda: base | {x}, set(good) | {x}), ('^', lambda: base ^ [x], set(good) ^ {x}), ('&', lambda: base & {x}, set(good) & {x})):
                ctx.step()
                r = call(f)
                if r[0] != 'ok':
                    fam.expect(r, ver, (fam.desc, good, name, x))
                elif set(r[1]) != want or (isinstance(r[1], cls) and fam.verdict(list(r[1])) is not None):
                    bad('set algebra gives %s' % short(r[1]), (fam.desc, good, name, x))
            content(base, good, (fam.desc, 'changed', x))
        if good:
            content(base.remove(good[0]), good[1:], (fam.desc, 'remove'))
            content(base.discard(good[-1]), good[:-1], (fam.desc, 'discard'))
            content(base.evolver().remove(good[0]).persistent(), good[1:], (fam.desc, 'evolver remove'))
        ctx.check(cls.create(base) is base, 'create of an instance gives another one', (fam.desc,))


def evs_twice(s, good, x):
    e = s.evolver()
    if good:
        e.remove(good[0])
        e.persistent()
        e.add(good[0])
        e.persistent()
    e.add(x)
    return e.persistent()


# maps: declarations are (key types, value types, invariant)
KT = [0, 1, 2, 5]
VT = [0, 1, 3, 4, 7]


def m_inv1(k, v):
    return (k != v, 'key equals value')


def m_inv2(k, v):
    return ((v != -1, 'minus one'), (k != 13, 'unlucky key'))


def mc1(k, v):
    return {'key equals value'} if k == v else set()


def mc2(k, v):
    t = ()
    if v == -1:
        t += ('minus one',)
    if k == 13:
        t += ('unlucky key',)
    return {t} if t else set()


MINV = [(None, None), (m_inv1, mc1), (m_inv2, mc2)]
PAIRS = [(1, 2), (2, 2), (1, -1), (13, 1), (13, -1), (5, None), (6, 'x'), ('x', 1), ('y', 2.5), (None, 1), (2.5, 2), (Color.R, 1), (13, 13)]


class MapFamily(object):
    def __init__(self, levels, mixin=False):
        from pyrsistent import CheckedPMap
        self.kt, self.vt, self.invs = (), (), []
        cls = CheckedPMap
        bases = []
        for depth, (k, v, i) in enumerate(levels):
            body = {'__module__': __name__}
            if TYPES[k] is not NOTYPE:
                src, acc = decl(k)
                body['__key_type__'] = src
                self.kt += acc
            if TYPES[v] is not NOTYPE:
                src, acc = decl(v)
                body['__value_type__'] = src
                self.vt += acc
            if i:
                body['__invariant__'] = MINV[i][0]
                self.invs.append(MINV[i][1])
            if mixin:
                bases.append(type(CheckedPMap)('B%d' % depth, (CheckedPMap,), body))
            else:
                cls = type(CheckedPMap)('L%d' % depth, (cls,), body)
        if mixin:
            cls = type(CheckedPMap)('Mixed', tuple(bases), {})
        self.cls = cls
        self.desc = ('CheckedPMap', levels, 'mixin' if mixin else 'chain')

    def verdict(self, items):
        for k, v in items:
            if self.kt and not isinstance(k, self.kt) or self.vt and not isinstance(v, self.vt):
                return 'type'
        codes = set()
        for k, v in items:
            for f in self.invs:
                codes |= f(k, v)
        return codes or None

    expect = Family.expect


def run_map(ctx, part, parts):
    from pyrsistent import CheckedKeyTypeError, CheckedPMap, CheckedValueTypeError, pmap

    class Any(CheckedPMap):
        pass
    n = 0
    for l1 in product(KT, VT, range(3)):
        for l2 in product(KT[:3], VT[:4], range(3)):
            n += 1
            if n % parts != part:
                continue
            hs = [([l1, l2], False)]
            if l2 == (0, 0, 0):
                hs += [([l1], False), ([l1, l2, l2], False), ([l2, l1], False)]
            if (l1[2] + l2[1]) % 2 == 0 or not ctx.quick:
                hs += [([l1, l2], True), ([l1, (0, 0, 0), l2], False)]
            for levels, mixin in hs:
                fam = MapFamily(levels, mixin)
                cls = fam.cls

                def content(v, want, tr):
                    if type(v) is not cls:
                        bad('result is a %s' % type(v).__name__, tr)
                    if len(v) != len(want) or dict(v) != want:
                        bad('contains %s, expected %s' % (short(dict(v)), short(want)), tr)

                goods = [p for p in PAIRS if fam.verdict([p]) is None]
                good = dict(goods[:1])
                base = cls(good)
                content(base, good, (fam.desc, 'new'))
                g = list(good.items())
                for p in PAIRS:
                    k, v = p
                    ver = fam.verdict([p])
                    merged = dict(good)
                    merged[k] = v
                    ctx.state((str(fam.desc), str(p)))
                    ops = [
                        ('new', lambda: cls({k: v}), {k: v}),
                        ('new first', lambda: cls(dict([p] + g)) if k not in good else cls({k: v}), dict([p] + g) if k not in good else {k: v}),
                        ('new from pmap', lambda: cls(pmap(dict(g + [p]))), dict(g + [p])),
                        ('new from checked', lambda: cls(Any(dict(g + [p]))), dict(g + [p])),
                        ('create', lambda: cls.create(dict(g + [p])), dict(g + [p])),
                        ('set', lambda: base.set(k, v), merged),
                        ('update', lambda: base.update({k: v}), merged),
                        ('update many', lambda: base.update(dict(g), pmap({k: v})), merged),
                        ('update_with', lambda: base.update_with(lambda a, b: b, {k: v}), merged),
                        ('+', lambda: base + {k: v}, merged),
                        ('|', lambda: base | pmap({k: v}), merged),
                        ('evolver', lambda: base.evolver().set(k, v).persistent(), merged),
                        ('evolver []', lambda: evset(base, k, v), merged),
                        ('evolver twice', lambda: evm_twice(base, g, k, v), merged),
                    ]
                    if not callable(k):
                        ops.append(('transform', lambda: base.transform([k], lambda _: v), merged))
                    for name, f, want in ops:
                        tr = (fam.desc, good, name, p)
                        ctx.trace(tr)
                        ctx.step()
                        r = call(f)
                        fam.expect(r, ver, tr)
                        if ver is None:
                            content(r[1], want, tr)
                        elif ver == 'type' and name in ('set', 'new'):
                            bad_key = fam.kt and not isinstance(k, fam.kt)
                            if not isinstance(r[1], CheckedKeyTypeError if bad_key else CheckedValueTypeError):
                                bad('wrong kind of type error: %r' % (r[1],), tr)
                    if good and k not in good:
                        # merging into an existing key
                        ctx.step()
                        w = fam.verdict([(g[0][0], v)])
                        r = call(base.update_with, lambda a, b: v, {g[0][0]: g[0][1]})
                        fam.expect(r, w, (fam.desc, good, 'update_with result', v))
                    content(base, good, (fam.desc, 'changed', p))
                if good:
                    content(base.remove(g[0][0]), {}, (fam.desc, 'remove'))
                    content(base.discard('nosuch'), good, (fam.desc, 'discard'))
                ctx.check(cls.create(base) is base, 'create of an instance gives another one', (fam.desc,))


def evm_twice(m, g, k, v):
    e = m.evolver()
    if g:
        e.remove(g[0][0])
        e.persistent()
        e[g[0][0]] = g[0][1]
        e.persistent()
    e[k] = v
    return e.persistent()


def run_nested(ctx):
    """create() builds inner checked values, which are checked as well."""
    from pyrsistent import CheckedPMap, CheckedPSet, CheckedPVector, InvariantException, optional

    class V(CheckedPVector):
        __type__ = int
        __invariant__ = lambda n: (n >= 0, 'negative')

    class S(CheckedPSet):
        __type__ = (int, str)

    class VV(CheckedPVector):
        __type__ = V
        __invariant__ = lambda v: (len(v) < 3, 'too long')

    class VO(CheckedPVector):
        __type__ = optional(V)

    class M(CheckedPMap):
        __key_type__ = str
        __value_type__ = V

    class MM(CheckedPMap):
        __key_type__ = (str, int)
        __value_type__ = optional(M)

    class SV(CheckedPSet):
        __type__ = V
    rows = [[], [1], [1, 2], [1, 2, 3], [-1], ['x'], [1, 'x']]

    def row(r):
        return 'type' if 'x' in r else 'inv' if -1 in r else None
    for a in rows:
        for b in rows:
            vs = {row(a), row(b)}
            exp = 'type' if row(a) == 'type' or (row(b) == 'type' and row(a) is None) else 'inv' if 'inv' in vs else None
            # with several offending parts whichever comes first is reported
            any_bad = vs - {None}
            for name, cls, data, want in (
                    ('VV', VV, [a, b], lambda x: [list(i) for i in x] == [a, b] and all(type(i) is V for i in x)),
                    ('VO', VO, [a, None, b], lambda x: [list(i) if i is not None else None for i in x] == [a, None, b]),
                    ('M', M, {'p': a, 'q': b}, lambda x: {k: list(v) for k, v in x.items()} == {'p': a, 'q': b} and all(type(v) is V for v in x.values())),
                    ('MM', MM, {'p': {'z': a}, 3: None, 'r': {'y': b}}, lambda x: type(x['p']) is M and x[3] is None and list(x['p']['z']) == a and list(x['r']['y']) == b)):
                for variant in range(2):
                    ctx.step()
                    tr = ('nested', name, a, b, variant)
                    ctx.trace(tr)
                    ctx.state(str(tr))
                    d = data
                    if variant and not any_bad:
                        d = [V(i) if isinstance(i, list) else i for i in data] if isinstance(data, list) else data     # already built parts
                    r = call(cls.create, d)
                    too_long = name == 'VV' and (len(a) > 2 or len(b) > 2)
                    if any_bad:
                        if r[0] != 'exc' or not isinstance(r[1], (TypeError, InvariantException)):
                            bad('invalid inner data was accepted: %s' % short(r), tr)
                        if any_bad == {'type'} and not isinstance(r[1], TypeError) or any_bad == {'inv'} and not isinstance(r[1], InvariantException):
                            bad('wrong exception %r' % (r[1],), tr)
                    elif too_long:
                        if outcome_class(r) != 'InvariantException' or set(r[1].invariant_errors) != {'too long'}:
                            bad('outer invariant not checked: %s' % short(r), tr)
                    elif r[0] != 'ok' or not want(r[1]) or type(r[1]) is not cls:
                        bad('create gives %s' % short(r), tr)
                    # the constructor takes built parts only
                    r = call(cls, data)
                    if not isinstance(r[1], TypeError):
                        bad('unbuilt parts were accepted by the constructor: %s' % short(r), tr)
    x = SV.create([[1], [2, 3]])
    ctx.check(set(x) == {V([1]), V([2, 3])} and all(type(i) is V for i in x), 'set of vectors')


def run_mixed(ctx):
    """create() with inner checked types beside others, in every position: what has one of the types is taken as it is, everything else is built by the first checked type."""
    from pyrsistent import CheckedPMap, CheckedPSet, CheckedPVector, InvariantException, optional

    class V(CheckedPVector):
        __type__ = int
        __invariant__ = lambda n: (n >= 0, 'negative')

    class W(V):
        pass
    specs = [('V', V), ('V or str', (V, str)), ('str or V', (str, V)), ('optional V', optional(V)), ('int, V or None', (int, V, type(None))), ('V or W', (V, W)), ('W or str', [W, str]), ('str', str), ('anything', None)]
    items = [(), (1,), (1, 2), (-1,), ('x',), V(), V([1]), W([1]), 'text', '', None, 5]

    def place(kind, spec, other):
        if kind == 'vec':
            return type(CheckedPVector)('T', (CheckedPVector,), {'__type__': spec} if spec is not None else {})
        if kind == 'set':
            return type(CheckedPSet)('T', (CheckedPSet,), {'__type__': spec} if spec is not None else {})
        d = {}
        if spec is not None:
            d['__key_type__' if kind == 'key' else '__value_type__'] = spec
        if other is not None:
            d['__value_type__' if kind == 'key' else '__key_type__'] = other
        return type(CheckedPMap)('T', (CheckedPMap,), d)

    def expect(spec, x):
        if spec is None:
            return x
        ts = tuple(spec) if isinstance(spec, (tuple, list)) else (spec,)
        if isinstance(x, ts):
            return x
        chk = [t for t in ts if issubclass(t, V)]
        if not chk:
            raise TypeError
        if isinstance(x, chk[0]):
            return x
        if x is None or x == 5 or 'x' in x or x == 'text':
            raise TypeError
        if -1 in tuple(x):
            raise InvariantException
        return chk[0](x)
    for (name, spec), kind in product(specs, ('vec', 'set', 'key', 'value')):
        for oname, other in (specs if kind in ('key', 'value') else specs[:1]):
            cls = place(kind, spec, other)
            for a, b in product(items, repeat=2):
                tr = ('mixed', kind, name, oname, a, b)
                ctx.trace(tr)
                ctx.step()
                ctx.state((kind, name, oname, str(a), str(b)))
                want = []
                try:
                    for x, s in ((a, spec), (b, spec if kind in ('vec', 'set') else other)):
                        want.append(expect(s, x))
                except (TypeError, InvariantException) as e:
                    want = type(e)
                data = [a, b] if kind in ('vec', 'set') else {a: b} if kind == 'key' else {b: a}
                r = call(cls.create, data)
                if isinstance(want, type):
                    if r[0] == 'ok' or not isinstance(r[1], (TypeError, InvariantException)):
                        bad('invalid data was accepted: %s' % short(r), tr)
                    continue
                if r[0] != 'ok':
                    bad('raised %r' % (r[1],), tr)
                got = r[1]
                if type(got) is not cls:
                    bad('gives a %s' % type(got), tr)
                got = list(got) if kind in ('vec', 'set') else list(list(got.items())[0]) if kind == 'key' else list(list(got.items())[0])[::-1]
                if kind == 'set':
                    if set(got) != set(want) or len(got) != len(set(want)):
                        bad('holds %s, expected %s' % (short(got), short(want)), tr)
                    continue
                for g, w, given in zip(got, want, (a, b)):
                    if g != w or type(g) is not type(w) or (w is given and g is not w):
                        bad('holds %s, expected %s' % (short(got), short(want)), tr)


def run_namesakes(ctx):
    """Elements whose classes have the same name, module and contents as the declared ones but are others; subclasses; all orders of use."""
    from pyrsistent import CheckedPMap, CheckedPSet, CheckedPVector

    def make():
        return type('E', (), {'__module__': __name__, '__qualname__': 'E', '__slots__': ()})
    for spec_kind, kind in product(('one', 'two', 'sub'), ('vec', 'set', 'key', 'value', 'both')):
        for history in product(range(4), repeat=3):
            A, B = make(), make()
            Sub = type('E', (A,), {'__module__': __name__, '__qualname__': 'E'})
            pool = [A(), B(), Sub(), 'e']
            spec = {'one': A, 'two': (A, str), 'sub': Sub}[spec_kind]
            ok = [isinstance(x, spec) for x in pool]
            if kind == 'vec':
                cls = type(CheckedPVector)('T', (CheckedPVector,), {'__type__': spec})
                ways = [lambda x: cls([x]), lambda x: cls().append(x), lambda x: cls().extend([x]), lambda x: cls.create([x])]
            elif kind == 'set':
                cls = type(CheckedPSet)('T', (CheckedPSet,), {'__type__': spec})
                ways = [lambda x: cls([x]), lambda x: cls().add(x), lambda x: cls().update([x]), lambda x: cls.create([x])]
            elif kind == 'both':
                cls = type(CheckedPMap)('T', (CheckedPMap,), {'__value_type__': spec, '__key_type__': B})
                ways = [lambda x: cls({pool[1]: x}), lambda x: cls().set(pool[1], x)]
            else:
                cls = type(CheckedPMap)('T', (CheckedPMap,), {'__%s_type__' % kind: spec})
                ways = [lambda x: cls({x: x}), lambda x: cls().set(x, x), lambda x: cls().update({x: x}), lambda x: cls.create({x: x})]
            tr = ('namesakes', spec_kind, kind, history)
            ctx.trace(tr)
            ctx.state(tr)
            for n in history:
                for w in ways:
                    ctx.step()
                    r = call(w, pool[n])
                    if ok[n] != (r[0] == 'ok') or (r[0] != 'ok' and not isinstance(r[1], TypeError)):
                        bad('element %d gives %s' % (n, short(r)), tr)


class Num(object):
    """Equal by n, distinct otherwise."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Num) and self.n == o.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return 'Num(%d)' % self.n


def run_evolve(ctx, kind, depth):
    """All histories of one evolver with valid and invalid elements: whatever persistent() gives is valid, exact until the first offence, and nothing given earlier changes."""
    from pyrsistent import CheckedPMap, CheckedPSet, CheckedPVector, InvariantException
    one, twin, two, neg = Num(1), Num(1), Num(2), Num(-1)

    class V(CheckedPVector):
        __type__ = Num
        __invariant__ = lambda e: (e.n >= 0, 'negative')

    class S(CheckedPSet):
        __type__ = Num
        __invariant__ = lambda e: (e.n >= 0, 'negative')

    class M(CheckedPMap):
        __key_type__ = str
        __value_type__ = Num
        __invariant__ = lambda k, e: (e.n >= 0 and k != 'bad', 'negative')
    if kind == 'vector':
        cls = V
        alphabet = [('append', one), ('append', neg), ('append', 3), ('extend', [two, neg]), ('extend', [two, 'x']), ('set', 0, twin), ('set', 0, neg), ('set', 0, None), ('delete', 0)]

        def model(m, op):
            if op[0] == 'append':
                return m + [op[1]]
            if op[0] == 'extend':
                return m + op[1]
            if op[0] == 'delete':
                return m[1:] if m else IndexError
            return [op[2]] + m[1:]

        def elems(op):
            return [op[1]] if op[0] == 'append' else op[1] if op[0] == 'extend' else [op[2]] if op[0] == 'set' else []

        def exact(v, m):
            return len(v) == len(m) and all(a is b for a, b in zip(v, m))

        def valid(v):
            return all(isinstance(e, Num) and e.n >= 0 for e in v)
        starts = [[], [one], [two, one]]
        make = cls
    elif kind == 'set':
        cls = S
        alphabet = [('add', one), ('add', neg), ('add', 3), ('add', two), ('remove', one), ('remove', two), ('remove', neg)]

        def model(m, op):
            if op[0] == 'add':
                return m if op[1] in m else m + [op[1]]
            return [e for e in m if e != op[1]] if op[1] in m else KeyError

        def elems(op):
            return [op[1]] if op[0] == 'add' else []

        def exact(v, m):
            return len(v) == len(m) and set(v) == set(m)

        def valid(v):
            return all(isinstance(e, Num) and e.n >= 0 for e in v)
        starts = [[], [one], [two, one]]
        make = cls
    else:
        cls = M
        alphabet = [('set', 'a', one), ('set', 'a', twin), ('set', 'a', neg), ('set', 'bad', one), ('set', 'b', 3), ('set', 3, one), ('remove', 'a'), ('remove', 'bad')]

        def model(m, op):
            m = dict(m)
            if op[0] == 'set':
                m[op[1]] = op[2]
                return m
            return m if m.pop(op[1], None) is not None else KeyError

        def elems(op):
            return [op[1:]] if op[0] == 'set' else []

        def exact(v, m):
            return len(v) == len(m) and all(v.get(k) is x for k, x in m.items())

        def valid(v):
            return all(isinstance(k, str) and isinstance(e, Num) and e.n >= 0 and k != 'bad' for k, e in v.items())
        starts = [{}, {'a': two}, {'a': one, 'c': two}]
        make = cls

    def wrong(op):
        for e in elems(op):
            if kind == 'map':
                if not isinstance(e[0], str) or not isinstance(e[1], Num):
                    return 'type'
            elif not isinstance(e, Num):
                return 'type'
        for e in elems(op):
            if (kind == 'map' and (e[0] == 'bad' or e[1].n < 0)) or (kind != 'map' and e.n < 0):
                return 'inv'
        return None
    alphabet = alphabet + [('persistent',), ('persistent',)][:1]
    for start in starts:
        for path in product(alphabet, repeat=depth):
            if path[-1][0] != 'persistent':
                continue
            tr = (kind, start, path)
            ctx.trace(tr)
            src = make(start)
            e = src.evolver()
            m, clean, given = start, True, [(src, start)]
            for op in path + (('persistent',),):
                ctx.step()
                if op[0] == 'persistent':
                    r = call(e.persistent)
                    if r[0] == 'ok':
                        if type(r[1]) is not cls or not valid(r[1]):
                            bad('persistent() gives %s %s' % (type(r[1]).__name__, short(r[1])), tr)
                        if clean and not exact(r[1], m):
                            bad('persistent() gives %s, expected %s' % (short(r[1]), short(m)), tr)
                        given.append((r[1], m if clean else None))
                    elif clean:
                        bad('persistent() raised %r' % (r[1],), tr)
                    elif not isinstance(r[1], InvariantException) or 'negative' not in r[1].invariant_errors:
                        bad('persistent() raised %r' % (r[1],), tr)
                    continue
                r = call(getattr(e, op[0]), *op[1:])
                w = wrong(op)
                if w == 'type':
                    if r[0] == 'ok' or not isinstance(r[1], TypeError):
                        bad('%s gives %s, expected a type error' % (op, short(r)), tr)
                    continue        # the element was refused at once; the evolver is as before
                if w == 'inv':
                    if r[0] != 'ok' and not isinstance(r[1], InvariantException):
                        bad('%s raised %r' % (op, r[1]), tr)
                    if r[0] == 'ok' or clean:
                        clean = False
                    continue
                if clean:
                    n = model(m, op)
                    if isinstance(n, type):
                        if outcome_class(r) != n.__name__:
                            bad('%s gives %s' % (op, short(r)), tr)
                    else:
                        if r[0] != 'ok':
                            bad('%s raised %r' % (op, r[1]), tr)
                        m = n
            ctx.state((kind, str(start), str(m), clean))
            for v, mm in given:
                if not valid(v) or (mm is not None and not exact(v, mm)):
                    bad('a value given out has become %s, expected %s' % (short(v), short(mm)), tr)
