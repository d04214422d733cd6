"""C13: records and persistent classes always satisfy their declaration."""
import enum
from collections import namedtuple
from itertools import product

import factories

from core import call, outcome_class, short
from maps import MISSING, bad

BOUNDS = {
    'quick': 'records and classes; all 288 declarations of one field (4 types x 3 invariants x 4 defaults x mandatory or not x 3 factories), declared in the class, a base or a grandbase or overridden; all '
             'supplied values of a 8 element alphabet, then every update (keyword and positional set, update, |, evolver, transform, remove, create, create with unknown fields) with every value; types given as classes, names, enumerations, named tuples and combinations; two and three field '
             'classes over 10 declarations with own and inherited class invariants, all value combinations, all sequences of 2 updates; collection fields and nested records; all sequences of 5 evolver operations with valid and invalid values',
    'thorough': 'as quick with all 288 x 40 pairs of declarations and sequences of 3 updates',
}
ASSUMPTIONS = ['invariants are deterministic, factories are deterministic and leave the default alone', 'with several kinds of errors at once any of the applicable exceptions may be raised',
               'removing a class field that has a default may give the default again', 'factories may or may not be applied to defaults']

calls = []


class Decl(object):
    """A field declaration and its meaning."""

    def __init__(self, name, t, i, d, mand, f):
        self.name, self.key = name, (t, i, d, mand, f)
        self.types = [(), (int,), (int, str), (int, type(None))][t]
        self.inv = i
        self.initial = [MISSING, 5, 6, -1][d]
        self.initial_arg = [MISSING, 5, lambda: 6, -1][d]
        self.mandatory = bool(mand)
        self.fac = f

    def field(self):
        from pyrsistent import field
        kw = {}
        if self.types:
            kw['type'] = self.types if len(self.types) > 1 else self.types[0]
        if self.inv == 1:
            kw['invariant'] = lambda n: (not (isinstance(n, int) and n < 0), self.name + ' negative')
        elif self.inv == 2:
            kw['invariant'] = lambda n: ((n != 13, self.name + ' unlucky'), (not (isinstance(n, int) and n < 0), self.name + ' neg'))
        if self.initial_arg is not MISSING:
            kw['initial'] = self.initial_arg
        if self.mandatory:
            kw['mandatory'] = True
        if self.fac:
            kw['factory'] = self.factory
        return field(**kw)

    def factory(self, x):
        calls.append(self.name)
        return self.convert(x)

    def convert(self, x):
        if self.fac == 1 and x == '7':
            return 7
        if self.fac == 2:
            if x is None:
                return 13
            if x == 'boom':
                raise ArithmeticError('factory')
        return x

    def errors(self, v):
        """(type error?, set of invariant codes)"""
        if self.types and not isinstance(v, self.types):
            return True, set()
        neg = isinstance(v, int) and v < 0
        if self.inv == 1:
            return False, {self.name + ' negative'} if neg else set()
        if self.inv == 2:
            t = ()
            if v == 13:
                t += (self.name + ' unlucky',)
            if neg:
                t += (self.name + ' neg',)
            return False, {t} if t else set()
        return False, set()


VALUES = [MISSING, 1, -1, 13, '7', None, 2.5, 'boom', True]


def total_inv(subject):
    get = (lambda n: subject.get(n, 0)) if hasattr(subject, 'iteritems') else (lambda n: getattr(subject, n, 0))
    x, y = get('x'), get('y')
    return (not (isinstance(x, int) and isinstance(y, int) and x + y == 2), 'sum is two')


def pair_inv(subject):
    get = (lambda n: subject.get(n, 0)) if hasattr(subject, 'iteritems') else (lambda n: getattr(subject, n, 0))
    return ((get('y') != '7', 'y is seven'), (get('x') != get('y'), 'equal'))


def total_codes(d):
    x, y = d.get('x', 0), d.get('y', 0)
    return {'sum is two'} if isinstance(x, int) and isinstance(y, int) and x + y == 2 else set()


def pair_codes(d):
    t = ()
    if d.get('y', 0) == '7':
        t += ('y is seven',)
    if d.get('x', 0) == d.get('y', 0):
        t += ('equal',)
    return {t} if t else set()


class Model(object):
    """Class under test plus its declaration."""

    def __init__(self, kind, levels):
        """levels: list of (dict of name -> Decl, class invariant 0/1/2), from the base down."""
        from pyrsistent import PClass, PRecord
        self.kind = kind
        base = PRecord if kind == 'record' else PClass
        self.decls, self.invs = {}, []
        cls = base
        for n, (decls, inv) in enumerate(levels):
            body = {'__module__': __name__}
            for name, d in decls.items():
                body[name] = d.field()
                self.decls[name] = d
            if inv:
                body['__invariant__'] = [None, total_inv, pair_inv][inv]
                self.invs.append([None, total_codes, pair_codes][inv])
            cls = type(base)('T%d' % n, (cls,), body)
        self.cls = cls
        self.desc = (kind, [({n: d.key for n, d in ds.items()}, inv) for ds, inv in levels])

    # -- what should happen ------------------------------------------------------------
    def judge(self, current, supplied, create, removed=()):
        """(kinds of applicable errors, codes, missing, resulting values)"""
        kinds, codes, missing = set(), set(), set()
        new = dict(current)
        for k in removed:
            new.pop(k, None)
        for k, v in supplied.items():
            d = self.decls.get(k)
            if d is None:
                kinds.add('AttributeError')
                continue
            try:
                new[k] = d.convert(v)
            except ArithmeticError:
                kinds.add('ArithmeticError')
                new[k] = v
        for k, d in self.decls.items():
            if create and k not in new and d.initial is not MISSING:
                new[k] = d.initial
            if k in new:
                t, c = d.errors(new[k])
                if t and 'ArithmeticError' not in kinds:
                    kinds.add('TypeError')
                elif t:
                    kinds.add('TypeError')
                codes |= c
            elif d.mandatory:
                missing.add('%s.%s' % (self.cls.__name__, k))
        if codes or missing:
            kinds.add('InvariantException')
        if not kinds:
            for f in self.invs:
                codes |= f(new)
            if codes:
                kinds.add('InvariantException')
        return kinds, codes, missing, new

    def expect(self, r, verdict, tr):
        """Compare an outcome with the verdict; the resulting values, or None after an error."""
        from pyrsistent import InvariantException
        kinds, codes, missing, new = verdict
        if kinds:
            if r[0] == 'ok':
                bad('accepted: %s, expected %s' % (short(r[1]), sorted(kinds)), tr)
            e = r[1]
            got = 'InvariantException' if isinstance(e, InvariantException) else 'TypeError' if isinstance(e, TypeError) else type(e).__name__
            if got not in kinds:
                bad('raised %r, expected %s' % (e, sorted(kinds)), tr)
            if kinds == {'InvariantException'}:
                if set(e.invariant_errors) != codes:
                    bad('invariant errors %s, expected %s' % (short(e.invariant_errors), short(codes)), tr)
                if set(e.missing_fields) != missing:
                    bad('missing fields %s, expected %s' % (short(e.missing_fields), short(missing)), tr)
            return None
        if r[0] != 'ok':
            bad('raised %r, expected %s' % (r[1], short(new)), tr)
        self.content(r[1], new, tr)
        return new

    def content(self, v, new, tr):
        if type(v) is not self.cls:
            bad('result is a %s' % type(v).__name__, tr)
        for k in self.decls:
            x = getattr(v, k, MISSING)
            w = new.get(k, MISSING)
            if x is not w and not (type(x) is type(w) and x == w):
                bad('field %s is %s, expected %s' % (k, short(x), short(w)), tr)
        if self.kind == 'record':
            if len(v) != len(new) or dict(v) != new:
                bad('contents are %s, expected %s' % (short(dict(v)), short(new)), tr)
            if any(type(v[k]) is not type(new[k]) for k in new):
                bad('contents are %s, expected %s' % (short(dict(v)), short(new)), tr)
        elif v.serialize() != new:
            bad('contents are %s, expected %s' % (short(v.serialize()), short(new)), tr)


def updates(m, v, cur, names, values):
    """Every way of updating: (description, function, supplied, removed)."""
    for n in names:
        for x in values:
            if x is MISSING:
                continue
            s = {n: x}
            yield ('set', s), lambda s=s: v.set(**s), s
            yield ('set positional', s), lambda n=n, x=x: v.set(n, x), s
            yield ('evolver', s), lambda n=n, x=x: v.evolver().set(n, x).persistent(), s
            yield ('evolver []', s), lambda n=n, x=x: evset(v, n, x), s
            if m.kind == 'record':
                yield ('update', s), lambda s=s: v.update(s), s
                yield ('|', s), lambda s=s: v | s, s
            elif n in m.decls:
                yield ('evolver attribute', s), lambda n=n, x=x: evattr(v, n, x), s
            if n in cur:
                yield ('transform', s), lambda n=n, x=x: v.transform([n], lambda _: x), s


def evset(v, n, x):
    e = v.evolver()
    e[n] = x
    return e.persistent()


def evattr(v, n, x):
    e = v.evolver()
    setattr(e, n, x)
    return e.persistent()


def check_updates(ctx, m, v, cur, tr0, values=VALUES, names=None, removes=True):
    """All single updates of v; returns the reachable (value, model) pairs."""
    out = []
    for desc, f, s in updates(m, v, cur, names or list(m.decls) + ['nosuch'], values):
        tr = tr0 + (desc,)
        ctx.trace(tr)
        ctx.step()
        del calls[:]
        r = call(f)
        verdict = m.judge(cur, s, create=m.kind == 'class')
        new = m.expect(r, verdict, tr)
        if any(c not in s for c in calls):
            bad('the factory of an untouched field was run', tr)
        if new is not None:
            out.append((r[1], new, desc))
    if removes:
        for n in list(m.decls) + ['nosuch']:
            d = m.decls.get(n)
            for how in ('remove', 'evolver'):
                tr = tr0 + ((how, 'remove', n),)
                ctx.trace(tr)
                ctx.step()
                r = call(v.remove, n) if how == 'remove' else call(lambda: evdel(v, n))
                if n not in cur:
                    if outcome_class(r) != ('KeyError' if m.kind == 'record' else 'AttributeError'):
                        bad('removing an unset field gives %s' % short(r), tr)
                    continue
                if m.kind == 'class' and d.initial is not MISSING:
                    continue
                del calls[:]
                new = m.expect(r, m.judge(cur, {}, create=m.kind == 'class', removed=[n]), tr)
                if calls:
                    bad('a factory was run by remove', tr)
                if new is not None:
                    out.append((r[1], new, ('remove', n)))
    m.content(v, cur, tr0)
    return out


def evdel(v, n):
    e = v.evolver()
    del e[n]
    return e.persistent()


def frozen(ctx, m, v, cur, tr):
    for n in list(m.decls) + ['nosuch']:
        for f in (lambda: setattr(v, n, 1), lambda: delattr(v, n)):
            ctx.step()
            r = call(f)
            if outcome_class(r) != 'AttributeError':
                bad('attribute assignment or deletion gives %s' % short(r), tr)
    m.content(v, cur, tr)


def create_ways(m, s):
    yield 'new', lambda: m.cls(**s)
    yield 'create', lambda: m.cls.create(dict(s))
    yield 'create ignore_extra', lambda: m.cls.create(dict(s, zz=1), ignore_extra=True)


ALL = list(product(range(4), range(3), range(4), range(2), range(3)))


def ok_decl(key):
    t, i, d, mand, f = key
    return not (f == 1 and d == 0 and False)


SOME = [(0, 0, 0, 0, 0), (1, 1, 0, 1, 0), (1, 0, 1, 0, 0), (2, 2, 0, 0, 1), (3, 1, 2, 1, 2), (1, 2, 0, 0, 1), (0, 1, 3, 0, 0), (2, 0, 0, 1, 1), (3, 0, 0, 0, 2), (1, 1, 1, 1, 2)]


def shards(tier):
    out = []
    for kind in ('record', 'class'):
        for p in range(4):
            out.append(('c', ['one', kind, p, 4]))
        k = 5 if tier == 'quick' else 20
        for p in range(k):
            out.append(('c', ['two', kind, p, k]))
        out.append(('c', ['inherit', kind]))
        out.append(('c', ['collections', kind]))
        out.append(('c', ['nested', kind]))
        out.append(('c', ['types', kind]))
        out.append(('c', ['names', kind]))
        out.append(('c', ['factories', kind, 3 if tier == 'quick' else 4]))
        for p in range(2):
            out.append(('c', ['evolve', kind, p, 5 if tier == 'quick' else 6]))
    out.append(('c', ['misc']))
    return out


def weight(config, spec):
    return {'two': 10, 'one': 6}.get(spec[0], 3)


def run_shard(ctx, spec):
    globals()['run_' + spec[0]](ctx, *spec[1:])


def run_one(ctx, kind, part, parts):
    for n, key in enumerate(ALL):
        if n % parts != part:
            continue
        for place in range(4):
            d = Decl('x', *key)
            if place == 0:
                levels = [({'x': d}, 0)]
            elif place == 1:
                levels = [({'x': d}, 0), ({}, 0)]
            elif place == 2:
                levels = [({'x': d}, 0), ({}, 0), ({'y': Decl('y', 0, 0, 0, 0, 0)}, 0)]
            else:
                levels = [({'x': Decl('x', 1, 1, 0, 1, 1)}, 0), ({'x': d}, 0)]      # overriding
            m = Model(kind, levels)
            for x in VALUES:
                s = {} if x is MISSING else {'x': x}
                verdict = m.judge({}, s, True)
                v = None
                for how, f in create_ways(m, s):
                    tr = (m.desc, how, s)
                    ctx.trace(tr)
                    ctx.step()
                    ctx.state((kind, key, place, str(x)))
                    r = call(f)
                    cur = m.expect(r, verdict, tr)
                    if cur is not None:
                        v = r[1]
                r = call(lambda: m.cls(**dict(s, zz=1)))
                ctx.step()
                kinds = set(verdict[0]) | {'AttributeError'}
                if 'ArithmeticError' not in kinds and (r[0] == 'ok' or not any(k in [c.__name__ for c in type(r[1]).__mro__] for k in kinds)):
                    bad('an unknown field gives %s' % short(r), (m.desc, s, 'zz'))
                if v is not None:
                    frozen(ctx, m, v, cur, (m.desc, s))
                    ctx.check(m.cls.create(v) is v, 'create of an instance', (m.desc, s))
                    for w, new, desc in check_updates(ctx, m, v, cur, (m.desc, s), removes=place != 3):
                        if place == 0:
                            ctx.state((kind, key, str(new)))


def run_two(ctx, kind, part, parts):
    firsts = SOME if ctx.quick else ALL
    vals = [MISSING, 1, -1, '7', None]
    n = 0
    for kx, ky in product(firsts, SOME if ctx.quick else SOME * 1):
        for inv in range(3):
            n += 1
            if n % parts != part:
                continue
            m = Model(kind, [({'x': Decl('x', *kx), 'y': Decl('y', *ky)}, inv)])
            for x, y in product(vals, vals):
                s = {k: v for k, v in (('x', x), ('y', y)) if v is not MISSING}
                tr = (m.desc, 'new', s)
                ctx.trace(tr)
                ctx.step()
                ctx.state((kind, kx, ky, inv, str(s)))
                r = call(lambda: m.cls(**s))
                cur = m.expect(r, m.judge({}, s, True), tr)
                if cur is None:
                    continue
                v = r[1]
                # both at once
                for a, b in product((1, -1, '7'), (1, '7', 13)):
                    for how, f in (('set', lambda: v.set(x=a, y=b)), ('set reversed', lambda: v.set(**{'y': b, 'x': a})), ('evolver', lambda: evset(v.evolver().set('x', a), 'y', b)
                                                                                                            if False else ev2(v, a, b))):
                        ctx.step()
                        tr2 = tr + (how, a, b)
                        m.expect(call(f), m.judge(cur, {'x': a, 'y': b}, m.kind == 'class'), tr2)
                level1 = check_updates(ctx, m, v, cur, tr, values=(1, -1, '7'))
                if x in (1, MISSING) or not ctx.quick:
                    for w, new, desc in level1:
                        if desc[0] in ('set', 'remove', 'evolver'):
                            for w2, new2, d2 in check_updates(ctx, m, w, new, tr + (desc,), values=(1, -1) if ctx.quick else (1, -1, '7', None), names=None):
                                pass
                m.content(v, cur, tr)


def ev2(v, a, b):
    e = v.evolver()
    e['x'] = a
    e['y'] = b
    return e.persistent()


def run_inherit(ctx, kind):
    """Fields and class invariants from several levels and several bases."""
    from pyrsistent import PClass, PRecord
    vals = [MISSING, 1, 0, -1, '7']
    for kx, ky, kz in product(SOME[:6], SOME[:6], [(0, 0, 0, 0, 0), (1, 1, 0, 1, 0)]):
        for i1, i2 in product(range(3), range(3)):
            m = Model(kind, [({'x': Decl('x', *kx)}, i1), ({'y': Decl('y', *ky)}, 0), ({'z': Decl('z', *kz)}, i2)])
            for x, y in product(vals, vals):
                for z in (MISSING, 1):
                    s = {k: v for k, v in (('x', x), ('y', y), ('z', z)) if v is not MISSING}
                    tr = (m.desc, 'new', s)
                    ctx.trace(tr)
                    ctx.step()
                    ctx.state((kind, str(m.desc), str(s)))
                    r = call(lambda: m.cls(**s))
                    cur = m.expect(r, m.judge({}, s, True), tr)
                    if cur is not None and z == 1:
                        for n in 'xy':
                            for a in (1, -1):
                                ctx.step()
                                m.expect(call(lambda: r[1].set(n, a)), m.judge(cur, {n: a}, kind == 'class'), tr + (n, a))
    # two bases, for records (classes cannot have two bases with fields)
    if kind == 'record':
        for kx, ky in product(SOME, SOME):
            A = Model('record', [({'x': Decl('x', *kx)}, 1)])
            B = Model('record', [({'y': Decl('y', *ky)}, 2)])
            m = Model('record', [])
            m.cls = type(PRecord)('Two', (A.cls, B.cls), {})
            m.decls = dict(A.decls, **B.decls)
            m.invs = A.invs + B.invs
            m.desc = ('two bases', kx, ky)
            for x, y in product(vals, vals):
                s = {k: v for k, v in (('x', x), ('y', y)) if v is not MISSING}
                ctx.step()
                ctx.trace((m.desc, s))
                m.expect(call(lambda: m.cls(**s)), m.judge({}, s, True), (m.desc, s))


def run_collections(ctx, kind):
    """pvector_field, pset_field, pmap_field; every declaration uses its own item type."""
    from pyrsistent import CheckedPMap, CheckedPSet, CheckedPVector, InvariantException, PClass, PRecord, field, pmap_field, pset_field, pvector_field
    base = PRecord if kind == 'record' else PClass

    def item():
        class Item(object):
            def __init__(self, n):
                self.n = n

            def __eq__(self, o):
                return isinstance(o, Item) and self.n == o.n

            def __hash__(self):
                return hash(self.n)

            def __repr__(self):
                return 'I%r' % (self.n,)
        return Item
    for opt, item_inv, inv, init in product((False, True), (False, True), (False, True), (0, 1)):
        for what, fn, parent in (('vector', pvector_field, CheckedPVector), ('set', pset_field, CheckedPSet)):
            I = item()
            kw = {}
            if opt:
                kw['optional'] = True
            if item_inv:
                kw['item_invariant'] = lambda i: (i.n >= 0, 'item negative')
            if inv:
                kw['invariant'] = lambda xs: (xs is None or len(xs) < 3, 'too many')
            if init:
                kw['initial'] = [I(8)]
            cls = type(base)('T', (base,), {'xs': fn(I, **kw), 'o': field()})
            d = cls()
            ctx.check(list(d.xs) == ([I(8)] if init else []) and isinstance(d.xs, parent), 'default', (what, kw))
            e = cls.create({}) if init == 0 else d
            good = [[], [I(1)], [I(1), I(2)]]
            for data in good + [[I(1), I(2), I(3)], [I(-1)], [I(1), I(-1)], [1], [I(1), None], None, 5, 'ab']:
                forms = [('list', data)]
                if isinstance(data, list):
                    forms += [('tuple', tuple(data)), ('iterator', data)]
                for form, raw in forms:
                    def mk():
                        return iter(raw) if form == 'iterator' else raw
                    if data is None:
                        exp = None if opt else 'TypeError'
                    elif not isinstance(data, list) or any(not isinstance(x, I) for x in data):
                        exp = 'TypeError'
                    elif item_inv and any(x.n < 0 for x in data):
                        exp = 'item negative'
                    elif inv and len(data) > 2:
                        exp = 'too many'
                    else:
                        exp = None
                    for how, f in (('new', lambda: cls(xs=mk())), ('create', lambda: cls.create({'xs': mk()})), ('set', lambda: d.set(xs=mk())), ('set positional', lambda: d.set('xs', mk())),
                                   ('evolver', lambda: d.evolver().set('xs', mk()).persistent())):
                        tr = (kind, what, sorted(kw), how, form, data)
                        ctx.trace(tr)
                        ctx.step()
                        ctx.state(str(tr))
                        r = call(f)
                        if exp is None:
                            if r[0] != 'ok':
                                bad('raised %r' % (r[1],), tr)
                            xs = r[1].xs
                            if data is None:
                                if xs is not None:
                                    bad('field is %s' % short(xs), tr)
                            elif not isinstance(xs, parent) or sorted(x.n for x in xs) != sorted(x.n for x in data) or (what == 'vector' and list(xs) != data):
                                bad('field is %s' % short(xs), tr)
                            else:
                                # updating the collection in the field is checked as well
                                for y, yexp in ((I(7), None), (I(-7), 'item negative' if item_inv else None), (7, 'TypeError')):
                                    q = call(xs.append if what == 'vector' else xs.add, y)
                                    if (q[0] == 'ok') != (yexp is None) or (yexp == 'TypeError' and not isinstance(q[1], TypeError)):
                                        bad('adding %r to the field gives %s' % (y, short(q)), tr)
                        elif exp == 'TypeError':
                            if not isinstance(r[1], TypeError):
                                bad('gives %s, expected a type error' % short(r), tr)
                        elif not isinstance(r[1], InvariantException) or exp not in r[1].invariant_errors:
                            bad('gives %s, expected %s' % (short(r), exp), tr)
        I, J = item(), item()
        kw = {'optional': opt}
        if inv:
            kw['invariant'] = lambda xs: (xs is None or len(xs) < 2, 'too many')
        cls = type(base)('T', (base,), {'xs': pmap_field(I, J, **kw), 'o': field()})
        d = cls()
        ctx.check(len(d.xs) == 0 and isinstance(d.xs, CheckedPMap), 'default of a map field')
        for data in ({}, {I(1): J(1)}, {I(1): J(1), I(2): J(2)}, {1: J(1)}, {I(1): 1}, {I(1): J(1), J(1): J(1)}, None, 5):
            if data is None:
                exp = None if opt else 'exc'
            elif not isinstance(data, dict):
                exp = 'exc'
            elif any(not isinstance(k, I) or not isinstance(v, J) for k, v in data.items()):
                exp = 'TypeError'
            elif inv and len(data) > 1:
                exp = 'too many'
            else:
                exp = None
            for how, f in (('new', lambda: cls(xs=data)), ('create', lambda: cls.create({'xs': data})), ('set', lambda: d.set(xs=data)), ('evolver', lambda: d.evolver().set('xs', data).persistent())):
                tr = (kind, 'map', opt, inv, how, str(data))
                ctx.trace(tr)
                ctx.step()
                ctx.state(tr)
                r = call(f)
                if exp is None:
                    if r[0] != 'ok' or (data is None) != (r[1].xs is None) or (data is not None and (dict(r[1].xs) != data or not isinstance(r[1].xs, CheckedPMap))):
                        bad('gives %s' % short(r), tr)
                elif r[0] == 'ok' or (exp == 'TypeError' and not isinstance(r[1], TypeError)) or (exp == 'too many' and (not isinstance(r[1], InvariantException) or exp not in r[1].invariant_errors)):
                    bad('gives %s, expected %s' % (short(r), exp), tr)


def run_evolve(ctx, kind, part, depth):
    """All histories of one evolver with valid and invalid values: whatever persistent() gives satisfies the declaration, and is exact as long as nothing offending was done."""
    from pyrsistent import InvariantException, PClass, PRecord, field
    base = PRecord if kind == 'record' else PClass

    def whole(s):
        x = s.get('x') if kind == 'record' else getattr(s, 'x', None)
        return (x != 5, 'five')
    cls = type(base)('T', (base,), {'x': field(type=int, invariant=lambda n: (n >= 0, 'negative')), 'y': field(mandatory=True), 'd': field(initial=1), '__invariant__': whole})
    alphabet = [('set', 'x', 1), ('set', 'x', True), ('set', 'x', -1), ('set', 'x', 's'), ('set', 'x', 5), ('set', 'y', 0), ('set', 'y', None), ('remove', 'x'), ('remove', 'y'), ('set', 'nosuch', 1), ('persistent',)]
    names = ('x', 'y', 'd')

    def fields(v):
        return {k: getattr(v, k) for k in names if hasattr(v, k)}

    def valid(d):
        return 'y' in d and ('x' not in d or (isinstance(d['x'], int) and d['x'] >= 0 and d['x'] != 5))

    def exact(a, b):
        return set(a) == set(b) and all(type(a[k]) is type(b[k]) and a[k] == b[k] for k in a)
    n = 0
    for start in ({'y': 2}, {'y': 2, 'x': 3}):
        for path in product(alphabet, repeat=depth - 1):
            n += 1
            if n % 2 != part:
                continue
            tr = (kind, start, path)
            ctx.trace(tr)
            src = cls(**start)
            e, m, clean = src.evolver(), dict(start, d=1), True
            given = [(src, dict(m))]
            for op in path + (('persistent',), ('persistent',)):
                ctx.step()
                if op[0] == 'persistent':
                    r = call(e.persistent)
                    if r[0] == 'ok':
                        d = fields(r[1])
                        if type(r[1]) is not cls or not valid(d) or (kind == 'record' and (dict(r[1]) != d or len(r[1]) != len(d))):
                            bad('persistent() gives %s' % short(r[1]), tr)
                        if clean and not exact(d, m):
                            bad('persistent() gives %s, expected %s' % (short(r[1]), short(m)), tr)
                        given.append((r[1], d))
                    else:
                        if not isinstance(r[1], (InvariantException, TypeError, AttributeError)):
                            bad('persistent() raised %r' % (r[1],), tr)
                        if clean and valid(m):
                            bad('persistent() raised %r, expected %s' % (r[1], short(m)), tr)
                        clean = False
                    continue
                r = call(getattr(e, op[0]), *op[1:])
                if op[0] == 'remove':
                    if clean and (r[0] == 'ok') != (op[1] in m):
                        bad('%s gives %s' % (op, short(r)), tr)
                    if op[1] in m:
                        del m[op[1]]
                elif op[1] == 'nosuch' or op[2] == 's':
                    # at once for a record, by persistent() for a class
                    if kind == 'record':
                        if r[0] == 'ok' or not isinstance(r[1], AttributeError if op[1] == 'nosuch' else TypeError):
                            bad('%s gives %s' % (op, short(r)), tr)
                    else:
                        clean = False
                else:
                    if op[2] == -1:
                        clean = False
                    if r[0] != 'ok':
                        bad('%s raised %r' % (op, r[1]), tr)
                    m[op[1]] = op[2]
            ctx.state((kind, str(start), str(m), clean))
            for v, d in given:
                if not exact(fields(v), d):
                    bad('a value given out has become %s, expected %s' % (short(v), short(d)), tr)


class Hue(enum.Enum):
    R = 1
    G = 2


class Point(namedtuple('Point', 'a b')):
    pass


def run_types(ctx, kind):
    """Types given as classes, names, enumerations, named tuples and collections of those, for plain and for collection fields."""
    from pyrsistent import CheckedPMap, PClass, PRecord, field, optional, pmap_field, pset_field, pvector_field
    base = PRecord if kind == 'record' else PClass
    none = type(None)
    values = [1, True, 'a', None, 2.5, Hue.R, Hue.G, Point(1, 2), (1, 2), [1], 1j]
    here = __name__
    decls = [(int, (int,)), ('builtins.int', (int,)), (Hue, (Hue,)), (here + '.Hue', (Hue,)), (Point, (Point,)), (here + '.Point', (Point,)), ([int], (int,)), ((int, str), (int, str)), ({int, str}, (int, str)),
             (['builtins.int', str], (int, str)), ([Hue, 'builtins.str'], (Hue, str)), ([Point, none], (Point, none)), (optional(int), (int, none)), (optional('builtins.int'), (int, none)), (optional(Hue), (Hue, none)),
             (optional(int, str), (int, str, none)), ([[int, str], Hue], (int, str, Hue)), ((int, optional(Hue)), (int, Hue, none)), ('builtins.object', (object,)), ([int, int], (int,))]
    places = ('own', 'inherited', 'overridden')
    for (t, ok), place in product(decls, places):
        f = field(type=t)
        if place == 'own':
            cls = type(base)('T', (base,), {'x': f, 'y': field(initial=0)})
        elif place == 'inherited':
            cls = type(base)('T', (type(base)('B', (base,), {'x': f}),), {'y': field(initial=0)})
        else:
            cls = type(base)('T', (type(base)('B', (base,), {'x': field(type=complex), 'y': field(initial=0)}),), {'x': f})
        start = cls()
        for x in values:
            good = isinstance(x, ok)
            for how, fn in (('new', lambda: cls(x=x)), ('set', lambda: start.set(x=x)), ('set positional', lambda: start.set('x', x)), ('create', lambda: cls.create({'x': x})), ('evolver', lambda: evset(start, 'x', x))):
                tr = (kind, 'type', str(t), place, how, x)
                ctx.trace(tr)
                ctx.step()
                ctx.state(str(tr))
                r = call(fn)
                if good:
                    if r[0] != 'ok' or r[1].x is not x:
                        bad('gives %s' % short(r), tr)
                elif r[0] == 'ok' or not isinstance(r[1], TypeError):
                    bad('gives %s, expected a type error' % short(r), tr)
    hashed = [x for x in values if not isinstance(x, list)]
    for t, ok in decls:
        if isinstance(t, (list, set)):
            t = tuple(t)
        if isinstance(t, tuple) and any(isinstance(q, list) for q in t):
            continue
        for what, fn in (('vector', pvector_field), ('set', pset_field), ('map keys', lambda t: pmap_field(t, object)), ('map values', lambda t: pmap_field(object, t)), ('map both', lambda t: pmap_field(t, t))):
            cls = type(base)('T', (base,), {'xs': fn(t)})
            start = cls()
            for x, y in product(hashed, hashed):
                good = isinstance(x, ok) and isinstance(y, ok)
                raw = [x, y]
                if what == 'map keys':
                    raw = {x: 0, y: 0}
                elif what == 'map values':
                    raw = {0: x, 1: y}
                elif what == 'map both':
                    raw = {x: y}
                if what == 'set':
                    good = all(isinstance(q, ok) for q in raw)
                elif isinstance(raw, dict):
                    good = all((what == 'map values' or isinstance(k, ok)) and (what == 'map keys' or isinstance(v, ok)) for k, v in raw.items())
                for how, f in (('new', lambda: cls(xs=raw)), ('set', lambda: start.set(xs=raw))):
                    tr = (kind, what, str(t), how, x, y)
                    ctx.trace(tr)
                    ctx.step()
                    r = call(f)
                    if good:
                        if r[0] != 'ok' or (sorted(map(str, r[1].xs)) != sorted(map(str, set(raw) if what == 'set' else raw)) if not isinstance(raw, dict) else dict(r[1].xs) != raw):
                            bad('gives %s' % short(r), tr)
                    elif r[0] == 'ok' or not isinstance(r[1], TypeError):
                        bad('gives %s, expected a type error' % short(r), tr)


def run_factories(ctx, kind, depth):
    factories.values(ctx, kind, depth)


def run_nested(ctx, kind):
    """Fields of record, class and checked types are created from plain data and checked."""
    from pyrsistent import CheckedPVector, InvariantException, PClass, PRecord, field, optional, pvector_field
    base = PRecord if kind == 'record' else PClass
    for inner_base in (PRecord, PClass):
        Inner = type(inner_base)('Inner', (inner_base,), {'n': field(type=int, mandatory=True, invariant=lambda n: (n >= 0, 'negative')), 'k': field()})

        class Vec(CheckedPVector):
            __type__ = Inner
        cls = type(base)('Outer', (base,), {'one': field(type=Inner, mandatory=True), 'many': field(type=Vec), 'more': pvector_field(Inner), 'opt': field(type=optional(Inner))})
        inst = Inner(n=3)
        for one in ({'n': 1}, {'n': 1, 'k': 'q'}, inst, {'n': -1}, {}, {'n': 'x'}, {'n': 1, 'zz': 2}, 5):
            for many in (MISSING, [], [{'n': 1}, inst], [{'n': 1}, {'n': -2}], [{'n': 'x'}], [5]):
                for more in (MISSING, [inst, {'n': 4}], [{}], [{'n': 2, 'zz': 1}]):
                    for extra in (False, True):
                        s = {'one': one, 'many': many, 'more': more}
                        s = {k: v for k, v in s.items() if v is not MISSING}

                        def state(x):
                            if x is inst:
                                return None
                            if not isinstance(x, dict):
                                return 'exc'
                            if 'zz' in x and not extra:
                                return 'AttributeError'
                            if 'n' not in x or x['n'] == -1 or x['n'] == -2:
                                return 'InvariantException'
                            if not isinstance(x['n'], int):
                                return 'TypeError'
                            return None
                        parts = [one] + (many if many is not MISSING else []) + (more if more is not MISSING else [])
                        errs = {state(x) for x in parts} - {None}
                        tr = (kind, inner_base.__name__, str(s), extra)
                        ctx.trace(tr)
                        ctx.step()
                        ctx.state(tr)
                        r = call(lambda: cls.create(s, ignore_extra=True) if extra else cls.create(s))
                        if errs:
                            if r[0] == 'ok':
                                bad('accepted %s' % short(r[1]), tr)
                            name = 'TypeError' if isinstance(r[1], TypeError) else type(r[1]).__name__
                            if 'exc' not in errs and name not in errs:
                                bad('raised %r, expected %s' % (r[1], sorted(errs)), tr)
                            continue
                        if r[0] != 'ok':
                            bad('raised %r' % (r[1],), tr)
                        v = r[1]

                        def same(got, raw):
                            return isinstance(got, Inner) and (got is inst if raw is inst else got.n == raw['n'])
                        if not same(v.one, one) or (many is not MISSING and (type(v.many) is not Vec or len(v.many) != len(many) or not all(map(same, v.many, many)))) or \
                                (more is not MISSING and not all(map(same, v.more, more))) or (more is MISSING and len(v.more)):
                            bad('created %s' % short(v), tr)
                        w = v.set(opt=inst)
                        if w.opt is not inst or w.one is not v.one or w.more is not v.more:
                            bad('an update rebuilt other fields', tr)
                        w = v.transform(['one', 'n'], lambda n: n + 1)
                        if w.one.n != v.one.n + 1 or type(w) is not cls or type(w.one) is not Inner:
                            bad('transform of an inner field gives %s' % short(w), tr)
                        for f in (lambda: v.transform(['one', 'n'], -1), lambda: v.transform(['one', 'n'], 'a'), lambda: v.transform(['one'], None), lambda: v.set(one={})):
                            if call(f)[0] == 'ok':
                                bad('invalid inner value accepted', tr)


def run_misc(ctx):
    from pyrsistent import InvariantException, PClass, PRecord, field, pvector_field
    ctx.state('misc')
    ctx.trace('misc')
    # declarations that make no sense are refused
    for f in (lambda: field(type=int, initial='x'), lambda: field(invariant=3), lambda: field(factory=3), lambda: field(serializer=3), lambda: field(type=5), lambda: field(type=[3])):
        ctx.step()
        ctx.check(isinstance(call(f)[1], TypeError), 'a senseless declaration was accepted')
    # callable defaults are called for every instance
    for base in (PRecord, PClass):
        n = []

        def new():
            n.append(1)
            return len(n)
        cls = type(base)('T', (base,), {'a': field(initial=new), 'b': field()})
        ctx.check([cls().a, cls().a, cls(a=9).a] == [1, 2, 9], 'callable default')
        x = cls(b=1)
        k = len(n)
        ctx.check(x.set(b=2).a == x.a and x.set('b', 3).a == x.a and x.transform(['b'], 4).a == x.a and x.evolver().set('b', 5).persistent().a == x.a, 'default of an untouched field changed')
        # error data may be callable
        cls = type(base)('T', (base,), {'a': field(invariant=lambda x: (x > 0, lambda: 'lazy'))})
        ctx.check(call(lambda: cls(a=0))[1].invariant_errors == ('lazy',), 'callable error data')
        # two failing fields, a missing one and an inner failure are all reported
        cls = type(base)('T', (base,), {'a': field(invariant=lambda x: (x > 0, 'a')), 'b': field(invariant=lambda x: (x > 0, 'b')), 'c': field(mandatory=True)})
        e = call(lambda: cls(a=0, b=0))[1]
        ctx.check(isinstance(e, InvariantException) and set(e.invariant_errors) == {'a', 'b'} and e.missing_fields == ('T.c',), 'several errors are not all reported: %r' % (e,))
        # a failed update leaves the value usable
        ok = cls(a=1, b=1, c=1)
        ctx.check(call(lambda: ok.set(a=0))[0] == 'exc' and ok.set(a=2).a == 2 and ok.a == 1, 'failed update')
        # item invariants of two fields with the same item type (a known finding)
        class Item(int):
            pass
        strict = type(base)('Strict', (base,), {'xs': pvector_field(Item, item_invariant=lambda i: (i >= 0, 'negative'))})
        loose = type(base)('Loose', (base,), {'xs': pvector_field(Item)})
        r = call(lambda: loose(xs=[Item(-1)]))
        if r[0] != 'ok' or list(r[1].xs) != [-1]:
            ctx.violation('the item invariant of a field applies to another field with the same item type', ('pvector_field', base.__name__), 'KF1-item-invariant-leak')

        class Item2(int):
            pass
        loose = type(base)('Loose', (base,), {'xs': pvector_field(Item2)})
        strict = type(base)('Strict', (base,), {'xs': pvector_field(Item2, item_invariant=lambda i: (i >= 0, 'negative'))})
        r = call(lambda: strict(xs=[Item2(-1)]))
        if outcome_class(r) != 'InvariantException':
            ctx.violation('the item invariant of a field is dropped when another field has the same item type', ('pvector_field', base.__name__), 'KF1-item-invariant-dropped')


NAMES = ['self', 'cls', 'args', 'kwargs', 'key', 'k', 'value', 'val', 'v', 'name', 'names', 'field', 'fields', 'data', 'e', 'result', 'other', 'factory', 'initial', 'initial_values', 'mandatory', 'invariant', 'type', 'ignore_extra', 'map', 'maps', 'format', 'default', 'a_', '_x', 'x1',
         'items', 'keys', 'values', 'get', 'set', 'update', 'remove', 'discard', 'evolver', 'transform', 'serialize', 'create', 'iteritems', 'itervalues', 'copy', 'update_with', 'persistent', 'is_dirty', 'delete', 'append', 'extend']
METHODS = ('set', 'remove', 'evolver', 'transform', 'serialize', 'create')      # in a class the field takes the place of the method


def run_names(ctx, kind):
    """Fields may have any name, also one that the library uses itself."""
    from pyrsistent import InvariantException, PClass, PRecord, PTypeError, discard, field
    base = PRecord if kind == 'record' else PClass
    names = [n for n in NAMES if kind == 'record' or n not in METHODS]

    def get(x, n):
        if kind == 'record':
            return x[n] if n in x else MISSING
        return getattr(x, n, MISSING)

    for n1 in names:
        for n2 in names:
            if n1 == n2:
                continue
            ctx.state((kind, n1, n2))
            ctx.trace(('names', kind, n1, n2))
            T = type(base)('T', (base,), {n1: field(type=int, mandatory=True, invariant=lambda x: (x < 10, 'large')), n2: field(initial=5), '__module__': __name__})

            def expect(r, want, what):
                tr = ('names', kind, n1, n2, what)
                ctx.step()
                if isinstance(want, type):
                    if r[0] != 'exc' or type(r[1]) is not want:
                        bad('gives %s, expected %s' % (short(r), want.__name__), tr)
                    return r[1]
                if r[0] != 'ok':
                    bad('raises %r' % (r[1],), tr)
                got = tuple(get(r[1], n) for n in (n1, n2))
                if type(r[1]) is not T or got != want:
                    bad('has %s, expected %s' % (short(got), short(want)), tr)
                return r[1]

            x = expect(call(lambda: T(**{n1: 1})), (1, 5), 'keyword')
            expect(call(lambda: T(**{n2: 2, n1: 1})), (1, 2), 'keywords')
            expect(call(T.create if kind == 'record' and n1 != 'create' and n2 != 'create' or kind == 'class' else lambda d: base.create.__func__(T, d), {n1: 1, n2: 3}), (1, 3), 'create')
            S = base.set
            expect(call(lambda: S(x, **{n1: 4})), (4, 5), 'set keyword')
            expect(call(lambda: S(x, **{n2: 4, n1: 2})), (2, 4), 'set keywords')
            expect(call(S, x, n1, 6), (6, 5), 'set')
            expect(call(S, x, n2, 6), (1, 6), 'set other')
            ex = expect(call(lambda: T(**{n2: 1})), InvariantException, 'missing')
            if ex.missing_fields != ('T.' + n1,):
                bad('missing fields %s' % (ex.missing_fields,), ('names', kind, n1, n2))
            expect(call(lambda: T(**{n1: 'a'})), PTypeError, 'type')
            ex = expect(call(lambda: S(x, **{n1: 11})), InvariantException, 'invariant')
            if ex.invariant_errors != ('large',):
                bad('errors %s' % (ex.invariant_errors,), ('names', kind, n1, n2))
            expect(call(lambda: T(**{n1: 1, 'unknown_one': 2})), AttributeError, 'unknown')

            def evolve():
                e = base.evolver(x)
                e[n1] = 7
                e.set(n2, 8)
                return e.persistent()
            expect(call(evolve), (7, 8), 'evolver')
            if kind == 'class' and n1 not in ('persistent', 'is_dirty') and n2 not in ('persistent', 'is_dirty'):
                def evolve():
                    e = x.evolver()
                    setattr(e, n1, 7)
                    setattr(e, n2, getattr(e, n1))
                    return e.persistent()
                expect(call(evolve), (7, 7), 'evolver attributes')
            expect(call(lambda: base.transform(x, [n1], lambda a: a + 1, [n2], 3)), (2, 3), 'transform')
            expect(call(lambda: base.remove(x, n2)), (1, MISSING) if kind == 'record' else (1, 5), 'remove') if kind == 'record' else None
            expect(call(lambda: base.remove(x, n1)), InvariantException, 'remove mandatory')
            ctx.check(base.serialize(x) == {n1: 1, n2: 5}, 'serialize gives %s' % short(base.serialize(x)), ('names', kind, n1, n2))
            ctx.check(repr(x) in ('T(%s=1, %s=5)' % (n1, n2), 'T(%s=5, %s=1)' % (n2, n1)), 'repr %r' % x, ('names', kind, n1, n2))
            ctx.check(x == T(**{n1: 1}) and hash(x) == hash(T(**{n1: 1})) and x != S(x, n2, 6), 'equality', ('names', kind, n1, n2))
