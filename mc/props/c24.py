"""C24: declaring a class never changes how other classes behave.

Every class is observed through what it accepts, builds, reports and serializes over a small alphabet (its fingerprint).  The fingerprint of a
declaration must be the same whichever other class was declared before, after, below or beside it, and whatever was done with that other class.
"""
import os
import pickle
import sys
from itertools import product

from core import call, outcome_class, short
from maps import MISSING, bad

BOUNDS = {
    'quick': 'all ordered pairs of 103 declarations (also with item and field types that only share their name; checked vectors, sets and maps; records and classes with types, invariants, defaults, factories, serializers, class invariants, collection fields; immutable classes) in 6 relations: declared before, declared after, '
             'declared after instances exist, subclass adding the other declaration, common subclass of both, the same name and module; the other class is used (accepting, rejecting and failing) in between',
    'thorough': 'as quick with all triples of 35 declarations',
}
ASSUMPTIONS = ['a class is observed through construction, create, update, default values, error data, serialization and pickling over an alphabet of 15 values; the reference is the same declaration in a process of its own',
               'two collection fields with the same item type and different item invariants are a known finding (see C13) and are not combined here']



def namesake(text):
    """Different classes that have everything but their identity in common."""
    def __repr__(self):
        return text
    return type('E', (), {'__module__': __name__, '__qualname__': 'E', '__repr__': __repr__})


E1, E2 = namesake('e1'), namesake('e2')
e1, e2 = E1(), E2()
VALUES = [1, -1, 13, 's', None, [1, 2], ['s'], {1: 's'}, [e1], [e2], {1: e2}, e1, e2, [True], {True: 's'}]
SCALARS = [1, -1, 13, 's', None, e1, e2, True]


def neg(code='negative'):
    return lambda n: (not (isinstance(n, int) and n < 0), code)


def unlucky(n):
    return (n != 13, 'unlucky')


def two(n):
    return ((n != 13, 'thirteen'), (n != 's', 'an s'))


def double(x):
    return x * 2 if isinstance(x, int) else x


def ser_a(format, v):
    return ('a', format, v)


def ser_b(format, v):
    return ('b', format, v)


def method_ser(self, format, v):
    return ('m', format, v)


def whole_x(s):
    return (getattr(s, 'x', None) != 1, 'x is one')


def whole_y(s):
    return (getattr(s, 'y', None) != -1, 'y is minus one')


def decls():
    """[(kind, name, body maker)]"""
    from pyrsistent import field, optional, pmap_field, pset_field, pvector_field
    out = []
    types = [None, int, str, (int, str), optional(int), 'builtins.int']
    for kind in ('vec', 'set'):
        for n, (t, i) in enumerate([(None, None), (int, None), (str, None), ((int, str), None), (optional(int), None), ('builtins.int', neg()), (int, neg()), (int, unlucky), (None, two), (str, two)]):
            out.append((kind, 'seq %d' % n, lambda t=t, i=i: dict(([('__type__', t)] if t is not None else []) + ([('__invariant__', i)] if i else []))))
        for n, i in (('E1', E1), ('E2', E2), ('bool', bool), ('object', object)):
            out.append((kind, n, lambda i=i: {'__type__': i}))
        out.append((kind, 'ser', lambda: {'__type__': int, '__serializer__': method_ser}))
    for n, (k, v, i) in enumerate([(None, None, None), (int, str, None), (int, None, None), (None, optional(str), None), (int, str, lambda k, v: (k != 13, 'key')), (int, E1, None), (int, E2, None), (bool, str, None), (object, object, None)]):
        out.append(('map', 'map %d' % n, lambda k=k, v=v, i=i: dict(([('__key_type__', k)] if k else []) + ([('__value_type__', v)] if v else []) + ([('__invariant__', i)] if i else []))))
    bodies = [
        ('plain', lambda: {'x': field(), 'y': field()}),
        ('x only', lambda: {'x': field()}),
        ('typed', lambda: {'x': field(type=int), 'y': field(type=str)}),
        ('named type', lambda: {'x': field(type='builtins.int'), 'y': field(type=(int, str))}),
        ('invariants', lambda: {'x': field(invariant=neg()), 'y': field(invariant=two)}),
        ('other codes', lambda: {'x': field(invariant=neg('below zero')), 'y': field(type=int, invariant=unlucky)}),
        ('defaults', lambda: {'x': field(initial=1), 'y': field(initial=lambda: [3])}),
        ('other defaults', lambda: {'x': field(initial=2), 'y': field(initial=0, type=int)}),
        ('mandatory', lambda: {'x': field(mandatory=True), 'y': field(mandatory=True, initial=4)}),
        ('factory', lambda: {'x': field(factory=double), 'y': field()}),
        ('factory str', lambda: {'x': field(factory=str, type=str), 'y': field(type=int)}),
        ('serializer a', lambda: {'x': field(serializer=ser_a), 'y': field(serializer=ser_b)}),
        ('serializer b', lambda: {'x': field(serializer=ser_b), 'y': field()}),
        ('class invariant x', lambda: {'x': field(), 'y': field(), '__invariant__': whole_x}),
        ('class invariant y', lambda: {'x': field(), 'y': field(), '__invariant__': whole_y}),
        ('vectors', lambda: {'x': pvector_field(int), 'y': pset_field(int)}),
        ('vectors optional', lambda: {'x': pvector_field(int, optional=True), 'y': pset_field(int, optional=True)}),
        ('vectors initial', lambda: {'x': pvector_field(int, initial=[7]), 'y': pset_field(str, initial=['q'])}),
        ('vectors invariant', lambda: {'x': pvector_field(int, invariant=lambda v: (len(v) != 2, 'two')), 'y': pvector_field(str)}),
        ('vectors of both', lambda: {'x': pvector_field((int, str)), 'y': pvector_field('builtins.int')}),
        ('maps', lambda: {'x': pmap_field(int, str), 'y': pmap_field(str, int)}),
        ('maps optional', lambda: {'x': pmap_field(int, str, optional=True), 'y': pmap_field(int, int)}),
        ('maps invariant', lambda: {'x': pmap_field(int, str, invariant=lambda v: (len(v) != 1, 'one')), 'y': field()}),
        ('namesakes 1', lambda: {'x': pvector_field(E1), 'y': pmap_field(int, E1)}),
        ('namesakes 2', lambda: {'x': pvector_field(E2), 'y': pmap_field(int, E2)}),
        ('sets of namesakes', lambda: {'x': pset_field(E2), 'y': pset_field(E1)}),
        ('narrower', lambda: {'x': pvector_field(bool), 'y': pmap_field(bool, str)}),
        ('wider', lambda: {'x': pvector_field(object), 'y': pmap_field(object, object)}),
        ('narrower sets', lambda: {'x': pset_field(bool), 'y': field(type=bool)}),
        ('fields of namesakes', lambda: {'x': field(type=E2), 'y': field(type=E1)}),
    ]
    for kind in ('record', 'class'):
        for name, b in bodies:
            out.append((kind, name, b))
    for m in ('x, y', 'x, y_', 'y, x', 'x'):
        out.append(('imm', m, lambda m=m: m))
    return out


def base_of(kind):
    from pyrsistent import CheckedPMap, CheckedPSet, CheckedPVector, PClass, PRecord
    return {'vec': CheckedPVector, 'set': CheckedPSet, 'map': CheckedPMap, 'record': PRecord, 'class': PClass}[kind]


def declare(d, bases=(), name='T'):
    from pyrsistent import immutable
    kind, _, body = d
    if kind == 'imm':
        return type(name, (immutable(body()),), {})
    b = base_of(kind)
    return type(b)(name, bases or (b,), dict(body(), __module__=__name__))


def show(x):
    """A plain picture of a value."""
    from pyrsistent import PClass, PMap, PSet, PVector
    if isinstance(x, PVector):
        return (type(x).__name__ if type(x).__name__ not in ('PVector', 'PythonPVector') else 'vector', [show(e) for e in x])
    if isinstance(x, PMap):
        return (type(x).__name__, sorted((repr(k), show(v)) for k, v in x.items()))
    if isinstance(x, PSet):
        return (type(x).__name__, sorted(repr(show(e)) for e in x))
    if isinstance(x, PClass):
        return (type(x).__name__, [(n, show(getattr(x, n))) for n in ('x', 'y') if hasattr(x, n)])
    if isinstance(x, tuple):
        return (type(x).__name__,) + tuple(show(e) for e in x)
    if isinstance(x, (set, frozenset)):
        return ('set', sorted(map(repr, x)))
    return repr(x)


def outcome(f):
    from pyrsistent import InvariantException
    r = call(f)
    if r[0] == 'ok':
        return show(r[1])
    e = r[1]
    if isinstance(e, InvariantException):
        return ('InvariantException', tuple(map(repr, e.invariant_errors)), tuple(sorted(e.missing_fields)))
    return 'TypeError' if isinstance(e, TypeError) else type(e).__name__


def fingerprint(kind, cls):
    out = []
    if kind in ('vec', 'set'):
        for v in SCALARS:
            for f in (lambda: cls([v]), lambda: cls([v]).serialize(), lambda: cls.create([v]), lambda: cls().append(v) if kind == 'vec' else cls().add(v), lambda: cls().evolver().append(v).persistent() if kind == 'vec' else cls().evolver().add(v).persistent()):
                out.append(outcome(f))
        out.append(outcome(lambda: cls([1, -1, 13]).serialize('f')))
    elif kind == 'map':
        for k, v in product(SCALARS[:5], SCALARS[2:]):
            out.append(outcome(lambda: cls({k: v})))
            out.append(outcome(lambda: cls().set(k, v)))
    elif kind == 'imm':
        for a in ((), (1,), (1, 2), (1, 2, 3)):
            out.append(outcome(lambda: cls(*a)))
            for kw in ({'x': 5}, {'y': 5}, {'y_': 5}, {'z': 1}, {'x': 1, 'y': 2}):
                out.append(outcome(lambda: cls(*a).set(**kw)))
    else:
        out.append(outcome(lambda: cls()))
        start = call(lambda: cls())
        for x in VALUES:
            for f in (lambda: cls(x=x), lambda: cls(y=x), lambda: cls(x=x, y=x), lambda: cls(x=1, y=x), lambda: cls(x=x).serialize('f'), lambda: cls(x=x, y=1).set(y=x), lambda: cls.create({'x': x, 'y': 's', 'zz': 1}, ignore_extra=True)):
                out.append(outcome(f))
            if start[0] == 'ok':
                out.append(outcome(lambda: start[1].set(x=x)))
                out.append(outcome(lambda: start[1].evolver().set('y', x).persistent()))
        out.append(outcome(lambda: cls(zz=1)))
    return out


def samples(kind, cls):
    """Instances that exist while other classes are declared."""
    out = []
    for a in ([], [1], ['s'], [1, 1]):
        if kind in ('vec', 'set'):
            r = call(cls, a)
        elif kind == 'map':
            r = call(cls, {k: 's' for k in a})
        elif kind == 'imm':
            r = call(cls, *a)
        else:
            r = call(lambda: cls(**dict(zip('xy', a))))
        if r[0] == 'ok':
            out.append(r[1])
    return out


def old_fingerprint(kind, xs):
    out = []
    for s in xs:
        out.append(outcome(lambda: s))
        out.append(outcome(lambda: s.serialize('g')))
        for v in SCALARS:
            if kind == 'vec':
                out.append(outcome(lambda: s.append(v)))
            elif kind == 'set':
                out.append(outcome(lambda: s.add(v)))
            elif kind == 'map':
                out.append(outcome(lambda: s.set(v, v)))
                out.append(outcome(lambda: s.set(v, 's')))
            else:
                out.append(outcome(lambda: s.set(x=v)))
                out.append(outcome(lambda: s.set(y=v)))
    return out


def shards(tier):
    n = 8 if tier == 'quick' else 16
    out = [('c', ['pairs', p, n]) for p in range(n)]
    out += [('c', ['pickles'])]
    if tier != 'quick':
        out += [('c', ['triples', p, 16]) for p in range(16)]
    return out


def run_shard(ctx, spec):
    globals()['run_' + spec[0]](ctx, *spec[1:])


def differ(a, b):
    for n, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return 'observation %d is %s, was %s' % (n, short(y), short(x))
    return 'different number of observations'


def in_fresh_process(f):
    """What f gives in a process of its own (in which no other class has been declared)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as o:
                pickle.dump(f(), o)
            os._exit(0)
        finally:
            os._exit(1)
    os.close(w)
    with os.fdopen(r, 'rb') as i:
        data = i.read()
    if os.waitpid(pid, 0)[1]:
        raise RuntimeError('fingerprint of a declaration failed')
    return pickle.loads(data)


def run_pairs(ctx, part, parts):
    ds = decls()
    alone = [in_fresh_process(lambda: fingerprint(d[0], declare(d))) for d in ds]
    n = 0
    for (i, x), (j, y) in product(enumerate(ds), repeat=2):
        n += 1
        if n % parts != part:
            continue
        ctx.state((i, j))

        def same(got, what):
            ctx.step()
            if got != alone[i]:
                bad('%s: %s' % (what, differ(alone[i], got)), (x[:2], y[:2], what))
        ctx.trace((x[:2], y[:2]))
        # declared before and after
        Y = declare(y, name='T')
        fingerprint(y[0], Y)
        X = declare(x)
        same(fingerprint(x[0], X), 'declared after the other')
        olds = samples(x[0], X)
        before = old_fingerprint(x[0], olds)
        Y2 = declare(y)
        fingerprint(y[0], Y2)
        same(fingerprint(x[0], X), 'after the other was declared')
        got = old_fingerprint(x[0], olds)
        if got != before:
            bad('instances behave differently after another class was declared: %s' % differ(before, got), (x[:2], y[:2]))
        # relatives
        if x[0] == y[0] and x[0] != 'imm':
            S = declare(y, (X,), 'T')
            fingerprint(x[0], S)
            same(fingerprint(x[0], X), 'after a subclass with the other declaration was made')
            Z = call(lambda: type(X)('T', (X, Y2), {'__module__': __name__}))
            if Z[0] == 'ok':
                fingerprint(x[0], Z[1])
            same(fingerprint(x[0], X), 'after a common subclass was made')
            Z = call(lambda: type(X)('T', (Y2, X), {'__module__': __name__}))
            if Z[0] == 'ok':
                fingerprint(x[0], Z[1])
            same(fingerprint(x[0], X), 'after a common subclass was made')
            got = old_fingerprint(x[0], olds)
            if got != before:
                bad('instances behave differently after related classes were declared: %s' % differ(before, got), (x[:2], y[:2]))
        # a subclass without declarations behaves like its base
        if x[0] != 'imm':
            E = type(X)('T', (X,), {'__module__': __name__})
            same(fingerprint(x[0], E), 'an empty subclass')
            E2 = type(E)('T', (E,), {'__module__': __name__})
            same(fingerprint(x[0], E2), 'an empty subclass of an empty subclass')


def run_triples(ctx, part, parts):
    ds = decls()
    ds = ds[4:14:2] + ds[32::2]
    alone = [in_fresh_process(lambda: fingerprint(d[0], declare(d))) for d in ds]
    n = 0
    for (i, x), (j, y), (k, z) in product(enumerate(ds), repeat=3):
        n += 1
        if n % parts != part:
            continue
        ctx.trace((x[:2], y[:2], z[:2]))
        ctx.state((i, j, k))
        Y = declare(y)
        X = declare(x)
        Z = declare(z, (Y,) if z[0] == y[0] and z[0] != 'imm' else ())
        W = declare(x, (Z,)) if x[0] == z[0] == y[0] and x[0] != 'imm' else Z
        fingerprint(z[0], Z)
        fingerprint(y[0], Y)
        for what, q, C, w in (('x', x, X, alone[i]), ('y', y, Y, alone[j])):
            ctx.step()
            got = fingerprint(q[0], C)
            if got != w:
                bad('%s: %s' % (what, differ(w, got)), (x[:2], y[:2], z[:2]))


def run_pickles(ctx):
    """Values of generated collection classes and of classes with equal names keep their class when pickled."""
    from pyrsistent import PClass, PRecord, pmap_field, pset_field, pvector_field
    mod = sys.modules[__name__]
    makers = [('pvector', lambda t: pvector_field(t), [1, 1]), ('pset', lambda t: pset_field(t), [1]), ('pmap', lambda t: pmap_field(t, t), {1: 1}), ('optional', lambda t: pvector_field(t, optional=True), [1])]
    types = [int, (int, str), 'builtins.int', object, float]
    pool = []
    for base in (PRecord, PClass):
        for (name, mk, data), t in product(makers, types):
            if t is float:
                data = {1.0: 1.0} if isinstance(data, dict) else [1.0]
            cname = 'P%d' % len(pool)
            cls = type(base)(cname, (base,), {'xs': mk(t), 'ys': mk(t), '__module__': __name__, '__qualname__': cname})
            setattr(mod, cname, cls)
            pool.append((base.__name__, name, str(t), cls, cls(xs=data)))
    for b, name, t, cls, v in pool:
        for p in range(2, 6):
            tr = (b, name, t, p)
            ctx.trace(tr)
            ctx.step()
            ctx.state(tr)
            w = pickle.loads(pickle.dumps(v, p))
            if type(w) is not cls or type(w.xs) is not type(v.xs) or w != v or show(w.xs) != show(v.xs):
                bad('unpickled %s, expected %s' % (short(w), short(v)), tr)
            for bad_item in ('q', None, 1.5, 1):
                f = (lambda z: outcome(lambda: z.set(xs=[bad_item] if name != 'pmap' else {bad_item: bad_item})))
                if f(v) != f(w):
                    bad('after unpickling, %r gives %s, expected %s' % (bad_item, short(f(w)), short(f(v))), tr)
