"""C21: classes made by immutable() hold exactly their members and refuse to change frozen ones."""
import copy
import pickle
from itertools import combinations, permutations, product

from core import call, outcome_class, short
from maps import MISSING, bad

BOUNDS = {
    'quick': 'all member lists of 0..3 of 6 names (3 of them frozen) in every order, given as string with commas, string with spaces, list and tuple; used directly, with a name, subclassed, subclassed twice and with a checking '
             '__new__; instances over 5 values, positional and by keyword; then set() with every subset of the members and of two unknown names over 4 values, and all pairs of set() calls on the results; equality, hash, repr, unpacking, '
             'attribute assignment, pickling and copying of every instance',
    'thorough': 'as quick with 0..4 members of 7 names, and all triples of set() calls',
}
ASSUMPTIONS = ['members have names that do not collide with methods of named tuples or with set() itself']

NAMES = ['x', 'y', 'long_name', 'id_', 'b_', 'very_frozen_']
VALUES = [0, None, 'ImmutableBase', (1,), [2]]
STYLES = ['commas', 'spaces', 'list', 'tuple', 'tight']
USES = ['plain', 'named', 'derived', 'derived twice', 'checking']


def shards(tier):
    n = 8 if tier == 'quick' else 32
    return [('c', ['members', p, n]) for p in range(n)] + [('c', ['pickle']), ('c', ['names'])]


def run_shard(ctx, spec):
    globals()['run_' + spec[0]](ctx, *spec[1:])


def spell(members, style):
    return {'commas': ', '.join(members), 'spaces': ' '.join(members), 'list': list(members), 'tuple': tuple(members), 'tight': ','.join(members)}[style]


class Refused(Exception):
    pass


def make(members, style, use):
    """(class, expected name)"""
    from pyrsistent import immutable
    m = spell(members, style)
    if use == 'plain':
        return immutable(m), 'Immutable'
    if use == 'named':
        return immutable(m, name='Named'), 'Named'
    if use == 'derived':
        class Derived(immutable(m)):
            def double(self):
                return tuple(self) * 2
        return Derived, 'Derived'
    if use == 'derived twice':
        class Middle(immutable(m, name='Other')):
            pass

        class Leaf(Middle):
            __slots__ = ()
        return Leaf, 'Leaf'

    class Checking(immutable(m)):
        def __new__(cls, *args, **kw):
            self = super(Checking, cls).__new__(cls, *args, **kw)
            if any(v == 'bad' for v in self):
                raise Refused()
            return self
    return Checking, 'Checking'


def verify(p, cls, name, members, model, tr):
    if type(p) is not cls:
        bad('is a %s' % type(p), tr)
    if len(p) != len(members) or tuple(p) != model or any(a is not b for a, b in zip(p, model)):
        bad('holds %s, expected %s' % (short(tuple(p)), short(model)), tr)
    for m, v in zip(members, model):
        if getattr(p, m) is not v:
            bad('%s is %s, expected %s' % (m, short(getattr(p, m)), short(v)), tr)
    want = '%s(%s)' % (name, ', '.join('%s=%r' % (m, v) for m, v in zip(members, model)))
    if repr(p) != want or str(p) != want:
        bad('repr is %s, expected %s' % (repr(p), want), tr)


def run_members(ctx, part, parts):
    most = 3 if ctx.quick else 4
    names = NAMES if ctx.quick else NAMES + ['z']
    lists = [()]
    for n in range(1, most + 1):
        for c in combinations(names, n):
            lists += list(permutations(c)) if n < 3 or c[0] == 'x' else [c]
    n = 0
    for members in lists:
        for style, use in product(STYLES, USES):
            n += 1
            if n % parts != part:
                continue
            cls, name = make(members, style, use)
            other, _ = make(members[::-1] + ('unrelated',), style, use)      # another class must not matter
            explore(ctx, cls, name, members, use, (members, style, use))


def explore(ctx, cls, name, members, use, tr0):
    k = len(members)
    starts = [tuple(VALUES[(i + s) % len(VALUES)] for i in range(k)) for s in range(len(VALUES))] if k else [()]
    for vals in starts:
        tr = tr0 + (vals,)
        ctx.trace(tr)
        ctx.step()
        p = cls(*vals)
        q = cls(**dict(zip(members, vals)))
        verify(p, cls, name, members, vals, tr)
        verify(q, cls, name, members, vals, tr)
        if p != q or not (p == q) or p != vals:
            bad('two instances with the same members differ', tr)
        if call(hash, p) != call(hash, vals) and outcome_class(call(hash, vals)) == 'ok':
            bad('hash differs from that of the tuple of members', tr)
        for m in list(members) + ['nosuch']:
            for f in (lambda: setattr(p, m, 1), lambda: delattr(p, m)):
                ctx.step()
                if m in members and outcome_class(call(f)) != 'AttributeError':
                    bad('attribute %s can be changed' % m, tr)
        for wrong in (vals + (1,), vals[:-1] if k else (1, 2)):
            if outcome_class(call(cls, *wrong)) != 'TypeError':
                bad('%d values for %d members accepted' % (len(wrong), k), tr)
        sets(ctx, cls, name, members, use, p, vals, tr, 1 if ctx.quick else 2)
        verify(p, cls, name, members, vals, tr)


def sets(ctx, cls, name, members, use, p, vals, tr, more):
    if p.set() is not p:
        bad('set() without arguments gives another object', tr)
    pool = list(members) + ['nosuch', 'other_']
    for r in range(1, min(len(pool), 3) + 1):
        for chosen in combinations(pool, r):
            for fill in ((7, None, 'n'), (None, 0, ()), ('bad', 1, 2)):
                kw = dict(zip(chosen, fill))
                t = tr + (('set', kw),)
                ctx.trace(t)
                ctx.step()
                res = call(lambda: p.set(**kw))
                if any(m not in members or m.endswith('_') for m in chosen):
                    if outcome_class(res) != 'AttributeError':
                        bad('gives %s, expected AttributeError' % short(res), t)
                    continue
                new = tuple(kw.get(m, v) for m, v in zip(members, vals))
                if use == 'checking' and 'bad' in new:
                    if outcome_class(res) != 'Refused':
                        bad('gives %s, expected the exception of __new__' % short(res), t)
                    continue
                if res[0] != 'ok':
                    bad('raised %r' % (res[1],), t)
                verify(res[1], cls, name, members, new, t)
                verify(p, cls, name, members, vals, t)
                ctx.state((members, use, str(new)))
                if more and r < 3 and fill[0] == 7:
                    sets(ctx, cls, name, members, use, res[1], new, t, more - 1)
                    verify(res[1], cls, name, members, new, t)
                    verify(p, cls, name, members, vals, t)


def run_pickle(ctx):
    import types21
    for cls in types21.CLASSES:
        members = cls._fields
        for vals in product(VALUES, repeat=len(members)):
            p = cls(*vals)
            tr = (cls.__name__, vals)
            ctx.trace(tr)
            ctx.state(str(tr))
            for how, f in [('pickle %d' % n, lambda x, n=n: pickle.loads(pickle.dumps(x, n))) for n in range(2, 6)] + [('copy', copy.copy), ('deepcopy', copy.deepcopy)]:
                ctx.step()
                q = f(p)
                if type(q) is not cls or tuple(q) != vals or q != p or repr(q) != repr(p):
                    bad('%s gives %s' % (how, short(q)), tr)
                if members and not members[0].endswith('_'):
                    if tuple(q.set(**{members[0]: 5})) != (5,) + vals[1:]:
                        bad('an update after %s' % how, tr)


ODD = ['self', 'cls', 'args', 'kwargs', 'fields_to_modify', 'frozen_fields', 'members', 'name', 'verbose', 'template', 'namedtuple', 'tuple', 'map', 'type', 'class_name', 'quoted_members', 'Immutable', 'ImmutableBase', 'self_', 'kwargs_', 'fields_to_modify_', 'frozen_fields_', 'set_', 'e']


def run_names(ctx):
    """Members may have the names that the generated code uses itself."""
    from pyrsistent import immutable
    for n in range(1, 3):
        for ms in permutations(ODD, n):
            for use in ('plain', 'derived'):
                tr = ('names', ms, use)
                ctx.trace(tr)
                ctx.state(tr)
                C = immutable(', '.join(ms))
                if use == 'derived':
                    class D(C):
                        pass
                    C = D
                x = C(**{m: i for i, m in enumerate(ms)})
                ctx.check(tuple(x) == tuple(range(n)), 'created %r' % (x,), tr)
                for k in range(n + 1):
                    for sub in combinations(ms, k):
                        ctx.step()
                        r = call(lambda: x.set(**{m: 'new' for m in sub}))
                        if any(m.endswith('_') for m in sub):
                            if outcome_class(r) != 'AttributeError':
                                bad('set of a frozen member gives %s' % short(r), tr + (sub,))
                            continue
                        if r[0] != 'ok':
                            bad('set raises %r' % (r[1],), tr + (sub,))
                        want = tuple('new' if m in sub else i for i, m in enumerate(ms))
                        if type(r[1]) is not C or tuple(r[1]) != want or [getattr(r[1], m) for m in ms] != list(want):
                            bad('set gives %r, expected %s' % (r[1], want), tr + (sub,))
                        if tuple(x) != tuple(range(n)):
                            bad('the instance changed', tr + (sub,))
