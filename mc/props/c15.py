"""C15: freeze and thaw convert deeply and invert each other."""
from collections import OrderedDict, defaultdict, deque, namedtuple
from itertools import product

from core import call, short
from maps import bad

BOUNDS = {
    'quick': 'all structures of depth <= 3 over list, dict, defaultdict, tuple, pvector, pmap (0..2 children), set, pset (0..2 elements) and 13 leaf kinds (scalars, strings, opaque objects, frozensets, subclasses and '
             'other persistent collections holding mutable data), the second child at depth 3 taken from 3 kinds; all chains of depth 4 and 5; freeze and thaw, strict and not, again after changes in place; wide and 60 deep structures; '
             'mutant with all combinations of 2 positional and 1 keyword argument and result from a pool of 30',
    'thorough': 'as quick with every leaf kind as second child, depth 4 with two children and chains of depth 6',
}
ASSUMPTIONS = ['strict freezing of records and checked collections, and thawing of default dicts, are not specified', 'set elements and dict keys are left alone']

NPART = 8


def shards(tier):
    out = [('c', ['trees', p, NPART]) for p in range(NPART)]
    out += [('py', ['trees', p, NPART]) for p in range(NPART)]
    for c in ('c', 'py'):
        out += [(c, ['special']), (c, ['mutant'])]
    return out


def run_shard(ctx, spec):
    globals()['run_' + spec[0]](ctx, *spec[1:])


# -- trees ----------------------------------------------------------------------------------
# A tree is ('leaf', i) or (kind, (children...)).  Children of mappings get the keys 'a', 'b' and (1,).

class L(list):
    pass


class D(dict):
    pass


class S(set):
    pass


Pt = namedtuple('Pt', 'x y')


class Opaque(object):
    pass


LEAVES = None


def leaves():
    """Leaf values: returned as they are by both functions."""
    global LEAVES
    if LEAVES is None:
        from pyrsistent import b, plist, pdeque, pmap, PClass, field

        class C(PClass):
            x = field()
        LEAVES = [1, 'ab', None, Opaque(), frozenset([1, (2,)]), L([[1], {}]), plist([[1], {'k': set()}]), pdeque([[1]]), b(1, (2, 3)), Pt([1], {}), OrderedDict(a=[1]), D(a=[1]), deque([[1]]),
                  C(x=[1]), S([1]), b'xy', range(3), bytearray(b'q'), 1.5, True]
    return LEAVES


QUICK_LEAVES = 13
KEYS = ('a', 'b', (1,))
SETELEMS = None


def setelems():
    global SETELEMS
    if SETELEMS is None:
        from pyrsistent import v
        SETELEMS = [1, (1, frozenset([2])), v(1, 2), 'z']
    return SETELEMS


def make(t):
    from pyrsistent import pmap, pset, pvector
    k = t[0]
    if k == 'leaf':
        return leaves()[t[1]]
    if k in ('set', 'pset'):
        es = [setelems()[i] for i in t[1]]
        return set(es) if k == 'set' else pset(es)
    kids = [make(c) for c in t[1]]
    if k == 'list':
        return kids
    if k == 'tuple':
        return tuple(kids)
    if k == 'pvector':
        return pvector(kids)
    d = dict(zip(KEYS, kids))
    if k == 'dict':
        return d
    if k == 'pmap':
        return pmap(d)
    dd = defaultdict(list)
    dd.update(d)
    return dd


def pvector_type():
    from pyrsistent import pvector
    return type(pvector())


def pmap_type():
    from pyrsistent import PMap
    return PMap


def describe(o, ids=False):
    """The tree of an object: exact types, identical leaves, keys and set elements.  With ids, also object identity."""
    from pyrsistent import PMap, PSet
    typ = type(o)
    t = None
    if typ is list:
        t = ('list', tuple(describe(x, ids) for x in o))
    elif typ is tuple:
        t = ('tuple', tuple(describe(x, ids) for x in o))
    elif typ is pvector_type():
        t = ('pvector', tuple(describe(x, ids) for x in o))
    elif typ in (dict, defaultdict, PMap):
        kind = {dict: 'dict', defaultdict: 'defaultdict', PMap: 'pmap'}[typ]
        items = list(o.items())
        if len(items) != len(o):
            return ('broken', id(o))
        ks = {}
        for k, x in items:
            for j, kk in enumerate(KEYS):
                if kk is k:
                    break
            else:
                return ('odd key', repr(k))
            ks[j] = describe(x, ids)
        if sorted(ks) != list(range(len(o))):
            return ('odd keys', tuple(sorted(ks)))
        t = (kind, tuple(ks[j] for j in range(len(o))))
        if typ is defaultdict and o.default_factory is not list:
            return ('odd default factory',)
    elif typ in (set, PSet):
        es = []
        for x in o:
            for j, e in enumerate(setelems()):
                if e is x:
                    es.append(j)
                    break
            else:
                return ('odd element', repr(x))
        t = ('set' if typ is set else 'pset', tuple(sorted(es)))
        if len(o) != len(es):
            return ('broken set',)
    else:
        for j, l in enumerate(leaves()):
            if l is o:
                return ('leaf', j)
        return ('odd object', repr(o))
    return t + (id(o),) if ids and o != () else t


def m_freeze(t, strict):
    k = t[0]
    if k == 'set':
        return ('pset', t[1])
    if k in ('leaf', 'pset'):
        return t
    if k in ('pvector', 'pmap') and not strict:
        return t
    k2 = {'list': 'pvector', 'dict': 'pmap', 'defaultdict': 'pmap'}.get(k, k)
    return (k2, tuple(m_freeze(c, strict) for c in t[1]))


def m_thaw(t, strict):
    k = t[0]
    if k == 'pset':
        return ('set', t[1])
    if k in ('leaf', 'set'):
        return t
    if k in ('list', 'dict') and not strict:
        return t
    k2 = {'pvector': 'list', 'pmap': 'dict'}.get(k, k)
    return (k2, tuple(m_thaw(c, strict) for c in t[1]))


def has(t, kinds):
    if t[0] in kinds:
        return True
    return t[0] not in ('leaf', 'set', 'pset') and any(has(c, kinds) for c in t[1])


KINDS = ('list', 'dict', 'defaultdict', 'tuple', 'pvector', 'pmap')
SETS = tuple((k, es) for k in ('set', 'pset') for es in ((), (0,), (1,), (0, 1), (2, 3)))


def trees(tier):
    n = QUICK_LEAVES if tier == 'quick' else len(leaves())
    t1 = [('leaf', i) for i in range(n)]
    t1s = t1 + list(SETS)
    t2 = [(k, c) for k in KINDS for m in (0, 1, 2) for c in product(t1s if m < 2 else t1, repeat=m)]
    second = [('leaf', 0), ('list', (('leaf', 1),)), ('set', (0,))] if tier == 'quick' else t1s + [(k, (('leaf', 1),)) for k in KINDS]
    small2 = [(k, c) for k in KINDS for c in ((), (('leaf', 0),), (('leaf', 5),), (('set', (0,)),), (('leaf', 2), ('leaf', 6)))] + list(SETS)
    for t in t1s:
        yield t
    for t in t2:
        yield t
    for k in KINDS:
        for c in t2:
            yield (k, (c,))
            for s in second:
                yield (k, (c, s))
                yield (k, (s, c))
    for k in KINDS:
        for a, b in product(small2, repeat=2):
            yield (k, (a, b))
    # chains
    for d in ((4, 5) if tier == 'quick' else (4, 5, 6)):
        for ks in product(KINDS, repeat=d - 1):
            for leaf in (('set', (0, 1)), ('leaf', 5)) if d == 4 else (('set', (0, 1)),):
                t = leaf
                for k in ks:
                    t = (k, (t,))
                yield t
    if tier != 'quick':
        t3 = [(k, (a, b)) for k in KINDS for a, b in product(small2, repeat=2)]
        for k in KINDS:
            for c in t3:
                for s in (('leaf', 0), ('list', (('leaf', 1),))):
                    yield (k, (c, s))


def one(ctx, t, tr):
    from pyrsistent import freeze, thaw
    for fname, f, model, kinds in (('freeze', freeze, m_freeze, ()), ('thaw', thaw, m_thaw, ('defaultdict',))):
        if has(t, kinds):
            continue
        for strict in (True, False):
            o = make(t)
            before = describe(o, True)
            ctx.step()
            r = f(o) if strict and ctx.traces % 2 else f(o, strict) if ctx.traces % 3 else f(o, strict=strict)
            got = describe(r)
            want = model(t, strict)
            if got != want:
                bad('%s(%s, strict=%r) gives %s, expected the structure %s' % (fname, short(o), strict, short(r), want), tr)
            if describe(o, True) != before:
                bad('%s changed its argument: %s' % (fname, short(o)), tr)
            if not strict and t[0] in (('pvector', 'pmap') if fname == 'freeze' else ('list', 'dict')) and r is not o:
                bad('%s(strict=False) copied a converted container' % fname, tr)
            # what was already of the right kind stays alone when converted again
            r2 = f(r, strict)
            if describe(r2) != model(want, strict):
                bad('%s of the result gives %s' % (fname, short(r2)), tr)
            # the same object converted again after a change in place: what it holds now counts
            for inner in (True, False):
                if not poke(o, inner):
                    continue
                ctx.step()
                now = describe(o)
                r = f(o, strict)
                if describe(r) != model(now, strict):
                    bad('%s of the same object after a change, %s, gives %s' % (fname, short(o), short(r)), tr)
    if not has(t, ('pvector', 'pmap', 'pset')):
        ctx.step()
        for strict in (True, False):
            o = make(t)
            back = thaw(freeze(o, strict), strict)
            if describe(back) != plain(t):
                bad('thaw(freeze(%s)) is %s' % (short(o), short(back)), tr)
            if not (back == o) or not (o == back):
                bad('thaw(freeze(%s)) is not equal: %s' % (short(o), short(back)), tr)
            # nothing mutable is shared between the frozen value and the original
            if strict:
                fr = freeze(o)
                d0 = describe(fr)
                mutate(o)
                if describe(fr) != d0:
                    bad('the frozen value changes with the original', tr)
                th = thaw(fr)
                mutate(th)
                if describe(fr) != d0:
                    bad('the frozen value changes with the thawed one', tr)


def plain(t):
    if t[0] in ('leaf', 'set'):
        return t
    return ({'defaultdict': 'dict'}.get(t[0], t[0]), tuple(plain(c) for c in t[1]))


def poke(o, inner):
    """Change the innermost (or the outermost) built-in containers in place, keeping their sizes; True if there was one."""
    typ = type(o)
    kids = list(o.values()) if hasattr(o, 'values') and typ in (dict, defaultdict, pmap_type()) else list(o) if typ in (list, tuple, pvector_type()) else []
    if inner and sum([poke(x, inner) for x in kids]):
        return True
    if typ is list and o:
        o[len(o) // 2] = leaves()[1] if o[len(o) // 2] is not leaves()[1] else leaves()[2]
    elif typ in (dict, defaultdict) and o:
        k = list(o)[-1]
        o[k] = leaves()[1] if o[k] is not leaves()[1] else leaves()[2]
    elif typ is set and o:
        n = len(o)
        kept = [x for x in setelems() if x not in o][:n]
        o.clear()
        o.update(kept)
    elif not inner:
        return bool(sum([poke(x, inner) for x in kids]))
    else:
        return False
    return True


def mutate(o):
    """Change every built-in mutable container in o (not the shared leaves)."""
    if type(o) in (list, tuple):
        for x in o:
            mutate(x)
        if type(o) is list:
            o.append('changed')
            o[0] = 'changed'
    elif type(o) in (dict, defaultdict):
        for x in o.values():
            mutate(x)
        o['changed'] = 1
        if 'a' in o:
            o['a'] = 2
    elif type(o) is set:
        o.clear()
        o.add('changed')


def run_trees(ctx, part, parts):
    for i, t in enumerate(trees(ctx.tier)):
        if i % parts != part:
            continue
        ctx.trace(t)
        ctx.state(t)
        one(ctx, t, t)


def run_special(ctx):
    from pyrsistent import CheckedPMap, CheckedPSet, CheckedPVector, PRecord, field, freeze, pmap, pset, pvector, thaw
    # deep chains
    for n in (10, 60):
        for ks in product(KINDS, repeat=2):
            t = ('leaf', 0)
            for i in range(n):
                t = (ks[i % 2], (t,))
            ctx.trace(('chain', n, ks))
            ctx.state(('chain', n, ks))
            one(ctx, t, ('chain', n, ks))
    # wide containers
    for n in (3, 8, 31, 32, 33, 100, 1024, 1057, 2000):
        data = [[i] for i in range(n)]
        ctx.trace(('wide', n))
        ctx.state(('wide', n))
        for strict in (True, False):
            ctx.step(4)
            f = freeze(data, strict)
            if type(f) is not pvector_type() or f.tolist() != [pvector([i]) for i in range(n)] or any(type(x) is not pvector_type() for x in f):
                bad('freeze of a wide list', n)
            b = thaw(f, strict)
            if type(b) is not list or b != data or any(type(x) is not list for x in b):
                bad('thaw of a wide vector', n)
            # the same list again after a change in place, at every level
            for i in {0, n // 2, n - 1}:
                for change, want in ((lambda: data[i].append('x'), pvector([i, 'x'])), (lambda: data[i].__setitem__(0, 'y'), pvector(['y', 'x'])), (lambda: data.__setitem__(i, 'z'), 'z')):
                    change()
                    ctx.step()
                    f2 = freeze(data, strict)
                    if f2[i] != want or len(f2) != n or f[i] != pvector([i]):
                        bad('freeze of a list changed at %d gives %s' % (i, short(f2)), n)
                data[i] = [i]
                b[i] = 'q'
                if thaw(f, strict)[i] != [i]:
                    bad('thaw after a change of what was thawed before', n)
                b[i] = [i]
            d = {i: {i} for i in range(n)}
            for change, want in ((lambda: d[n // 2].add('x'), pset([n // 2, 'x'])), (lambda: d.__setitem__(n // 2, 'z'), 'z')):
                freeze(d, strict)
                change()
                ctx.step()
                if freeze(d, strict)[n // 2] != want:
                    bad('freeze of a changed dict', n)
            d[n // 2] = {n // 2}
            f = freeze(d, strict)
            if type(f).__name__ != 'PMap' or dict(f) != {i: pset([i]) for i in range(n)} or len(f) != n:
                bad('freeze of a wide dict', n)
            b = thaw(f, strict)
            if type(b) is not dict or b != d or any(type(x) is not set for x in b.values()):
                bad('thaw of a wide map', n)
            s = set(range(n))
            if freeze(s, strict) != pset(range(n)) or thaw(pset(range(n)), strict) != s or type(thaw(pset(range(n)))) is not set:
                bad('wide set', n)
    # keys are left alone, also mutable-looking ones
    class K(object):
        pass
    k = K()
    for key in (k, (1, 2), frozenset([1]), pvector([1]), pmap(a=1) if False else pmap({'a': 1}), pset([1]), None, 'x'):
        for strict in (True, False):
            f = freeze({key: [1]}, strict)
            if list(f)[0] is not key or f[key] != pvector([1]):
                bad('freeze touched the key %s' % short(key), 'keys')
            b = thaw(f, strict)
            if list(b)[0] is not key or b != {key: [1]}:
                bad('thaw touched the key %s' % short(key), 'keys')
            ctx.step(2)
    # shared and repeated children
    inner = [1]
    for o in ([inner, inner], {'a': inner, 'b': [inner]}, (inner, (inner, {'c': inner}))):
        if thaw(freeze(o)) != o:
            bad('repeated children', o)
        ctx.step()
    # records and checked collections are persistent maps, vectors and sets for thaw
    class R(PRecord):
        a = field()
        b = field()

    class CV(CheckedPVector):
        pass

    class CM(CheckedPMap):
        pass

    class CS(CheckedPSet):
        pass
    for strict in (True, False):
        ctx.step(4)
        for o, want in ((R(a=pvector([1]), b=R(a=1)), {'a': [1], 'b': {'a': 1}}), (CV([pvector([1]), pset([2])]), [[1], {2}]), (CM({'x': pmap({'y': pvector()})}), {'x': {'y': []}}), (CS([1]), {1})):
            got = thaw(o, strict)
            if got != want or type(got) is not type(want):
                bad('thaw(%s) gives %s' % (short(o), short(got)), 'records')
    # strictness reaches all the way down
    o = [pvector([[1]]), {'a': pmap({'k': [2]})}]
    f = freeze(o, strict=False)
    if f[0] is not o[0] or f[1]['a'] is not o[1]['a']:
        bad('freeze(strict=False) looked into a vector or map', 'strict')
    f = freeze(o)
    if f != pvector([pvector([pvector([1])]), pmap({'a': pmap({'k': pvector([2])})})]) or type(f[0][0]) is not pvector_type() or type(f[1]['a']['k']) is not pvector_type():
        bad('strict freeze did not look into a vector or map', 'strict')
    o = pvector([[pvector([1])], pmap({'a': {'k': pvector([2])}})])
    t = thaw(o, strict=False)
    if t[0] is not o[0] or t[1]['a'] is not o[1]['a'] or type(t[0][0]) is not pvector_type():
        bad('thaw(strict=False) looked into a list or dict', 'strict')


def run_mutant(ctx):
    from pyrsistent import mutant
    pool = [('leaf', 0), ('leaf', 1), ('leaf', 5), ('leaf', 6), ('set', (0, 1)), ('pset', (0,))]
    for k in KINDS:
        pool += [(k, ()), (k, (('leaf', 0), ('leaf', 1))), (k, (('list', (('dict', (('leaf', 1),)),)),)), (k, (('pvector', (('list', ()),)),))]
    for a, b, c in product(pool, repeat=3):
        tr = (a, b, c)
        ctx.trace(tr)
        ctx.state(tr)
        ctx.step()
        oa, ob, oc = make(a), make(b), make(c)
        before = [describe(x, True) for x in (oa, ob, oc)]
        seen = []

        @mutant
        def fn(x, y, *rest, **kw):
            "doc"
            seen.append((x, y, rest, kw))
            return kw['z']
        r = fn(oa, ob, z=oc)
        (x, y, rest, kw), = seen
        if rest != () or sorted(kw) != ['z']:
            bad('arguments %s' % short(seen), tr)
        for got, t in ((x, a), (y, b), (kw['z'], c), (r, c)):
            if describe(got) != m_freeze(t, True):
                bad('the function or its caller sees %s, expected %s' % (short(got), short(m_freeze(t, True))), tr)
        if [describe(z, True) for z in (oa, ob, oc)] != before:
            bad('arguments were changed', tr)

        @mutant
        def fresh():
            return make(c)
        if describe(fresh()) != m_freeze(c, True):
            bad('the result %s is not frozen' % short(fresh()), tr)
    if fn.__name__ != 'fn' or fn.__doc__ != 'doc':
        bad('mutant lost name or doc', 'wraps')

    class Oops(Exception):
        pass

    @mutant
    def raises(x):
        raise Oops
    if type(call(raises, [1])[1]) is not Oops:
        bad('exception of a mutant function', 'raises')
