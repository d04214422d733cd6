"""C14: pickling, copying and serializing round-trip every value."""
import copy
import os
import pickle
import subprocess
import sys
from itertools import product

from core import call, short
from maps import MISSING, Key, bad

BOUNDS = {
    'quick': 'pickle protocols 2..5 (C and Python pickler), copy.copy and copy.deepcopy of: vectors of every size 0..70 and 1020..1060 and around 32800, maps of every size 0..70 with 3 collision patterns, sets, bags, lists, '
             'deques with every bound 0..4 and division, checked collections, all field combinations of records and classes (defaults, factories, invariants, collection fields), all nestings of 16 container kinds to '
             'depth 3; pickles exchanged with a process (holding both implementations) running the other vector implementation; serialize/create round trips of the same checked values; custom serializers own, inherited one and two levels, overridden',
    'thorough': 'as quick with nestings to depth 4 over all kinds and sizes 0..2100',
}
ASSUMPTIONS = ['the two vector implementations count as one class', 'bags are not used as map keys (they raise on comparison with anything else, as the test-suite demands)', 'elements, keys and the declaring classes are themselves picklable', 'whether the format argument reaches values nested in checked collections is not specified',
               'serialized forms are re-created only where the declared type is unambiguous']

NPART = 4


def shards(tier):
    out = []
    for config in ('c', 'py'):
        out.append((config, ['vectors']))
        out.append((config, ['records']))
        for part in range(NPART):
            out.append((config, ['nested', part]))
    out.append(('c', ['cross']))
    out.append(('c', ['maps']))
    out.append(('c', ['seqs']))
    out.append(('c', ['checked']))
    out.append(('c', ['serializers']))
    out.append(('c', ['tags']))
    out.append(('py', ['checked']))
    return out


def weight(config, spec):
    return {'vectors': 5, 'nested': 4}.get(spec[0], 2)


def run_shard(ctx, spec):
    globals()['run_' + spec[0]](ctx, *spec[1:])


# -- structural equality: same class, same contents, recursively --------------------------

# the fields of all classes in types14
FIELDS = ('a', 'any', 'b', 'c', 'cv', 'd', 'e', 'i', 'j', 'k', 'ms', 'n', 'one', 'opt', 'q', 'rs', 'ss', 'x', 'xs', 'y', 'z')


def same(x, y):
    """None if x and y have the same class and contents at every depth, otherwise a description."""
    from pyrsistent import PBag, PClass, PDeque, PList, PMap, PSet, PVector
    if type(x) is not type(y) and {type(x).__name__, type(y).__name__} != {'PVector', 'PythonPVector'}:
        return 'class %s instead of %s' % (type(y), type(x))
    if isinstance(x, (PVector, list, tuple, PList, PDeque)):
        a, b = list(x), list(y)
        if len(a) != len(b) or len(y) != len(b):
            return 'length %d instead of %d' % (len(y), len(a))
        if isinstance(x, PDeque) and x.maxlen != y.maxlen:
            return 'maxlen %r instead of %r' % (y.maxlen, x.maxlen)
        for p, q in zip(a, b):
            w = same(p, q)
            if w:
                return w
        return None
    if isinstance(x, (PMap, dict)):
        if len(x) != len(y) or len(list(y)) != len(x):
            return 'length %d instead of %d' % (len(y), len(x))
        keys = {k: k for k in y}
        for k in x:
            if k not in keys or k not in y:
                return 'key %s is missing' % short(k)
            w = same(k, keys[k]) or same(x[k], y[k])
            if w:
                return w
        return None
    if isinstance(x, PBag):
        if len(x) != len(y):
            return 'length %d instead of %d' % (len(y), len(x))
        for k in x:
            if x.count(k) != y.count(k):
                return 'count of %s' % short(k)
        return None
    if isinstance(x, (PSet, set, frozenset)):
        if len(x) != len(y) or len(list(y)) != len(x):
            return 'length %d instead of %d' % (len(y), len(x))
        elems = {k: k for k in y}
        for k in x:
            if k not in elems or k not in y:
                return 'element %s is missing' % short(k)
            w = same(k, elems[k])
            if w:
                return w
        return None
    if isinstance(x, PClass):
        for f in FIELDS:
            a, b = getattr(x, f, MISSING), getattr(y, f, MISSING)
            if (a is MISSING) != (b is MISSING):
                return 'field %s is %s instead of %s' % (f, short(b), short(a))
            w = a is not MISSING and same(a, b)
            if w:
                return w
        return None
    if not (x == y):
        return '%s instead of %s' % (short(y), short(x))
    return None


def py_dumps(x, p):
    import io
    f = io.BytesIO()
    pickle._Pickler(f, p).dump(x)
    return f.getvalue()


def ways(protocols=(2, 3, 4, 5)):
    for p in protocols:
        yield 'pickle %d' % p, lambda x, p=p: pickle.loads(pickle.dumps(x, p))
    yield 'python pickler', lambda x: pickle.loads(py_dumps(x, 4))
    yield 'copy', copy.copy
    yield 'deepcopy', copy.deepcopy


ALL = list(ways())
FEW = list(ways((2, 5)))


def roundtrip(ctx, x, tr, methods=ALL, known=None):
    import types14
    h = call(hash, x)
    for name, f in methods:
        ctx.step()
        t = (tr, name)
        before = len(types14.CALLS)
        r = call(f, x)
        if r[0] != 'ok':
            bad('%s raised %r' % (name, r[1]), t)
        y = r[1]
        if len(types14.CALLS) != before:
            bad('%s ran a field factory' % name, t)
        w = same(x, y)
        if w:
            if known is not None and known(x, y):
                ctx.violation('%s: %s' % (name, w), t, 'KF2-removed-default')
                continue
            bad('%s: %s; got %s' % (name, w, short(y)), t)
        if not (x == y) or not (y == x) or x != y:
            bad('%s gives a value that is not equal: %s' % (name, short(y)), t)
        g = call(hash, y)
        if g[0] != h[0] or (h[0] == 'ok' and g[1] != h[1]):
            bad('%s gives a value with another hash' % name, t)
        if name == 'copy':
            shared(x, y, t)


def shared(x, y, t):
    """copy.copy does not copy elements."""
    from pyrsistent import PDeque, PList, PMap, PVector
    if isinstance(x, (PVector, PList, PDeque)):
        if any(a is not b for a, b in zip(x, y)):
            bad('copy.copy copied elements', t)
    elif isinstance(x, PMap):
        if any(x[k] is not y[k] for k in x):
            bad('copy.copy copied values', t)


# -- plain collections ----------------------------------------------------------------------

def run_vectors(ctx):
    from pyrsistent import pvector
    sizes = list(range(0, 71)) + list(range(1020, 1061)) + [1088, 2048, 2080, 32767, 32768, 32799, 32800, 32801]
    if not ctx.quick:
        sizes = list(range(0, 2101)) + [32767, 32768, 32799, 32800, 32801, 65600]
    for n in sizes:
        data = list(range(n))
        vs = [('bulk', pvector(data))]
        if n < 2200:
            e = pvector([-1]).evolver()
            e.extend(data)
            e.delete(0)
            vs.append(('evolver', e.persistent()))
            x = pvector(data[:n // 2])
            for d in data[n // 2:]:
                x = x.append(d)
            vs.append(('append', x))
        for how, x in vs:
            ctx.trace(('vector', n, how))
            ctx.state(('vector', n, how))
            roundtrip(ctx, x, ('vector', n, how), ALL if n < 100 else FEW)
            y = pickle.loads(pickle.dumps(x, 2))
            # the copy can be updated like the original
            if y.append('q').tolist() != data + ['q'] or (n and y.set(n // 2, 'q')[n // 2] != 'q'):
                bad('updating an unpickled vector', ('vector', n, how))
    # mutable elements: deepcopy gives independent ones, aliasing inside is kept
    for n in (1, 2, 33, 65):
        a = [1]
        x = pvector([a] * n)
        y = copy.deepcopy(x)
        z = pickle.loads(pickle.dumps(x, 2))
        a.append(2)
        for w in (y, z):
            if w.tolist() != [[1]] * n or any(e is not w[0] for e in w):
                bad('mutable elements after deepcopy or pickling: %s' % short(w), ('alias', n))


def run_maps(ctx):
    from pyrsistent import pbag, pmap, pset
    for n in range(0, 71 if ctx.quick else 300):
        for pat, f in enumerate((lambda i: i, lambda i: i % 3, lambda i: 8 * i)):
            keys = [Key('k%d' % i, f(i)) for i in range(n)]
            d = {k: i for i, k in enumerate(keys)}
            x1 = pmap(d)
            x2 = pmap()
            for k in keys:
                x2 = x2.set(k, d[k])
            extra = [Key('x%d' % i, f(i)) for i in range(5)]
            x3 = pmap(d).update({k: 1 for k in extra})
            for k in extra:
                x3 = x3.remove(k)
            for how, x in (('bulk', x1), ('set', x2), ('removed', x3), ('presize', pmap(d, pre_size=100))):
                tr = ('map', n, pat, how)
                ctx.trace(tr)
                ctx.state(tr)
                for prehash in (False, True):
                    if prehash:
                        hash(x)
                    roundtrip(ctx, x, tr, ALL if n < 12 else FEW)
                y = pickle.loads(pickle.dumps(x, 2))
                if dict(y.set('q', 1)) != dict(d, q=1) or (n and len(y.remove(keys[-1])) != n - 1):
                    bad('updating an unpickled map', tr)
            s = pset(keys)
            for how, x in (('set', s), ('keys', x1.keys()), ('bag', pbag(keys + keys[:3])), ('added', s.add('q').remove('q'))):
                tr = (how, n, pat)
                ctx.trace(tr)
                ctx.state(tr)
                roundtrip(ctx, x, tr, ALL if n < 12 else FEW)
    for d in ({'_cached_hash': 1}, {'x': 1, '_buckets': 2, '_size': 3}, {'a': [1]}, {1: {}}, {None: None}, {(1, 2): ()}):
        ctx.trace(('map', d))
        x = pmap(d)
        roundtrip(ctx, x, ('map', d))
    x = pmap({'__deepcopy__': 1, 'a': 2})
    roundtrip(ctx, x, 'a key called __deepcopy__', [w for w in ALL if w[0] != 'deepcopy'])
    r = call(copy.deepcopy, x)
    if r[0] != 'ok' or same(x, r[1]):
        ctx.violation('deepcopy of a map with a key called __deepcopy__ gives %s' % short(r), None, 'KF3-deepcopy-key')
    x = pmap({'a': [1]})
    y, z, c = copy.deepcopy(x), pickle.loads(pickle.dumps(x, 2)), copy.copy(x)
    x['a'].append(2)
    if y['a'] != [1] or z['a'] != [1] or c['a'] is not x['a']:
        bad('mutable values after copying', 'map')


def run_seqs(ctx):
    from pyrsistent import pbag, pdeque, plist
    for n in range(0, 9 if ctx.quick else 40):
        x = plist(range(n))
        for how, y in (('plist', x), ('reverse', x.reverse()), ('cons', x.cons('a')), ('rest', x.rest), ('split', x.split(n // 2)[1])):
            tr = ('list', n, how)
            ctx.trace(tr)
            ctx.state(tr)
            roundtrip(ctx, y, tr)
        for maxlen in (None, 0, 1, 2, 3, 4, n, n + 1):
            for left in range(0, n + 1):
                d = pdeque(range(left, n), maxlen)
                for i in range(left):
                    d = d.appendleft(i)
                for how, y in (('', d), ('pop', d.pop()), ('popleft', d.popleft()), ('reverse', d.reverse()), ('rotate', d.rotate(1)), ('append', d.append('z'))):
                    tr = ('deque', n, maxlen, left, how)
                    ctx.trace(tr)
                    ctx.state(tr)
                    roundtrip(ctx, y, tr, FEW)
                    z = pickle.loads(pickle.dumps(y, 3))
                    if list(z.append(1).append(2)) != list(y.append(1).append(2)) or list(z.appendleft(1)) != list(y.appendleft(1)):
                        bad('an unpickled deque behaves differently', tr)
    for a, b, c in product(range(4), repeat=3):
        tr = ('bag', a, b, c)
        ctx.trace(tr)
        ctx.state(tr)
        x = pbag([Key('a', 0)] * a + [Key('b', 8)] * b + ['c'] * c)
        roundtrip(ctx, x, tr)
        roundtrip(ctx, x.add('q').remove('q'), tr)


# -- checked collections, records and classes -----------------------------------------------

def checked_values(tier):
    """(description, value, can be re-created from its serialized form)"""
    import types14 as t
    seqs = [(), (0,), (1,), (1, 2), (2, 1), (1, 1, 2), tuple(range(40))]
    for c in (t.CV, t.CVI, t.CVISub, t.CVISubSub, t.CVOpt, t.CVMany, t.CS, t.CSI, t.CSISub):
        for s in seqs:
            yield (c.__name__, s), c(s), True
            if len(s) > 1:
                yield (c.__name__, s, 'derived'), (c(s[1:]).append(s[0]) if hasattr(c, 'append') else c(s[1:]).add(s[0])), True
    yield 'CVOpt none', t.CVOpt([None, 1, None]), True
    yield 'CVMany', t.CVMany([1, 'a', 2]), True
    for s in seqs:
        yield ('CM', s), t.CM({i: [i] for i in s}), True
        for c in (t.CMI, t.CMISub):
            yield (c.__name__, s), c({i: str(i) for i in s}), True
            yield (c.__name__, s, 'derived'), c({i: str(i) for i in s}).set(7, 'q').set(8, 'r'), True
    recs = [t.Rec(), t.Rec(n=1), t.Rec(n=2, k='a'), t.Rec(k=(1, 2))]
    clss = [t.Cls(), t.Cls(n=1), t.Cls(n=2, k='a'), t.Cls(k=(1, 2))]
    for n in range(4):
        yield ('CVRec', n), t.CVRec(recs[:n]), True
        yield ('CVCls', n), t.CVCls(clss[:n]), True
        yield ('CVNamed', n), t.CVNamed(recs[:n]), True
        yield ('CSCls', n), t.CSCls(clss[:n]), False
        yield ('CMRec', n), t.CMRec({str(i): r for i, r in enumerate(recs[:n])}), True
        yield ('CVV', n), t.CVV([t.CVI(range(i)) for i in range(n)]), True
        yield ('CSV', n), t.CSV([t.CVI(range(i)) for i in range(n)]), False
        yield ('CMVec', n), t.CMVec({str(i): t.CVI(range(i)) for i in range(n)}), True
        yield ('CMKey', n), t.CMKey({c: i for i, c in enumerate(clss[:n])}), False


def tags():
    import types14 as t
    g = [t.Tag(i) for i in range(40)]
    for n in (0, 1, 2, 3, 9, 40):
        a = g[:n]
        yield ('CVTag', n), t.CVTag(a), ['tag%d' % i for i in range(n)]
        yield ('CSTag', n), t.CSTag(a), {'tag%d' % i for i in range(n)}
        yield ('CMTagKey', n), t.CMTagKey({x: x.n for x in a}), {'tag%d' % i: i for i in range(n)}
        yield ('CMTagVal', n), t.CMTagVal({x.n: x for x in a}), {i: 'tag%d' % i for i in range(n)}
        yield ('CMTag', n), t.CMTag({x: g[-1] for x in a}), {'tag%d' % i: 'tag39' for i in range(n)}
        yield ('CMTagVec', n), t.CMTagVec({x: t.CVTag([x, g[0]]) for x in a}), {'tag%d' % i: ['tag%d' % i, 'tag0'] for i in range(n)}
    for base in (t.TagRec, t.TagCls):
        for a, b, c, d, e in product((MISSING, 1), repeat=5):
            x = base(**without_missing(a=g[1] if a == 1 else a, b=t.CMTag({g[1]: g[2]}) if b == 1 else b, c=[g[1], g[2]] if c == 1 else c, d=[g[1], g[2]] if d == 1 else d, e={g[1]: g[2]} if e == 1 else e))
            want = without_missing(a='tag1' if a == 1 else a, b={'tag1': 'tag2'} if b == 1 else b, c=['tag1', 'tag2'] if c == 1 else [], d={'tag1', 'tag2'} if d == 1 else set(), e={'tag1': 'tag2'} if e == 1 else {})
            yield (base.__name__, a, b, c, d, e), x, want


def recreate(ctx, x, tr):
    """type(x).create(x.serialize()) gives an equal value of the same class."""
    ctx.step()
    s = x.serialize()
    y = type(x).create(s)
    w = same(x, y)
    if w or not (x == y) or not (y == x):
        bad('re-creating from %s: %s' % (short(s), w or 'not equal'), tr)
    if type(y.serialize()) is not type(s) or y.serialize() != s:
        bad('the serialized form of the re-created value differs', tr)


def plain(s):
    """The default serialized form has no checked values left in it."""
    from pyrsistent import CheckedType
    if isinstance(s, CheckedType):
        return False
    if isinstance(s, dict):
        return all(plain(k) and plain(v) for k, v in s.items())
    if isinstance(s, (list, set, tuple)):
        return all(plain(e) for e in s)
    return True


def run_checked(ctx):
    for tr, x, again in checked_values(ctx.tier):
        ctx.trace(tr)
        ctx.state(str(tr))
        roundtrip(ctx, x, tr)
        if again:
            recreate(ctx, x, tr)
            if not plain(x.serialize()):
                bad('the serialized form contains a checked value: %s' % short(x.serialize()), tr)


def run_tags(ctx):
    """Checked types of the user's own as elements, keys, values and fields."""
    for tr, x, want in tags():
        ctx.trace(tr)
        ctx.state(str(tr))
        roundtrip(ctx, x, tr)
        got = x.serialize()
        if got != want or type(got) is not type(want):
            bad('serialized form %s, expected %s' % (short(got), short(want)), tr)
        recreate(ctx, x, tr)


def without_missing(**kw):
    return {k: v for k, v in kw.items() if v is not MISSING}


def record_values(tier):
    import types14 as t
    M = MISSING
    for base in (t.Rec, t.Cls):
        for n, k in product((M, 0, 1), (M, None, 'a', (1, [2]), {'z': 1})):
            yield (base.__name__, n, k), base(**without_missing(n=n, k=k)), True
    for base in (t.FacRec, t.FacCls, t.FacRecSub, t.FacClsSub):
        for a, b, c in product((M, 1, 2), (0, 'x'), (M, 5) if base.__name__.endswith('Sub') else (M,)):
            yield (base.__name__, a, b, c), base(**without_missing(a=a, b=b, c=c)), False
    for base in (t.DefRec, t.DefCls):
        for x, y, z in product((M, 7), (M, 8), (M, None, 3)):
            v = base(**without_missing(x=x, y=y, z=z))
            yield (base.__name__, x, y, z), v, False
            for f in 'xyz':
                r = call(v.remove, f)
                if r[0] == 'ok':
                    yield (base.__name__, x, y, z, 'remove', f), r[1], False
    for base, inner, other in ((t.ColRec, t.Rec, t.Cls), (t.ColCls, t.Cls, t.Rec)):
        for xs, ss, ms, rs, one, cv, opt in product((M, None, [1, 2]), (M, [1, 2]), (M, {'a': 1, 'b': 2}), (M, [t.Rec(n=1), t.Rec(k='k')]), (M, inner(n=3)), (M, t.CVI([1, 2])), (M, other(n=4))):
            yield (base.__name__, xs, ss, ms, rs, one, cv, opt), base(**without_missing(xs=xs, ss=ss, ms=ms, rs=rs, one=one, cv=cv, opt=opt)), opt is M


def restored_default(x, y):
    """The known finding: a removed field with a default is back, everything else is right."""
    import types14 as t
    if type(x) is not t.DefRec or type(y) is not t.DefRec:
        return False
    gone = [f for f in ('x', 'y') if f not in x]
    return bool(gone) and all(y.get(f, None) == {'x': 1, 'y': 5}[f] for f in gone) and {k: v for k, v in y.items() if k not in gone} == dict(x)


def run_records(ctx):
    import types14 as t
    for tr, x, again in record_values(ctx.tier):
        ctx.trace(tr)
        ctx.state(str(tr))
        roundtrip(ctx, x, tr, FEW, restored_default)
        if again:
            recreate(ctx, x, tr)
            if not plain(x.serialize()):
                bad('the serialized form contains a checked value: %s' % short(x.serialize()), tr)
    # derived values
    r = t.FacRec(a=1, b=2)
    c = t.FacCls(a=1, b=2)
    for x in (r, c):
        for how, y in (('set', x.set(a=5)), ('evolver', x.evolver().set('a', 5).persistent()), ('transform', x.transform(['a'], 9)), ('remove', x.remove('a'))):
            ctx.trace((type(x).__name__, how))
            roundtrip(ctx, y, (type(x).__name__, how))
    # copies can be updated, with all checks
    for x in (r, c, t.FacRecSub(a=1, b=1, c=1), t.FacClsSub(a=1, b=1, c=1)):
        for name, f in ALL:
            y = f(x)
            ctx.step()
            if y.set(a=4).a != 5 or y.set(a=4).b != x.b or type(y.set(a=4)) is not type(x):
                bad('updating a copied record', (name, type(x).__name__))
            for g in (lambda: y.set(a=-3), lambda: y.set(a='z'), lambda: y.set(nope=1), lambda: y.set(a=76), lambda: y.remove('b')):
                if call(g)[0] == 'ok':
                    bad('a copied record is not checked any more', (name, type(x).__name__))
    # deep copies are independent
    for base in (t.Loose, t.LooseCls):
        x = base(any=[1])
        y, z, w = copy.deepcopy(x), pickle.loads(pickle.dumps(x, 2)), copy.copy(x)
        x.any.append(2)
        if y.any != [1] or z.any != [1] or w.any is not x.any:
            bad('mutable field values after copying', base.__name__)


# -- nesting ----------------------------------------------------------------------------------

def wrappers():
    import types14 as t
    from pyrsistent import pbag, pdeque, plist, pmap, pset, pvector
    return [('vector', lambda x: pvector([x])), ('vector2', lambda x: pvector([1, x, x])), ('mapv', lambda x: pmap({'k': x})), ('mapk', lambda x: pmap({x: 1})),
            ('set', lambda x: pset([x])), ('bag', lambda x: pbag([x, x])), ('list', lambda x: plist([x, 3])), ('deque', lambda x: pdeque([3, x], 2)), ('deque2', lambda x: pdeque([x]).appendleft(x)),
            ('CV', lambda x: t.CV([x])), ('CS', lambda x: t.CS([x])), ('CM', lambda x: t.CM({x: x})), ('Rec', lambda x: t.Loose(any=x)), ('Cls', lambda x: t.LooseCls(any=x)),
            ('tuple', lambda x: (x, 1)), ('box', lambda x: t.Box(x))]


def leaves():
    from pyrsistent import pbag, pdeque, plist, pmap, pset, pvector
    import types14 as t
    return [1, None, 'a', pvector(), pmap(), pset(), pbag([]), plist(), pdeque(), pdeque([], 3), t.CV(), t.CS(), t.CM(), t.Rec(), t.Cls()]


def run_nested(ctx, part):
    ws = wrappers()
    ls = leaves()
    depth = 3 if ctx.quick else 4
    n = 0
    for d in range(1, depth + 1):
        for combo in product(ws, repeat=d):
            if any(a[0] == 'bag' and b[0] in ('mapk', 'CM', 'bag', 'set', 'CS') for a, b in zip(combo, combo[1:])):
                continue      # bags refuse comparison with other types, so they cannot be keys of a map read by attribute
            for li, leaf in enumerate(ls if d < 3 else ls[:1] + ls[3:5]):
                n += 1
                if n % NPART != part:
                    continue
                x = leaf
                for name, w in combo:
                    x = w(x)
                tr = (tuple(c[0] for c in combo[::-1]), short(leaf))
                ctx.trace(tr)
                ctx.state(tr)
                if d < 3:
                    roundtrip(ctx, x, tr)
                else:
                    p = 2 + n // NPART % 4
                    ways3 = [('pickle %d' % p, lambda x: pickle.loads(pickle.dumps(x, p))), ('deepcopy', copy.deepcopy)]
                    roundtrip(ctx, x, tr, ways3)


# -- exchange with a process that uses the other implementation ---------------------------

CHILD = '''
import sys, pickle
sys.path.append(%r)
sys.setrecursionlimit(5000)
import pyrsistent
kind = type(pyrsistent.pvector()).__module__
assert (kind == 'pvectorc') == (%r == 'c'), kind
import types14
inp, out = sys.stdin.buffer, sys.stdout.buffer
data = pickle.load(inp)
res = []
for p, blob in data:
    n = len(types14.CALLS)
    y = pickle.loads(blob)
    res.append((pickle.dumps(y, p), len(types14.CALLS) - n, hash(y) if %d else None))
pickle.dump(res, out)
'''


def run_cross(ctx):
    import types14  # noqa
    from pyrsistent import pbag, pdeque, plist, pmap, pset, pvector
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    other = 'py' if ctx.config == 'c' else 'c'
    env = dict(os.environ)
    env.pop('PYRSISTENT_NO_C_EXTENSION', None)
    if other == 'py':
        env['PYRSISTENT_NO_C_EXTENSION'] = '1'
    values = [('vector %d' % n, pvector(range(n))) for n in (0, 1, 2, 31, 32, 33, 64, 65, 1024, 1056, 1057)]
    values += [('map %d' % n, pmap({i: i for i in range(n)})) for n in (0, 1, 8, 9, 40)]
    values += [('set %d' % n, pset(range(n))) for n in (0, 1, 8, 9, 40)]
    values += [('bag', pbag([1, 1, 2])), ('list', plist([1, 2, 3])), ('deque', pdeque([1, 2, 3], 3)), ('deque', pdeque([1, 2]))]
    values += [(tr, x) for tr, x, _ in checked_values(ctx.tier)]
    values += [(tr, x) for tr, x, _ in record_values(ctx.tier) if 'remove' not in tr]
    ws = wrappers()
    for combo in product(ws, repeat=2):
        if combo[0][0] == 'bag' and combo[1][0] in ('mapk', 'CM', 'bag', 'set', 'CS'):
            continue
        x = 1
        for name, w in combo:
            x = w(x)
        values.append((tuple(c[0] for c in combo), x))
    for p in (2, 5):
        blobs = pickle.dumps([(p, pickle.dumps(x, p)) for _, x in values], 4)
        r = subprocess.run([sys.executable, '-c', CHILD % (here, other, 0)], input=blobs, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        if r.returncode:
            bad('loading pickles with the other vector implementation failed: %s' % r.stderr.decode()[-2000:], ('cross', ctx.config, p))
        back = pickle.loads(r.stdout)
        for (tr, x), (blob, calls, _) in zip(values, back):
            ctx.trace((tr, 'through', other))
            ctx.state((str(tr), 'cross'))
            ctx.step()
            y = pickle.loads(blob)
            w = same(x, y)
            if w or calls or not (x == y):
                bad('after a trip through the other implementation: %s' % (w or (calls and 'a factory ran') or 'not equal'), tr)


# -- serializers ----------------------------------------------------------------------------

def run_serializers(ctx):
    import types14 as t
    fmts = (None, 'f', {'date': 1}, 0)
    seqs = [(), (1,), (1, 2), (2, 1, 0), tuple(range(35))]
    for fmt in fmts:
        f = fmt if not isinstance(fmt, dict) else tuple(fmt)
        for s in seqs:
            for c, tag in ((t.SVec, 'SVec'), (t.SVecSub, 'SVec'), (t.SVecSubSub, 'SVec'), (t.SVecOver, 'SVecOver')):
                tr = (c.__name__, s, fmt)
                ctx.trace(tr)
                ctx.state(str(tr))
                ctx.step()
                got = c(s).serialize(fmt) if fmt is not None else c(s).serialize()
                if got != [(tag, fmt, e) for e in s] or type(got) is not list:
                    bad('serialized form %s' % short(got), tr)
            if isinstance(fmt, dict):
                continue
            for c, tag in ((t.SSet, 'SSet'), (t.SSetSub, 'SSet'), (t.SSetSubSub, 'SSet'), (t.SSetOver, 'SSetOver')):
                ctx.trace((c.__name__, s, fmt))
                ctx.step()
                got = c(s).serialize(fmt) if fmt is not None else c(s).serialize()
                if got != {(tag, fmt, e) for e in s} or type(got) is not set:
                    bad('serialized form %s' % short(got), (c.__name__, s, fmt))
            for c, tag in ((t.SMap, 'SMap'), (t.SMapSub, 'SMap'), (t.SMapSubSub, 'SMap'), (t.SMapOver, 'SMapOver')):
                ctx.trace((c.__name__, s, fmt))
                ctx.step()
                m = c({e: [e] for e in s})
                got = m.serialize(fmt) if fmt is not None else m.serialize()
                if got != {(tag, fmt, e): [e] for e in s} or type(got) is not dict:
                    bad('serialized form %s' % short(got), (c.__name__, s, fmt))
        M = MISSING
        for base in (t.SRec, t.SRecSub, t.SRecSubSub, t.SCls, t.SClsSub, t.SClsSubSub):
            atag = 'a2' if base.__name__.endswith('SubSub') else 'a'
            for a, b, c, d, e in product((M, 1, None, [1]), (M, t.CVI([1])), (M, 1, t.CVI([2])), (M, t.Rec(n=1)), (M, 5) if 'Sub' in base.__name__ else (M,)):
                x = base(**without_missing(a=a, b=b, c=c, d=d, e=e))
                tr = (base.__name__, a, b, c, d, e, fmt)
                ctx.trace(tr)
                ctx.state(str(tr))
                ctx.step()
                want = without_missing(a=M if a is M else (atag, fmt, a), b=M if b is M else ('b', fmt, b), c=M if c is M else ([2] if isinstance(c, t.CVI) else 1),
                                       d=M if d is M else {'n': 1}, e=M if e is M else ('e', fmt, 5))
                got = x.serialize(fmt) if fmt is not None else x.serialize()
                if got != want or type(got) is not dict:
                    bad('serialized form %s, expected %s' % (short(got), short(want)), tr)
        # the format reaches records and classes nested in records and classes
        for base in (t.OuterRec, t.OuterCls):
            x = base(i={'q': 1}, j={'q': 2})
            got = x.serialize(fmt)
            want = {'i': {'q': (fmt, 1) if fmt else 1}, 'j': {'q': (fmt, 2) if fmt else 2}}
            ctx.step()
            if got != want:
                bad('serialized form %s, expected %s' % (short(got), short(want)), (base.__name__, fmt))
