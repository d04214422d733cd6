"""C25: operators between collections and operands of any kind give the defined answer or refuse."""
import operator
from collections import Counter, OrderedDict, UserDict, defaultdict, deque, namedtuple
from itertools import product

from core import call, short
from maps import bad

BOUNDS = {
    'quick': 'all ordered pairs of operands of 48 kinds (every persistent collection, both vector implementations, views, checked collections, records, classes; built-in containers, their subclasses and views, user containers, look-alikes, iterators, '
             'scalars, strings, None, objects with and without their own answer) with up to 7 contents each, under 13 operators and their augmented forms',
    'thorough': 'as quick with 12 contents of each kind',
}
ASSUMPTIONS = ['bags refuse equality with anything but bags or answer that it differs', 'maps may refuse operands that are not mappings with any exception',
               'lists and deques may refuse <= and >=, also among themselves', 'operands that answer for themselves may be asked or not, except where the collection has no answer']

CMP = ('eq', 'ne', 'lt', 'le', 'gt', 'ge')
ALG = ('add', 'sub', 'mul', 'or_', 'and_', 'xor')
NPART = 8


class Alien(object):
    """Knows nothing about anything."""


class Own(object):
    """Has an answer to everything."""


for _n in 'eq ne lt le gt ge add radd sub rsub mul rmul and rand or ror xor rxor'.split():
    setattr(Own, '__%s__' % _n, lambda s, o, n=_n: ('own', n))
Own.__hash__ = lambda s: 3
REFLECTED = {'eq': 'eq', 'ne': 'ne', 'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le', 'add': 'radd', 'sub': 'rsub', 'mul': 'rmul', 'or_': 'ror', 'and_': 'rand', 'xor': 'rxor'}


class L(list):
    pass


class T(tuple):
    pass


class D(dict):
    pass


class S(set):
    pass


class DuckMap(object):
    """Everything a mapping has except that it is one."""
    def __init__(self, d):
        self.d = d

    def __len__(self):
        return len(self.d)

    def __iter__(self):
        return iter(self.d)

    def __contains__(self, k):
        return k in self.d

    def __getitem__(self, k):
        return self.d[k]

    def __getattr__(self, n):
        if n in ('keys', 'values', 'items', 'get'):
            return getattr(self.d, n)
        raise AttributeError(n)


class DuckSeq(object):
    def __init__(self, t):
        self.t = t

    def __len__(self):
        return len(self.t)

    def __getitem__(self, i):
        return self.t[i]

    def __iter__(self):
        return iter(self.t)

    def tolist(self):
        return list(self.t)

    def index(self, x):
        return self.t.index(x)

    def count(self, x):
        return self.t.count(x)

    def __reversed__(self):
        return reversed(self.t)


class DuckSet(object):
    def __init__(self, t):
        self.t = set(t)

    def __len__(self):
        return len(self.t)

    def __contains__(self, x):
        return x in self.t

    def __iter__(self):
        return iter(self.t)


Pt = namedtuple('Pt', 'p q')


def kinds():
    """name -> (family, function of a tuple of elements giving the operand, or None if there is none)"""
    from pyrsistent import CheckedPMap, CheckedPSet, CheckedPVector, PClass, PRecord, b, field, pbag, pdeque, plist, pmap, pset, pvector
    from pyrsistent._pvector import python_pvector

    class CV(CheckedPVector):
        pass

    class CS(CheckedPSet):
        pass

    class CM(CheckedPMap):
        pass

    class R(PRecord):
        a = field()
        b = field()
        c = field()

    class R2(PRecord):
        a = field()
        b = field()
        c = field()

    class C(PClass):
        a = field()
        b = field()
        c = field()

    class C2(PClass):
        a = field()
        b = field()
        c = field()

    def pairs(t):
        return dict(zip('abc', t))

    def small(f):
        return lambda t: f(t) if len(t) <= 3 else None
    return [
        ('vector', 'vec', pvector), ('python vector', 'vec', python_pvector), ('checked vector', 'vec', CV),
        ('map', 'map', small(lambda t: pmap(pairs(t)))), ('checked map', 'map', small(lambda t: CM(pairs(t)))), ('record', 'map', small(lambda t: R(**pairs(t)))), ('other record', 'map', small(lambda t: R2(**pairs(t)))),
        ('pset', 'set', pset), ('checked set', 'set', CS), ('key view', 'set', lambda t: pmap(dict.fromkeys(t)).keys()), ('bag', 'bag', pbag), ('plist', 'plist', plist), ('deque', 'deque', pdeque),
        ('bounded deque', 'deque', lambda t: pdeque(t, maxlen=len(t) + 1)), ('class', 'class', small(lambda t: C(**pairs(t)))), ('other class', 'class2', small(lambda t: C2(**pairs(t)))),
        ('value view', 'values', small(lambda t: pmap(pairs(t)).values())), ('item view', 'items', small(lambda t: pmap(pairs(t)).items())),
        # built-in and foreign operands
        ('list', 'blist', list), ('list subclass', 'blist', L), ('tuple', 'other', tuple), ('tuple subclass', 'other', T), ('named tuple', 'other', lambda t: Pt(*t) if len(t) == 2 else None), ('range', 'other', lambda t: range(len(t))),
        ('dict', 'map', small(lambda t: pairs(t))), ('dict subclass', 'map', small(lambda t: D(pairs(t)))), ('OrderedDict', 'map', small(lambda t: OrderedDict(pairs(t)))), ('defaultdict', 'map', small(lambda t: defaultdict(int, pairs(t)))),
        ('UserDict', 'map', small(lambda t: UserDict(pairs(t)))), ('set', 'set', set), ('set subclass', 'set', S), ('frozenset', 'set', frozenset), ('dict keys', 'set', lambda t: dict.fromkeys(t).keys()),
        ('dict values', 'other', small(lambda t: pairs(t).values())), ('Counter', 'map', lambda t: Counter(t)), ('collections.deque', 'other', deque), ('str', 'other', lambda t: 'abc'[:len(t)]),
        ('bytes', 'other', lambda t: bytes(t) if all(isinstance(x, int) for x in t) else None), ('generator', 'once', lambda t: (x for x in t)),
        ('None', 'scalar', lambda t: None if t else 0), ('int', 'scalar', lambda t: len(t)), ('bool', 'scalar', lambda t: bool(t)), ('float', 'scalar', lambda t: float(len(t))), ('object', 'scalar', lambda t: Alien() if not t else type),
        ('duck mapping', 'other', small(lambda t: DuckMap(pairs(t)))), ('duck sequence', 'other', DuckSeq), ('duck set', 'other', DuckSet),
        ('own', 'own', lambda t: Own() if not t else None)]


PERSISTENT = 18


def contents(tier):
    q = [(), (1,), (1, 2), (2, 1), (1, 1), (1, 2, 3), (2, 3)]
    if tier != 'quick':
        q += [(3,), (2, 2, 1), (1, 2, 3, 4), ('a',), ('a', 'b')]
    return q


def content(fam, name, t, x):
    """What equality compares."""
    if fam in ('vec', 'blist', 'plist', 'deque'):
        return list(t)
    if fam == 'set':
        return set(t)
    if fam == 'map':
        return dict(x)
    if fam == 'bag':
        return Counter(t)
    if fam in ('class', 'class2'):
        return dict(zip('abc', t))
    return None


def elements(fam, name, t, x):
    """What iteration gives (in no particular order for sets and maps), None for operands that cannot be iterated over."""
    if fam in ('scalar', 'own', 'class', 'class2'):
        return None
    if fam == 'once':
        return list(t)
    return list(x)


class Any(object):
    """A set of acceptable outcomes."""
    def __init__(self, *alts):
        self.alts = alts


EXC = ('exc',)          # any exception
TYPE = ('type error',)


def expected(op, A, B):
    """A, B: (name, family, content tuple, object).  Returns a list of acceptable outcomes: ('val', value) ('set', value) ('map', value), ('seq', value), ('bag', value), TYPE, EXC, ('own', name) or 'whatever'."""
    (na, fa, ta, a), (nb, fb, tb, b) = A, B
    own = fb == 'own'
    if fa == 'own':
        return [('own', {'or_': 'or', 'and_': 'and'}.get(op, op))]
    reflected = [('own', REFLECTED[op])] if own else []
    group = 'vec' if {fa, fb} <= {'vec', 'blist'} else fa if fa == fb else None
    if op in ('eq', 'ne'):
        if 'bag' in (fa, fb) and fa != fb:
            return [TYPE, ('val', op == 'ne')] + reflected
        if fa in ('values', 'items') or fb in ('values', 'items'):
            if fa == fb == 'items':
                eq = dict(a) == dict(b)
            elif fa == fb == 'values':
                eq = a is b
            else:
                eq = False
        elif group is None or fa in ('other', 'scalar', 'once'):
            eq = False
        elif own:
            eq = False
        else:
            eq = content(fa, na, ta, a) == content(fb, nb, tb, b)
        if own:
            return reflected + ([('val', False), ('val', True)] if op == 'ne' or fa in ('values', 'items') else [])
        return [('val', eq if op == 'eq' else not eq)]
    if op in ('lt', 'le', 'gt', 'ge'):
        f = getattr(operator, op)
        if own:
            return reflected if fa not in ('map', 'bag') else reflected + [TYPE]
        if group == 'vec':
            return [('val', f(list(ta), list(tb)))]
        if group == 'set':
            return [('val', f(set(ta), set(tb)))]
        if group in ('plist', 'deque'):
            ok = [('val', f(list(ta), list(tb)))]
            return ok if op in ('lt', 'gt') else ok + [TYPE]
        return [TYPE]
    ea, eb = elements(fa, na, ta, a), elements(fb, nb, tb, b)
    if op == 'add':
        if fa == 'vec':
            if own:
                return reflected + [TYPE]
            return [('seq', list(ta) + eb)] if eb is not None else [TYPE]
        if fa == 'map' and na in PMAPS:
            if fb == 'map':
                d = dict(a)
                d.update(b)
                return [('map', d)] if na not in ('record', 'other record') or set(d) <= set('abc') else [EXC]
            if nb == 'duck mapping':
                return None
            return [EXC] + reflected
        if fa == fb == 'bag':
            return [('bag', Counter(ta) + Counter(tb))]
        return reflected or [TYPE]
    if op == 'mul':
        for x, fx, y, fy in ((a, fa, b, fb), (b, fb, a, fa)):
            if fx == 'vec' and isinstance(y, int):
                return [('seq', list(x) * y)]
        if fa == 'vec' and own or {fa, fb} == {'vec', 'scalar'} and (isinstance(a, float) or isinstance(b, float)):
            return None     # the Python implementation takes 0.0 and 1.0
        return reflected or [TYPE]
    # algebra of sets and bags
    if fa == fb == 'bag' and op != 'xor':
        ca, cb = Counter(ta), Counter(tb)
        return [('bag', {'sub': ca - cb, 'or_': ca | cb, 'and_': ca & cb}[op])]
    if op == 'or_' and fa == 'map' and na in PMAPS:
        if fb == 'map':
            d = dict(a)
            d.update(b)
            return [('map', d)] if na not in ('record', 'other record') or set(d) <= set('abc') else [EXC]
        if nb == 'duck mapping':
            return None
        return [EXC] + reflected
    if own:
        return reflected
    if na in PSETS or nb in PSETS:
        if ea is None or eb is None:
            return [TYPE]
        sa, sb = set(ea), set(eb)
        return [('set', {'sub': sa - sb, 'or_': sa | sb, 'and_': sa & sb, 'xor': sa ^ sb}[op])]
    if na == 'item view' or nb == 'item view' or na == 'dict keys' or nb == 'dict keys':
        return None         # sets of pairs, not specified here
    return [TYPE]


PMAPS = ('map', 'checked map', 'record', 'other record')
PSETS = ('pset', 'checked set', 'key view')


def fits(r, alts):
    for w in alts:
        if w == TYPE:
            if r[0] == 'exc' and isinstance(r[1], TypeError):
                return True
        elif w == EXC:
            if r[0] == 'exc' and isinstance(r[1], Exception):
                return True
        elif r[0] == 'exc':
            continue
        elif w[0] == 'own':
            if r[1] == w:
                return True
        elif w[0] == 'val':
            if type(r[1]) is bool and r[1] == w[1]:
                return True
        elif type(r[1]) is tuple or r[1] is None or r[1] is NotImplemented:
            continue
        elif w[0] == 'seq':
            if hasattr(r[1], 'tolist') and list(r[1]) == w[1] and len(r[1]) == len(w[1]):
                return True
        elif w[0] == 'map':
            if type(r[1]).__name__ in ('PMap', 'CM', 'R', 'R2') and dict(r[1]) == w[1] and len(r[1]) == len(w[1]):
                return True
        elif w[0] == 'set':
            xs = list(r[1])
            if set(xs) == w[1] and len(xs) == len(w[1]) == len(r[1]) and not hasattr(r[1], 'tolist'):
                return True
        elif w[0] == 'bag':
            if type(r[1]).__name__ == 'PBag' and Counter(list(r[1])) == w[1] and len(r[1]) == sum(w[1].values()):
                return True
    return False


def fingerprint(fam, x):
    if fam in ('once', 'scalar', 'own'):
        return None
    if fam in ('class', 'class2'):
        return [(f, getattr(x, f, None)) for f in 'abc']
    if fam == 'map':
        return list(x.items())
    return list(x)


def shards(tier):
    return [(c, ['pairs', p, NPART]) for c in ('c', 'py') for p in range(NPART)]


def run_shard(ctx, spec):
    globals()['run_' + spec[0]](ctx, *spec[1:])


def run_pairs(ctx, part, parts):
    ks = kinds()
    cs = contents(ctx.tier)
    n = 0
    for (i, (na, fa, ma)), (j, (nb, fb, mb)) in product(enumerate(ks), enumerate(ks)):
        if i >= PERSISTENT and j >= PERSISTENT:
            continue
        n += 1
        if n % parts != part:
            continue
        for ta, tb in product(cs, cs):
            a0, b0 = ma(ta), mb(tb)
            if (a0 is None and na != 'None') or (b0 is None and nb != 'None') or (na == 'None' and a0 is not None) or (nb == 'None' and b0 is not None):
                continue
            for same in (False, True) if i == j and ta == tb else (False,):
                for op in CMP + ALG:
                    a = ma(ta)
                    b = a if same else mb(tb)
                    alts = expected(op, (na, fa, ta, a), (nb, fb, tb, b))
                    if alts is None:
                        ctx.outcome('unspecified')
                        continue
                    tr = (na, ta, op, nb, tb, same)
                    ctx.trace(tr)
                    ctx.step()
                    ctx.state(tr)
                    pa, pb = fingerprint(fa, a), fingerprint(fb, b)
                    r = call(getattr(operator, op), a, b)
                    if not fits(r, alts):
                        bad('gives %s, expected %s' % (short(r), short(alts)), tr)
                    ctx.outcome(r[0] if r[0] == 'ok' else type(r[1]).__name__)
                    if fingerprint(fa, a) != pa or fingerprint(fb, b) != pb:
                        bad('an operand was changed', tr)
                    if op in ALG and i < PERSISTENT and fb != 'once':
                        # the augmented form binds the result to the name and leaves the object alone
                        def augmented(x):
                            y = x
                            y = getattr(operator, 'i' + op.rstrip('_') + ('_' if op.endswith('_') and False else ''))(y, b) if op not in ('or_', 'and_') else (operator.ior if op == 'or_' else operator.iand)(y, b)
                            return y
                        r2 = call(augmented, a)
                        if not fits(r2, alts):
                            bad('the augmented form gives %s, expected %s' % (short(r2), short(alts)), tr)
                        if fingerprint(fa, a) != pa or fingerprint(fb, b) != pb:
                            bad('an operand was changed by the augmented form', tr)
