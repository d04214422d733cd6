"""Collections of every kind as the source of another one: the result is an ordinary collection with the same elements, whatever the source checks or limits."""
from collections import Counter, OrderedDict, UserDict, defaultdict, deque
from itertools import product
from types import MappingProxyType

from core import call, short
from maps import bad

_cls = {}


def classes():
    if not _cls:
        from pyrsistent import CheckedPMap, CheckedPSet, CheckedPVector, PRecord, field

        class CV(CheckedPVector):
            __type__ = int
            __invariant__ = lambda x: (x < 1000, 'large')

        class CS(CheckedPSet):
            __type__ = int
            __invariant__ = lambda x: (x < 1000, 'large')

        class CM(CheckedPMap):
            __key_type__ = int
            __value_type__ = int

        class R(PRecord):
            a = field(type=int)
            b = field(type=int)
            c = field(type=int)
        _cls.update(CV=CV, CS=CS, CM=CM, R=R)
    return _cls


def iterable_sources(n):
    """(name, function making the source): iterables of n ints."""
    from pyrsistent import pbag, pdeque, plist, pmap, pset, pvector
    from pyrsistent._pvector import python_pvector
    c = classes()
    xs = list(range(n))
    d = {x: x for x in xs}
    return [('list', lambda: list(xs)), ('tuple', lambda: tuple(xs)), ('iterator', lambda: iter(xs)), ('generator', lambda: (x for x in xs)), ('range', lambda: range(n)), ('set', lambda: set(xs)), ('frozenset', lambda: frozenset(xs)),
            ('deque', lambda: deque(xs)), ('dict', lambda: dict(d)), ('dict keys', lambda: d.keys()), ('dict values', lambda: d.values()), ('vector', lambda: pvector(xs)), ('python vector', lambda: python_pvector(xs)),
            ('checked vector', lambda: c['CV'](xs)), ('set_', lambda: pset(xs)), ('checked set', lambda: c['CS'](xs)), ('bag', lambda: pbag(xs)), ('plist', lambda: plist(xs)), ('pdeque', lambda: pdeque(xs)),
            ('bounded pdeque', lambda: pdeque(xs, maxlen=n)), ('wider pdeque', lambda: pdeque(xs, maxlen=n + 3)), ('map', lambda: pmap(d)), ('checked map', lambda: c['CM'](d)), ('map keys', lambda: pmap(d).keys()),
            ('map values', lambda: pmap(d).values()), ('vector evolver result', lambda: pvector(xs).evolver().persistent()), ('reversed vector', lambda: reversed(pvector(reversed(xs)))), ('map iterator', lambda: iter(pmap(d)))]


def mapping_sources(n):
    from pyrsistent import pmap
    c = classes()
    d = {x: x + 1 for x in range(n)}
    out = [('dict', lambda: dict(d)), ('OrderedDict', lambda: OrderedDict(d)), ('defaultdict', lambda: defaultdict(list, d)), ('Counter', lambda: Counter(d)), ('UserDict', lambda: UserDict(d)),
           ('proxy', lambda: MappingProxyType(d)), ('map', lambda: pmap(d)), ('presized map', lambda: pmap(d, pre_size=16)), ('checked map', lambda: c['CM'](d))]
    return [(k, f, d) for k, f in out]


def record_sources(n):
    c = classes()
    if n > 3:
        return []
    d = dict(zip('abc', range(n)))
    return [('record', lambda: c['R'](**d), d)]


def run_iterables(ctx, ops, ordered, cls, model):
    """ops: (name, prefix elements, function of the source); model(prefix, elements) -> list; cls: the exact type of results."""
    for n in (0, 1, 2, 3, 9, 33):
        for (sname, src), (oname, prefix, op, grow) in product(iterable_sources(n), ops):
            tr = (oname, sname, n)
            ctx.trace(tr)
            ctx.state(tr)
            ctx.step(2)
            source = src()
            keep = None if hasattr(source, '__next__') else list(source)
            r = call(op, source)
            if r[0] != 'ok':
                bad('raised %r' % (r[1],), tr)
            x = r[1]
            # sets and maps as sources: their own order counts
            elems = keep if keep is not None else list(range(n)) if sname != 'map iterator' else list(src())
            want = model(prefix, elems)
            got = list(x)
            if type(x) is not cls or (got != want if ordered else sorted(got, key=repr) != sorted(want, key=repr)) or len(x) != len(want):
                bad('gives %s of type %s, expected %s' % (short(x), type(x).__name__, short(want)), tr)
            if keep is not None and list(source) != keep:
                bad('the source has become %s' % short(source), tr)
            # nothing of the source's checks or limits is left
            for extra in ('text', 5000, None):
                y = grow(x, extra)
                if extra not in list(y) or len(y) != len(want) + 1 or type(y) is not cls or list(x) != got:
                    bad('adding %r gives %s' % (extra, short(y)), tr)
            if keep is not None and list(source) != keep:
                bad('the source has become %s' % short(source), tr)


def run_mappings(ctx, ops, cls):
    """ops: (name, prefix dict, function of the source)"""
    for n in (0, 1, 2, 3, 9, 33):
        for (sname, src, d), (oname, prefix, op) in product(mapping_sources(n) + record_sources(n), ops):
            tr = (oname, sname, n)
            ctx.trace(tr)
            ctx.state(tr)
            ctx.step(2)
            source = src()
            r = call(op, source)
            if r[0] != 'ok':
                bad('raised %r' % (r[1],), tr)
            x = r[1]
            want = dict(prefix)
            want.update(d)
            if type(x) is not cls or dict(x.items()) != want or len(x) != len(want) or x != want:
                bad('gives %s of type %s, expected %s' % (short(x), type(x).__name__, short(want)), tr)
            for k, v in (('text', 'text'), (5000, None), (None, 3), ('a', 'text')):
                y = x.set(k, v)
                if dict(y) != dict(want, **{}) | {k: v} or type(y) is not cls or dict(x) != want:
                    bad('set(%r, %r) gives %s' % (k, v, short(y)), tr)
            for k in want:
                y = x.remove(k)
                if k in y or len(y) != len(want) - 1 or type(y) is not cls:
                    bad('remove(%r) gives %s' % (k, short(y)), tr)
            if dict(source) != d or len(source) != len(d):
                bad('the source has become %s' % short(source), tr)
