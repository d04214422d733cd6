"""Observation of linked lists and deques against a tuple."""
from collections.abc import Hashable, Sequence

from core import call, outcome_class, short
from maps import bad


def light_seq(x, ref, tr):
    if len(x) != len(ref):
        bad('len() is %d, expected %d: %s' % (len(x), len(ref), short(x)), tr)
    got = tuple(x)
    if len(got) != len(ref) or any(a is not b for a, b in zip(got, ref)):
        bad('contains %s, expected %s' % (short(got), short(ref)), tr)


def bounds(n):
    return [None] + list(range(-n - 2, n + 3))


def full_seq(x, ref, make, alphabet, tr, steps=(None, 1, -1, 2, -2, 3)):
    """make: builds a value of this kind from an iterable."""
    light_seq(x, ref, tr)
    n = len(ref)
    if bool(x) != bool(ref):
        bad('truth value', tr)
    if tuple(reversed(x)) != ref[::-1]:
        bad('reversed() gives %s' % short(tuple(reversed(x))), tr)
    for i in range(-n - 3, n + 3):
        r = call(lambda: x[i])
        if -n <= i < n:
            if r[0] != 'ok' or r[1] is not ref[i]:
                bad('[%d] gives %s, expected %s' % (i, short(r[1]), short(ref[i])), tr)
        elif outcome_class(r) != 'IndexError':
            bad('[%d] gives %s, expected an IndexError' % (i, short(r[1])), tr)
    for step in steps:
        for a in bounds(n):
            for b in bounds(n):
                r = call(lambda: x[a:b:step] if step is not None else x[a:b])
                want = ref[a:b:step]
                if r[0] != 'ok' or tuple(r[1]) != want or type(x) is not type(x) or len(r[1]) != len(want):
                    bad('[%s:%s:%s] gives %s, expected %s' % (a, b, step, short(r[1]), short(want)), tr)
    for e in alphabet:
        if (e in x) != (e in ref):
            bad('%r in x' % (e,), tr)
        if x.count(e) != ref.count(e):
            bad('count(%r) is %r' % (e, x.count(e)), tr)
        r = call(x.index, e)
        if e in ref:
            if r != ('ok', ref.index(e)):
                bad('index(%r) gives %s' % (e, short(r)), tr)
            for a in range(-n - 1, n + 2):
                for b in range(-n - 1, n + 2):
                    r = call(x.index, e, a, b)
                    try:
                        w = ref.index(e, a, b)
                    except ValueError:
                        if outcome_class(r) != 'ValueError':
                            bad('index(%r, %d, %d) gives %s' % (e, a, b, short(r)), tr)
                    else:
                        if r != ('ok', w):
                            bad('index(%r, %d, %d) gives %s, expected %d' % (e, a, b, short(r), w), tr)
        elif outcome_class(r) != 'ValueError':
            bad('index of an absent element gives %s' % short(r), tr)
    y = make(ref)
    if not (x == y) or x != y or not (y == x) or hash(x) != hash(y):
        bad('comparison or hash with an equal value built at once', tr)
    for other in (list(ref), tuple(ref), None, 5):
        if x == other or not (x != other) or other == x:
            bad('equal to %r' % (other,), tr)
    if not isinstance(x, Sequence) or not isinstance(x, Hashable):
        bad('not a Sequence and Hashable', tr)
    for f in (lambda: x['a'], lambda: x[1.0], lambda: x[None]):
        if outcome_class(call(f)) != 'TypeError':
            bad('no TypeError for a bad index type', tr)


def iterables():
    """Makers of iterables of every kind."""
    global _iterables
    if _iterables is None:
        from pyrsistent import l, pbag, pdeque, plist, pmap, pset, pvector
        from pyrsistent import CheckedPSet, CheckedPVector

        class CV(CheckedPVector):
            __type__ = str

        class CS(CheckedPSet):
            __type__ = str
        cv, cs = CV(['p', 'q']), CS(['p', 'q'])

        class NoLen(object):
            def __init__(self, xs):
                self.xs = xs

            def __iter__(self):
                return iter(self.xs)
        tail = plist('qr')
        items = list(pmap({'p': 1, 'q': 2}).items())
        bag = pbag('ppq')
        _iterables = [('list', lambda: ['p', 'q']), ('string', lambda: 'pq'), ('generator', lambda: (c for c in 'pqp')), ('plist', lambda: plist('pq')), ('empty plist', lambda: plist()),
                      ('one plist', lambda: l('p')), ('shared plist', lambda: tail.cons('p')), ('rest', lambda: tail.rest), ('pvector', lambda: pvector('pqr')), ('empty pvector', lambda: pvector()), ('pvector of 33', lambda: pvector(range(33))), ('checked vector', lambda: cv), ('empty pdeque', lambda: pdeque()), ('left pdeque', lambda: pdeque('q').appendleft('p')), ('pdeque', lambda: pdeque('pqr', 2)),
                      ('pset', lambda: pset('pq')), ('pmap', lambda: pmap({'p': 1, 'q': 2})), ('keys', lambda: pmap({'p': 1, 'q': 2}).keys()), ('values', lambda: pmap({'p': 1, 'q': 2}).values()),
                      ('items', lambda: list(items)), ('pbag', lambda: bag), ('dict', lambda: {'p': 1}), ('range', lambda: range(3)), ('dict view', lambda: {'p': 1, 'q': 1}.keys()), ('set', lambda: {'p'}), ('checked set', lambda: cs), ('frozenset', lambda: frozenset('p')), ('bytes', lambda: b'ab'), ('no len', lambda: NoLen('pq'))]
    return _iterables


_iterables = None
