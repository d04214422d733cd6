"""Keys with chosen hashes, and observation of maps."""
from collections import OrderedDict, defaultdict
from collections.abc import Hashable, Mapping

from core import Violation, call, outcome_class, short


class Key(object):
    """Equality by name, hash as chosen."""
    __slots__ = ('name', 'h')

    def __init__(self, name, h):
        self.name = name
        self.h = h

    def __hash__(self):
        return self.h

    def __eq__(self, other):
        return isinstance(other, Key) and self.name == other.name

    def __ne__(self, other):     # deliberately unusable: the code promises not to rely on it
        raise AssertionError('!= used on keys')

    def __repr__(self):
        return 'K(%r,%d)' % (self.name, self.h)


class Val(object):
    """Values fall into groups of equal but distinct objects: val('x0') == val('x1')."""
    __slots__ = ('n', 'g')

    def __init__(self, n):
        self.n = n
        self.g = str(n)[0]

    def __eq__(self, other):
        return isinstance(other, Val) and self.g == other.g

    def __hash__(self):
        return hash(self.g)

    def __repr__(self):
        return 'V%r' % (self.n,)


_vals = {}


def val(n):
    if n not in _vals:
        _vals[n] = Val(n)
    return _vals[n]


MISSING = object()


def identical(a, b):
    """Equal dicts or lists holding the very same values."""
    if len(a) != len(b):
        return False
    if isinstance(a, dict):
        return all(b.get(k, MISSING) is v for k, v in a.items())
    return all(x is y for x, y in zip(a, b))


def bad(msg, trace):
    raise Violation(msg, trace)


def partitions(items):
    """All set partitions, as lists of block numbers."""
    def rec(i, blocks, cur):
        if i == len(items):
            yield list(cur)
            return
        for b in range(blocks + 1):
            cur.append(b)
            for x in rec(i + 1, max(blocks, b + 1), cur):
                yield x
            cur.pop()
    return rec(0, 0, [])


def hash_patterns(k):
    """Hash values for k keys: every partition into buckets, collisions by equal hash and by equal remainder."""
    seen = set()
    for p in partitions(range(k)):
        count = {}
        mod, big, neg = [], [], []
        for b in p:
            j = count.get(b, 0)
            count[b] = j + 1
            mod.append(b + 8 * j)                # same bucket in a small map, apart after growth
            big.append(b + (j << 40) * 8)        # same bucket, also after every growth
            neg.append(-2 - b - 8 * j)
        for hs in (p, mod, big, neg):
            t = tuple(hs)
            if t not in seen:
                seen.add(t)
                yield t


def light_map(m, d, trace):
    if len(m) != len(d):
        bad('len() is %d, expected %d: %s, expected %s' % (len(m), len(d), short(m), short(d)), trace)
    n = 0
    for k, v in m.iteritems():
        n += 1
        x = d.get(k, MISSING)
        if x is not v:
            bad('contains %s: %s, expected %s' % (short(k), short(v), 'nothing' if x is MISSING else short(x)), trace)
    if n != len(d):
        bad('iteration gives %d items, expected %d' % (n, len(d)), trace)
    get = m.get
    for k, v in d.items():
        if get(k, MISSING) is not v:
            bad('lookup of %s gives %s, expected %s' % (short(k), short(get(k, MISSING)), short(v)), trace)


def full_map(m, d, universe, trace):
    light_map(m, d, trace)
    keys = list(m)
    vals = list(m.values())
    items = list(m.items())
    if [k for k, _ in items] != keys or len(vals) != len(keys) or any(a is not b for a, b in zip(vals, [v for _, v in items])):
        bad('iteration over keys, values and items is not consistent', trace)
    if list(m.iterkeys()) != keys or len(list(m.itervalues())) != len(keys) or list(m.iteritems()) != items:
        bad('iterkeys/itervalues/iteritems differ from the views', trace)
    ids = {id(k) for k in d}
    if any(id(k) not in ids for k in keys):
        bad('keys are not the objects a dict keeps: %s, expected %s' % (short(keys), short(list(d))), trace)
    if len(m.keys()) != len(d) or len(m.values()) != len(d) or len(m.items()) != len(d):
        bad('length of a view', trace)
    for k in universe:
        x = d.get(k, MISSING)
        if (k in m) != (x is not MISSING):
            bad('%s in map is %s' % (short(k), k in m), trace)
        if m.get(k, MISSING) is not x:
            bad('get(%s) gives %s, expected %s' % (short(k), short(m.get(k, MISSING)), short(x)), trace)
        r = call(lambda: m[k])
        if (outcome_class(r) != 'KeyError') if x is MISSING else (r[0] != 'ok' or r[1] is not x):
            bad('[%s] gives %s' % (short(k), short(r)), trace)
        if x is MISSING and m.get(k) is not None:
            bad('get() of a missing key', trace)
        if (k in m.keys()) != (x is not MISSING):
            bad('%s in keys()' % short(k), trace)
        if ((k, x) in m.items()) != (x is not MISSING):
            bad('item %s in items()' % short(k), trace)
        if x is not MISSING and ((k, MISSING) in m.items() or x not in m.values()):
            bad('value of %s in a view' % short(k), trace)
    if MISSING in m.values():
        bad('absent value in values()', trace)
    if not (m == d) or m != d or not (d == m) or d != m:
        bad('comparison with the equal dict', trace)
    if bool(m) != bool(d):
        bad('truth value', trace)
    for k in d:
        o = dict(d)
        o[k] = MISSING
        if m == o or not (m != o):
            bad('equal to a dict with another value', trace)
        del o[k]
        if m == o or o == m:
            bad('equal to a dict with a key less', trace)
        o[MISSING] = d[k]
        if m == o or o == m:
            bad('equal to a dict with another key', trace)
    if not isinstance(m, Mapping) or not isinstance(m, Hashable):
        bad('not a Mapping and Hashable', trace)
    od = OrderedDict(d)
    if not (m == od) or m != od:
        bad('comparison with the equal OrderedDict', trace)
