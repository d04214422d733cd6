"""Reference semantics and observation of vectors, shared by the vector properties."""
from collections.abc import Hashable, Sequence

from core import Violation, call, outcome_class, short

BIG = 10 ** 6


class Tok(object):
    """An element with identity equality."""
    __slots__ = ('n', '__weakref__')

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return 't%r' % (self.n,)


class Twin(Tok):
    """All twins are equal; which one it is can only be told by identity."""
    __slots__ = ()

    def __eq__(self, other):
        return isinstance(other, Twin)

    def __ne__(self, other):
        return not isinstance(other, Twin)

    def __hash__(self):
        return 7


_toks = {}


def tok(n):
    t = _toks.get(n)
    if t is None:
        t = _toks[n] = Tok(n)
    return t


def toks(n, start=0):
    return [tok(i) for i in range(start, start + n)]


# -- list semantics of the vector operations ------------------------------------------

def m_append(l, x):
    return l + [x]


def m_extend(l, xs):
    return l + list(xs)


def m_set(l, i, x):
    if i == len(l):
        return l + [x]
    r = list(l)
    r[i] = x
    return r


def m_mset(l, *args):
    if len(args) % 2:
        raise TypeError('mset')
    r = list(l)
    for i in range(0, len(args), 2):
        if args[i] == len(r):
            r.append(args[i + 1])
        else:
            r[args[i]] = args[i + 1]
    return r


def m_delete(l, i, *stop):
    r = list(l)
    if stop and stop[0] is not None:
        del r[i:stop[0]]
    else:
        del r[i]
    return r


def m_remove(l, x):
    r = list(l)
    r.remove(x)
    return r


MODEL = {
    'append': m_append, 'extend': m_extend, 'add': m_extend, 'set': m_set, 'mset': m_mset, 'delete': m_delete,
    'remove': m_remove, 'slice': lambda l, a, b, c: l[slice(a, b, c)], 'mul': lambda l, k: l * k,
    'rmul': lambda l, k: k * l, 'mul_': None,
}

IMPL = {
    'append': lambda v, x: v.append(x),
    'extend': lambda v, xs: v.extend(xs),
    'add': lambda v, xs: v + xs,
    'set': lambda v, i, x: v.set(i, x),
    'mset': lambda v, *a: v.mset(*a),
    'delete': lambda v, *a: v.delete(*a),
    'remove': lambda v, x: v.remove(x),
    'slice': lambda v, a, b, c: v[slice(a, b, c)],
    'mul': lambda v, k: v * k,
    'rmul': lambda v, k: k * v,
}


def bad(msg, trace):
    raise Violation(msg, trace)


def light(v, model, trace):
    """Contents and length, in two ways."""
    try:
        if len(v) != len(model):
            bad('len() is %d, expected %d' % (len(v), len(model)), trace)
        if v.tolist() != model:
            bad('contents are %s, expected %s' % (short(v.tolist()), short(model)), trace)
    except (IndexError, TypeError, AttributeError) as e:
        bad('reading a vector raised %r' % (e,), trace)


def ident(v, model, trace):
    """The very same elements."""
    got = v.tolist()
    if len(v) != len(model) or len(got) != len(model):
        bad('len() is %d, expected %d' % (len(v), len(model)), trace)
    for i, (a, b) in enumerate(zip(got, model)):
        if a is not b:
            bad('element %d is %r, expected the equal but distinct %r' % (i, a, b), trace)
    for i in boundary_positions(len(model)):
        if v[i] is not model[i]:
            bad('v[%d] is %r, expected the equal but distinct %r' % (i, v[i], model[i]), trace)


def boundary_positions(n):
    """Positions at which the trie changes node, and the ends."""
    s = {0, 1, 2, n - 1, n - 2, n // 2}
    t = 0 if n < 32 else ((n - 1) >> 5) << 5
    s.update((t - 33, t - 32, t - 1, t, t + 1))
    for b in (32, 64, 1024, 1056, 2048, 32768, 32800, 1048576, 1048608):
        s.update((b - 1, b, b + 1))
    return sorted(p for p in s if 0 <= p < n)


def medium(v, model, trace, positions=None):
    light(v, model, trace)
    n = len(model)
    if list(v) != model:
        bad('iteration gives %s, expected %s' % (short(list(v)), short(model)), trace)
    for i in (boundary_positions(n) if positions is None else positions):
        if v[i] is not model[i]:
            bad('v[%d] is %s, expected %s' % (i, short(v[i]), short(model[i])), trace)
        if v[i - n] is not model[i]:
            bad('v[%d] is %s, expected %s' % (i - n, short(v[i - n]), short(model[i])), trace)
    for i in (n, n + 1, -n - 1, -n - 2, n + 32, -n - 33, BIG * BIG):
        r = call(lambda: v[i])
        if outcome_class(r) != 'IndexError':
            bad('v[%d] of a vector of length %d gives %s' % (i, n, short(r)), trace)


def full(v, model, trace):
    medium(v, model, trace, range(len(model)))
    n = len(model)
    if not isinstance(v, Sequence) or not isinstance(v, Hashable):
        bad('not a Sequence and Hashable', trace)
    if bool(v) != bool(model):
        bad('truth value', trace)
    if [x for x in reversed(v)] != list(reversed(model)):
        bad('reversed() differs', trace)
    if repr(v) != 'pvector(%r)' % (model,) or str(v) != repr(v):
        bad('repr is %s' % short(repr(v)), trace)
    if not (v == model) or v != model or not (model == v) or model != v:
        bad('comparison with the equal list', trace)
    other = model + [tok('other')]
    if v == other or not (v != other) or other == v:
        bad('comparison with a longer list', trace)
    for i in boundary_positions(n):
        if model[i] not in v:
            bad('v[%d] not in v' % i, trace)
        if v.index(model[i]) != model.index(model[i]):
            bad('index of element %d is %r' % (i, v.index(model[i])), trace)
        if v.count(model[i]) != model.count(model[i]):
            bad('count of element %d is %r' % (i, v.count(model[i])), trace)
        other = list(model)
        other[i] = tok('other')
        if v == other or not (v != other) or other == v or not (other != v):
            bad('equal to a list that differs at %d' % i, trace)
    absent = tok('absent')
    if absent in v or v.count(absent) != 0 or outcome_class(call(v.index, absent)) != 'ValueError':
        bad('absent element', trace)


def apply(v, model, op, trace):
    """Do op on the vector and on the list.  Returns (vector, list) or None if both raised."""
    name, args = op[0], op[1:]
    want = call(MODEL[name], model, *args)
    got = call(IMPL[name], v, *args)
    if outcome_class(got) != outcome_class(want):
        bad('%s gives %s, a list %s' % (short(op), short(got), short(want)), trace)
    if got[0] == 'exc':
        return None
    return got[1], want[1]
