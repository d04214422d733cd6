"""C16: transform changes exactly what its paths select."""
from itertools import product

from core import call, short
from maps import bad

BOUNDS = {
    'quick': 'about 350 structures of depth <= 3 over maps, vectors, records, classes, checked maps and vectors; all paths of length 0..2 over 9 literal and 10 predicate steps (ny, rex, one- and two-argument, with defaults and further arguments, '
             'callable objects) and all paths of length 3 on the deep structures; 13 commands (constants, functions, identity, equal but distinct results, failing, discard); all pairs of transformations from a pool; every vector of size 0..70 and around '
             '1024+32 with predicate transformations; 29 expressions for rex on 26 keys; identity of everything that is not changed',
    'thorough': 'as quick with all paths of length 3 on every structure and triples of transformations',
}
ASSUMPTIONS = ['discarding a vector index out of range, an unset field of a PClass, and predicates on a PClass are not specified', 'predicates and commands are functions of their arguments']
NPART = 6


def shards(tier):
    out = []
    for c in ('c', 'py'):
        out += [(c, ['paths', p]) for p in range(NPART)]
        out += [(c, ['deep', p]) for p in range(NPART)]
        out += [(c, ['pairs', p]) for p in range(3)]
        out += [(c, ['large']), (c, ['matchers'])]
    return out


def run_shard(ctx, spec):
    globals()['run_' + spec[0]](ctx, *spec[1:])


class Err(Exception):
    """The model: this raises something."""


class Skip(Exception):
    """Not specified."""


# -- the model: trees with a pointer to the object they describe ----------------------------

class N(object):
    """kind 'leaf' or a container kind; kids: dict or list of N; obj: the very object, or None if it is new."""
    __slots__ = ('kind', 'kids', 'obj')

    def __init__(self, kind, kids, obj):
        self.kind, self.kids, self.obj = kind, kids, obj


_classes = {}


def classes():
    if not _classes:
        from pyrsistent import CheckedPMap, CheckedPVector, PClass, PMap, PRecord, field, pvector

        class Rec(PRecord):
            a = field()
            b = field()

        class Cls(PClass):
            a = field()
            b = field()

        class CVec(CheckedPVector):
            pass

        class CMap(CheckedPMap):
            pass
        _classes.update(map=PMap, vec=type(pvector()), rec=Rec, cls=Cls, cvec=CVec, cmap=CMap)
    return _classes


MAPS = ('map', 'rec', 'cmap')
VECS = ('vec', 'cvec')


def node(o):
    """The tree of an object."""
    c = classes()
    t = type(o)
    for k in MAPS:
        if t is c[k]:
            return N(k, {kk: node(v) for kk, v in o.items()}, o)
    for k in VECS:
        if t is c[k]:
            return N(k, [node(v) for v in o], o)
    if t is c['cls']:
        return N('cls', {k: node(getattr(o, k)) for k in 'ab' if hasattr(o, k)}, o)
    return N('leaf', None, o)


def agree(o, n, deep=False):
    """None if object o is what n says."""
    if n.obj is not None or n.kind == 'leaf':
        if o is not n.obj and not (type(o) is float and type(n.obj) is float and o == n.obj):
            return '%s is a new object' % short(o) if n.kind != 'leaf' else '%s instead of %s' % (short(o), short(n.obj))
        if not deep:
            return None
    if n.kind == 'leaf':
        return None
    if type(o) is not classes()[n.kind]:
        return 'a %s instead of a %s: %s' % (type(o), n.kind, short(o))
    if n.kind in VECS:
        kids = list(o)
        if len(kids) != len(n.kids) or len(o) != len(n.kids):
            return '%d elements instead of %d: %s' % (len(o), len(n.kids), short(o))
        for x, k in zip(kids, n.kids):
            w = agree(x, k, deep)
            if w:
                return w
        return None
    d = dict(o.items()) if n.kind != 'cls' else {k: getattr(o, k) for k in 'ab' if hasattr(o, k)}
    if set(d) != set(n.kids) or (n.kind != 'cls' and len(o) != len(n.kids)):
        return 'keys %s instead of %s' % (short(sorted(map(repr, d))), short(sorted(map(repr, n.kids))))
    for k in d:
        w = agree(d[k], n.kids[k], deep)
        if w:
            return w
    return None


DISCARD = 'discard'


def m_transform(n, path, cmd):
    """cmd: ('const', N), ('fn', function on N) or DISCARD."""
    if not path:
        if cmd == DISCARD:
            raise Skip
        return cmd[1](n) if cmd[0] == 'fn' else cmd[1]
    step = path[0]
    if n.kind == 'leaf':
        raise Err('a step into a leaf')
    if step[0] == 'pred':
        if n.kind == 'cls':
            raise Skip
        keys = [k for k in (list(n.kids) if n.kind in MAPS else range(len(n.kids))) if step[1](k, (n.kids[k].obj if n.kids[k].kind == 'leaf' else None))]
    else:
        keys = [step[1]]
    kids = dict(n.kids) if n.kind not in VECS else list(n.kids)
    rest = path[1:]
    changed = False
    if not rest and cmd == DISCARD:
        if n.kind in VECS:
            for k in keys:
                if not isinstance(k, int):
                    raise Skip
                if not -len(kids) <= k < len(kids):
                    raise Skip
            drop = {k % len(kids) for k in keys}
            kids = [x for i, x in enumerate(kids) if i not in drop]
            changed = bool(drop)
        else:
            for k in keys:
                if k not in kids:
                    if n.kind == 'cls':
                        raise Skip
                    continue
                del kids[k]
                changed = True
        return N(n.kind, kids, None) if changed else n
    for k in keys:
        missing = False
        if n.kind in VECS:
            if not isinstance(k, int):
                raise Err('a vector index that is not an int')
            if -len(n.kids) <= k < len(n.kids):
                v = n.kids[k]
            else:
                missing = True
        else:
            if k in n.kids:
                v = n.kids[k]
            else:
                missing = True
        if missing:
            if n.kind == 'cls':
                raise Skip
            if cmd == DISCARD:
                continue
            v = N('map', {}, None)
        r = m_transform(v, rest, cmd)
        if r is v and not missing:
            continue
        if r.obj is not None and r.obj is v.obj and not missing:
            continue
        changed = True
        if n.kind in VECS:
            if missing:
                if k != len(kids):
                    raise Err('index out of range')
                kids.append(r)
            else:
                kids[k] = r
        else:
            if n.kind in ('rec', 'cls') and k not in ('a', 'b'):
                raise Err('unknown field')
            kids[k] = r
    return N(n.kind, kids, None) if changed else n


# -- alphabets --------------------------------------------------------------------------------

class Even(object):
    """Equal to Odd, which takes another number of arguments."""
    def __eq__(self, o):
        return isinstance(o, (Even, Odd))

    def __hash__(self):
        return 17

    def __call__(self, k):
        return isinstance(k, int) and k % 2 == 0


class Odd(object):
    __eq__ = Even.__eq__
    __hash__ = Even.__hash__

    def __call__(self, k, v):
        return isinstance(k, int) and k % 2 == 1


class Never(object):
    """Without a hash, and never true to begin with: a predicate is called, its own truth does not matter."""
    __hash__ = None

    def __bool__(self):
        return False

    def __len__(self):
        return 0

    def __call__(self, k):
        return False

    def later(self, k):
        return k in ('b', 1)


def steps():
    """(name, implementation step, model step)"""
    from pyrsistent import ny, rex
    out = [('%r' % (k,), k, ('key', k)) for k in ('a', 'b', 'c', 0, 1, 2, -1, 5, None)]
    preds = [('ny', ny, lambda k, v: True),
             ("rex('a')", rex('a'), lambda k, v: isinstance(k, str) and k.startswith('a')),
             ("rex('[bc]$')", rex('[bc]$'), lambda k, v: k in ('b', 'c')),
             ('k != a', lambda k: k != 'a', lambda k, v: k != 'a'),
             ('even', Even(), lambda k, v: isinstance(k, int) and k % 2 == 0),
             ('v == 1', lambda k, v: isinstance(v, int) and v == 1, lambda k, v: isinstance(v, int) and v == 1),
             ('k > 0 or v is None', lambda k, v: (isinstance(k, int) and k > 0) or v is None, None),
             ('with default', lambda k, extra='b': k == extra or k == 0, lambda k, v: k == 'b' or k == 0),
             ('with rest', lambda k, v, *rest, **more: k == 'b' or k == 0, lambda k, v: k == 'b' or k == 0),
             ('odd', Odd(), lambda k, v: isinstance(k, int) and k % 2 == 1),
             ('method', Never().later, lambda k, v: k in ('b', 1)),
             ('never', Never(), lambda k, v: False)]
    for name, f, m in preds:
        if m is None:
            # containers are shown to the model as a marker
            m = lambda k, v: (isinstance(k, int) and k > 0)
            f = lambda k, v: isinstance(k, int) and k > 0
        out.append((name, f, ('pred', m)))
    return out


class Boom(Exception):
    pass


def commands():
    from pyrsistent import discard, inc, pmap, pvector
    c = classes()
    newmap = pmap({'n': 1})
    emptymap = pmap()
    newvec = pvector([5])

    def leaf(o):
        return N('leaf', None, o)

    def m_arith(d):
        def f(n):
            if n.kind == 'leaf' and isinstance(n.obj, (int, float)):
                return leaf(n.obj + d)
            raise Err
        return ('fn', f)

    def grow(x):
        if type(x) is c['map']:
            return x.set('new', 9)
        if type(x) is c['vec']:
            return x.append(9)
        return 'grown'

    def m_grow(n):
        if n.kind == 'map':
            return N('map', dict(n.kids, new=leaf(9)), None)
        if n.kind == 'vec':
            return N('vec', n.kids + [leaf(9)], None)
        return leaf('grown')

    floats = {i: float(i) for i in range(100)}

    def equal(x):
        """An equal value that is not the same."""
        if type(x) is int:
            return floats.get(x, x)
        if type(x) is c['map']:
            return pmap({k: floats[v] if type(v) is int else v for k, v in x.items()})
        if type(x) is c['vec']:
            return pvector([floats[v] if type(v) is int else v for v in x])
        return x

    def m_equal(n):
        if n.kind == 'leaf':
            return leaf(equal(n.obj))
        if n.kind == 'map':
            return N('map', {k: leaf(floats[v.obj]) if v.kind == 'leaf' and type(v.obj) is int else v for k, v in n.kids.items()}, None)
        if n.kind == 'vec':
            return N('vec', [leaf(floats[v.obj]) if v.kind == 'leaf' and type(v.obj) is int else v for v in n.kids], None)
        return n

    def m_boom(n):
        raise Err

    def boom(x):
        raise Boom
    return [('7', 7, ('const', leaf(7))), ('1', 1, ('const', leaf(1))), ('None', None, ('const', leaf(None))), ('newmap', newmap, ('const', N('map', {'n': leaf(1)}, newmap))),
            ('newvec', newvec, ('const', N('vec', [leaf(5)], newvec))), ('inc', inc, m_arith(1)), ('dec', lambda x: x - 1, m_arith(-1)), ('same', lambda x: x, ('fn', lambda n: n)),
            ('grow', grow, ('fn', m_grow)), ('boom', boom, ('fn', m_boom)), ('equal', equal, ('fn', m_equal)), ('True', True, ('const', leaf(True))), ('discard', discard, DISCARD)]


def level1():
    from pyrsistent import pmap, pvector
    c = classes()
    lv = [1, 2, 'ab']
    for vals in [()] + [(x,) for x in lv] + list(product((1, 2, None), repeat=2)) + [(1, 2, 1), (2, 1, None)]:
        yield pvector(vals)
        yield pmap(dict(zip(('a', 'b', 'ab'), vals)))
        if len(vals) < 2 or vals[0] == 1:
            yield c['cvec'](vals)
            yield c['cmap'](dict(zip((0, 'b', None), vals)))
        if len(vals) < 3:
            yield c['rec'](**dict(zip('ab', vals)))
            yield c['rec'](**dict(zip('ba', vals)))
            yield c['cls'](**dict(zip('ab', vals)))
    yield pmap({0: 1, 1: 2, 'a': 1})
    yield pmap({None: 1, 'abc': 2, 'b': 1, 5: 5})


def level2():
    from pyrsistent import pmap, pvector
    c = classes()
    kids = [1, pmap(), pmap({'a': 1}), pmap({'a': 1, 'b': 2}), pvector(), pvector([1, 2]), pvector([2, 1, 1]), c['rec'](a=1), c['cls'](a=1, b=2)]
    for x in kids[1:]:
        yield pvector([x])
        yield pmap({'a': x})
        yield c['rec'](b=x)
        yield c['cls'](a=x)
        yield c['cvec']([x])
        yield c['cmap']({'b': x})
        for y in kids:
            yield pvector([x, y])
            yield pmap({'a': x, 'b': y})
        yield pvector([x, 1, x])
        yield pmap({'a': x, 'b': 1, 'c': x, 0: x})
        yield c['rec'](a=x, b=x)


def level3():
    from pyrsistent import pmap, pvector
    c = classes()
    for x in (pvector([pmap({'a': 1}), pmap({'a': 2, 'b': 1}), pvector([1])]), pmap({'a': pvector([1, 2]), 'b': pmap({'b': 1}), 'ab': 1}), c['rec'](a=pmap({'a': 1}), b=pvector([1, 1, 2])),
              c['cls'](a=pvector([1, 2]), b=pmap({'a': 1}))):
        yield pvector([x, x, 1])
        yield pmap({'a': x, 'b': x, 0: 2})
        yield c['cvec']([x])
        yield c['rec'](a=x)


def run_one(ctx, s, n, transformations, tr):
    """transformations: list of (path of (name, impl, model) steps, command)"""
    args = []
    want = n
    kind = 'ok'
    try:
        for path, cmd in transformations:
            want = m_transform(want, [p[2] for p in path], cmd[2])
    except Err:
        kind = 'err'
    except Skip:
        kind = 'skip'
    for path, cmd in transformations:
        p = [q[1] for q in path]
        args += [p if ctx.traces % 2 else tuple(p), cmd[1]]
    ctx.step(len(transformations))
    r = call(lambda: s.transform(*args))
    if kind == 'ok':
        if r[0] != 'ok':
            bad('raised %r' % (r[1],), tr)
        w = agree(r[1], want)
        if w:
            bad('gives %s: %s' % (short(r[1]), w), tr)
    elif kind == 'err':
        if r[0] == 'ok':
            bad('gives %s, expected an exception' % short(r[1]), tr)
    ctx.outcome(kind)
    w = agree(s, n, True)
    if w:
        bad('the original was changed: %s' % w, tr)


def desc(s, ts):
    return (short(s), [([p[0] for p in path], cmd[0]) for path, cmd in ts])


def run_paths(ctx, part):
    st, cm = steps(), commands()
    structures = list(level1()) + list(level2())
    for i, s in enumerate(structures):
        if i % NPART != part:
            continue
        n = node(s)
        for ln in (0, 1, 2) if ctx.quick else (0, 1, 2, 3):
            for path in product(st, repeat=ln):
                for cmd in cm:
                    if ln == 0 and cmd[0] == 'discard':
                        continue
                    ts = [(path, cmd)]
                    d = lambda: desc(s, ts)
                    ctx.trace(d)
                    ctx.state((i, tuple(p[0] for p in path), cmd[0]))
                    run_one(ctx, s, n, ts, d)


def run_deep(ctx, part):
    st, cm = steps(), commands()
    if ctx.quick:
        st = [x for x in st if x[0] not in ("5", "None", "k != a", "with default")]
        cm = [x for x in cm if x[0] not in ('1', 'None', 'newvec', 'dec', 'True')]
    i = 0
    for si, s in enumerate(level3()):
        n = node(s)
        for path in product(st, repeat=3):
            i += 1
            if i % NPART != part:
                continue
            for cmd in cm:
                ts = [(path, cmd)]
                d = lambda: desc(s, ts)
                ctx.trace(d)
                ctx.state(('deep', si, tuple(p[0] for p in path), cmd[0]))
                run_one(ctx, s, n, ts, d)
        if not ctx.quick:
            for path in product(st[::2], repeat=4):
                i += 1
                if i % NPART != part:
                    continue
                for cmd in cm[::3]:
                    ts = [(path, cmd)]
                    d = lambda: desc(s, ts)
                    ctx.trace(d)
                    run_one(ctx, s, n, ts, d)


def run_pairs(ctx, part):
    from pyrsistent import pmap, pvector
    c = classes()
    st = {x[0]: x for x in steps()}
    cm = {x[0]: x for x in commands()}
    pool = []
    for p in ([], ["'a'"], ['0'], ['2'], ['ny'], ["'a'", "'b'"], ["'c'", "'a'"], ['1', "'a'"], ['2', "'a'"], ['ny', 'ny'], ['ny', "'a'"], ['even'], ['v == 1'], ['even', "'b'"], ["rex('a')", '0']):
        for k in ('7', 'newmap', 'inc', 'same', 'grow', 'equal', 'discard'):
            if p or k != 'discard':
                pool.append(([st[q] for q in p], cm[k]))
    structures = [pmap(), pvector(), pmap({'a': 1}), pvector([1, 2]), pmap({'a': pmap({'b': 1}), 'b': pvector([1])}), pvector([pmap({'a': 1}), pmap({'a': 2}), 1]), c['rec'](a=pvector([1])), c['cls'](a=pmap({'a': 1})),
                  pvector([1, 1, 2, 1]), pmap({'a': pvector([1, 1]), 0: 1, 'c': pmap({'a': 1})})]
    i = 0
    for si, s in enumerate(structures):
        n = node(s)
        for a, b in product(range(len(pool)), repeat=2):
            i += 1
            if i % 3 != part:
                continue
            ts = [pool[a], pool[b]]
            d = lambda: desc(s, ts)
            ctx.trace(d)
            ctx.state((si, a, b))
            run_one(ctx, s, n, ts, d)
            if not ctx.quick:
                for e in range(0, len(pool), 7):
                    ts3 = ts + [pool[e]]
                    d3 = lambda: desc(s, ts3)
                    ctx.trace(d3)
                    run_one(ctx, s, n, ts3, d3)


def run_large(ctx):
    from pyrsistent import discard, inc, pmap, pvector
    sizes = list(range(0, 71)) + [1023, 1024, 1025, 1055, 1056, 1057, 1058, 1090]
    for n in sizes:
        v = pvector(range(n))
        tr = ('vector', n)
        ctx.trace(tr)
        ctx.state(tr)
        ks = {0, 1, 15, 30, 31, 32, 33, 63, 64, n // 2, n - 2, n - 1, 1023, 1024, 1055, 1056}
        for name, p in (('even', lambda k: k % 2 == 0), ('odd', lambda k: k % 2), ('first', lambda k: k == 0), ('last', lambda k: k == n - 1), ('boundary', lambda k: k in ks), ('all', lambda k: True),
                        ('value', lambda k, x: x % 3 == 0), ('tail', lambda k: k >= (n - 1) // 32 * 32), ('head', lambda k: k < 32)):
            def match(k):
                return p(k, k) if name == 'value' else p(k)
            ctx.step(4)
            r = v.transform([p], discard)
            if r.tolist() != [x for x in range(n) if not match(x)]:
                bad('discard %s gives %s' % (name, short(r)), tr)
            r = v.transform([p], inc)
            if r.tolist() != [x + 1 if match(x) else x for x in range(n)]:
                bad('inc %s gives %s' % (name, short(r)), tr)
            r = v.transform([p], inc, [p], discard, [0], 'x') if n else v.transform([0], 'x')
            want = [x + 1 if name == 'value' and match(x) and not p(x, x + 1) else x for x in range(n) if not (match(x) if name != 'value' else (p(x, x + 1) if match(x) else False))]
            if name != 'value' and r.tolist() != (['x'] + want[1:] if want else ['x']):
                bad('chain %s gives %s, expected %s' % (name, short(r), short(want)), tr)
            if v.transform([p], lambda x: x) is not v:
                bad('identity on %s makes a new vector' % name, tr)
            if v.tolist() != list(range(n)):
                bad('the original was changed', tr)
        m = pmap({i: pmap({'x': i}) for i in range(n)})
        for name, p in (('even', lambda k: k % 2 == 0), ('all', lambda k: True), ('last', lambda k: k == n - 1)):
            ctx.step(2)
            r = m.transform([p, 'x'], inc)
            if any(r[k] is not m[k] if not p(k) else r[k] != {'x': k + 1} for k in range(n)) or len(r) != n:
                bad('map: inc %s' % name, tr)
            r = m.transform([p], discard)
            if set(r) != {k for k in range(n) if not p(k)} or any(r[k] is not m[k] for k in r) or len(r) != len(list(r)):
                bad('map: discard %s' % name, tr)
            if m.transform([p, 'y'], discard) is not m or m.transform([p, 'x'], lambda x: x) is not m:
                bad('map: nothing changed but the map is new', tr)
    # predicates see every key once, two-argument predicates the original values; commands the value only
    for base in (pvector(['p', 'q', 'r']), pmap({'a': 'p', 'b': 'q'})):
        seen, cmds = [], []
        base.transform([lambda k: seen.append(k) or True], lambda x: cmds.append(x) or x)
        keys = list(range(3)) if len(base) == 3 else ['a', 'b']
        if sorted(map(str, seen)) != sorted(map(str, keys)) or sorted(cmds) != sorted(base[k] for k in keys):
            bad('predicate calls %r, command calls %r' % (seen, cmds), 'calls')
        seen = []
        base.transform([lambda k, v: seen.append((k, v)) or True], discard)
        if sorted(map(str, seen)) != sorted(str((k, base[k])) for k in keys):
            bad('predicate calls %r' % (seen,), 'calls')


class Text(str):
    pass


def run_matchers(ctx):
    """rex selects exactly the string keys that the expression matches at their beginning; a predicate's answer counts by its truth; paths may be any sequence."""
    import re
    from decimal import Decimal
    from pyrsistent import inc, ny, pmap, pvector, rex
    c = classes()
    keys = ['', 'a', 'b', 'ab', 'aab', 'ba', 'A', 'a\nb', '\na', 'a.b', ' a', '0', '\u00e4', Text('ac'), Text('xa'), 0, 1, -1, 2.5, None, b'a', b'', ('a',), (), frozenset(['a']), False]
    exprs = ['', 'a', 'a*', 'x*', 'a+', '^a', 'a$', 'a\\Z', '.', '.*', '.b', '[ab]', '[^a]', 'a|b', '(a)(b)?', '(?i)a', '(?s)a.b', '(?m)^a$', '\\d', '\\w', '(?=a)', '(?!a)', '$', '^$', 'b', '\\.', re.compile('a'), re.compile('A', re.I), re.compile('x*')]
    for e in exprs:
        ms = pmap({k: 'old' for k in keys})
        want = {k: 'new' if isinstance(k, str) and re.match(e, k) is not None else 'old' for k in keys}
        tr = ('rex', str(e))
        ctx.trace(tr)
        ctx.state(tr)
        ctx.step(3)
        r = ms.transform([rex(e)], 'new')
        if dict(r) != want:
            bad('selects %s' % short([k for k in keys if r[k] == 'new']), tr)
        f = rex(e)
        for k in keys:
            if bool(f(k)) != (want[k] == 'new'):
                bad('for the key %r: %r' % (k, f(k)), tr)
        r = c['cmap'](ms).transform([rex(e)], 'new')
        if dict(r) != want or type(r) is not c['cmap']:
            bad('checked map: %s' % short(r), tr)
        v = pvector(keys)
        if v.transform([rex(e)], 'new') is not v:
            bad('an index matches an expression', tr)
    # truth of what predicates answer
    class Truth(object):
        def __init__(self, t):
            self.t = t

        def __bool__(self):
            return self.t
    for x in (0, 1, 2, '', 'x', None, [], [0], (), (None,), 0.0, 0.1, Truth(True), Truth(False), pmap(), pmap({1: 1}), pvector(), pvector([0]), NotImplemented, Ellipsis):
        if x is NotImplemented:
            continue
        for p in (lambda k: x, lambda k, v: x):
            for s in (pmap({'a': 1, 'b': 2}), pvector([1, 2]), c['rec'](a=1, b=2), c['cvec']([1, 2])):
                tr = ('predicate gives', short(x), short(s))
                ctx.trace(tr)
                ctx.step()
                ctx.state(tr)
                r = s.transform([p], 'new')
                if x:
                    got = list(r.values()) if hasattr(r, 'values') else list(r)
                    if got != ['new', 'new']:
                        bad('gives %s' % short(r), tr)
                elif r is not s:
                    bad('gives %s' % short(r), tr)
    # paths of every kind
    s = pmap({'a': pvector([pmap({'b': 1}), pmap({'b': 2})]), 'k': 1})
    for steps_, want in ((['a', 0, 'b'], 2), (['a', ny, 'b'], 2), ([rex('a'), ny, ny], 2), (['k'], 1)):
        for kind in (list, tuple, pvector):
            tr = ('path', kind.__name__, len(steps_))
            ctx.trace(tr)
            ctx.step()
            ctx.state(tr)
            r = s.transform(kind(steps_), inc)
            if steps_ == ['k']:
                if r['k'] != 2 or r['a'] is not s['a']:
                    bad('gives %s' % short(r), tr)
            elif r['a'][0]['b'] != 2 or r['a'][1]['b'] != (2 if steps_[1] == 0 else 3) or r['k'] != 1:
                bad('gives %s' % short(r), tr)
    # the commands of the package
    for f, d in ((inc, 1),):
        for x in (0, 1, -1, 2.5, True, 10 ** 30, 1j, Decimal('1.5'), float('inf')):
            tr = (f.__name__, repr(x))
            ctx.trace(tr)
            ctx.step()
            ctx.state(tr)
            if f(x) != x + d or pvector([x, x]).transform([0], f).tolist() != [x + d, x]:
                bad('gives %r' % (f(x),), tr)
