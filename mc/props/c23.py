"""C23: the representation of a value rebuilds it."""
from itertools import product

from core import call, short
from maps import MISSING, bad
from props import c14

BOUNDS = {
    'quick': 'collections of every kind of every size 0..129 and around powers of two and round numbers up to 3000, deques of every size 0..12 with every bound and division, checked collections, all field combinations of records and classes, all nestings of 14 container kinds to depth 3, '
             'each built in several ways; strings, quotes, braces and brackets among the elements',
    'thorough': 'as quick with nestings to depth 4',
}
ASSUMPTIONS = ['fields with factories are left out, because the factory would run again', 'elements have representations that rebuild them', 'generated classes of collection fields are looked up by the name in the representation']
NPART = 4


def shards(tier):
    out = []
    for config in ('c', 'py'):
        out.append((config, ['plain']))
        out.append((config, ['declared']))
        for p in range(NPART):
            out.append((config, ['nested', p]))
    return out


def run_shard(ctx, spec):
    globals()['run_' + spec[0]](ctx, *spec[1:])


def namespace():
    import pyrsistent
    import types14
    ns = {k: getattr(pyrsistent, k) for k in dir(pyrsistent) if not k.startswith('_')}
    ns.update({k: getattr(types14, k) for k in dir(types14) if not k.startswith('_')})
    return ns


NS = {}


def classes(x, ns):
    """Generated classes of collection fields are added under the name they show."""
    from pyrsistent import PClass, PMap
    for f in c14.FIELDS:
        v = x.get(f) if isinstance(x, PMap) else getattr(x, f, None)
        if v is not None and type(v).__name__ not in ns:
            ns[type(v).__name__] = type(v)


def rebuild(ctx, x, tr, extra=False):
    ctx.trace(tr)
    ctx.step()
    ns = NS
    if not ns:
        ns.update(namespace())
    if extra:
        ns = dict(ns)
        classes(x, ns)
    text = repr(x)
    if str(x) != text:
        bad('str() gives %s, repr() %s' % (short(str(x)), short(text)), tr)
    r = call(eval, text, dict(ns))
    if r[0] != 'ok':
        bad('evaluating %s raises %r' % (short(text), r[1]), tr)
    y = r[1]
    w = c14.same(x, y)
    if w:
        bad('%s rebuilds a different value: %s' % (short(text), w), tr)
    if not (x == y) or not (y == x):
        bad('%s rebuilds a value that is not equal' % short(text), tr)
    if repr(x) != text:
        bad('two representations of one value differ', tr)


ODD = ['', "'", '"', '{', '}', '[', ']', '),', 'a, b', '%s', '{0}', '\\', '\n', '[]', '{}', 'pset([])', 'set()']
SIZES = sorted(set(list(range(130)) + [n + d for n in (200, 256, 500, 512, 1000, 1024, 1056, 2000, 2048, 3000) for d in (-1, 0, 1, 2)]))


def run_plain(ctx):
    from pyrsistent import dq, l, m, pbag, pdeque, plist, pmap, pset, pvector, s, v, b
    for n in SIZES:
        ctx.state(('vector', n))
        rebuild(ctx, pvector(range(n)), ('vector', n))
        rebuild(ctx, v().extend(range(n)), ('vector', n, 'extend'))
        if n:
            rebuild(ctx, pvector(range(n)).set(n // 2, 'q'), ('vector', n, 'set'))
            rebuild(ctx, pvector(range(n)).delete(n - 1), ('vector', n, 'delete'))
    for n in SIZES:
        for step in (1, 8) if n < 600 else (1,):
            ctx.state(('map', n, step))
            ks = [i * step for i in range(n)]
            x = pmap({k: str(k) for k in ks})
            rebuild(ctx, x, ('map', n, step))
            rebuild(ctx, x.set('q', None), ('map', n, step, 'set'))
            rebuild(ctx, pset(ks), ('set', n, step))
            rebuild(ctx, pset(ks).add('q'), ('set', n, step, 'add'))
            rebuild(ctx, pset(ks + ['q']).remove('q'), ('set', n, step, 'remove'))
            rebuild(ctx, x.keys(), ('keys', n, step))
            rebuild(ctx, pbag(ks + ks[::2]), ('bag', n, step))
            rebuild(ctx, b().update(ks), ('bag', n, step, 'update'))
            rebuild(ctx, pbag(ks + [99]).remove(99), ('bag', n, step, 'remove'))
    for n in SIZES:
        rebuild(ctx, plist(range(n)), ('list', n))
        rebuild(ctx, l().mcons(range(n)), ('list', n, 'mcons'))
        rebuild(ctx, plist(range(n)).reverse(), ('list', n, 'reverse'))
        for bound in (None, n, n + 1):
            rebuild(ctx, pdeque(range(n), bound), ('deque', n, bound))
            rebuild(ctx, pdeque(range(n // 2), bound).extendleft(range(n - n // 2)), ('deque', n, bound, 'two sides'))
            rebuild(ctx, pdeque([], bound).extendleft(range(n)), ('deque', n, bound, 'left'))
        if n > 12:
            continue
        for bound in [None] + list(range(n, n + 3)):
            ctx.state(('deque', n, bound))
            for left in range(n + 1):
                x = pdeque([], bound).extendleft(range(left)).extend(range(left, n))
                rebuild(ctx, x, ('deque', n, bound, left))
                rebuild(ctx, x.reverse(), ('deque', n, bound, left, 'reverse'))
                rebuild(ctx, x.pop(), ('deque', n, bound, left, 'pop'))
                rebuild(ctx, x.append('q'), ('deque', n, bound, left, 'append'))
                rebuild(ctx, x[1:], ('deque', n, bound, left, 'slice'))
    for p, q in product(ODD, ODD):
        ctx.state(('odd', p, q))
        for what, x in (('vector', v(p, q)), ('map', pmap({p: q})), ('set', pset([p, q])), ('bag', pbag([p, q])), ('list', plist([p, q])), ('deque', pdeque([p, q], 3))):
            rebuild(ctx, x, (what, 'odd', p, q))
    import types14 as t
    for p in ODD:
        for x in (t.CV([p]), t.CS([p]), t.CM({p: p}), t.Loose(any=p), t.LooseCls(any=p)):
            rebuild(ctx, x, (type(x).__name__, p))


def run_declared(ctx):
    import types14 as t
    for tr, x, _ in c14.checked_values(ctx.tier):
        ctx.state(str(tr))
        rebuild(ctx, x, tr)
    for tr, x, _ in c14.record_values(ctx.tier):
        ctx.state(str(tr))
        if isinstance(x, (t.FacRec, t.FacCls, t.DefRec, t.DefCls)):
            continue        # a factory runs when the value is built again
        rebuild(ctx, x, tr, True)


def run_nested(ctx, part):
    ws = [w for w in c14.wrappers()]
    ls = c14.leaves()
    n = 0
    for d in range(1, (3 if ctx.quick else 4) + 1):
        for combo in product(ws, repeat=d):
            if any(a[0] == 'bag' and b[0] in ('mapk', 'CM', 'bag', 'set', 'CS') for a, b in zip(combo, combo[1:])):
                continue
            for leaf in ls if d < 3 else ls[:1] + ls[3:5]:
                n += 1
                if n % NPART != part:
                    continue
                x = leaf
                for name, w in combo:
                    x = w(x)
                tr = (tuple(c[0] for c in combo[::-1]), short(leaf))
                ctx.state(tr)
                if combo[-1][0] in ('tuple', 'box'):
                    continue
                rebuild(ctx, x, tr)
