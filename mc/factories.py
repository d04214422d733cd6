"""Field factories under histories of updates: a value that was supplied passes the factory of its field exactly once, fields that were not
touched keep the very value they have.  Shared by C06 (evolvers) and C13 (values)."""
from itertools import product

from core import call, short
from maps import bad

MISSING = object()


class Made(object):
    """What the factory makes: not equal to what it was made from, so a second application shows."""
    __slots__ = ('raw', 'by')

    def __init__(self, raw, by):
        self.raw, self.by = raw, by

    def __repr__(self):
        return '%s<%r>' % (self.by, self.raw)

    def __eq__(self, o):
        return isinstance(o, Made) and (self.raw, self.by) == (o.raw, o.by)

    def __hash__(self):
        return 5


def declare(kind):
    from pyrsistent import PClass, PRecord, field
    base = PRecord if kind == 'record' else PClass
    return type(base)('T', (base,), {
        'x': field(factory=lambda r: Made(r, 'x')),
        'y': field(type=Made, factory=lambda r: Made(r, 'y'), invariant=lambda m: (m.by == 'y', 'not made by the factory of y')),
        'z': field()})


FIELDS = ('x', 'y', 'z')


def made(k, raw):
    return raw if k == 'z' else Made(raw, k)


def same(v, m):
    for k in FIELDS:
        have = getattr(v, k, MISSING)
        want = m.get(k, MISSING)
        if have is MISSING or want is MISSING:
            if have is not want:
                return False
        elif not (type(have) is type(want) and have == want):
            return False
    return True


STARTS = ((), ('x',), ('x', 'y', 'z'))


def start(cls, names):
    m = {k: 'start ' + k for k in names}
    v = cls(**m)
    return v, {k: made(k, r) for k, r in m.items()}


def evolvers(ctx, kind, depth):
    cls = declare(kind)
    ops = [('set', k) for k in FIELDS] + [('remove', k) for k in FIELDS] + [('attr', 'x'), ('persistent',)]
    if kind == 'record':
        ops[6] = ('item', 'x')
    for names in STARTS:
        for path in product(ops, repeat=depth):
            tr = ('factories', kind, names, path)
            ctx.trace(tr)
            src, m0 = start(cls, names)
            m = dict(m0)
            e = src.evolver()
            given = [(src, m0)]
            for j, op in enumerate(path + (('persistent',), ('persistent',))):
                ctx.step()
                if op[0] == 'persistent':
                    v = e.persistent()
                    if type(v) is not cls or not same(v, m):
                        bad('persistent() after %d steps gives %s, expected %s' % (j, short(v), short(m)), tr)
                    given.append((v, dict(m)))
                elif op[0] == 'remove':
                    r = call(e.remove, op[1])
                    if (r[0] == 'ok') != (op[1] in m):
                        bad('%s gives %s' % (op, short(r)), tr)
                    m.pop(op[1], None)
                else:
                    raw = 'raw%d' % j
                    if op[0] == 'set':
                        e.set(op[1], raw)
                    elif op[0] == 'attr':
                        e.x = raw
                    else:
                        e['x'] = raw
                    m[op[1]] = made(op[1], raw)
            ctx.state((kind, names, repr(sorted(m.items()))))
            for v, mm in given:
                if not same(v, mm):
                    bad('a value given out has become %s, expected %s' % (short(v), short(mm)), tr)


def values(ctx, kind, depth):
    cls = declare(kind)
    ops = []
    for k in FIELDS:
        ops += [(how, k) for how in ('set', 'set positional', 'set own', 'remove')]
    ops += [('transform', 'x'), ('transform', 'z'), ('evolver', 'y'), ('set two',), ('create',)]
    for names in STARTS:
        for path in product(ops, repeat=depth):
            tr = ('factories', kind, names, path)
            ctx.trace(tr)
            v, m = start(cls, names)
            given = [(v, m)]
            for j, op in enumerate(path):
                ctx.step()
                raw = 'raw%d' % j
                k = op[1] if len(op) > 1 else None
                m = dict(m)
                if op[0] == 'transform' and k not in m:
                    continue
                if op[0] == 'remove':
                    r = call(v.remove, k)
                    if (r[0] == 'ok') != (k in m):
                        bad('%s gives %s' % (op, short(r)), tr)
                    if r[0] == 'ok':
                        v = r[1]
                    m.pop(k, None)
                elif op[0] == 'set own':
                    # the value it holds is supplied like any other
                    if k in m:
                        own = getattr(v, k)
                        v = v.set(**{k: own}) if j % 2 else v.set(k, own)
                        m[k] = made(k, own)
                elif op[0] == 'set two':
                    v = v.set(x=raw, y=raw)
                    m['x'], m['y'] = made('x', raw), made('y', raw)
                elif op[0] == 'create':
                    v = cls.create({'x': raw, 'z': raw})
                    m = {'x': made('x', raw), 'z': raw}
                else:
                    if op[0] == 'set':
                        v = v.set(**{k: raw})
                    elif op[0] == 'set positional':
                        v = v.set(k, raw)
                    elif op[0] == 'transform':
                        v = v.transform([k], raw) if j % 2 else v.transform([k], lambda old: raw)
                    else:
                        v = v.evolver().set(k, raw).persistent() if kind == 'class' else evset(v, k, raw)
                    m[k] = made(k, raw)
                if type(v) is not cls or not same(v, m):
                    bad('%s gives %s, expected %s' % (op, short(v), short(m)), tr)
                given.append((v, m))
            ctx.state((kind, names, repr(sorted(m.items()))))
            for w, mm in given:
                if not same(w, mm):
                    bad('a value given out has become %s, expected %s' % (short(w), short(mm)), tr)


def evset(v, k, raw):
    e = v.evolver()
    e[k] = raw
    return e.persistent()
