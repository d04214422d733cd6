"""C19: values shared between threads and re-entrant calls.

Two real threads work on the same freshly made values under a scheduler that decides, at every line or bytecode of the
library and at every user callback, which of them runs.  All schedules with the stated number of preemptions are run; in
each one both threads must get what they get alone and the shared values must end up as they began.

Second part: a user callback of one operation runs another operation on the same values (re-entrancy), for every
callback of every operation and every other operation.
"""
import copy
import os
import pickle
import queue
import sys
import threading

from core import call, short
from maps import bad
from props import c18

BOUNDS = {
    'quick': 'two threads, about 220 operations in 12 families on shared values made anew for every schedule: one preemption at every function call of the library and every user callback for all pairs of operations of a family; '
             'one preemption at every bytecode (every line where there are more than 400 bytecodes) and two preemptions at every pair of lines or calls (at most 250 schedules) for each operation against itself with other arguments; '
             're-entrancy: every operation of C18 run inside the callbacks (first 10 and last 4) of every other operation on the same values',
    'thorough': 'one preemption at every line for all pairs of operations, at every bytecode for each operation against itself; two preemptions at every pair of bytecodes, lines or calls (the finest with at most 3000 schedules); three '
                'preemptions at calls (at most 4000 schedules); re-entrancy at every callback and more sizes',
}
ASSUMPTIONS = ['CPython with the global interpreter lock: C code is preempted only where it calls back into Python',
               'two threads; switches inside the standard library and the interpreter are not explored',
               'evolvers are used by the thread that made them']
VALIDATION = 'Every schedule is an execution of the implementation by two operating system threads; the oracle is the result of each operation run alone on equal values.'

REPO = os.environ.get('MC_REPO', '/repo')
LIB = os.path.realpath(os.path.join(REPO, 'pyrsistent')) + os.sep
HERE = __file__
CALLBACKS = {'__hash__', '__eq__', '__lt__', '__gt__', '__repr__', '__index__', '__iter__', 'it', 'cb', '__reduce__', '__deepcopy__', '__del__'}
INF = 1 << 60


# -- the scheduler -------------------------------------------------------------------------

class Sched(object):
    """segments: how many scheduling points each thread passes before it is preempted (thread 0 starts)."""
    wait = 1.0              # shortened once threads turn out to block each other

    def __init__(self, segments, mode):
        self.segs = list(segments)
        self.i = 0
        self.left = self.segs[0] if self.segs else INF
        self.mode = mode
        self.locks = (threading.Lock(), threading.Lock())
        for l in self.locks:
            l.acquire()
        self.finished = [False, False]
        self.started = False
        self.free = False
        self.events = [0, 0]
        self.switches = 0

    def tick(self, me):
        self.events[me] += 1
        if self.free:
            return
        self.left -= 1
        if self.left == 0:
            self.i += 1
            self.left = self.segs[self.i] if self.i < len(self.segs) else INF
            self.switch(me)

    def switch(self, me):
        other = 1 - me
        if self.finished[other]:
            self.left = INF
            return
        self.switches += 1
        self.locks[other].release()
        if not self.locks[me].acquire(timeout=Sched.wait):
            # the other thread waits for something that this one holds: let both run
            self.free = True
            Sched.wait = max(Sched.wait / 4, 0.002)

    def done(self, me):
        self.finished[me] = True
        self.left = INF
        if not self.finished[1 - me]:
            try:
                self.locks[1 - me].release()
            except RuntimeError:
                pass

    def tracer(self, me):
        tick = self.tick
        opcodes, lines = self.mode == 'op', self.mode == 'line'

        def local(frame, event, arg):
            if event == 'opcode' or (lines and event == 'line'):
                tick(me)
            return local

        def trace(frame, event, arg):
            code = frame.f_code
            fn = code.co_filename
            if fn.startswith(LIB):
                tick(me)
                if opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                elif not lines:
                    return None
                return local
            if fn == HERE and code.co_name in CALLBACKS:
                tick(me)
            return None
        return trace


def traced(s, me, f, values):
    sys.settrace(s.tracer(me))
    try:
        r = ('ok', f(values, me))
    except Exception as e:
        r = ('exc', e)
    finally:
        sys.settrace(None)
    return r


class Second(threading.Thread):
    """Runs the second thread's operations."""

    def __init__(self):
        super().__init__(daemon=True)
        self.jobs = queue.SimpleQueue()
        self.results = queue.SimpleQueue()
        self.start()

    def run(self):
        while True:
            s, f, values = self.jobs.get()
            s.locks[1].acquire()
            r = traced(s, 1, f, values)
            s.done(1)
            self.results.put(r)


second = None


def execute(a, b, values, segments, mode):
    """Both operations under the given schedule; returns both outcomes and the scheduler."""
    global second
    if second is None:
        second = Second()
    s = Sched(segments, mode)
    second.jobs.put((s, b, values))
    r0 = traced(s, 0, a, values)
    s.done(0)
    try:
        r1 = second.results.get(timeout=60)
    except queue.Empty:
        return r0, None, s
    return r0, r1, s


# -- elements and callbacks ------------------------------------------------------------------

class E(object):
    __slots__ = ('n', 'h', '__weakref__')

    def __init__(self, n, h=None):
        self.n = n
        self.h = n if h is None else h

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, E) and self.n == o.n

    def __lt__(self, o):
        return self.n < o.n

    def __gt__(self, o):
        return self.n > o.n

    def __repr__(self):
        return 'E%d' % self.n

    def __index__(self):
        return self.n

    def __reduce__(self):
        return E, (self.n, self.h)

    def __deepcopy__(self, memo):
        return E(self.n, self.h)


def it(xs):
    for x in xs:
        yield x


class Iterable(object):
    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        return it(self.xs)


def cbf(f):
    def cb(*a):
        return f(*a)
    return cb


def norm(x):
    from pyrsistent import PBag, PClass, PDeque, PList, PMap, PSet, PVector
    t = type(x)
    if t is E:
        return x.n, x.h
    if t in (int, str, bool, float, type(None), bytes):
        return x
    if isinstance(x, (PVector, list, tuple, PList, PDeque)):
        r = (t.__name__, [norm(y) for y in x])
        if isinstance(x, PDeque):
            r += (x.maxlen, len(x), norm(x.right) if x else None)
        return r
    if isinstance(x, (PMap, dict)):
        return (t.__name__, sorted([(norm(k), norm(v)) for k, v in x.items()], key=repr), len(x))
    if isinstance(x, (PBag, PSet, set, frozenset)):
        return (t.__name__, sorted([norm(k) for k in x], key=repr), len(x))
    if isinstance(x, PClass):
        return (t.__name__, [(f, norm(getattr(x, f))) for f in ('a', 'b', 'c', 'i', 'm', 's', 'v') if hasattr(x, f)])
    if isinstance(x, BaseException):
        return (t.__name__, repr(getattr(x, 'invariant_errors', None)), repr(getattr(x, 'missing_fields', None)))
    return (t.__name__, repr(x))


# -- families: make() and the operations on what it returns -------------------------------------
# An operation gets the values and the number of the thread, which it uses to vary its arguments.

def fam_vec(n):
    def family():
        from pyrsistent import discard, pvector

        def make():
            xs = [E(i, i) for i in range(n)]
            return pvector(xs), pvector([E(i, i) for i in range(n)]), xs

        def evolve(v, t):
            e = v[0].evolver()
            e.append(('new', t))
            if n:
                e[0] = t
                e[n - 1] = t + 1
            w = e.persistent()
            e.extend([t, t])
            if n:
                del e[0]
            return w, e.persistent(), len(e)

        def evolve2(v, t):
            e = v[0].evolver()
            for i in range(0, n, 5):
                e[i] = (t, i)
            return e.persistent()
        ops = {
            'getitem': lambda v, t: [v[0][i] for i in range(t, n, 7)],
            'slice': lambda v, t: v[0][t::2],
            'iterate': lambda v, t: list(v[0]),
            'append': lambda v, t: v[0].append(t).append(t + 1),
            'extend': lambda v, t: v[0].extend(Iterable([t, t + 1, t + 2])),
            'append many': lambda v, t: grow(v[0], t),
            'set': lambda v, t: v[0].set(n // 2, t) if n else v[0].set(0, t),
            'set set': lambda v, t: v[0].set(0, t).set(n - 1, t) if n else v[0],
            'mset': lambda v, t: v[0].mset(0, t, n, t + 1),
            'delete': lambda v, t: v[0].delete(t) if n > 1 else v[0],
            'remove': lambda v, t: v[0].remove(E(t, t)) if n > 1 else v[0],
            '==': lambda v, t: v[0] == v[1] if t else v[1] == v[0],
            '== other': lambda v, t: v[0] == v[1].append(t),
            '<': lambda v, t: v[t] < v[1].append(E(t)),
            '< item': lambda v, t: (v[0].append(E(5 + 2 * t)) < v[1].append(E(6))),
            '>= item': lambda v, t: (v[0].append(E(5 + 2 * t)) >= v[1].append(E(6)), v[t].append(E(7)) > v[1 - t].append(E(6 + 2 * t))),
            'hash': lambda v, t: hash(v[0]),
            'in': lambda v, t: E(n - 1 - t) in v[0],
            'index': lambda v, t: v[0].index(E(t)) if n > 1 else None,
            'count': lambda v, t: v[0].count(E(t)),
            'repr': lambda v, t: repr(v[0]),
            '+': lambda v, t: v[0] + v[1] + [t],
            '*': lambda v, t: v[0] * (2 + t),
            'tolist': lambda v, t: v[0].tolist(),
            'evolver': evolve,
            'evolver 2': evolve2,
            'transform': lambda v, t: v[0].transform([cbf(lambda i: i % 2 == t)], cbf(lambda x: ('c', t, x.n))),
            'transform discard': lambda v, t: v[0].transform([cbf(lambda i: i % 3 == t)], discard),
            'pickle': lambda v, t: pickle.loads(pickle.dumps(v[0], 2 + t)),
            'deepcopy': lambda v, t: copy.deepcopy(v[0]),
            'pvector': lambda v, t: pvector(Iterable(v[2])),
            'pvector empty': lambda v, t: (pvector(), pvector([t]), pvector().append(t)),
        }
        return make, ops
    return family


def grow(v, t):
    for i in range(3):
        v = v.append((t, i))
    return v


def fam_map(n, pat):
    def family():
        from pyrsistent import discard, pmap
        h = (lambda i: i, lambda i: 0, lambda i: 8 * i)[pat]

        def make():
            ks = [E(i, h(i)) for i in range(n)]
            return pmap({k: k.n for k in ks}), pmap({k: k.n for k in reversed(ks)}), pmap({k.n: k for k in ks}), pmap({k.n: E(k.n, h(k.n)) for k in ks})

        def K(i):
            return E(i, h(i))

        def evolve(v, t):
            e = v[0].evolver()
            for i in range(4):
                e[K(n + i)] = (t, i)
            if n:
                e[K(0)] = t
                e.remove(K(n - 1))
            w = e.persistent()
            e[K(50)] = t
            return w, e.persistent(), len(e)

        def growm(v, t):
            m = v[0]
            for i in range(n):
                m = m.set(K(100 + i + t), t)
            return m
        ops = {
            'get': lambda v, t: [v[0].get(K(i)) for i in range(t, n + 1, 2)],
            'getitem': lambda v, t: v[0][K(t)] if n > 1 else None,
            'in': lambda v, t: [K(i) in v[0] for i in range(t, n + 2, 2)],
            'items': lambda v, t: sorted((k.n, x) for k, x in v[0].items()),
            'iterate': lambda v, t: sorted(k.n for k in v[0]),
            'values': lambda v, t: sorted(v[0].values()),
            'keys': lambda v, t: v[0].keys(),
            'set old': lambda v, t: v[0].set(K(0), ('x', t)),
            'set new': lambda v, t: v[0].set(K(60 + t), ('x', t)),
            'set two': lambda v, t: v[0].set(K(60), t).set(K(61), t),
            'set many': growm,
            'remove': lambda v, t: v[0].remove(K(t)) if n > 1 else v[0],
            'remove absent': lambda v, t: v[0].remove(K(70)),
            'discard': lambda v, t: v[0].discard(K(t)),
            'update': lambda v, t: v[0].update({K(0): t, K(60): t}),
            'update_with': lambda v, t: v[0].update_with(cbf(lambda a, b: (a, b, t)), {K(0): t, K(1): t}, {K(0): 9}),
            '+': lambda v, t: v[0] + v[1],
            '==': lambda v, t: v[t] == v[1 - t],
            '== values': lambda v, t: v[2] == v[3],
            '== dict': lambda v, t: v[2] == dict(v[3]),
            'hash': lambda v, t: hash(v[2]) == hash(v[3]),
            'hash keys': lambda v, t: hash(v[0]),
            'repr': lambda v, t: repr(v[2]),
            'evolver': evolve,
            'transform': lambda v, t: v[0].transform([cbf(lambda k: k.n % 2 == t)], cbf(lambda x: (x, t))),
            'transform discard': lambda v, t: v[0].transform([cbf(lambda k: k.n % 3 == t)], discard),
            'pickle': lambda v, t: pickle.loads(pickle.dumps(v[0], 2 + t)),
            'deepcopy': lambda v, t: copy.deepcopy(v[0]),
            'pmap': lambda v, t: pmap({K(i): t for i in range(n)}),
            'pmap empty': lambda v, t: (pmap(), pmap({K(1): t}), pmap().set(K(1), t)),
            'attribute': lambda v, t: pmap({'a': t}).a,
        }
        return make, ops
    return family


def fam_set():
    from pyrsistent import pbag, pset
    n = 5

    def make():
        es = [E(i, i % 3) for i in range(n)]
        fs = [E(i, i % 3) for i in range(3, 8)]
        return pset(es), pset(fs), pset(es[::-1]), pbag(es + es[:2]), pbag(fs + es), set(fs)

    def evolve(v, t):
        e = v[0].evolver()
        e.add(E(20 + t, 0))
        e.remove(E(t, t))
        w = e.persistent()
        e.add(E(30 + t, 1))
        return w, e.persistent()
    ops = {
        'in': lambda v, t: [E(i, i % 3) in v[0] for i in range(t, 8, 2)],
        'iterate': lambda v, t: sorted(x.n for x in v[0]),
        'add': lambda v, t: v[0].add(E(20 + t, 0)),
        'add old': lambda v, t: v[0].add(E(t, t)),
        'update': lambda v, t: v[0].update(Iterable([E(21 + t, 1), E(23 + t, 2)])),
        'remove': lambda v, t: v[0].remove(E(t, t)),
        'discard': lambda v, t: v[0].discard(E(t, t)).discard(E(99, 0)),
        '|': lambda v, t: v[0] | v[1],
        '&': lambda v, t: v[t] & v[1 - t],
        '-': lambda v, t: v[t] - v[1 - t],
        '^': lambda v, t: v[t] ^ v[1 - t],
        '^ set': lambda v, t: v[0] ^ v[5],
        '==': lambda v, t: v[0] == v[2],
        '<=': lambda v, t: v[0] <= v[1 + t],
        'isdisjoint': lambda v, t: v[0].isdisjoint(v[1]),
        'hash': lambda v, t: hash(v[0]) == hash(v[2]),
        'repr': lambda v, t: sorted(repr(v[0])),
        'evolver': evolve,
        'pset': lambda v, t: pset(Iterable([E(t), E(3)])),
        'pickle': lambda v, t: pickle.loads(pickle.dumps(v[0], 2 + t)),
        'bag add': lambda v, t: v[3].add(E(t, t)),
        'bag update': lambda v, t: v[3].update(Iterable([E(t, t), E(t, t), E(9, 0)])),
        'bag remove': lambda v, t: v[3].remove(E(t, t)),
        'bag count': lambda v, t: [v[3].count(E(i, i % 3)) for i in range(t, 6)],
        'bag iterate': lambda v, t: sorted(x.n for x in v[3]),
        'bag +': lambda v, t: v[3 + t] + v[4 - t],
        'bag -': lambda v, t: v[3 + t] - v[4 - t],
        'bag |': lambda v, t: v[3 + t] | v[4 - t],
        'bag &': lambda v, t: v[3 + t] & v[4 - t],
        'bag hash': lambda v, t: hash(v[3]),
        'bag ==': lambda v, t: v[3] == v[4],
    }
    return make, ops


def fam_seq():
    from pyrsistent import pdeque, plist
    n = 5

    def make():
        es = [E(i) for i in range(n)]
        dq = pdeque(es[3:])
        for e in reversed(es[:3]):
            dq = dq.appendleft(e)
        mx = pdeque(es, maxlen=4)
        return plist(es), plist([E(i) for i in range(n)]), dq, pdeque(es), mx
    ops = {
        'list cons': lambda v, t: v[0].cons(t),
        'list mcons': lambda v, t: v[0].mcons(Iterable([t, t + 1])),
        'list rest': lambda v, t: (v[0].first, v[0].rest, v[0].rest.rest),
        'list reverse': lambda v, t: v[0].reverse(),
        'list split': lambda v, t: v[0].split(2 + t),
        'list iterate': lambda v, t: (list(v[0]), len(v[0])),
        'list getitem': lambda v, t: (v[0][t], v[0][-1 - t], v[0][t:3]),
        'list remove': lambda v, t: v[0].remove(E(t + 2)),
        'list ==': lambda v, t: v[t] == v[1 - t],
        'list <': lambda v, t: v[0] < v[1].cons(E(t)),
        'list hash': lambda v, t: hash(v[0]),
        'list repr': lambda v, t: repr(v[0]),
        'list in': lambda v, t: (E(t + 3) in v[0], v[0].count(E(t)), v[0].index(E(t))),
        'plist': lambda v, t: (plist(Iterable([t, 1])), plist([t, 2], reverse=True), plist()),
        'list pickle': lambda v, t: pickle.loads(pickle.dumps(v[0], 2 + t)),
        'deque pop': lambda v, t: (v[2].pop(), v[2].pop(2 + t), v[2].popleft(), v[2].popleft(2 + t)),
        'deque append': lambda v, t: (v[2].append(t), v[2].appendleft(t)),
        'deque extend': lambda v, t: (v[2].extend(Iterable([t, 1])), v[2].extendleft(Iterable([t, 1]))),
        'deque right': lambda v, t: (v[2].left, v[2].right, len(v[2])),
        'deque iterate': lambda v, t: list(v[2]),
        'deque reverse': lambda v, t: (v[2].reverse(), v[4].reverse()),
        'deque rotate': lambda v, t: (v[2].rotate(t + 1), v[2].rotate(-2 - t)),
        'deque remove': lambda v, t: v[2].remove(E(t + 2)),
        'deque getitem': lambda v, t: (v[2][t], v[2][-1 - t], v[2][t:4]),
        'deque ==': lambda v, t: v[2 + t] == v[3 - t],
        'deque hash': lambda v, t: hash(v[2]) == hash(v[3]),
        'deque <': lambda v, t: v[2] < v[3].append(E(t)),
        'deque max': lambda v, t: (v[4].append(t), v[4].appendleft(t), v[4].extend([t, t, t]), v[4].extendleft([t])),
        'deque repr': lambda v, t: repr(v[2 + t]),
        'deque pickle': lambda v, t: pickle.loads(pickle.dumps(v[2 + t], 2)),
        'pdeque': lambda v, t: (pdeque(Iterable([t, 1])), pdeque(), pdeque([1, t, 3], maxlen=2)),
    }
    return make, ops


class Num(int):
    pass


def fam_record(base_name):
    def family():
        import pyrsistent
        from pyrsistent import InvariantException, field, pmap_field, pset_field, pvector_field
        base = getattr(pyrsistent, base_name)

        T = type('T', (int,), {})

        class Inner(base):
            a = field(type=int, factory=cbf(int), invariant=cbf(lambda x: (x >= 0, 'neg')))
            b = field()

        class R(base):
            __invariant__ = lambda self: (getattr(self, 'a', 0) < 1000, 'huge')
            a = field(type=('builtins.int', T), invariant=cbf(lambda x: (x != 13, 'unlucky')), mandatory=True)
            b = field(factory=cbf(lambda x: x), initial=cbf(lambda: 7))
            c = field(serializer=cbf(lambda f, x: (f, x)))
            i = field(type=Inner)
            v = pvector_field(T)
            s = pset_field(int)
            m = pmap_field(str, T)

        def make():
            r = R(a=1, c=2, i=Inner(a=3, b=4), v=[T(1), T(2)], s=[1, 2], m={'k': T(5)})
            r2 = R(a=1, c=2, i=Inner(a=3, b=4), v=[T(1), T(2)], s=[1, 2], m={'k': T(5)})
            return r, r2, R, Inner, T

        def evp(v, t):
            e = v[0].evolver()
            e.set('a', t)
            e.set('b', t + 1)
            w = e.persistent()
            e.set('c', t)
            e.remove('b')
            return w, e.persistent()

        def evbad(v, t):
            e = v[0].evolver()
            e.set('c', 3)
            try:
                e.set('a', 13)
                e.persistent()
            except InvariantException as x:
                return norm(x)

        def classes(v, t):
            class Sub(v[2]):
                d = field(type=int)
            return norm(Sub(a=t, d=t))
        ops = {
            'new': lambda v, t: v[2](a=t, b=t),
            'new default': lambda v, t: v[2](a=t),
            'new missing': lambda v, t: v[2](b=t),
            'new invalid': lambda v, t: v[2](a=13, c=t),
            'new type error': lambda v, t: type(call(lambda: v[2](a='x'))[1]).__name__,
            'new extra': lambda v, t: type(call(lambda: v[2](a=1, zz=t))[1]).__name__,
            'set': lambda v, t: v[0].set(a=10 + t),
            'set two': lambda v, t: v[0].set(a=10 + t, b=t),
            'set invalid': lambda v, t: v[0].set(a=13 if t else 5000),
            'set inner': lambda v, t: v[0].set(i={'a': t, 'b': 1}),
            'set vector': lambda v, t: v[0].set(v=[v[4](t)], s=[t], m={'q': v[4](t)}),
            'remove': lambda v, t: v[0].remove('c'),
            'get': lambda v, t: (v[0].a, v[0].i.b, v[0].v, v[0].m, v[0].s),
            '==': lambda v, t: v[0] == v[1],
            'hash': lambda v, t: hash(v[0]) == hash(v[1]),
            'repr': lambda v, t: len(repr(v[0])),
            'create': lambda v, t: v[2].create({'a': t, 'i': {'a': t}, 'v': [v[4](t)], 's': [t]}),
            'create extra': lambda v, t: v[2].create({'a': t, 'zz': 1, 'i': {'a': t, 'ww': 1}}, ignore_extra=True),
            'serialize': lambda v, t: v[0].serialize(t),
            'transform': lambda v, t: v[0].transform(['i', 'a'], cbf(lambda x: x + t), ['v', 0], cbf(lambda x: v[4](x + t)), ['b'], t),
            'evolver': evp,
            'evolver invalid': evbad,
            'subclass': classes,
            'copy': lambda v, t: copy.copy(v[0]),
        }
        return make, ops
    return family


def fam_checked():
    from pyrsistent import CheckedPMap, CheckedPSet, CheckedPVector, CheckedValueTypeError, InvariantException

    T = type('T', (int,), {})

    class V(CheckedPVector):
        __type__ = (T, 'builtins.str')
        __invariant__ = cbf(lambda x: (x != 13, 'unlucky'))

    class VV(CheckedPVector):
        __type__ = V

    class S(CheckedPSet):
        __type__ = (T, 'builtins.str')
        __invariant__ = cbf(lambda x: (x != 13, 'unlucky'))

    class M(CheckedPMap):
        __key_type__ = 'builtins.str'
        __value_type__ = (T, V)
        __invariant__ = cbf(lambda k, x: (x != 13, 'unlucky'))

    def make():
        v = V([T(1), T(2), T(3)])
        return v, S([T(1), T(2)]), M({'a': T(1), 'b': v}), V, VV, S, M, T

    def ve(v, t):
        e = v[0].evolver()
        e[0] = v[7](t)
        e.append(v[7](t + 1))
        w = e.persistent()
        e.extend([v[7](9)])
        return w, e.persistent()

    def me(v, t):
        e = v[2].evolver()
        e['x'] = v[7](t)
        e.remove('a')
        return e.persistent()

    def se(v, t):
        e = v[1].evolver()
        e.add(v[7](20 + t))
        e.remove(v[7](1))
        return e.persistent()

    def kind(f):
        r = call(f)
        return norm(r[1]) if r[0] == 'exc' else 'ok'
    ops = {
        'vector new': lambda v, t: v[3](Iterable([v[7](t), 'x'])),
        'vector append': lambda v, t: v[0].append(v[7](t)),
        'vector append bad': lambda v, t: kind(lambda: v[0].append(t)),
        'vector append invalid': lambda v, t: kind(lambda: v[0].append(v[7](13))),
        'vector extend': lambda v, t: v[0].extend(Iterable([v[7](t), 'y'])),
        'vector extend invalid': lambda v, t: kind(lambda: v[0].extend([v[7](13), v[7](t)])),
        'vector set': lambda v, t: v[0].set(t, v[7](8)),
        'vector mset': lambda v, t: v[0].mset(0, v[7](t), 1, 'z'),
        'vector evolver': ve,
        'vector create': lambda v, t: v[4].create([[v[7](t)], ['q'], []]),
        'vector serialize': lambda v, t: v[4].create([[v[7](t)]]).serialize(),
        'vector transform': lambda v, t: v[0].transform([cbf(lambda i: i >= t)], cbf(lambda x: v[7](x + 1))),
        'set new': lambda v, t: v[5](Iterable([v[7](t), 'x'])),
        'set add': lambda v, t: v[1].add(v[7](20 + t)),
        'set add invalid': lambda v, t: kind(lambda: v[1].add(v[7](13))),
        'set add bad': lambda v, t: kind(lambda: v[1].add(4)),
        'set update': lambda v, t: v[1].update(Iterable([v[7](30 + t), 'z'])),
        'set evolver': se,
        'set create': lambda v, t: v[5].create([v[7](t)]),
        'set serialize': lambda v, t: v[1].serialize(),
        'map new': lambda v, t: v[6]({'q': v[7](t)}),
        'map set': lambda v, t: v[2].set('q', v[7](t)),
        'map set bad': lambda v, t: kind(lambda: v[2].set(1, v[7](t))),
        'map set invalid': lambda v, t: kind(lambda: v[2].set('q', v[7](13))),
        'map update': lambda v, t: v[2].update({'q': v[7](t), 'r': v[0]}),
        'map evolver': me,
        'map create': lambda v, t: v[6].create({'k': [v[7](t)], 'l': v[7](3)}),
        'map serialize': lambda v, t: v[2].serialize(),
        '==': lambda v, t: (v[0] == v[3]([v[7](1), v[7](2), v[7](3)]), v[1] == v[5]([v[7](2), v[7](1)])),
        'hash': lambda v, t: (hash(v[0]), hash(v[2]) == hash(v[6]({'a': v[7](1), 'b': v[0]}))),
        'subclass': lambda v, t: type('W', (v[3],), {})([v[7](t)]),
    }
    return make, ops


def fam_fresh():
    """Classes made anew for every schedule and not used yet: whatever is worked out on first use is worked out there."""
    from pyrsistent import CheckedPMap, CheckedPSet, CheckedPVector, PClass, PRecord, field, optional

    def make():
        class V(CheckedPVector):
            __type__ = (Num, 'builtins.str')

        class VV(CheckedPVector):
            __type__ = V

        class S(CheckedPSet):
            __type__ = ('builtins.str', Num)

        class M(CheckedPMap):
            __key_type__ = 'builtins.str'
            __value_type__ = V

        class R(PRecord):
            a = field(type=('builtins.int', 'builtins.str'))
            v = field(type=V)

        class C(PClass):
            a = field(type='builtins.int')
            i = field(type=R)
            v = field(type=optional(V))
        return (), V, VV, S, M, R, C

    def sub(v, t):
        class W(v[1]):
            pass
        return W([Num(t), 'x'])
    ops = {
        'vector': lambda v, t: v[1]([Num(t), 'a']),
        'vector bad': lambda v, t: norm(call(lambda: v[1]([t]))[1]),
        'vector create': lambda v, t: v[2].create([[Num(t)], ['x']]),
        'set': lambda v, t: v[3]([Num(t), 'a']),
        'map': lambda v, t: v[4]({'a': v[1]([Num(t)])}),
        'map create': lambda v, t: v[4].create({'a': [Num(t)]}),
        'record': lambda v, t: v[5](a=t, v=[Num(t)]),
        'record bad': lambda v, t: norm(call(lambda: v[5](a=1.5))[1]),
        'class': lambda v, t: v[6](a=t, v=v[1](['x'])),
        'class create': lambda v, t: v[6].create({'a': t, 'i': {'a': t, 'v': ['q']}}),
        'class set': lambda v, t: v[6](a=5).set(a=t),
        'class serialize': lambda v, t: v[6](a=t, i=v[5](a=t, v=['x'])).serialize(),
        'subclass': sub,
    }
    return make, ops


def fam_convert():
    import re
    from pyrsistent import discard, freeze, get_in, immutable, inc, m, mutant, ny, pmap, rex, s, thaw, v as vec
    P = immutable('x, y, id_', name='P')

    @mutant
    def fm(a, b=None):
        return [a, {'b': b}]

    def make():
        data = {'a': [1, 2, {'b': set([1, 2])}], 'c': (1, [2], {'d': [3]}), 'e': {'f': {'g': 1}}}
        deep = freeze(data)
        return data, deep, vec(m(x=1, y=vec(1, 2)), m(x=2, z=s(1))), P(x=1, y=[2], id_=3)
    ops = {
        'freeze': lambda v, t: freeze(v[0]),
        'freeze lists': lambda v, t: freeze([v[0], [t], (t, [t])]),
        'freeze loose': lambda v, t: freeze([v[1], {t: [v[1]]}], strict=False),
        'thaw': lambda v, t: thaw(v[1]),
        'thaw loose': lambda v, t: thaw(v[2], strict=False),
        'mutant': lambda v, t: fm([t], b={'q': [t]}),
        'get_in': lambda v, t: (get_in(['a', 2, 'b'], v[1]), get_in(['zz', t], v[1], t), get_in(['e', 'f', 'g'], v[1])),
        'transform': lambda v, t: v[1].transform(['a', 0], t, ['e', 'f', 'g'], inc, ['new', 'path'], t),
        'transform rex': lambda v, t: v[1].transform([rex('[ae]'), ny, ny], cbf(lambda x: (x, t))),
        'transform ny': lambda v, t: v[2].transform([ny, 'x'], inc, [ny, ny], cbf(lambda x: t)),
        'transform discard': lambda v, t: v[1].transform(['e', 'f'], discard, ['a', t], discard),
        'transform two': lambda v, t: v[2].transform([cbf(lambda i, x: x.get('x') == t + 1), 'q'], t),
        'tuple set': lambda v, t: v[3].set(x=t),
        'tuple': lambda v, t: tuple(v[3].set(y=t, id_=4)),
        'tuple new': lambda v, t: immutable('a, b', name='Q')(a=t, b=2),
        'hash': lambda v, t: hash(v[2][0]),
    }
    return make, ops


FAMILIES = {
    'vec1': fam_vec(1), 'vec4': fam_vec(4), 'vec33': fam_vec(33),
    'map3': fam_map(3, 1), 'map7': fam_map(7, 0), 'map8': fam_map(8, 2),
    'set': fam_set, 'seq': fam_seq, 'record': fam_record('PRecord'), 'class': fam_record('PClass'), 'checked': fam_checked, 'convert': fam_convert, 'fresh': fam_fresh,
}
QUICK_PY = ('vec1', 'vec4', 'vec33', 'map8', 'checked')
SPLIT = {'vec33': 2, 'record': 8, 'class': 6, 'checked': 6, 'map3': 2, 'map7': 3, 'map8': 4, 'convert': 2, 'set': 4, 'seq': 2, 'fresh': 2}


def shards(tier):
    out = []
    for f in FAMILIES:
        parts = SPLIT.get(f, 1) * (1 if tier == 'quick' else 4)
        for p in range(parts):
            if tier != 'quick' or f != 'map7':
                out.append(('c', ['threads', f, p, parts]))
            if f in QUICK_PY if tier == 'quick' else f not in ('set', 'seq'):
                out.append(('py', ['threads', f, p, parts]))
    for i in range(len(c18.FAMILIES)):
        out.append(('c', ['nested', i]))
        if i in (0, 9) or tier != 'quick' and i in (1, 2):
            out.append(('py', ['nested', i]))
    return out


def weight(config, spec):
    if spec[0] == 'nested':
        return 9 if spec[1] in (1, 2, 3) else 3
    return {'record': 8, 'class': 7, 'map8': 7, 'fresh': 6, 'convert': 6, 'set': 6}.get(spec[1], 4)


def run_shard(ctx, spec):
    globals()['run_' + spec[0]](ctx, *spec[1:])


def outcome(r):
    return (r[0], norm(r[1]))


def run_threads(ctx, fam, part, parts):
    sys.setswitchinterval(1)            # threads only switch when the scheduler says so (or they block)
    make, ops = FAMILIES[fam]()
    names = list(ops)
    alone = {}
    count = {}
    clean = None
    for name in names:
        for t in (0, 1):
            vals = make()
            if clean is None:
                clean = norm(vals)
            r = call(ops[name], vals, t)
            alone[name, t] = outcome(r)
            if norm(vals) != clean:
                bad('the operation changed a shared value', (fam, name, t))
    noop = lambda v, t: None

    def events(name, t, mode):
        if (name, t, mode) not in count:
            s = Sched((), mode)
            s.finished[1 - t] = True
            traced(s, t, ops[name], make())
            count[name, t, mode] = s.events[t]
        return count[name, t, mode]

    def one(a, b, segments, mode):
        tr = lambda: (fam, a, b, mode, list(segments))
        ctx.trace(tr)
        ctx.step(len(segments))
        vals = make()
        r0, r1, s = execute(ops[a], ops[b], vals, segments, mode)
        if r1 is None:
            bad('deadlock: the second thread never finishes', tr)
        ctx.state((a, b, mode, tuple(segments)))
        ctx.outcome('switched' if s.switches else 'not switched')
        g = outcome(r0)
        if g != alone[a, 0]:
            bad('%s gives %s, alone it gives %s' % (a, short(g), short(alone[a, 0])), tr)
        g = outcome(r1)
        if g != alone[b, 1]:
            bad('%s (second thread) gives %s, alone it gives %s' % (b, short(g), short(alone[b, 1])), tr)
        if norm(vals) != clean:
            bad('a shared value changed: %s, before %s' % (short(norm(vals)), short(clean)), tr)

    # one preemption, all pairs
    mode = 'call' if ctx.quick else 'line'
    for i, a in enumerate(names):
        if i % parts != part:
            continue
        for b in names:
            for k in range(1, events(a, 0, mode) + 1):
                one(a, b, [k], mode)
    # one preemption, each operation against itself, as fine as possible
    for i, a in enumerate(names):
        if i % parts != part:
            continue
        fine = 'op' if not ctx.quick or events(a, 0, 'op') <= 400 else 'line'
        for k in range(1, events(a, 0, fine) + 1):
            one(a, a, [k], fine)
    # two preemptions
    limit = 250 if ctx.quick else 3000
    for i, a in enumerate(names):
        if i % parts != part:
            continue
        for mode in (('line', 'call') if ctx.quick else ('op', 'line', 'call')):
            na, nb = events(a, 0, mode), events(a, 1, mode)
            if na * nb <= limit:
                for k in range(1, na + 1):
                    for j in range(1, nb + 1):
                        one(a, a, [k, j], mode)
                break
    # three preemptions
    if not ctx.quick:
        for i, a in enumerate(names):
            if i % parts != part:
                continue
            na, nb = events(a, 0, 'call'), events(a, 1, 'call')
            if na * nb * na <= 4000:
                for k in range(1, na + 1):
                    for j in range(1, nb + 1):
                        for k2 in range(1, na - k + 1):
                            one(a, a, [k, j, k2], 'call')


def run_nested(ctx, i):
    name, args = c18.FAMILIES[i]
    group = []
    for sc in getattr(c18, 'sc_' + name)(ctx.tier, *args):
        if sc is None:
            nest(ctx, group)
            group = []
        else:
            group.append(sc)
    if group:
        nest(ctx, group)


def nest(ctx, group):
    T = c18.Ticker

    def res(r):
        return ('ok', c18.norm(r[1])) if r[0] == 'ok' else ('exc', type(r[1]).__name__)

    def run(sc):
        if sc.reset:
            sc.reset()
        T.n = 0
        return res(call(sc.op))
    T.at = T.nested = None
    want = [run(sc) for sc in group]
    count = []
    for sc in group:
        run(sc)
        count.append(T.n)

    def snapshot(sc):
        return [c18.norm(x) for x in sc.values] + ([sc.observe()] if sc.observe else [])
    before = [snapshot(sc) for sc in group]
    step = 1
    for x, a in enumerate(group):
        # at most 14 callbacks of an operation in the quick tier: the first and last ones
        ks = range(count[x])
        if ctx.quick and len(ks) > 14:
            ks = list(ks[:10]) + list(ks[-4:])
        for y, b in enumerate(group):
            if a is b and a.reset:
                continue
            for k in ks:
                tr = lambda: (a.name, 'callback %d' % k, 'runs', b.name)
                ctx.trace(tr)
                ctx.step()
                ctx.state((a.name, b.name, k))
                got = []

                def nested():
                    if b.reset:
                        b.reset()
                    got.append(res(call(b.op)))
                if a.reset:
                    a.reset()
                T.n = 0
                T.at = k
                T.nested = nested
                r = res(call(a.op))
                T.at = T.nested = None
                if not got:
                    continue
                if got[0] != want[y]:
                    bad('the inner operation gives %s, alone it gives %s' % (short(got[0]), short(want[y])), tr)
                if r != want[x]:
                    bad('the outer operation gives %s, alone it gives %s' % (short(r), short(want[x])), tr)
                if k == ks[-1] and (snapshot(a) != before[x] or snapshot(b) != before[y]):
                    bad('a value changed', tr)
            c18.check_empties('nested')
