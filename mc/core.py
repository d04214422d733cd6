"""Worker-side helpers shared by all property modules.

A property module enumerates executions of the real code and compares each one with a
reference model.  Everything here is deterministic: no randomness, no clocks.
"""
import json
import os
import signal
import sys
import threading
import time
from array import array


class Violation(Exception):
    """The property is broken; `trace` is the list of steps that shows it."""

    def __init__(self, msg, trace=None, sig=None):
        super().__init__(msg)
        self.msg = msg
        self.trace = trace
        self.sig = sig


class StopShard(Exception):
    pass


def short(x, limit=300):
    try:
        r = repr(x)
    except Exception as e:  # repr of a broken object
        r = '<%s: repr raised %r>' % (type(x).__name__, e)
    return r if len(r) <= limit else r[:limit] + '...(%d chars)' % len(r)


class Ctx(object):
    def __init__(self, prop, config, tier, spec, known):
        self.prop = prop
        self.config = config
        self.tier = tier
        self.spec = spec
        self.known = known            # signatures of known findings of this property
        self.known_hit = set()
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.outcomes = {}
        self.trace_file = os.environ.get('MC_TRACE_FILE')
        self.current = None

    @property
    def quick(self):
        return self.tier == 'quick'

    # -- counting -------------------------------------------------------------------
    def state(self, key):
        """Record a visited (abstract) state; returns True the first time."""
        h = hash(key) & 0xFFFFFFFFFFFFFFFF
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def step(self, n=1):
        self.transitions += n

    def trace(self, desc):
        """A complete execution against the implementation starts (desc may be callable)."""
        self.traces += 1
        self.current = desc
        if len(self.samples) < 2 or (self.traces in (100, 1000, 10000) and len(self.samples) < 4):
            d = desc() if callable(desc) else desc
            self.samples.append(short(d, 600))
        if self.trace_file:
            d = desc() if callable(desc) else desc
            with open(self.trace_file, 'w') as f:
                f.write(short(d, 5000))

    def outcome(self, name):
        self.outcomes[name] = self.outcomes.get(name, 0) + 1

    # -- reporting ------------------------------------------------------------------
    def violation(self, msg, trace=None, sig=None):
        if sig is not None and sig in self.known:
            self.known_hit.add(sig)
            return
        if trace is None:
            trace = self.current
        if callable(trace):
            trace = trace()
        self.violations.append({'msg': msg, 'trace': short(trace, 5000), 'sig': sig})
        raise StopShard()

    def check(self, cond, msg, trace=None, sig=None):
        if not cond:
            self.violation(msg() if callable(msg) else msg, trace, sig)

    def equal(self, got, want, what, trace=None):
        """got == want, both made of builtins (so that == is trusted)."""
        if got != want:
            self.violation('%s: got %s, expected %s' % (what, short(got), short(want)), trace)


def call(fn, *args, **kwargs):
    """('ok', value) or ('exc', exception)"""
    try:
        return 'ok', fn(*args, **kwargs)
    except (StopShard, Violation, KeyboardInterrupt):
        raise
    except Exception as e:
        return 'exc', e


class TooLong(BaseException):
    pass


def limited(seconds, fn, *args):
    """As call(), but ('exc', TooLong) when it takes longer than any correct implementation could need."""
    def stop(*a):
        raise TooLong()
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return call(fn, *args)
    except TooLong as e:
        return 'exc', e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def outcome_class(o):
    """Comparable form of the kind of an outcome: exceptions by class."""
    return 'ok' if o[0] == 'ok' else type(o[1]).__name__


class Watchdog(threading.Thread):
    """Ends the process with status 97 when there is no progress for `limit` CPU seconds.

    Also keeps a heartbeat file fresh, so that the parent can tell a loop in C that never
    releases the GIL."""

    def __init__(self, ctx, beat, limit):
        super().__init__(daemon=True)
        self.ctx, self.beat, self.limit = ctx, beat, limit

    def run(self):
        last, cpu = None, time.process_time()
        while True:
            time.sleep(1)
            try:
                with open(self.beat, 'w') as f:
                    f.write('%f' % time.process_time())
            except OSError:
                pass
            now = (self.ctx.transitions, self.ctx.traces)
            if now != last:
                last, cpu = now, time.process_time()
            elif time.process_time() - cpu > self.limit:
                try:
                    d = self.ctx.current
                    d = d() if callable(d) else d
                    sys.stderr.write('HANG in %s\n' % short(d, 3000))
                    import faulthandler
                    faulthandler.dump_traceback(sys.stderr)
                    sys.stderr.flush()
                finally:
                    os._exit(97)


def save_result(ctx, path):
    array('Q', sorted(ctx.states)).tofile(open(path + '.states', 'wb'))
    with open(path, 'w') as f:
        json.dump({'transitions': ctx.transitions, 'traces': ctx.traces, 'samples': ctx.samples,
                   'violations': ctx.violations, 'known': sorted(ctx.known_hit),
                   'outcomes': ctx.outcomes, 'nstates': len(ctx.states)}, f)
