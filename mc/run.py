#!/opt/venv/bin/python
"""Entry point of every check.

  run.py C05                    run the check of property C05 (VERIF_TIER=quick|thorough)
  run.py --replay FILE          run the one shard that a violation was found in again
  run.py --all                  all properties, one after the other

Exit status: 0 the property held on everything explored, 1 violation (with a VIOLATION line),
2 the check could not be carried out.
"""
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from array import array
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('MC_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


class CheckError(Exception):
    pass


def build(scratch, variant):
    """Build the C extension from the working tree into a scratch directory."""
    lib = os.path.join(scratch, 'lib-' + variant)
    tmp = os.path.join(scratch, 'tmp-' + variant)
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', PIP_NO_INDEX='1')
    for k in ('PYTHONPATH', 'PYRSISTENT_NO_C_EXTENSION', 'PYRSISTENT_SKIP_EXTENSION'):
        env.pop(k, None)
    if variant == 'asan':
        env['CFLAGS'] = '-O1 -g -fsanitize=address -fno-omit-frame-pointer'
        env['LDFLAGS'] = '-fsanitize=address'
    p = subprocess.run([PY, 'setup.py', '-q', 'build_ext', '--build-lib', lib, '--build-temp', tmp, '--force'],
                       cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    so = [f for f in (os.listdir(lib) if os.path.isdir(lib) else []) if f.startswith('pvectorc')]
    if not so:
        raise CheckError('building the C extension failed:\n' + p.stdout[-4000:])
    shutil.rmtree(tmp, ignore_errors=True)
    return lib


def worker_env(scratch, config, lib):
    env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON') and not k.startswith('PYRSISTENT')}
    env.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONNOUSERSITE='1',
               PYTHONPYCACHEPREFIX=os.path.join(scratch, 'pyc'), PYTHONFAULTHANDLER='1',
               PYTHONPATH=os.pathsep.join(([lib] if lib else []) + [REPO]))
    if config == 'py':
        env['PYRSISTENT_NO_C_EXTENSION'] = '1'
    if config == 'asan':
        asan = subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
        env.update(LD_PRELOAD=asan, PYTHONMALLOC='malloc',
                   ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:handle_segv=0:allocator_may_return_null=1')
    return env


def cpu_of(pid):
    try:
        f = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError, ValueError):
        return 0.0


def run_job(scratch, job, libs, seq, trace_file=None):
    config = job['config']
    lib = libs.get('asan' if config == 'asan' else 'c')
    out = os.path.join(scratch, 'out-%d' % seq)
    job = dict(job, out=out, lib=lib or '', repo=REPO)
    if config != 'asan':
        job.setdefault('mem', 8 << 30)
    env = worker_env(scratch, config, lib)
    if trace_file:
        env['MC_TRACE_FILE'] = trace_file
    err = open(out + '.err', 'w+')
    p = subprocess.Popen([PY, os.path.join(HERE, 'worker.py')], stdin=subprocess.PIPE, stdout=err, stderr=err,
                         env=env, cwd=scratch, text=True)
    p.stdin.write(json.dumps(job))
    p.stdin.close()
    hung = False
    beat, at = None, 0.0
    wall_beat = time.time()
    while True:
        try:
            p.wait(timeout=2)
            break
        except subprocess.TimeoutExpired:
            try:
                b = os.stat(out + '.beat').st_mtime
            except OSError:
                b = None
            if b != beat or b is None:
                beat, at = b, cpu_of(p.pid)
                wall_beat = time.time()
            elif cpu_of(p.pid) - at > 120:
                # used 120 s of CPU without ever letting the watchdog thread run
                hung = True
                p.kill()
                p.wait()
                break
    err.seek(0)
    text = err.read()
    err.close()
    if os.path.exists(out) and p.returncode == 0:
        with open(out) as f:
            res = json.load(f)
        a = array('Q')
        with open(out + '.states', 'rb') as f:
            a.frombytes(f.read())
        res['states'] = a
        res['crash'] = None
    else:
        why = 'hang' if (hung or p.returncode == 97) else 'exit status %s' % p.returncode
        res = {'transitions': 0, 'traces': 0, 'samples': [], 'violations': [], 'known': [], 'outcomes': {},
               'states': array('Q'), 'crash': '%s\n%s' % (why, text[-6000:]), 'rc': p.returncode,
               'import_error': 'AssertionError' in text and 'worker.py' in text or 'ImportError' in text
               or 'ModuleNotFoundError' in text}
    for suffix in ('', '.err', '.beat', '.states'):
        try:
            os.unlink(out + suffix)
        except OSError:
            pass
    return res


def load_known(prop):
    path = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {e['signature']: e['what'] for e in data.get('known', []) if e['property'] == prop}


def check(prop, tier, seed, only=None):
    t0 = time.time()
    mod = importlib.import_module('props.' + prop.lower())
    known = load_known(prop)
    jobs = []
    for config, spec in mod.shards(tier):
        if only is not None and (config, json.dumps(spec)) != only:
            continue
        jobs.append({'prop': prop, 'config': config, 'tier': tier, 'spec': spec, 'known': sorted(known)})
    ev_dir = os.path.join(ROOT, 'evidence')
    rep_dir = os.path.join(ev_dir, 'replay')
    os.makedirs(rep_dir, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='mc-%s-' % prop)
    try:
        libs = {}
        variants = {'asan' if j['config'] == 'asan' else 'c' for j in jobs if j['config'] != 'py' or
                    getattr(mod, 'NEEDS_C_IN_PY', False)}
        for v in sorted(variants):
            libs[v] = build(scratch, v)
        results = []
        lock = threading.Lock()
        stop = threading.Event()

        def one(arg):
            i, job = arg
            if stop.is_set():
                return None
            ts = time.time()
            r = run_job(scratch, job, libs, i)
            if os.environ.get('MC_VERBOSE'):
                print('%6.1fs %s %s' % (time.time() - ts, job['config'], short_spec(job['spec'])), flush=True)
            if r['crash'] and not r.get('import_error'):
                # find the execution that crashed, by running the shard again with tracing
                tf = os.path.join(scratch, 'trace-%d' % i)
                r2 = run_job(scratch, job, libs, 100000 + i, tf)
                tr = None
                if os.path.exists(tf):
                    tr = open(tf).read()
                if r2['crash']:
                    r['violations'] = [{'msg': 'the interpreter died: ' + r2['crash'], 'trace': tr, 'sig': None}]
                elif r2['violations']:
                    r = r2
                else:
                    r['violations'] = [{'msg': 'the interpreter died (not on the second run): ' + r['crash'],
                                        'trace': tr, 'sig': None}]
                r['crash'] = None
            if r['violations']:
                stop.set()
            with lock:
                results.append((i, job, r))
            return None

        # longest shards first if the module says so
        order = list(enumerate(jobs))
        weight = getattr(mod, 'weight', None)
        if weight:
            order.sort(key=lambda a: -weight(a[1]['config'], a[1]['spec']))
        with ThreadPoolExecutor(int(os.environ.get('MC_JOBS', '0')) or os.cpu_count() or 4) as ex:
            list(ex.map(one, order))
        results.sort(key=lambda r: r[0])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    for i, job, r in results:
        if r['crash']:
            raise CheckError('worker failed for %s %s: %s' % (job['config'], job['spec'], r['crash']))

    states = set()
    for i, job, r in results:
        # states of different configurations are different states
        salt = {'py': 0x9E3779B97F4A7C15, 'asan': 0x12345}.get(job['config'], 0)
        states.update(x ^ salt for x in r['states'])
    nviol = 0
    lines = []
    known_hit = set()
    for i, job, r in results:
        known_hit.update(r['known'])
        for v in r['violations']:
            nviol += 1
            name = '%s-%s-%d.json' % (prop, tier, i)
            path = os.path.join(rep_dir, name)
            with open(path, 'w') as f:
                json.dump({'property': prop, 'tier': tier, 'config': job['config'], 'spec': job['spec'],
                           'message': v['msg'], 'trace': v['trace'], 'signature': v['sig']}, f, indent=1)
            if nviol <= 2:
                print('--- %s config=%s\n%s\ntrace: %s' % (prop, job['config'], v['msg'], v['trace']))
            lines.append('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(path, ROOT)))
    samples = []
    for i, job, r in results:
        for s in r['samples'][:2]:
            if len(samples) < 12:
                samples.append({'config': job['config'], 'shard': short_spec(job['spec']), 'execution': s})
    outcomes = {}
    for i, job, r in results:
        for k, n in r['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + n
    wall = time.time() - t0
    transitions = sum(r['transitions'] for _, _, r in results)
    traces = sum(r['traces'] for _, _, r in results)
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': len(states),
            'transitions': transitions,
            'traces_validated_against_impl': traces,
            'samples': samples,
            'exhaustive': nviol == 0 and len(results) == len(jobs),
            'bounds': mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
            'distinct_outcomes': outcomes,
            'shards': len(results),
            'configurations': sorted({j['config'] for j in jobs}),
            'how_validated': getattr(mod, 'VALIDATION', 'Every explored execution is an execution of the '
                                     'implementation in /repo; the reference model is advanced in lock step and '
                                     'compared after every step.'),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': nviol,
    }
    if only is None:
        with open(os.path.join(ev_dir, prop + '.json'), 'w') as f:
            json.dump(evidence, f, indent=1)
            f.write('\n')
    for sig in sorted(known_hit):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[sig]))
    print('%s %s: %d states, %d transitions, %d executions, %d shards, %.1f s'
          % (prop, tier, len(states), transitions, traces, len(results), wall))
    for line in lines[:1]:
        print(line)
    sys.stdout.flush()
    return 1 if nviol else 0


def short_spec(spec):
    s = json.dumps(spec)
    return s if len(s) < 200 else s[:200] + '...'


def main(argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    if '--thorough' in argv:
        argv.remove('--thorough')
        tier = 'thorough'
    try:
        if argv and argv[0] == '--replay':
            with open(argv[1]) as f:
                d = json.load(f)
            return check(d['property'], d['tier'], seed, (d['config'], json.dumps(d['spec'])))
        if argv and argv[0] == '--all':
            props = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'props'))
                           if f.startswith('c') and f[1:3].isdigit() and f.endswith('.py'))
            return max(check(p, tier, seed) for p in props)
        return check(argv[0].upper(), tier, seed)
    except CheckError as e:
        print('CHECK-ERROR: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
