#!/usr/bin/env python3
"""Planting bugs.

  plant.py new SPEC.py...        confirm a bug and keep it as seeded/<name>/ (name of the spec file)
  plant.py check ID [C05 ...]    run checks (default: the property of the bug) against a planted bug
  plant.py all                   every planted bug against the check of its property

A spec defines PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)] and DEMO (Python, fails with the bug).
Everything happens in a scratch copy of /repo under /tmp, which is removed afterwards.
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, 'seeded')
PY = '/opt/venv/bin/python'


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def copy():
    d = tempfile.mkdtemp(prefix='plant-')
    sh(['cp', '-a', '/repo', d + '/repo'])
    for f in ('build.sh', 'test.sh'):
        t = open('/opt/vp/' + f).read().replace('/opt/vp/build.sh', d + '/build.sh').replace('/repo', d + '/repo')
        open(d + '/' + f, 'w').write(t)
    return d


def demo(folder, repo):
    try:
        return sh(['bash', folder + '/demo.sh'], cwd=repo, timeout=280)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess([], 124, 'timeout')


def new(spec):
    name = os.path.basename(spec)[:-3]
    s = runpy.run_path(spec)
    d = copy()
    try:
        repo = d + '/repo'
        for f, old, rep in s['EDITS']:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != 1:
                return '%s: %d matches in %s for %r' % (name, t.count(old), f, old[:60])
            open(p, 'w').write(t.replace(old, rep))
        diff = sh('git diff', cwd=repo).stdout
        # all removed or surrounding lines must be of the original repository
        folder = d + '/seed'
        os.mkdir(folder)
        open(folder + '/patch.diff', 'w').write(diff)
        open(folder + '/demo.sh', 'w').write('#!/bin/bash\n# run in the repository after the build; fails when the property is broken\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec %s "$(dirname "$0")/demo.py"\n' % PY)
        open(folder + '/demo.py', 'w').write(s['DEMO'].lstrip('\n'))
        json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(folder + '/meta.json', 'w'), indent=1)
        b = sh(['bash', d + '/build.sh'])
        if b.returncode:
            return '%s: build failed\n%s' % (name, b.stdout[-1500:])
        r = demo(folder, repo)
        if r.returncode == 0:
            return '%s: the demo passes with the bug' % name
        bad = r.stdout
        sh(['bash', d + '/test.sh', d + '/out.json'])
        passed = set(json.load(open(d + '/out.json'))['passed'])
        missing = sorted(set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - passed)
        if missing:
            return '%s: %d tests fail, e.g. %s' % (name, len(missing), missing[:4])
        sh('git checkout -- .', cwd=repo)
        sh(['bash', d + '/build.sh'])
        r = demo(folder, repo)
        if r.returncode:
            return '%s: the demo fails without the bug\n%s' % (name, r.stdout[-1500:])
        dest = os.path.join(SEEDED, name)
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(folder, dest)
        return '%s: kept (%s)' % (name, bad.strip().splitlines()[-1][:150] if bad.strip() else '')
    finally:
        shutil.rmtree(d)


def check(name, props=None):
    folder = os.path.join(SEEDED, name)
    meta = json.load(open(folder + '/meta.json'))
    d = copy()
    out = []
    try:
        p = sh(['git', 'apply', folder + '/patch.diff'], cwd=d + '/repo')
        if p.returncode:
            return ['%s: does not apply: %s' % (name, p.stdout)]
        for c in props or [meta['property']]:
            ev = d + '/verif'
            shutil.copytree(ROOT, ev, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
            r = sh([PY, 'mc/run.py', c], cwd=ev, env=dict(os.environ, MC_REPO=d + '/repo'))
            caught = r.returncode == 1 and 'VIOLATION property=%s ' % c in r.stdout
            first = (r.stdout.splitlines() + [''] * 3)[1:3]
            out.append('%-28s %s %s %s' % (name, c, 'CAUGHT' if caught else 'missed rc=%d' % r.returncode, ' | '.join(first)[:160] if caught else ''))
            shutil.rmtree(ev)
    finally:
        shutil.rmtree(d)
    return out


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'new':
        for f in a[1:]:
            print(new(f), flush=True)
    elif a[0] == 'check':
        for l in check(a[1], a[2:]):
            print(l, flush=True)
    else:
        path = os.path.join(ROOT, 'tools', 'design', 'caught.json')
        res = json.load(open(path)) if os.path.exists(path) else {}
        for n in a[1:] or sorted(os.listdir(SEEDED)):
            ls = check(n)
            for l in ls:
                print(l, flush=True)
            p = json.load(open(os.path.join(SEEDED, n, 'meta.json')))['property']
            res[n] = p if all(' CAUGHT ' in l for l in ls) else 'missed'
            json.dump(res, open(path, 'w'), indent=1, sort_keys=True)
