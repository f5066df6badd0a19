#!/usr/bin/env python3
"""Builds planted bugs from a specification and confirms them in scratch copies: plant.py SPEC.py KIT.py [ID...]

The specification calls bug(id, property, needs, breaks, [(file, old, new)...], demo).  A bug is kept in seeded/ID if it changes
lines of the original repository, builds, passes the stable tests, and its demonstration fails with it and passes without it.
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '4c0e645'
BUGS = []
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append((id, prop, needs, breaks, edits, demo))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tests(copy):
    out = os.path.join(copy, '..', 'junit.xml')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH='%s:/opt/vp' % copy, PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
    sh("/opt/venv/bin/python -m pytest -q -p pytest_timeout -p vp_bootstrap -p no:cacheprovider --timeout=300 --continue-on-collection-errors --rootdir=%s "
       "-o python_files='test_*.py tests/__init__.py' -o junit_family=xunit2 --junitxml=%s cache_dependencies/tests django_cache_dependencies/tests" % (copy, out),
       cwd=copy, env=env)
    res = os.path.join(copy, '..', 'res.json')
    sh('/usr/bin/python3 /opt/vp/results.py %s junit:%s' % (res, out))
    return sorted(STABLE - set(json.load(open(res))['passed']))


def demo(copy, d):
    return sh('bash %s/demo.sh' % d, cwd=copy, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'), timeout=300)


def one(b, kit):
    id, prop, needs, breaks, edits, text = b
    tmp = tempfile.mkdtemp(prefix='plant')
    try:
        copy, d = os.path.join(tmp, 'repo'), os.path.join(tmp, 'demo')
        shutil.copytree('/repo', copy, symlinks=True)
        os.mkdir(d)
        shutil.copy(kit, os.path.join(d, 'kit.py'))
        open(os.path.join(d, 'demo.py'), 'w').write('from kit import *  # noqa\n' + text.strip('\n') + '\n')
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexec timeout 120 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        r = demo(copy, d)
        if r.returncode != 0:
            return id, prop, 'DEMO FAILS UNPATCHED: ' + r.stdout[-600:]
        for f, old, new in edits:
            p = os.path.join(copy, f)
            s = open(p).read()
            if s.count(old) != 1:
                return id, prop, 'EDIT: %d matches of %r' % (s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
            base = sh('git show %s:%s' % (BASE, f), cwd=copy).stdout.split('\n')
        diff = sh('git diff', cwd=copy).stdout
        originals = set()
        for f in set(e[0] for e in edits):
            originals |= set(sh('git show %s:%s' % (BASE, f), cwd=copy).stdout.split('\n'))
        removed = [l[1:] for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
        foreign = [l for l in removed if l not in originals]
        if not removed or foreign:
            return id, prop, 'NOT ORIGINAL LINES: %r' % (foreign or 'nothing removed')
        r = demo(copy, d)
        if r.returncode == 0:
            return id, prop, 'DEMO PASSES PATCHED'
        what = r.stdout.strip().split('\n')[-1]
        bad = tests(copy)
        if bad:
            return id, prop, 'TESTS: %d fail, e.g. %s' % (len(bad), bad[0])
        target = os.path.join(ROOT, 'seeded', id)
        os.makedirs(target, exist_ok=True)
        for n in os.listdir(d):
            if n != '__pycache__':
                shutil.copy(os.path.join(d, n), target)
        open(os.path.join(target, 'patch.diff'), 'w').write(diff)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(target, 'meta.json'), 'w'), indent=1)
        r = sh('python3 check.py %s' % prop, cwd=ROOT, env=dict(os.environ, SA_REPO=copy, SA_EVIDENCE=tmp))
        caught = r.returncode == 1 and 'VIOLATION property=%s' % prop in r.stdout
        return id, prop, ('caught' if caught else 'MISSED rc=%d' % r.returncode) + ' | ' + what[:140] + ('' if caught else r.stdout[-300:])
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    exec(open(sys.argv[1]).read())
    want = sys.argv[3:]
    with ThreadPoolExecutor(4) as ex:
        for id, prop, r in ex.map(lambda b: one(b, sys.argv[2]), [b for b in BUGS if not want or b[0] in want]):
            print(id, prop, r)
