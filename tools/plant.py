#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""Development tool (no check uses it): make and measure planted bugs.

    plant.py make SPEC.py [ID ...]     SPEC defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)],
                                       demo, venv='fast'|'slow')]; verified ones are written to seeded/<id>/
    plant.py measure [ID ...]          run the property's quick check against every planted bug, report caught/missed
    plant.py verify [ID ...]           demo on the clean and on the patched tree and the tests

Works in scratch copies under /tmp/m; /repo is never touched.
"""
import concurrent.futures
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
VENV = {'fast': '/opt/venv/bin/python', 'slow': '/opt/venv-slow/bin/python'}
BASE = '5557da1'
_local = threading.local()
_n = iter(range(1000))
TREES = []


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True, errors='replace', **kw)


def tree():
    """A scratch copy of /repo's HEAD for this thread."""
    if not hasattr(_local, 'path'):
        p = '/tmp/m/p%d' % next(_n)
        shutil.rmtree(p, ignore_errors=True)
        os.makedirs('/tmp/m', exist_ok=True)
        assert sh(['git', 'clone', '-q', '/repo', p]).returncode == 0
        TREES.append(p)
        _local.path = p
    p = _local.path
    sh('git checkout -q -- . && git clean -qfdx', cwd=p)
    return p


def run_demo(folder, cwd):
    try:
        r = sh(['bash', os.path.join(folder, 'demo.sh')], cwd=cwd, timeout=300,
               env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 'timeout', ''


def failing(p):
    out = set()
    ran = 0
    for v in VENV.values():
        r = sh([v, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--tb=line', '--timeout=300', '-rfE',
                '--continue-on-collection-errors', '--doctest-modules', 'pymorphy2', 'tests'],
               cwd=p, env=dict(os.environ, PYTHONPATH=p, PYTHONDONTWRITEBYTECODE='1'))
        for line in r.stdout.splitlines():
            m = re.match(r'(FAILED|ERROR) (\S+)', line)
            if m:
                out.add((v, m.group(2)))
        m = re.search(r'(\d+) passed', r.stdout)
        ran += int(m.group(1)) if m else 0
    return out, ran


def check(prop, p, seed='1'):
    r = sh([sys.executable, 'run.py', prop], cwd=HERE, env=dict(os.environ, PMV_REPO=p, VERIF_SEED=seed, VERIF_TIER='quick'))
    hit = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=%s ' % prop)]
    return r.returncode, hit, r.stdout


def original_lines(p, patch):
    """Removed lines that were in the original repository / that a fix commit added."""
    orig = fix = 0
    for block in re.split(r'^diff --git ', patch, flags=re.M)[1:]:
        f = re.search(r'^--- a/(\S+)', block, re.M).group(1)
        blame = sh(['git', 'blame', '-s', '--abbrev=7', 'HEAD', '--', f], cwd=p).stdout.splitlines()
        base_rev = set(x[:7] for x in sh(['git', 'rev-list', BASE], cwd=p).stdout.split())
        ln = 0
        for line in block.splitlines():
            m = re.match(r'@@ -(\d+)', line)
            if m:
                ln = int(m.group(1))
                continue
            if not ln:
                continue
            if line.startswith('-'):
                rev = blame[ln - 1].split()[0].lstrip('^')[:7]
                if rev in base_rev:
                    orig += 1
                else:
                    fix += 1
                ln += 1
            elif not line.startswith('+'):
                ln += 1
    return orig, fix


BASELINE = None


def make(b):
    p = tree()
    folder = os.path.join('/tmp/m/made', b['id'])
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder)
    with open(os.path.join(folder, 'demo.py'), 'w') as f:
        f.write('# -*- coding: utf-8 -*-\n' + b['demo'].strip() + '\n')
    with open(os.path.join(folder, 'demo.sh'), 'w') as f:
        f.write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\n'
                'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec %s "$here/demo.py"\n' % VENV[b.get('venv', 'fast')])
    meta = {'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}
    with open(os.path.join(folder, 'meta.json'), 'w') as f:
        json.dump(meta, f, ensure_ascii=False, indent=1)
    rc, out = run_demo(folder, p)
    if rc != 0:
        return b, 'DEMO FAILS ON THE CLEAN TREE (%s)\n%s' % (rc, out[-1500:])
    for f, old, new in b['edits']:
        path = os.path.join(p, f)
        s = open(path, encoding='utf8').read()
        if s.count(old) != 1:
            return b, 'EDIT %r matches %d times in %s' % (old[:60], s.count(old), f)
        open(path, 'w', encoding='utf8').write(s.replace(old, new))
    patch = sh(['git', 'diff'], cwd=p).stdout
    with open(os.path.join(folder, 'patch.diff'), 'w') as f:
        f.write(patch)
    orig, fix = original_lines(p, patch)
    if fix or not orig:
        return b, 'TOUCHES %d original and %d fixed lines' % (orig, fix)
    rc, out = run_demo(folder, p)
    if rc == 0:
        return b, 'DEMO PASSES WITH THE PATCH\n' + out[-1500:]
    if b.get('show'):
        print(b['id'], 'demo says:', out[-400:])
    bad, ran = failing(p)
    new = bad - BASELINE[0]
    if new or ran < BASELINE[1]:
        return b, 'TESTS FAIL: %s (%d passed, %d before)' % (sorted(new)[:5], ran, BASELINE[1])
    rc, hit, out = check(b['property'], p)
    dest = os.path.join(SEEDED, b['id'])
    shutil.rmtree(dest, ignore_errors=True)
    shutil.copytree(folder, dest)
    return b, 'planted; check exit %s: %s' % (rc, 'CAUGHT' if rc == 1 and hit else 'MISSED\n' + out[-600:])


def on_seeded(ids, what):
    ids = ids or sorted(os.listdir(SEEDED))
    def one(i):
        p = tree()
        folder = os.path.join(SEEDED, i)
        if what == 'verify':
            rc, out = run_demo(folder, p)
            if rc != 0:
                return i, 'demo fails on the clean tree'
        r = sh(['git', 'apply', os.path.join(folder, 'patch.diff')], cwd=p)
        if r.returncode:
            return i, 'PATCH DOES NOT APPLY ' + r.stdout
        if what == 'verify':
            rc, out = run_demo(folder, p)
            if rc == 0:
                return i, 'demo passes with the patch'
            bad, ran = failing(p)
            return i, 'ok' if not bad - BASELINE[0] else 'TESTS FAIL %s' % sorted(bad - BASELINE[0])[:3]
        prop = json.load(open(os.path.join(folder, 'meta.json')))['property']
        rc, hit, out = check(prop, p, os.environ.get('VERIF_SEED', '1'))
        return i, 'CAUGHT' if rc == 1 and hit else 'MISSED (exit %s)' % rc
    return [(one, i) for i in ids]


def main():
    global BASELINE
    cmd, rest = sys.argv[1], sys.argv[2:]
    jobs = int(os.environ.get('JOBS', '3'))
    if cmd in ('make', 'verify'):
        p = tree()
        BASELINE = failing(p)
        print('baseline:', len(BASELINE[0]), 'failing,', BASELINE[1], 'passed', flush=True)
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        if cmd == 'make':
            bugs = [b for b in runpy.run_path(rest[0])['BUGS'] if not rest[1:] or b['id'] in rest[1:]]
            for fut in concurrent.futures.as_completed([ex.submit(make, b) for b in bugs]):
                b, msg = fut.result()
                print(b['id'], msg, flush=True)
        else:
            for fut in concurrent.futures.as_completed([ex.submit(f, i) for f, i in on_seeded(rest, cmd)]):
                print(*fut.result(), flush=True)
    for p in TREES:
        shutil.rmtree(p, ignore_errors=True)


main()
