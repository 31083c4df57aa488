#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""Driver of the checks (standard library only, any Python 3).

    run.py CHECK_ID [--tier quick|thorough]   run a check (default tier: $VERIF_TIER or quick)
    run.py --replay FILE                      run one recorded case again

Exit 0: held on everything explored.  Exit 1: ``VIOLATION property=... replay=...``.
Exit 2: the harness itself failed (inconclusive).
"""
import argparse
import collections
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHONS = {'fast': '/opt/venv/bin/python', 'slow': '/opt/venv-slow/bin/python'}
LIMITS = {'quick': 840, 'thorough': 6 * 3600}


def worker_env():
    env = dict(os.environ)
    for k in ('PYMORPHY2_DICT_PATH', 'PYTEST_ADDOPTS', 'PYTHONPATH'):
        env.pop(k, None)
    env.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1', LANG='C.UTF-8',
               LC_ALL='C.UTF-8', HOME='/root', PYTHONPATH=HERE)
    return env


def backends_of(pid):
    """Which venvs the check uses (read by a worker-side import in the slow venv)."""
    code = ("import sys; sys.path.insert(0, %r); import os; sys.path.insert(0, os.environ.get('PMV_REPO','/repo'))\n"
            "import logging; logging.disable(50)\n"
            "import importlib, json\n"
            "c = importlib.import_module('pmv.checks.' + %r).CHECK\n"
            "print('@@' + json.dumps({'backends': sorted(set(b for g in c.groups for b in g.backends)), "
            "'rule': c.rule, 'assumptions': c.assumptions, 'level': c.level, 'exhaustive': c.exhaustive, "
            "'docs': {g.name: g.doc for g in c.groups}}))" % (HERE, pid.lower()))
    p = subprocess.run([PYTHONS['slow'], '-c', code], env=worker_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, cwd=HERE)
    for line in p.stdout.decode('utf8', 'replace').splitlines():
        if line.startswith('@@'):
            return json.loads(line[2:]), None
    return None, p.stderr.decode('utf8', 'replace')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=8)
    args = ap.parse_args()

    if args.replay:
        with open(args.replay) as f:
            rec = json.load(f)
        return subprocess.call([PYTHONS[rec['backend']], '-m', 'pmv.worker', 'replay',
                                os.path.abspath(args.replay)], env=worker_env(), cwd=HERE)

    pid = args.property
    tier = args.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in LIMITS:
        tier = 'quick'
    seed = os.environ.get('VERIF_SEED', '1')
    try:
        seed_int = int(seed)
    except ValueError:
        seed_int = 1
    t0 = time.time()

    info, err = backends_of(pid)
    tmp = tempfile.mkdtemp(prefix='pmv-%s-' % pid)
    results = []
    errors = []
    import_failed = None
    try:
        if info is None:
            # either the harness or the tree cannot be imported
            import_failed = err
            info = {'backends': ['slow'], 'rule': '', 'assumptions': [], 'level': 'exploration',
                    'exhaustive': False, 'docs': {}}
        backends = info['backends']
        n = max(1, args.jobs // len(backends))
        procs = []
        for b in backends:
            for w in range(n):
                out = os.path.join(tmp, '%s-%d.json' % (b, w))
                log = open(os.path.join(tmp, '%s-%d.log' % (b, w)), 'wb')
                p = subprocess.Popen([PYTHONS[b], '-m', 'pmv.worker', 'run', out, pid, tier, str(seed_int),
                                      b, str(w), str(n)], env=worker_env(), cwd=HERE, stdout=log,
                                     stderr=log, stdin=subprocess.DEVNULL, start_new_session=True)
                procs.append((p, out, log, b, w))
        deadline = t0 + LIMITS[tier]
        for p, out, log, b, w in procs:
            try:
                p.wait(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                errors.append({'group': '(worker %s-%d)' % (b, w), 'message': 'time limit: inconclusive',
                               'trace': ''})
                continue
            log.close()
            if not os.path.exists(out):
                with open(log.name, 'rb') as f:
                    tail = f.read()[-3000:].decode('utf8', 'replace')
                errors.append({'group': '(worker %s-%d)' % (b, w),
                               'message': 'worker ended with status %s' % p.returncode, 'trace': tail})
                continue
            with open(out) as f:
                r = json.load(f)
            results.append(r)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    failures = []
    groups = collections.OrderedDict()
    hashes = set()
    samples = []
    known = []
    for r in results:
        failures.extend(r['failures'])
        errors.extend(r['errors'])
        hashes.update(r['hashes'])
        for line in r['known']:
            if line not in known:
                known.append(line)
        for name, st in r['groups'].items():
            key = '%s[%s]' % (name, st['backend'])
            g = groups.setdefault(key, {'evaluations': 0, 'discarded': 0, 'nontrivial': 0, 'labels': {},
                                        'what': info['docs'].get(name, '')})
            for k in ('evaluations', 'discarded', 'nontrivial'):
                g[k] += st[k]
            for k, v in st['labels'].items():
                g['labels'][k] = g['labels'].get(k, 0) + v
    seen_groups = collections.Counter()
    for r in results:
        for name, items in sorted(r['samples'].items()):
            for s in items:
                if seen_groups[name] < 3:
                    seen_groups[name] += 1
                    samples.append(s)

    failures.sort(key=lambda f: (f['index'], f['group'], f['backend']))
    wall = time.time() - t0
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed_int, 'level': info['level'],
        'coverage': {
            'evaluations': sum(g['evaluations'] for g in groups.values()),
            'distinct_nontrivial': len(hashes),
            'rule': info['rule'],
            'samples': samples[:40],
            'groups': groups,
            'exhaustive': bool(info['exhaustive']),
        },
        'assumptions': info['assumptions'],
        'wall_s': round(wall, 2),
        'violations': len(failures),
    }
    if known:
        evidence['coverage']['known_findings'] = known
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev_fn = os.path.join(HERE, 'evidence', '%s.json' % pid)
    with open(ev_fn + '.tmp', 'w') as f:
        json.dump(evidence, f, ensure_ascii=True, indent=1, sort_keys=True)
        f.write('\n')
    os.rename(ev_fn + '.tmp', ev_fn)

    for name, g in groups.items():
        print('%s %-34s %8d cases, %8d non-trivial, %6d discarded' % (
            pid, name, g['evaluations'], g['nontrivial'], g['discarded']))
    for line in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, line))
    print('%s: %d cases, %d distinct non-trivial, %.1f s, tier %s, seed %d' % (
        pid, evidence['coverage']['evaluations'], len(hashes), wall, tier, seed_int))

    if failures:
        f = failures[0]
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        fn = os.path.join(HERE, 'replays', '%s-%s-%s.json' % (pid, f['group'].strip('()'), f['backend']))
        rec = dict(f, property=pid, seed=seed_int, tier=tier)
        with open(fn, 'w') as out:
            json.dump(rec, out, ensure_ascii=True, indent=1)
            out.write('\n')
        print('group %s (%s), case %s: %s' % (f['group'], f['backend'], f['index'], f['message'][:2000]))
        for k, v in (f.get('notes') or {}).items():
            print('  %s = %s' % (k, json.dumps(v, ensure_ascii=False)[:1500]))
        print('VIOLATION property=%s replay=%s' % (pid, fn))
        return 1
    if errors or import_failed:
        for e in errors[:5]:
            print('HARNESS ERROR in %s: %s\n%s' % (e['group'], e['message'], e['trace']))
        if import_failed:
            print('HARNESS ERROR: cannot load the check\n%s' % import_failed)
        return 2
    if not groups or not any(g['evaluations'] for g in groups.values()):
        print('HARNESS ERROR: nothing was run')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
