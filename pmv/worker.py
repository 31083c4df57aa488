# -*- coding: utf-8 -*-
"""Worker process: runs (a share of) the groups of one check in one venv.

    python -m pmv.worker run    OUT.json PID TIER SEED BACKEND WORKER NWORKERS
    python -m pmv.worker replay REPLAY.json
"""
from __future__ import annotations

import importlib
import json
import logging
import os
import sys
import traceback


def assert_tree():
    from pmv.engine import REPO
    import pymorphy2
    want = os.path.join(REPO, 'pymorphy2') + os.sep
    if not os.path.abspath(pymorphy2.__file__).startswith(want):
        raise RuntimeError('pymorphy2 is imported from %s, not from %s' % (pymorphy2.__file__, want))


def load(pid):
    return importlib.import_module('pmv.checks.' + pid.lower()).CHECK


def main(argv):
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter('ignore')
    from pmv import engine
    if engine.REPO != '/repo' or True:
        sys.path.insert(0, engine.REPO)
    if argv[0] == 'replay':
        with open(argv[1]) as f:
            rec = json.load(f)
        assert_tree()
        check = load(rec['property'])
        group = check.group(rec['group'])
        env = group.setup() if group.setup else None
        if rec.get('choices') is None:
            print('replay: setup finished')
            return 0
        d = engine.Source(choices=rec['choices'], index=rec['index'])
        out = engine.run_case(group, d, env)
        print('replay of %s/%s: %s %s' % (rec['property'], rec['group'], out.kind, out.message))
        for k, v in d.notes.items():
            print('  %s: %r' % (k, v))
        if out.trace:
            print(out.trace)
        if env is not None and hasattr(env, 'close'):
            env.close()
        return {'ok': 0, 'discard': 0, 'violation': 1}.get(out.kind, 2)

    _, out_fn, pid, tier, seed, backend, worker, nworkers = argv
    result = {'groups': {}, 'failures': [], 'errors': [], 'samples': {}, 'hashes': set(), 'known': []}
    only = os.environ.get('PMV_GROUPS')
    try:
        try:
            assert_tree()
        except Exception as e:
            tb = sys.exc_info()[2]
            kind = 'failures' if engine.from_code_under_test(tb) else 'errors'
            result[kind].append({'group': '(import)', 'backend': backend, 'index': -1, 'choices': None,
                                 'message': 'importing pymorphy2: %s: %s' % (type(e).__name__, e),
                                 'trace': traceback.format_exc(), 'notes': {}})
        else:
            check = load(pid)
            for group in check.groups:
                if backend not in group.backends:
                    continue
                if only and group.name not in only.split(','):
                    continue
                engine.run_group(check, group, tier, seed, backend, int(worker), int(nworkers), result)
                if result['failures'] or result['errors']:
                    break
    except Exception as e:
        kind = 'failures' if engine.from_code_under_test(sys.exc_info()[2]) else 'errors'
        result[kind].append({'group': '(worker)', 'backend': backend, 'index': -1, 'choices': None,
                             'message': '%s: %s' % (type(e).__name__, e),
                             'trace': traceback.format_exc(), 'notes': {}})
    result['hashes'] = sorted(result['hashes'])
    with open(out_fn + '.tmp', 'w') as f:
        json.dump(engine.jsonable(result), f)
    os.rename(out_fn + '.tmp', out_fn)
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
