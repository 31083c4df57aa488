# -*- coding: utf-8 -*-
"""Defects of the code under test which are recorded instead of repaired (data/known_findings.json)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_data = None


def load():
    global _data
    if _data is None:
        with open(os.path.join(HERE, 'data', 'known_findings.json'), encoding='utf8') as f:
            _data = json.load(f)
    return _data


def listed(pid, fid):
    return any(k['property'] == pid and k['id'] == fid for k in load()['known'])


def line(pid, fid):
    for k in load()['known']:
        if k['property'] == pid and k['id'] == fid:
            return '%s: %s' % (fid, k['what'])
    raise KeyError(fid)


def check(d, env, pid, fid, violated, message):
    """A listed violation is reported as a known finding, another one as a violation."""
    if not violated:
        d.label('%s does not show' % fid)
        return
    if not listed(pid, fid):
        from pmv.engine import Violation
        raise Violation(message)
    env.known.append(line(pid, fid))
    d.label(fid)
