# -*- coding: utf-8 -*-
"""A process of the other venv which answers questions (one JSON document per line)."""
from __future__ import annotations

import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def plain(x):
    """A methods stack as data: units are shown by their class."""
    if isinstance(x, (tuple, list)):
        return [plain(y) for y in x]
    if isinstance(x, (str, int)):
        return x
    return type(x).__name__


def fields(p):
    return [p[0], str(p[1]), p[2], p[3], plain(p[4])]


def answer(morph, token, lexemes=2):
    """Everything the analyzer says about a token, as JSON data."""
    ps = morph.parse(token)
    res = {'parse': [fields(p) for p in ps], 'tag': [str(t) for t in morph.tag(token)], 'normal_forms': morph.normal_forms(token),
           'known': morph.word_is_known(token), 'known lower': morph.word_is_known(token.lower()), 'is_known': [p.is_known for p in ps[:5]]}
    for i, p in enumerate(ps[:lexemes]):
        res['lexeme %d' % i] = [fields(f) for f in p.lexeme]
        res['normalized %d' % i] = fields(p.normalized)
        f = p.inflect({'plur', 'gent'})
        res['inflect %d' % i] = f and fields(f)
        f = p.make_agree_with_number(3)
        res['agree %d' % i] = f and fields(f)
    return res


def iterate(morph, prefix, limit):
    res = []
    for p in morph.iter_known_word_parses(prefix):
        res.append(fields(p))
        if len(res) >= limit:
            break
    return res


def detuple(x):
    return tuple(detuple(y) for y in x) if isinstance(x, list) else x


class State(object):
    def __init__(self):
        self.morphs = {}

    def do(self, req):
        import pymorphy2
        op = req['op']
        if op == 'load':
            self.morphs[req['name']] = pymorphy2.MorphAnalyzer(**req['kw'])
            return True
        if op == 'drop':
            self.morphs.pop(req['name'], None)
            return True
        if op == 'answer':
            m = self.morphs[req['name']]
            return [answer(m, t) for t in req['tokens']]
        if op == 'iterate':
            return iterate(self.morphs[req['name']], req['prefix'], req['limit'])
        if op == 'match':
            from pymorphy2.dawg import PrefixMatcher
            m = PrefixMatcher(req['prefixes'])
            return [[sorted(set(m.prefixes(w))), bool(m.is_prefixed(w))] for w in req['words']]
        if op == 'module':
            from pymorphy2 import dawg
            return dawg.EXTENSION_AVAILABLE
        if op == 'old path':
            import pymorphy2_dicts
            return pymorphy2_dicts.get_path()
        if op == 'unpickle':
            import base64
            import pickle
            self.morphs[req['name']] = pickle.loads(base64.b64decode(req['data']))
            return True
        if op == 'say':
            from pmv import pickles
            m = self.morphs[req['name']]
            return [pickles.say(m, t) for t in req['tokens']]
        if op == 'questions':
            from pmv import questions
            m = self.morphs[req['name']]
            return [questions.ask(m, detuple(q))[1] for q in req['questions']]
        raise AssertionError(op)


def local(state, req):
    try:
        return {'ok': json.loads(json.dumps(state.do(req)))}
    except Exception as e:
        return {'error': '%s: %s' % (type(e).__name__, e)}


class Peer(object):
    """The other process."""

    def __init__(self, python='/opt/venv-slow/bin/python'):
        self.proc = subprocess.Popen([python, '-m', 'pmv.peer'], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     cwd=HERE, env=dict(os.environ, PYTHONPATH=HERE))

    def send(self, **req):
        self.proc.stdin.write((json.dumps(req) + '\n').encode('ascii'))
        self.proc.stdin.flush()

    def receive(self):
        line = self.proc.stdout.readline()
        if not line:
            raise RuntimeError('the peer process ended')
        return json.loads(line.decode('ascii'))

    def ask(self, **req):
        self.send(**req)
        return self.receive()

    def close(self):
        try:
            self.proc.stdin.close()
            self.proc.wait(10)
        except Exception:
            self.proc.kill()
            self.proc.wait()


def main():
    import logging
    import warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
    from pmv import engine
    sys.path.insert(0, engine.REPO)
    from pmv.worker import assert_tree
    assert_tree()
    state = State()
    out = sys.stdout
    sys.stdout = sys.stderr
    for line in sys.stdin:
        out.write(json.dumps(local(state, json.loads(line))) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
