# -*- coding: utf-8 -*-
"""C27: fast and pure-Python DAWG backends give the same results."""
import atexit

from pmv import common as C
from pmv import findings
from pmv import langdata
from pmv import gendict as G
from pmv import peer as P
from pmv.engine import Check, Group, Violation, require, require_equal


class Env(C.Env):
    def __init__(self):
        C.Env.__init__(self)
        self.peer = P.Peer()
        self.state = P.State()
        self.state.morphs['default'] = self.morph
        assert self.peer.ask(op='module') == {'ok': False}
        assert P.local(self.state, {'op': 'module'}) == {'ok': True}
        self.scratch = G.Scratch()
        self.both(op='load', name='default', kw={}, local=False)
        self.both(op='load', name='no-substitutes', kw={'char_substitutes': None, 'probability_estimator_cls': None})
        # the installed dictionary of the old layout
        path = self.peer.ask(op='old path')['ok']
        self.both(op='load', name='old', kw={'path': path})

    def both(self, local=True, **req):
        self.peer.send(**req)
        mine = P.local(self.state, req) if local else None
        theirs = self.peer.receive()
        if not local:
            assert 'ok' in theirs, theirs
            return None
        if 'error' in mine and 'error' in theirs and mine == theirs:
            raise Violation('both backends fail: %s' % mine['error'])
        if mine != theirs:
            raise Violation('the backends differ: %s' % difference(mine, theirs))
        return mine['ok']

    def close(self):
        """After every group: the peer goes on until the process ends."""
        self.scratch.clear()


def difference(a, b):
    if 'error' in a or 'error' in b:
        return 'extension: %s; pure Python: %s' % (str(a)[:300], str(b)[:300])
    a, b = a['ok'], b['ok']
    if isinstance(a, list) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                if isinstance(x, dict):
                    for k in x:
                        if x[k] != y.get(k):
                            return '%s: extension %r, pure Python %r' % (k, x[k], y.get(k))
                return 'extension %r, pure Python %r' % (x, y)
    return 'extension %r, pure Python %r' % (a, b)


_env = []


def setup():
    if not _env:
        _env.append(Env())
        atexit.register(_env[0].peer.close)
        atexit.register(_env[0].scratch.close)
    return _env[0]


def tokens(d, env):
    ts = [C.token(d, env) for _ in range(6)]
    d.note('tokens', ts)
    for name in ('default', 'default', d.choice(['no-substitutes', 'old'])):
        if name != 'default':
            ts = ts[:3]
        env.both(op='answer', name=name, tokens=ts)
    for t in ts:
        d.nontrivial(t)


def old(d, env):
    """The same for the old dictionary, compared with the model too."""
    ts = [C.recase(d, C.any_word(d, env)) for _ in range(4)]
    d.note('tokens', ts)
    env.both(op='answer', name='old', tokens=ts)
    for t in ts:
        d.nontrivial(t)


def iteration(d, env):
    w = C.dict_word(d, env)
    prefix = w[:d.integer(1, len(w))]
    d.note('prefix', prefix)
    env.both(op='iterate', name=d.choice(['default', 'old']), prefix=prefix, limit=80)
    d.nontrivial(prefix)


def matchers(d, env):
    alpha = d.choice(['аб', 'аб-', 'abа́é一', 'не-по'])
    if d.chance(1, 3):
        prefixes = d.choice([langdata.RU_PREFIXES, langdata.UK_PREFIXES])
        words = [d.choice(prefixes)[:d.integer(1, 9)] + d.choice(['', d.choice(prefixes), C.dict_word(d, env), '-']) for _ in range(12)]
    elif d.chance(1, 2):
        # words which share their beginnings, some of them up to the last letter of a long prefix
        stem = d.choice(langdata.RU_PREFIXES) + d.text(alpha, 0, 6)
        prefixes = [stem[:d.integer(1, len(stem))] + d.choice(['', '', d.text(alpha, 1, 2)]) for _ in range(d.integer(2, 9))]
        words = [stem[:d.integer(0, len(stem))] + d.choice(['', '', d.text(alpha, 1, 3)]) for _ in range(14)]
        words += [p + d.choice(['', 'кошка']) for p in prefixes]
        words = d.shuffle(words)
    else:
        prefixes = [d.text(alpha, 1, 5) for _ in range(d.integer(0, 8))]
        words = [d.text(alpha, 0, 8) for _ in range(12)] + prefixes
    if len(prefixes) < 50:
        d.note('prefixes', prefixes)
    d.note('words', words)
    got = env.both(op='match', prefixes=prefixes, words=words)
    for w, (ps, flag) in zip(words, got):
        require_equal(ps, sorted(set(p for p in prefixes if w.startswith(p))), 'prefixes of %r' % w)
        require_equal(flag, bool(ps), 'is_prefixed(%r)' % w)
        if ps:
            d.nontrivial((w, ps))


def gendict(d, env):
    c = C.gen_case(d, env, probs=d.chance(1, 2), alpha=d.choice([G.ALPHA, 'аеё', 'abеё\'', 'іїґг']))
    kw = {'path': c.path, 'char_substitutes': d.choice([{'е': 'ё'}, {'е': 'ё'}, {'г': 'ґ'}, {'а': 'б', 'е': 'ё'}, None])}
    d.note('char_substitutes', kw['char_substitutes'])
    env.both(op='load', name='g', kw=kw)
    words = [w for w in (C.gen_word(d, c) for _ in range(12)) if sum(w.count(x) for x in 'еаг') < 9]
    d.note('words', words)
    env.both(op='answer', name='g', tokens=words)
    env.both(op='iterate', name='g', prefix=d.choice(['', '', 'а', 'б', 'по']), limit=500)
    env.both(op='drop', name='g')
    d.nontrivial()


def known(d, env):
    """U+0000: a known finding."""
    w = 'кот\x00'
    try:
        env.both(op='answer', name='default', tokens=[w])
    except Violation as e:
        findings.check(d, env, 'C27', 'C27-null', True, str(e))
    d.nontrivial(w)


CHECK = Check(
    'C27', 'a case is a few tokens, a prefix, a prefix set or a generated dictionary; the process with the DAWG extension and a process with the pure-Python package are asked the same questions '
           'and all answers (analyses with scores and methods, tags, lexemes, inflections, known words, in order) have to be equal; non-trivial: distinct tokens and prefixes',
    [
        Group('tokens', tokens, 900, 60000, setup, ('fast',)),
        Group('old', old, 500, 30000, setup, ('fast',), doc='the installed old-format dictionary'),
        Group('iteration', iteration, 500, 20000, setup, ('fast',)),
        Group('matchers', matchers, 2000, 60000, setup, ('fast',)),
        Group('known', known, None, None, setup, ('fast',), enum=lambda env: 1, doc='known finding'),
        Group('gendict', gendict, 160, 6000, setup, ('fast',)),
    ])
