# -*- coding: utf-8 -*-
"""C06: substitutable letters (е/ё)."""
import copy

from pmv import common as C
from pmv.engine import Check, Discard, Group, require, require_equal
from pmv.refmodel import Config, RefAnalyzer, variants
from pmv import langdata
from pmv.refmodel import RU_UNITS


def aligned(token, word, subs):
    """Is ``word`` the token with some letters replaced (one way)?"""
    return len(token) == len(word) and all(a == b or subs.get(a) == b for a, b in zip(token, word))


def spelled(d, morph, ref, w, lexemes=False):
    subs = ref.cfg.subs
    low = w.lower()
    parses = morph.parse(w)
    for p in parses:
        require(aligned(low, p.word, subs), 'the word %r is analysed as %r', w, p.word)
    pairs = C.model_case(None, w, morph=morph, ref=ref)
    require_equal(morph.word_is_known(w), any(ref.lex.forms(v) for v in variants(low, subs)), 'word_is_known(%r)' % w)
    require_equal(morph.word_is_known(w, strict=True), bool(ref.lex.forms(low)), 'word_is_known(%r, strict=True)' % w)
    if any(p.word != low for p in parses):
        d.label('respelled')
        d.nontrivial(w)
    for p, r in pairs[:3]:
        if not r.has_both():
            require_equal(C.lexeme_triples(p.lexeme), C.ref_triples(ref.lexeme(r)), 'lexeme of %r' % (p,))


def loses_nothing(d, morph, ref, w):
    """Analyses of a dictionary word survive when some ё are written as е."""
    if not ref.lex.forms(w):
        return spelled(d, morph, ref, w)
    strict = set(C.ptuple(p) for p in morph.parse(w) if p.word == w)
    v = ''.join(('е' if ch == 'ё' and d.chance(1, 2) else ch) for ch in w)
    d.note('spelling', v)
    got = set(C.ptuple(p) for p in morph.parse(v))
    require(strict <= got, 'parse(%r) has no %r, which parse(%r) has', v, sorted(strict - got)[:3], w)
    # one way: without any ё, only the words with the same ё remain
    got_strict = set(C.ptuple(p) for p in morph.parse(w))
    require(all(a == b for t in got_strict for a, b in zip(w, t[0]) if a == 'ё'), 'ё of %r is lost', w)
    if v != w:
        d.nontrivial((w, v))
        d.label('ё positions:%d' % sum(a != b for a, b in zip(v, w)))
    spelled(d, morph, ref, v)
    spelled(d, morph, ref, w)


def yo(env):
    if not hasattr(env, 'yo'):
        env.yo = [w for w in env.words if 'ё' in w]
        env.yo2 = [w for w in env.yo if w.count('ё') > 1]
    return env.yo


def dict_words(d, env):
    yo(env)
    w = d.choice(env.yo2 if env.yo2 and d.chance(1, 4) else env.yo)
    if C.too_many_e(w.replace('ё', 'е')):
        raise Discard()
    d.note('word', w)
    loses_nothing(d, env.morph, env.ref, w)


def minimal_pairs(d, env):
    """Dictionary words which differ in е/ё only."""
    if not hasattr(env, 'pairs'):
        env.pairs = [w for w in yo(env) if len(env.ref.dict_parses(w.replace('ё', 'е'))) > len(env.ref.dict_parses(w))]
    w = d.choice(env.pairs)
    d.note('word', w)
    spelled(d, env.morph, env.ref, C.recase(d, w.replace('ё', 'е')))
    spelled(d, env.morph, env.ref, w)


def derived(d, env):
    w = d.choice(yo(env))
    k = d.draw(6)
    if k == 0:
        w = C.pseudo_stem(d) + w[-d.integer(2, 6):]
    elif k == 1:
        w = d.choice(langdata.RU_PREFIXES) + w
    elif k == 2:
        w = d.text(C.CYR, 1, 5) + w
    elif k == 3:
        w = w + d.choice(langdata.RU_PARTICLES)
    elif k == 4:
        w = C.similar_word(d, env, w) + '-' + w
    else:
        w = w + '-' + C.similar_word(d, env, w)
    w = C.unyo(d, w)
    if d.chance(1, 4):
        w = C.recase(d, w)
    if d.chance(1, 4):
        # a ё where there was none
        es = [i for i, ch in enumerate(w) if ch == 'е']
        if es:
            i = d.choice(es)
            w = w[:i] + 'ё' + w[i + 1:]
    if C.too_many_e(w):
        raise Discard()
    d.note('word', w)
    spelled(d, env.morph, env.ref, w)


class Exact(object):
    def __init__(self):
        base = C.real_env()
        import pymorphy2
        self.morph = pymorphy2.MorphAnalyzer(char_substitutes={})
        self.raw = base.raw
        cfg = copy.copy(C.RU_CONFIG)
        cfg.subs = {}
        self.ref = RefAnalyzer(self.raw, cfg)
        self.words = base.words
        self.known = []


def exact(d, env):
    yo(env)
    w = d.choice(env.yo) if d.chance(2, 3) else C.any_word(d, env)
    w = C.unyo(d, w)
    d.note('word', w)
    spelled(d, env.morph, env.ref, w)
    if 'е' in w.lower():
        d.nontrivial(w)


TABLES = [{'е': 'ё'}, {}, {'а': 'о'}, {'е': 'ё', 'а': 'о'}, {'о': 'а', 'а': 'о'}, {'г': 'д', 'е': 'ё'}, {'ё': 'е'},
          {'а': 'о', 'г': 'д', 'е': 'ё'}, {'б': 'г', 'г': 'д', 'о': 'а', 'е': 'ё'}, {'д': 'б', 'о': 'ё', 'а': 'е'}]


def gendict(d, env):
    subs = dict(d.choice(TABLES))
    cfg = Config(langdata.RU_LETTERS, langdata.RU_PARTICLES, subs, langdata.RU_PREFIXES, RU_UNITS)
    d.note('substitutes', subs)
    c = C.gen_case(d, env, config=cfg, alpha='бгдеёёео' if d.chance(1, 2) else 'агдеёо', morph_kw={'char_substitutes': subs},
                   probs=d.chance(1, 4))
    for _ in range(25):
        w = C.gen_word(d, c, alpha='агдеёо')
        if sum(ch in subs for ch in w.lower()) > 8:
            continue
        spelled(d, c.morph, c.ref, w)
    for w in c.words[:20]:
        if subs == {'е': 'ё'} and not C.too_many_e(w.replace('ё', 'е')):
            loses_nothing(d, c.morph, c.ref, w)


CHECK = Check(
    'C06', 'a case is a word with substitutable letters and a subset of positions, or a generated dictionary with a substitution '
           'table and 25-45 tokens; non-trivial: some analysis is spelled differently from the token',
    [
        Group('dict-words', dict_words, 4000, 200000, C.real_env, ('slow', 'fast')),
        Group('minimal-pairs', minimal_pairs, 800, 30000, C.real_env, ('slow',)),
        Group('derived', derived, 3500, 200000, C.real_env, ('slow', 'fast')),
        Group('exact', exact, 2500, 100000, Exact, ('slow',), doc='char_substitutes={}'),
        Group('gendict', gendict, 280, 8000, C.GenEnv, ('fast',)),
    ],
    assumptions=['tokens have at most nine substitutable letters (the number of spellings is exponential)'])
