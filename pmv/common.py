# -*- coding: utf-8 -*-
"""Environments and generators shared by the checks."""
from __future__ import annotations

import os

from pmv import langdata
from pmv.engine import Discard, Violation, require
from pmv.refmodel import RU_UNITS, UK_UNITS, Config, RawDict, RefAnalyzer, productive

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

RU_CONFIG = Config(langdata.RU_LETTERS, langdata.RU_PARTICLES, langdata.RU_SUBS, langdata.RU_PREFIXES, RU_UNITS)
UK_CONFIG = Config(langdata.UK_LETTERS, langdata.UK_PARTICLES, langdata.UK_SUBS, langdata.UK_PREFIXES, UK_UNITS)

CYR = 'абвгдежзийклмнопрстуфхцчшщъыьэюяё'
VOWELS = 'аеиоуыэюяё'
CONS = 'бвгджзйклмнпрстфхцчшщ'

_words = None


def corpus():
    global _words
    if _words is None:
        with open(os.path.join(HERE, 'data', 'ru_words.txt'), encoding='utf8') as f:
            _words = f.read().split('\n')[:-1]
    return _words


def dict_path():
    import pymorphy2_dicts_ru
    return pymorphy2_dicts_ru.get_path()


class Env(object):
    """Real dictionary: the analyzer under test, the raw files and the model."""

    def __init__(self, **kw):
        import pymorphy2
        self.morph = pymorphy2.MorphAnalyzer(**kw)
        self.raw = RawDict(dict_path())
        self.ref = RefAnalyzer(self.raw, RU_CONFIG)
        self.words = corpus()
        self.hyphenated = [w for w in self.words if '-' in w]
        self.known = []


_env = None


def real_env():
    """One analyzer per worker process for checks that only read."""
    global _env
    if _env is None:
        _env = Env()
    return _env


# ---------------------------------------------------------------- words

def dict_word(d, env):
    return d.choice(env.words)


class Token(str):
    """A token as other libraries return them: a string with something more."""


def as_token(d, w):
    if d.chance(1, 8):
        d.label('subclass of str')
        return Token(w)
    return w


def plain_word(d, env):
    w = d.choice(env.words)
    return w if '-' not in w else w.replace('-', '')


def long_stem(d):
    """Nothing in the rules depends on how long a word is."""
    return d.text('бвгднрт', 1, 2) + d.text('абвгдоукнрт', 25, 120)


def pseudo_stem(d, lo=1, hi=4):
    if d.chance(1, 25):
        d.label('long')
        return long_stem(d)
    n = d.integer(lo, hi)
    return ''.join(d.choice(CONS) + d.choice(VOWELS) for _ in range(n))[:max(1, 2 * n - d.integer(0, 1))]


def suffix_word(d, env):
    w = plain_word(d, env)
    k = d.integer(1, 6)
    return pseudo_stem(d) + w[-k:]


def known_prefix_word(d, env):
    return d.choice(langdata.RU_PREFIXES) + dict_word(d, env)


def unknown_prefix_word(d, env):
    return d.text(CYR, 1, 5) + plain_word(d, env)


def compound(d, env):
    a = plain_word(d, env)
    if d.chance(1, 25):
        d.label('long')
        return long_stem(d) + a[-4:] + '-' + plain_word(d, env)
    if d.chance(1, 2):
        # make halves agree more often: same paradigm class
        b = plain_word(d, env)
    else:
        b = similar_word(d, env, a)
    return a + '-' + b


def similar_word(d, env, word):
    """Another word with an analysis of the same part of speech and form."""
    feats = set(env.ref._features(p.tag) for p in env.ref.dict_parses(word))
    start = d.draw(len(env.words))
    for k in range(60):
        w = env.words[(start + k * 37) % len(env.words)]
        if '-' in w:
            continue
        if any(env.ref._features(p.tag) in feats for p in env.ref.dict_parses(w)):
            return w
    return env.words[start].replace('-', '')


def particle_word(d, env):
    return base_word(d, env) + d.choice(langdata.RU_PARTICLES)


def adverb_word(d, env):
    w = plain_word(d, env)
    if d.chance(3, 4):
        # prefer adjectives in the dative case
        start = d.draw(len(env.words))
        for k in range(200):
            c = env.words[(start + k * 31) % len(env.words)]
            if '-' not in c and (c.endswith('ому') or c.endswith('ему') or c.endswith('ой')):
                w = c
                break
    return 'по-' + w


def base_word(d, env):
    return d.weighted([(4, dict_word), (1, suffix_word), (1, unknown_prefix_word), (1, known_prefix_word)])(d, env)


def unyo(d, word):
    """Replace some ё by е."""
    if 'ё' not in word:
        return word
    return ''.join(('е' if ch == 'ё' and d.chance(2, 3) else ch) for ch in word)


def recase(d, word):
    k = d.draw(4)
    if k == 0:
        return word
    if k == 1:
        return word.upper()
    if k == 2:
        return word[:1].upper() + word[1:]
    return ''.join(ch.upper() if d.chance(1, 2) else ch for ch in word)


WORD_KINDS = [
    (6, ('dict', dict_word)), (3, ('known-prefix', known_prefix_word)), (3, ('unknown-prefix', unknown_prefix_word)),
    (4, ('suffix', suffix_word)), (4, ('compound', compound)), (2, ('particle', particle_word)),
    (1, ('adverb', adverb_word)),
]


def too_many_e(word):
    return word.lower().count('е') > 9


def any_word(d, env, kinds=WORD_KINDS, nested=True):
    """A Russian word-like token of some kind (labelled); length is bounded."""
    name, fn = d.weighted(kinds)
    w = fn(d, env)
    if nested and d.chance(1, 10):
        extra = d.draw(3)
        if extra == 0:
            w = d.choice(langdata.RU_PREFIXES) + w
            name += '+kp'
        elif extra == 1:
            w = w + d.choice(langdata.RU_PARTICLES)
            name += '+part'
        else:
            w = 'по-' + w
            name += '+po'
    w = unyo(d, w)
    if len(w) > 200 or too_many_e(w):
        raise Discard()
    d.label('kind:' + name)
    d.note('word', w)
    return w


# tokens that are not words

PUNCT = '.,:;!?-–—…()[]{}«»"\'/\\*&@#%_¿¡‰†'
SYMBOLS = '+=<>|~^`$€№©°×'
ROMAN_CHARS = 'IVXLCDMivxlcdm'
LATIN = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZéüßñøşžĐ'
DIGITS = '0123456789'
ODD = 'ªºʰⅧ½²١٣一あΩжאαßſ\u0301\u200d\u00ad\ufeff'


def junk_char(d):
    for _ in range(20):
        k = d.draw(4)
        if k == 0:
            c = d.integer(0x20, 0x24f)
        elif k == 1:
            c = d.integer(0x250, 0x2fff)
        elif k == 2:
            c = d.integer(0x3000, 0xffff)
        else:
            c = d.integer(0x10000, 0x10ffff)
        # (White space and dotless/dotted i are left out: see the domain in DESIGN.md.)
        if not 0xd800 <= c < 0xe000 and c not in (0x130, 0x131) and not chr(c).isspace():
            return chr(c)
    return '!'


def token(d, env):
    """Any token: words, numbers, punctuation, latin, mixtures, arbitrary unicode."""
    k = d.weighted([(10, 'word'), (2, 'number'), (2, 'punct'), (2, 'latin'), (2, 'roman'), (3, 'mix'), (3, 'junk'),
                    (1, 'letter'), (1, 'empty')])
    if k == 'word':
        return recase(d, any_word(d, env))
    d.label('kind:' + k)
    if k == 'number':
        w = d.choice(['', '', '-', '+']) + d.text(DIGITS, 1, 8) + d.choice(['', '', '.', ',']) + d.text(DIGITS, 0, 4)
    elif k == 'punct':
        w = d.text(PUNCT + SYMBOLS, 1, 4)
    elif k == 'latin':
        w = d.text(LATIN + "-'0", 1, 10)
    elif k == 'roman':
        w = d.text(ROMAN_CHARS, 1, 8)
    elif k == 'mix':
        w = d.text(CYR + CYR.upper() + LATIN + DIGITS + PUNCT + ODD, 1, 12)
    elif k == 'junk':
        w = ''.join(junk_char(d) for _ in range(d.integer(1, 6)))
    elif k == 'letter':
        w = d.choice(CYR.upper() + CYR)
    else:
        w = ''
    d.note('word', w)
    return w


# ---------------------------------------------------------------- parses

def ptuple(p):
    """(word, tag string, normal form)"""
    return (p[0], str(p[1]), p[2])


def close(a, b, eps=1e-9):
    return abs(a - b) <= eps * max(1.0, abs(a), abs(b))


def compare_parses(got, expected, what, scores=True):
    """got: parses of the code under test; expected: reference parses (multisets)."""
    g = sorted((p[0], str(p[1]), p[2], p[3]) for p in got)
    e = sorted((p.word, p.tag, p.normal, p.score) for p in expected)
    if [x[:3] for x in g] != [x[:3] for x in e]:
        gs, es = [x[:3] for x in g], [x[:3] for x in e]
        extra = list(gs)
        missing = []
        for x in es:
            if x in extra:
                extra.remove(x)
            else:
                missing.append(x)
        raise Violation('%s: missing analyses %r, unexpected analyses %r' % (what, missing[:6], extra[:6]))
    if scores:
        for a, b in zip(g, e):
            if not close(a[3], b[3]):
                raise Violation('%s: score of %r is %r, expected %r' % (what, a[:3], a[3], b[3]))


def match_reference(got, expected):
    """Pair parses with reference parses (by word/tag/normal form/score, then by position)."""
    pool = list(expected)
    res = []
    for p in got:
        for i, r in enumerate(pool):
            if (r.word, r.tag, r.normal) == ptuple(p) and close(r.score, p[3]):
                res.append((p, pool.pop(i)))
                break
        else:
            raise Violation('no reference analysis for %r' % (tuple(p[:4]),))
    return res


# ---------------------------------------------------------------- model comparison

def model_case(env, w, scores=True, morph=None, ref=None):
    """parse(w) has to be what the model says; returns [(parse, reference parse)]."""
    got = (morph or env.morph).parse(w)
    exp = (ref or env.ref).parse(w)
    compare_parses(got, exp, 'parse(%r)' % w, scores)
    return match_reference(got, exp)


def lexeme_triples(parses):
    return sorted((p[0], str(p[1]), p[2]) for p in parses)


def lexeme_list(parses):
    """With the order."""
    return [(p[0], str(p[1]), p[2]) for p in parses]


def ref_triples(parses):
    return sorted(p.key() for p in parses)


def ref_list(parses):
    return [p.key() for p in parses]


# ---------------------------------------------------------------- generated dictionaries

class GenEnv(object):
    """Environment of groups which compile a random dictionary in every case."""

    def __init__(self):
        from pmv import gendict
        self.scratch = gendict.Scratch()
        self.known = []

    def close(self):
        self.scratch.close()


class GenCase(object):
    pass


def gen_probs(d, lexemes):
    """Random P(t|w): [(word, tag)] -> probability; complete or partial for a word."""
    by_word = {}
    for forms in lexemes:
        for w, t in forms:
            by_word.setdefault(w, [])
            if t not in by_word[w]:
                by_word[w].append(t)
    probs = {}
    for w in sorted(by_word):
        tags = by_word[w]
        closed = [t for t in tags if not productive(t)]
        if closed and len(closed) < len(tags) and d.chance(1, 2):
            # estimates for the analyses which are never a part of other words
            tags = closed
        elif not d.chance(1, 3):
            continue
        for t in tags:
            if d.chance(4, 5):
                probs[w, t] = d.integer(0, 1000) / 1000
    return probs


def write_probs(path, probs):
    """Add a P(t|w) file to a compiled dictionary (needs the DAWG extension)."""
    import json

    import dawg
    data = [('%s:%s' % k, int(round(v * 1000000))) for k, v in sorted(probs.items())]
    dawg.IntCompletionDAWG(data).save(os.path.join(path, 'p_t_given_w.intdawg'))
    fn = os.path.join(path, 'meta.json')
    with open(fn, encoding='utf8') as f:
        meta = json.load(f)
    meta.append(['P(t|w)', True])
    with open(fn, 'w', encoding='utf8') as f:
        json.dump(meta, f, ensure_ascii=False)


def gen_case(d, env, config=None, probs=False, lang='ru', links=True, alpha=None, big=False, options=None,
             morph_kw=None, keep=False):
    """Compile a random dictionary with the code under test and load it; build the model of it."""
    import pymorphy2

    from pmv import gendict as G
    c = GenCase()
    c.options = options or G.gen_options(d)
    c.spec = G.gen_spec(d, options=c.options, links=links, alpha=alpha or G.ALPHA, big=big)
    c.lexemes = G.expected_lexemes(c.spec)
    d.note('dictionary', G.describe(c.spec))
    d.note('options', c.options)
    if not keep:
        env.scratch.clear()
    c.path = G.compile_spec(c.spec, env.scratch, c.options, lang=lang)
    c.probs = None
    if probs and c.lexemes:
        p = gen_probs(d, c.lexemes)
        if any(p.values()):
            c.probs = dict((k, int(round(v * 1000000)) / 1000000) for k, v in p.items())
            write_probs(c.path, p)
    kw = dict(morph_kw or {})
    c.morph = pymorphy2.MorphAnalyzer(path=c.path, **kw)
    c.lex = G.GenLex(c.lexemes, c.options, c.probs)
    c.ref = RefAnalyzer(c.lex, config or RU_CONFIG)
    c.words = sorted(c.lex._forms)
    return c


def gen_word(d, c, alpha=None, prefixes=('авто', 'псевдо', 'не', 'экс-'), particles=('-то', '-ка')):
    """A token related to a generated dictionary."""
    from pmv import gendict as G
    alpha = alpha or G.ALPHA
    base = d.choice(c.words) if c.words else d.text(alpha, 1, 4)
    k = d.draw(8)
    if k == 0:
        w = base
    elif k == 1:
        w = d.text(alpha, 1, 3) + base
    elif k == 2:
        w = d.text(alpha, 1, 4) + base[-d.integer(1, 4):]
    elif k == 3:
        w = d.choice(prefixes) + base
    elif k == 4:
        w = base + '-' + (d.choice(c.words) if c.words else d.text(alpha, 1, 4))
    elif k == 5:
        w = base + d.choice(particles)
    elif k == 6:
        w = 'по-' + base
    else:
        w = d.text(alpha, 1, 7)
    if d.chance(1, 25):
        # long words: at the beginning, or before the hyphen
        w = d.choice(['', '', d.choice(prefixes)]) + d.text([x for x in alpha if x.lower() not in 'аегґиоыё'] or 'дпк', 25, 90) + w
        d.label('long')
    if d.chance(1, 2):
        w = unyo(d, w)
    if too_many_e(w):
        raise Discard()
    d.label('gen:%d' % k)
    d.note('word', w)
    return w
