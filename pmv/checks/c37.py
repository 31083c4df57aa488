# -*- coding: utf-8 -*-
"""C37: the rules of the Ukrainian language."""
import warnings

from pmv import common as C
from pmv import gendict as G
from pmv import langdata
from pmv.engine import Check, Discard, Group, Source, require, require_equal
from pmv.refmodel import RefAnalyzer, variants

ALPHA = 'агґеєиіїо'
PLAIN = 'абвгґеії'
FOREIGN = 'ґгеёиоэы'        # letters which Ukrainian does not have and does not substitute
LATIN = 'ivxabїга'           # words which look like Roman numbers and Latin words, too


class Env(C.GenEnv):
    pass


def load(path, **kw):
    import pymorphy2
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return pymorphy2.MorphAnalyzer(path=path, **kw)


def build(d, env, probs=None):
    o = G.gen_options(d)
    o['paradigm_prefixes'] = list(langdata.UK_PARADIGM_PREFIXES)
    kw = {'lang': 'uk'} if d.chance(1, 2) else {}
    d.note('language argument', kw)
    c = C.gen_case(d, env, config=C.UK_CONFIG, probs=d.chance(1, 2) if probs is None else probs, lang='uk', options=o,
                   alpha=d.choice([ALPHA, ALPHA, PLAIN, PLAIN, LATIN, FOREIGN]), big=d.chance(1, 4), morph_kw=kw)
    require_equal(c.morph.lang, 'uk', 'language')
    return c


def g_for(d, w):
    """Some ґ are written as г, or г as ґ (which is not allowed)."""
    k = d.draw(4)
    if k == 0:
        return ''.join('г' if ch == 'ґ' and d.chance(2, 3) else ch for ch in w)
    if k == 1:
        return w.replace('ґ', 'г')
    if k == 2 and d.chance(1, 2):
        return ''.join('ґ' if ch == 'г' and d.chance(1, 2) else ch for ch in w)
    return w


def uk_token(d, c):
    k = d.weighted([(8, 'word'), (2, 'initial'), (2, 'ru'), (2, 'roman'), (1, 'latin'), (1, 'number'), (1, 'punct'), (1, 'mix'), (2, 'prefix'), (2, 'twice')])
    if k == 'word':
        w = C.gen_word(d, c, ALPHA, ('авто', 'архі', 'псевдо', 'екс-', 'супер-', 'не', 'кіно'), langdata.UK_PARTICLES)
    elif k == 'initial':
        w = d.choice(langdata.UK_LETTERS + langdata.UK_LETTERS.lower() + 'ЬЪЫЭЁAI')
    elif k == 'ru':
        # what is special in Russian is not special here
        w = (d.choice(c.words) if c.words else 'га')
        w = d.choice(['по-' + w, w + '-то', w + '-ка', w + '-де', 'по-' + w + 'ому', 'по-' + w + 'ськи', 'наи' + w, 'экс-' + w])
    elif k == 'roman':
        w = d.text('IVXLCDMivx', 1, 4)
    elif k == 'latin':
        w = d.text('abcXIi', 1, 4)
    elif k == 'number':
        w = d.text('0123456789', 1, 4) + d.choice(['', ',', '.', '-']) + d.text('0123456789', 0, 2)
    elif k == 'punct':
        w = d.text(C.PUNCT, 1, 3)
    elif k == 'mix':
        w = d.text(ALPHA + 'abI1-\'’', 1, 8)
    elif k == 'prefix':
        w = d.choice(langdata.UK_PREFIXES) + (d.choice(c.words) if c.words else 'агіга')
    else:
        w = d.choice(langdata.UK_PREFIXES[:400] + langdata.UK_PARADIGM_PREFIXES) + C.gen_word(d, c, ALPHA, ('архі', 'екс-'), langdata.UK_PARTICLES)
    d.label('kind:' + k)
    w = g_for(d, w)
    if 'ё' in w and d.chance(1, 2):
        w = w.replace('ё', 'е')
    if len(w) > 40 or w.lower().count('г') > 9:
        raise Discard()
    return C.recase(d, w) if d.chance(1, 3) else w


def tokens(d, env):
    c = build(d, env)
    for _ in range(12):
        try:
            w = uk_token(d, c)
        except Discard:
            continue
        d.note('token', w)
        pairs = C.model_case(env, w, morph=c.morph, ref=c.ref)
        require_equal(sorted(set(str(t) for t in c.morph.tag(w))), sorted(set(p.tag for _, p in pairs)), 'tag(%r)' % w)
        for p, r in pairs[:2]:
            if r.has_both():
                continue
            require_equal(C.lexeme_triples(p.lexeme), C.ref_triples(c.ref.lexeme(r)), 'lexeme of %r' % (C.ptuple(p),))
        if pairs and pairs[0][1].kinds()[0] not in ('unkn', 'punct', 'number', 'latin'):
            d.label('by:' + pairs[0][1].kinds()[0])
            d.nontrivial((w, [r.key() for _, r in pairs]))


def known(d, env):
    """г may stand for ґ, ґ stands for itself; the same for iteration and lookup."""
    c = build(d, env, probs=False)
    if not c.words:
        raise Discard()
    for _ in range(10):
        w = g_for(d, d.choice(c.words))
        if d.chance(1, 4):
            a, b = d.choice(['её', 'ёе', 'иі', 'іи', 'ґг', 'ыи', 'иы', 'эе', 'еє', 'єе', 'їі'])
            w = w.replace(a, b)
        if w.count('г') > 9:
            continue
        vs = [v for v in variants(w, {'г': 'ґ'}) if v in c.lex._forms]
        d.note('word', w)
        require_equal(c.morph.word_is_known(w), bool(vs), 'word_is_known(%r)' % w)
        require_equal(c.morph.word_is_known(w, strict=True), w in c.lex._forms, 'word_is_known(%r, strict)' % w)
        if vs:
            ps = c.morph.parse(w)
            require_equal(sorted(set(p.word for p in ps if p.methods_stack[0][0].__class__.__name__ == 'DictionaryAnalyzer')), sorted(vs), 'spellings of %r' % w)
            if vs != [w]:
                d.label('respelled')
                d.nontrivial((w, tuple(vs)))


def prefixes(d, env):
    """Every documented prefix, in front of dictionary words."""
    prefix = langdata.UK_PREFIXES[d.index]
    d.note('prefix', prefix)
    for w in env.words:
        C.model_case(env, prefix + w, morph=env.morph, ref=env.ref)
    w = prefix + 'агогіґа'
    for w in (w, w.upper()):
        got = env.morph.parse(w)
        require(any(C.ptuple(p)[::2] == (w.lower(), w.lower()) and 'femn' in p.tag and 'UNKN' not in p.tag for p in got), 'prefix %r: %r', prefix, got)
    # also before a compound, which has a hyphen of its own
    w = prefix + 'агогіґа-гоґелі'
    if prefix.endswith('-'):
        got = env.morph.parse(w)
        require(any(p.word == w and 'UNKN' not in p.tag for p in got), 'prefix %r before a compound: %r', prefix, got)
    d.nontrivial(prefix)


def spec_of_prefixes():
    spec = G.Spec()
    nouns = ['агогіґа', 'гоґелі', 'їєга']
    for i, w in enumerate(nouns):
        spec.lemmas[str(i + 1)] = (w, ['NOUN', 'inan', 'femn'], [(w, ['sing', 'nomn']), (w[:-1] + 'и', ['sing', 'gent']), (w[:-1] + 'ам', ['plur', 'datv'])])
    spec.lemmas['10'] = ('гоіти', ['INFN', 'perf', 'intr'], [('гоіти', [])])
    spec.lemmas['11'] = ('щогі', ['CONJ'], [('щогі', [])])
    return spec


class PrefixEnv(C.GenEnv):
    """One dictionary."""

    def __init__(self):
        C.GenEnv.__init__(self)
        spec = spec_of_prefixes()
        o = {'min_ending_freq': 1, 'min_paradigm_popularity': 1, 'max_suffix_length': 5, 'paradigm_prefixes': langdata.UK_PARADIGM_PREFIXES}
        path = G.compile_spec(spec, self.scratch, o, lang='uk')
        self.morph = load(path)
        self.lex = G.GenLex(G.expected_lexemes(spec), o)
        self.ref = RefAnalyzer(self.lex, C.UK_CONFIG)
        self.words = ['агогіґа', 'агогіга', 'гогелам', 'гоіти', 'щогі', 'гі', 'кокого']


CHECK = Check(
    'C37', 'a case is a generated Ukrainian dictionary with 12 tokens, or a documented prefix; non-trivial: a token which is analysed by a rule for words; distinct by token and analyses',
    [
        Group('prefixes', prefixes, len(langdata.UK_PREFIXES), len(langdata.UK_PREFIXES), PrefixEnv, ('fast',)),
        Group('tokens', tokens, 900, 60000, Env, ('fast',)),
        Group('known', known, 500, 30000, Env, ('fast',)),
    ])
