# -*- coding: utf-8 -*-
"""C01: every token gets an analysis; UNKN exactly when nothing else is found."""
import math

from pmv import common as C
from pmv import findings
from pmv import schedule as S
from pmv.engine import Check, Group, Violation, require, require_equal
from pmv.refmodel import grammemes


def well_formed(morph, w, parses):
    require(isinstance(parses, list) and len(parses) > 0, 'parse(%r) found no analysis', w)
    for p in parses:
        require(len(p) == 5, 'an analysis of %r has %d fields', w, len(p))
        require(isinstance(p.word, str) and isinstance(p.normal_form, str), 'word/normal form of %r: %r', w, p)
        require(isinstance(p.tag, morph.TagClass), 'tag of %r is %r', w, p.tag)
        require(all(morph.TagClass.grammeme_is_known(g) for g in p.tag.grammemes), 'unknown grammeme in %s', p.tag)
        require(isinstance(p.score, float) and math.isfinite(p.score) and p.score >= 0, 'score of %r: %r', w, p)
        if w:
            require(p.word != '' and p.normal_form != '', 'empty word or normal form for %r: %r', w, p)


def unkn_rule(w, parses):
    """Is UNKN the only analysis?"""
    unkn = [p for p in parses if 'UNKN' in grammemes(str(p.tag))]
    for p in unkn:
        require_equal((p.word, str(p.tag), p.normal_form), (w.lower(), 'UNKN', w.lower()), 'UNKN analysis')
    return len(unkn) == len(parses)


def total(d, morph, w, ref=None):
    w = C.as_token(d, w)
    parses = morph.parse(w)
    well_formed(morph, w, parses)
    unknown = unkn_rule(w, parses)
    tags = morph.tag(w)
    require(len(tags) > 0, 'tag(%r) is empty', w)
    require_equal([str(t) for t in tags] == ['UNKN'], unknown, 'tag(%r) is UNKN only' % w)
    nf = morph.normal_forms(w)
    require(len(nf) > 0 and len(set(nf)) == len(nf), 'normal_forms(%r): %r', w, nf)
    for p in parses[:4] + parses[-1:]:
        require(len(p.lexeme) > 0, 'empty lexeme of %r', p)
        require(p.normalized is not None, 'no normalized form of %r', p)
        p.inflect({'plur'})
        p.inflect(set())
        p.make_agree_with_number(2)
    if ref is not None:
        # UNKN may come next to other analyses only if it is the analysis of what follows a known prefix
        expected = [p.tag for p in ref.parse(w)]
        require_equal(unknown, set(expected) == {'UNKN'}, 'is %r unknown' % w)
        require_equal(sum(str(p.tag) == 'UNKN' for p in parses), expected.count('UNKN'),
                      'number of UNKN analyses of %r' % w)
    d.label('unknown' if unknown else 'analysed')
    d.nontrivial(w)


def tokens(d, env):
    w = C.token(d, env)
    total(d, env.morph, w, env.ref)


def modelled(env, w):
    """The model does not say what numbers or Roman numbers with white space around them are."""
    return None if any(ch.isspace() for ch in w) else env.ref


ALPHABETS = [C.CYR, 'еёабкотс-', C.LATIN, 'IVXLCDM', C.DIGITS + '.,eE+-_', C.PUNCT, C.ODD, 'по-таки',
             'ґєіїўђљњћџѣѳѵ', ' \t\n\r\x0b\x1c\u00a0\u2003', '\u0300\u0306\u0308её']


def soup(d, env):
    """Short tokens over small alphabets, mixed."""
    n = d.integer(1, 4)
    w = ''.join(d.text(d.choice(ALPHABETS), 1, 4) for _ in range(n))
    if C.too_many_e(w):
        w = w.replace('е', 'о')
    d.note('word', w)
    total(d, env.morph, w, modelled(env, w))


def unicode_enum(d, env):
    """Every code point (quick: a slice of the BMP chosen by the seed), alone and next to a letter."""
    cp = CODEPOINTS(d, env)
    ch = chr(cp)
    form = d.draw(3)
    w = [ch, 'ж' + ch, ch + 'кот'][form]
    d.note('word', w)
    total(d, env.morph, w, modelled(env, w))


def CODEPOINTS(d, env):
    cp = 1 + d.draw(0x10fffe) if d.chance(1, 4) else 1 + d.draw(0xfffe)
    if 0xd800 <= cp < 0xe000 or cp <= 1:
        cp = 0x4db6
    if cp in (0x130, 0x131):
        cp = 0x132
    return cp


def empty_dictionary(d, env):
    """Small generated dictionaries: nearly nothing can be analysed."""
    c = C.gen_case(d, env)
    for _ in range(25):
        w = C.gen_word(d, c)
        total(d, c.morph, w, c.ref)


def known(d, env):
    """Tokens made of very many known prefixes: known findings."""
    if d.index == 0:
        w = 'супер' * 20000 + 'кошка'
        res = S.in_child(lambda: len(env.morph.parse(w)))
        findings.check(d, env, 'C01', 'C01-deep-prefix', 'ok' not in res, 'parse("супер" * 20000 + "кошка"): %s' % res.get('error'))
    else:
        w = 'недо' * 11 + 'кошка'

        def calls():
            n = [0]
            parse = env.morph.parse

            def counting(word):
                n[0] += 1
                return parse(word)
            env.morph.parse = counting
            env.morph.parse(w)
            return n[0]
        res = S.in_child(calls)
        if 'ok' not in res:
            raise Violation('parse(%r): %s %s' % (w, res['error'], res['trace']))
        findings.check(d, env, 'C01', 'C01-overlapping-prefixes', res['ok'] > 1 << 11, 'parse(%r) analyses %d words' % (w, res['ok']))
    d.nontrivial(w[:60])


CHECK = Check(
    'C01',
    'a case is one token (words and word-like inventions, numbers, punctuation, Latin, mixtures, arbitrary '
    'Unicode) or one generated dictionary with 25 tokens; non-trivial: the token was analysed and all API calls '
    'on the analyses were made (distinct by token)',
    [
        Group('tokens', tokens, 9000, 400000, C.real_env, ('slow', 'fast'), doc='generated tokens against the model'),
        Group('soup', soup, 9000, 400000, C.real_env, ('slow', 'fast'), doc='mixtures of small alphabets'),
        Group('unicode', unicode_enum, 9000, 600000, C.real_env, ('slow',), doc='code points'),
        Group('gendict', empty_dictionary, 120, 6000, C.GenEnv, ('fast',), doc='generated dictionaries'),
        Group('known', known, None, None, C.real_env, ('slow',), enum=lambda env: 2, doc='known findings'),
    ],
    assumptions=['tokens are at most about 60 characters long and have at most nine letters е',
                 'U+0000, U+0001 (the separator of the dictionary files) and lone surrogates are outside the domain'],
)
