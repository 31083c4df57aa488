# -*- coding: utf-8 -*-
"""C04: dictionary lookup is sound and complete."""
from pmv import common as C
from pmv.engine import Check, Group, require_equal
from pmv.langdata import RU_LETTERS
from pmv.refmodel import variants


def records(lex, ref, w):
    """(word, tag, normal form) of every record that matches the token, sorted."""
    return sorted(p.key() for p in ref.dict_parses(w.lower()))


def lookup(d, morph, ref, w):
    exp = records(ref.lex, ref, w)
    if not exp:
        return False
    got = C.lexeme_triples(morph.parse(w))
    require_equal(got, exp, 'analyses of the dictionary word %r' % w)
    if len(exp) > 1:
        d.nontrivial(w)
    return True


def words(d, env):
    w = C.dict_word(d, env)
    if d.chance(1, 2):
        w = C.unyo(d, w)
    if d.chance(1, 3):
        w = C.recase(d, w)
    if w in RU_LETTERS or C.too_many_e(w) or not env.ref.dict_parses(w.lower()):
        w = 'стали'     # (a few corpus words are not in the dictionary)
    d.note('word', w)
    if not lookup(d, env.morph, env.ref, w):
        from pmv.engine import Violation
        raise Violation('the dictionary has no %r' % w)


def neighbours(d, env):
    """Words near to a corpus word in the dictionary: the same first letters."""
    w = C.dict_word(d, env)
    prefix = w[:max(3, len(w) - d.integer(0, 3))]
    last = None
    n = 0
    for key in env.raw.words.iterkeys(prefix):
        if key == last or key in RU_LETTERS or C.too_many_e(key):
            continue
        last = key
        n += 1
        if n > 40:
            break
        d.note('word', key)
        lookup(d, env.morph, env.ref, key)
    d.label('words:%d' % n)


def sweep_prefixes(env):
    chars = C.CYR + "-'0123456789"
    return [a + b for a in chars for b in chars]


def sweep(d, env):
    """All words with two given first letters (thorough: the whole dictionary)."""
    prefix = sweep_prefixes(env)[d.index]
    last = None
    n = 0
    for key in env.raw.words.iterkeys(prefix):
        if key == last or key in RU_LETTERS or C.too_many_e(key):
            continue
        last = key
        n += 1
        require_equal(C.lexeme_triples(env.morph.parse(key)), records(env.raw, env.ref, key),
                      'analyses of the dictionary word %r' % key)
    d.note('prefix', prefix)
    d.note('words', n)
    if n:
        d.label('prefixes with words')
        d.nontrivial((prefix, n))


def gendict(d, env):
    c = C.gen_case(d, env, probs=d.chance(1, 4), big=True)
    for w in c.words[:80]:
        if C.too_many_e(w):
            continue
        for v in {w, w.replace('ё', 'е'), w.upper()}:
            if v in RU_LETTERS:
                continue
            lookup(d, c.morph, c.ref, v)
    # near misses are not dictionary words
    for _ in range(5):
        w = C.gen_word(d, c)
        if not records(c.lex, c.ref, w):
            C.compare_parses(c.morph.parse(w), c.ref.parse(w), 'parse(%r)' % w)


CHECK = Check(
    'C04', 'a case is a dictionary word (any case, е for ё), a run of neighbouring dictionary words, or a generated dictionary '
           'and all its words; non-trivial: the word has several records (distinct by word)',
    [
        Group('words', words, 9000, 500000, C.real_env, ('slow', 'fast')),
        Group('neighbours', neighbours, 300, 20000, C.real_env, ('slow',)),
        Group('gendict', gendict, 240, 8000, C.GenEnv, ('fast',)),
        Group('sweep', sweep, 0, None, C.real_env, ('slow',), enum=lambda env: len(sweep_prefixes(env)),
              doc='thorough: every word of the dictionary'),
    ])
