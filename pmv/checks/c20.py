# -*- coding: utf-8 -*-
"""C20: hyphenated words are analysed through their parts."""
from pmv import common as C
from pmv import langdata
from pmv.engine import Check, Discard, Group, require, require_equal
from pmv.refmodel import FEATURES, POS, Config, RefAnalyzer, grammeme_tuple, grammemes


def triples(parses):
    return sorted(C.ptuple(p) for p in parses)


def features(tag):
    return frozenset({'gen1': 'gent', 'loc1': 'loct'}.get(g, g) for g in grammemes(tag) & FEATURES)


def earlier(ref, w):
    """Handled before the rules for hyphens?"""
    lower = w.lower()
    return bool(ref.dict_parses(lower) or ref.u_number(w, lower, set()) or ref.u_punct(w, lower, set()) or
                ref.u_roman(w, lower, set()) or ref.u_latin(w, lower, set()))


def particle(d, env):
    base = C.base_word(d, env) if d.chance(4, 5) else C.compound(d, env)
    if d.chance(1, 5):
        base += d.choice(langdata.RU_PARTICLES)
    part = d.choice(langdata.RU_PARTICLES)
    w = base + part
    if C.too_many_e(w) or earlier(env.ref, w):
        raise Discard()
    d.note('word', w)
    if d.chance(1, 4):
        w = C.recase(d, w)
    # which particle it is does not depend on their order: none of them ends with another one
    want = set((p.word + part, str(p.tag), p.normal_form + part) for p in env.morph.parse(base.lower()))
    got = env.morph.parse(w)
    if any(r.has_both() for r in env.ref.parse(base.lower())):
        # analyses of a compound with the same word, tag and paradigm are listed once
        require_equal(set(t[:2] for t in triples(got)), set(t[:2] for t in want), 'words and tags of parse(%r)' % w)
        require(set(triples(got)) <= want, 'parse(%r): %r', w, got)
    else:
        require_equal(set(triples(got)), want, 'parse(%r)' % w)
    C.model_case(env, w)
    for p in got[:2]:
        require(all(f.word.endswith(part) and f.normal_form.endswith(part) for f in p.lexeme), 'lexeme of %r', p)
    d.nontrivial(w)


def adverb(d, env):
    w = C.adverb_word(d, env)
    if d.chance(1, 4):
        w = C.recase(d, w)
    d.note('word', w)
    if C.too_many_e(w) or earlier(env.ref, w) or any(w.lower().endswith(p) for p in langdata.RU_PARTICLES):
        raise Discard()
    rest = w.lower()[3:]
    is_adverb = any({'ADJF', 'sing', 'datv'} <= grammemes(str(p.tag)) for p in env.morph.parse(rest)) and len(w) >= 5
    got = env.morph.parse(w)
    if is_adverb:
        require_equal(triples(got), [(w.lower(), 'ADVB', w.lower())], 'parse(%r)' % w)
        require_equal(triples(got[0].lexeme), triples(got), 'lexeme of %r' % w)
        require_equal([str(t) for t in env.morph.tag(w)], ['ADVB'], 'tag(%r)' % w)
        d.nontrivial(w)
    else:
        require(not any(p.word == w.lower() and str(p.tag) == 'ADVB' and type(p.methods_stack[0][0]).__name__ == 'HyphenAdverbAnalyzer'
                        for p in got), 'parse(%r): %r', w, got)
        d.label('not an adverb')
    C.model_case(env, w)


def pair(d, env):
    w = C.compound(d, env)
    if d.chance(1, 4):
        w = C.suffix_word(d, env) + '-' + C.base_word(d, env)
    if d.chance(1, 5):
        w = C.recase(d, w)
    w = C.unyo(d, w)
    lower = w.lower()
    if C.too_many_e(w) or earlier(env.ref, w) or lower.count('-') != 1 or any(lower.startswith(p) for p in langdata.RU_PREFIXES) or \
            any(lower.endswith(p) for p in langdata.RU_PARTICLES) or lower.startswith('по-'):
        raise Discard()
    d.note('word', w)
    left, right = lower.split('-')
    lefts, rights = env.morph.parse(left), env.morph.parse(right)
    want = []
    for a in lefts:
        if grammeme_tuple(str(a.tag))[0] in POS:
            for b in rights:
                if features(str(a.tag)) == features(str(b.tag)):
                    want.append((a.word + '-' + b.word, str(a.tag), a.normal_form + '-' + b.normal_form))
    both = len(want)
    for b in rights:
        if grammeme_tuple(str(b.tag))[0] in POS:
            want.append((left + '-' + b.word, str(b.tag), left + '-' + b.normal_form))
    C.model_case(env, w)
    if not want:
        d.label('no analysis of the second part')
        return
    require_equal(triples(env.morph.parse(w)), sorted(want), 'parse(%r)' % w)
    if both:
        d.nontrivial(w)
        d.label('both halves agree')


def shapes(d, env):
    """Other tokens with hyphens."""
    parts = [d.choice(['', C.plain_word(d, env), C.plain_word(d, env), 'то', 'по', 'экс', 'ка', '5', 'pdf', 'а'])
             for _ in range(d.integer(1, 4))]
    w = d.choice(['', '', '-', '--']) + d.choice(['-', '-', '-', '--']).join(parts) + d.choice(['', '', '-'])
    if C.too_many_e(w) or len(w) > 60:
        raise Discard()
    d.note('word', w)
    rs = C.model_case(env, w)
    if '-' in w and len(w) > 3:
        d.nontrivial(w)
        d.label(rs[0][1].kinds()[0])


def gendict(d, env):
    """Other particles, skipped prefixes and scores."""
    import pymorphy2
    from pymorphy2 import units
    from pmv import gendict as G
    c = C.gen_case(d, env, probs=d.chance(1, 5), big=d.chance(1, 3))
    particles = ['-' + d.text(G.ALPHA, 1, 2) for _ in range(d.integer(1, 4))]
    # the longest match is not specified
    particles = [p for p in particles if not any(p != q and p.endswith(q) for q in particles)]
    particles = sorted(set(particles))
    skip = sorted(set(d.text(G.ALPHA + '-', 1, 2) for _ in range(d.integer(0, 3))))
    sp, sa, sh = d.choice([0.9, 0.5]), d.choice([0.7, 0.2]), d.choice([0.75, 1.0])
    groups = d.choice([[['dict'], ['particle'], ['adverb'], ['hyphen'], ['unknownprefix', 'suffix'], ['unkn']],
                       [['dict'], ['hyphen'], ['particle'], ['unkn']],
                       [['dict'], ['particle', 'adverb', 'hyphen'], ['suffix'], ['unkn']],
                       [['dict', 'particle', 'hyphen'], ['unkn']]])
    conf = Config('', particles, langdata.RU_SUBS, [], groups, skip_prefixes=skip, particle=sp, adverb=sa, hyphen=sh)
    make = {'dict': units.DictionaryAnalyzer, 'unkn': units.UnknAnalyzer, 'unknownprefix': units.UnknownPrefixAnalyzer,
            'suffix': units.KnownSuffixAnalyzer,
            'particle': lambda: units.HyphenSeparatedParticleAnalyzer(particles, score_multiplier=sp),
            'adverb': lambda: units.HyphenAdverbAnalyzer(score_multiplier=sa),
            'hyphen': lambda: units.HyphenatedWordsAnalyzer(skip_prefixes=skip, score_multiplier=sh)}
    d.note('units', groups)
    d.note('particles', particles)
    d.note('skipped prefixes', skip)
    morph = pymorphy2.MorphAnalyzer(path=c.path, units=[[make[u]() for u in g] for g in groups])
    ref = RefAnalyzer(c.lex, conf)
    for _ in range(15):
        w = C.gen_word(d, c, particles=particles)
        if d.chance(1, 3) and c.words:
            w = d.choice(c.words) + '-' + d.choice(c.words)
        if C.too_many_e(w):
            continue
        pairs = C.model_case(None, w, morph=morph, ref=ref)
        kinds = set(k for _, r in pairs for k in r.kinds())
        if kinds & {'both', 'fixedleft', 'particle'}:
            d.nontrivial()
            for p, r in pairs[:3]:
                require_equal(C.lexeme_triples(p.lexeme), C.ref_triples(ref.lexeme(r)), 'lexeme of %r' % (tuple(p[:3]),))
    for _ in range(8):
        w = C.gen_word(d, c)
        C.model_case(None, w, morph=c.morph, ref=c.ref)


CHECK = Check(
    'C20', 'a case is a token with hyphens; its analyses are compared with those computed from the analyses of its parts by the analyzer itself, and with the model; '
           'non-trivial: a rule for hyphens applies (for pairs: both halves agree)',
    [
        Group('pairs', pair, 5000, 300000, C.real_env, ('slow', 'fast')),
        Group('particles', particle, 4000, 200000, C.real_env, ('slow', 'fast')),
        Group('adverbs', adverb, 2500, 100000, C.real_env, ('slow',)),
        Group('shapes', shapes, 3000, 200000, C.real_env, ('slow',)),
        Group('gendict', gendict, 220, 8000, C.GenEnv, ('fast',)),
    ])
