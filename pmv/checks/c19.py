# -*- coding: utf-8 -*-
"""C19: unknown words are predicted by ending or cut prefix, productive classes only."""
from pmv import common as C
from pmv import gendict as G
from pmv import langdata
from pmv.engine import Check, Discard, Group, require, require_equal
from pmv.refmodel import NON_PRODUCTIVE, Config, RefAnalyzer, grammemes, productive


def is_predicted(rs):
    """Are these reference analyses of the last group of units?"""
    return bool(rs) and all((r.deriv[0] == 'prefix' and r.sig[-1][0] == 'unknownprefix') or
                            (r.deriv[0] == 'dict' and r.sig[0][0] == 'fake') for r in rs)


def predicted(d, morph, ref, lex, w, splits=True):
    rs = ref.parse(w)
    if not is_predicted(rs):
        d.label('another rule')
        raise Discard()
    parses = morph.parse(w)
    C.compare_parses(parses, rs, 'parse(%r)' % w)
    lower = w.lower()
    for p in parses:
        bad = grammemes(str(p.tag)) & NON_PRODUCTIVE
        require(not bad, 'parse(%r): %r is of a closed class', w, tuple(p[:3]))
    got = set(C.ptuple(p) for p in parses)
    n_prefix = 0
    if splits:
        # every dictionary word that is left after cutting one to five letters
        for i in range(1, 6):
            rest = lower[i:]
            if len(rest) < 3:
                break
            for q in ref.dict_parses(rest):
                if productive(q.tag):
                    n_prefix += 1
                    me = (lower[:i] + q.word, q.tag, lower[:i] + q.normal)
                    require(any(g[:2] == me[:2] for g in got), 'parse(%r) lacks %r', w, me)
    d.label('prefix' if n_prefix else 'ending')
    require_equal(set(str(t) for t in morph.tag(w)), set(p.tag for p in rs), 'tag(%r)' % w)
    d.nontrivial(w)
    return parses


def unknown(d, env):
    k = d.draw(4)
    if k == 0:
        w = C.suffix_word(d, env)
    elif k == 1:
        w = C.unknown_prefix_word(d, env)
    elif k == 2:
        w = d.text(C.CYR, 3, 9)
    else:
        # unknown word with the paradigm prefix of comparatives
        w = d.choice(['по', 'наи', 'по', 'наи', 'ъпо']) + C.suffix_word(d, env)
    w = C.unyo(d, w)
    if C.too_many_e(w):
        raise Discard()
    d.note('word', w)
    predicted(d, env.morph, env.ref, env.raw, w)


def superlative(d, env):
    """Words with paradigm prefixes: comparatives and superlatives of invented adjectives."""
    if not hasattr(env, 'comp'):
        env.comp = [x for x in env.words if '-' not in x and any({'COMP', 'Supr'} & grammemes(p.tag) for p in env.ref.dict_parses(x))]
    x = d.choice(env.comp)
    w = d.choice(['', 'по', 'наи']) + C.pseudo_stem(d) + x[-d.integer(2, 6):]
    d.note('word', w)
    predicted(d, env.morph, env.ref, env.raw, w)


def endings(d, env):
    """Endings which closed-class words or many paradigms share."""
    if not hasattr(env, 'closed'):
        env.closed = [x for x in env.words if '-' not in x and any(not productive(p.tag) for p in env.ref.dict_parses(x))]
    x = d.choice(env.closed)
    k = d.draw(3)
    if k == 0:
        w = C.pseudo_stem(d) + x
    elif k == 1:
        w = d.text(C.CYR, 1, 6) + x[-d.integer(1, 5):]
    else:
        w = x + d.text(C.CYR, 1, 3)
    w = C.unyo(d, w)
    if C.too_many_e(w):
        raise Discard()
    d.note('word', w)
    predicted(d, env.morph, env.ref, env.raw, w)


def same_ending(d, env):
    """Words with the same ending and no dictionary word inside are predicted alike."""
    x = C.plain_word(d, env)
    end = x[-env.raw.max_suffix_length:]
    if len(end) < env.raw.max_suffix_length or 'е' in end:
        raise Discard()
    res = []
    for stem in ('щъщъщъ', 'жъжъжъщ'):
        w = stem + end
        ps = env.morph.parse(w)
        if not is_predicted(env.ref.parse(w)) or any(r.deriv[0] == 'prefix' for r in env.ref.parse(w)):
            raise Discard()
        require(all(p.word.startswith(stem) for p in ps), 'words of %r', ps)
        res.append(sorted((p.word[len(stem):], str(p.tag), p.normal_form[len(stem):], round(p.score, 9)) for p in ps
                          if p.normal_form.startswith(stem)))
    d.note('ending', end)
    require_equal(res[0], res[1], 'predictions for the ending %r' % end)
    d.nontrivial(end)


def gendict(d, env):
    """Generated dictionaries; other parameters of the units."""
    import pymorphy2
    from pymorphy2 import units
    c = C.gen_case(d, env, probs=d.chance(1, 5), big=d.chance(1, 2))
    up, su, mn = d.choice([0.5, 0.9, 0.01]), d.choice([0.5, 0.3, 1.0]), d.integer(1, 6)
    groups = d.choice([[['dict'], ['unknownprefix', 'suffix'], ['unkn']], [['dict'], ['unknownprefix'], ['suffix'], ['unkn']],
                       [['dict'], ['suffix', 'unknownprefix'], ['unkn']], [['suffix'], ['unkn']]])
    conf = Config('', [], langdata.RU_SUBS, [], groups, unknownprefix=up, suffix=su, min_word=mn)
    make = {'dict': units.DictionaryAnalyzer, 'unkn': units.UnknAnalyzer,
            'unknownprefix': lambda: units.UnknownPrefixAnalyzer(score_multiplier=up),
            'suffix': lambda: units.KnownSuffixAnalyzer(score_multiplier=su, min_word_length=mn)}
    d.note('units', groups)
    d.note('parameters', (up, su, mn))
    morph = pymorphy2.MorphAnalyzer(path=c.path, units=[[make[u]() for u in g] for g in groups])
    ref = RefAnalyzer(c.lex, conf)
    for _ in range(15):
        w = C.gen_word(d, c)
        C.compare_parses(morph.parse(w), ref.parse(w), 'parse(%r) with %r' % (w, groups))
        try:
            predicted(d, morph, ref, c.lex, w, splits='unknownprefix' in groups[1])
        except Discard:
            pass
    for _ in range(10):
        w = C.gen_word(d, c)
        try:
            predicted(d, c.morph, c.ref, c.lex, w)
        except Discard:
            pass


def long_endings(d, env):
    """Words which are told apart by their sixth, seventh ... letter from the end."""
    import pymorphy2
    options = {'min_ending_freq': d.integer(0, 2), 'min_paradigm_popularity': d.integer(0, 2), 'max_suffix_length': d.integer(3, 12), 'paradigm_prefixes': ['', 'по', 'наи']}
    spec = G.Spec()
    tail = d.text('бвгдоа', 2, 7)
    kinds = [(['NOUN', 'inan', 'masc'], [['sing', 'nomn'], ['sing', 'gent']]), (['NOUN', 'anim', 'femn'], [['sing', 'nomn'], ['plur', 'datv']]),
             (['ADJF'], [['masc', 'sing', 'nomn'], ['femn', 'sing', 'nomn']]), (['VERB', 'perf', 'intr'], [['sing', '1per', 'futr', 'indc'], ['plur', '1per', 'futr', 'indc']])]
    chosen = []
    lid = 0
    for _ in range(d.integer(2, 4)):
        base, forms = d.choice(kinds)
        letters = d.text('клмнрс', 1, 3)
        flections = [d.text('аоиу', 0, 2) for _ in forms]
        chosen.append((letters, flections))
        for _ in range(d.integer(1, 4)):
            lid += 1
            stem = d.text('птчш', 1, 3) + letters + tail
            spec.lemmas[str(lid)] = (stem, base, [(stem + f, g) for f, g in zip(flections, forms)])
    d.note('dictionary', G.describe(spec))
    d.note('options', options)
    env.scratch.clear()
    path = G.compile_spec(spec, env.scratch, options)
    morph = pymorphy2.MorphAnalyzer(path=path)
    lex = G.GenLex(G.expected_lexemes(spec), options)
    ref = RefAnalyzer(lex, C.RU_CONFIG)
    for letters, flections in chosen:
        for f in flections:
            w = d.text('фхцэ', 6, 8) + letters[d.draw(len(letters)):] + tail + f
            d.note('word', w)
            ps = predicted(d, morph, ref, lex, w)
            d.label('tail:%d' % min(9, len(tail)))
            C.compare_parses(ps, ref.parse(w), w)


CHECK = Check(
    'C19', 'a case is an invented word (or a generated dictionary with 25 words): analyses are compared with the model, with the dictionary words left after cutting a prefix, and '
           'with those of other words with the same ending; non-trivial: no other rule handles the word (distinct by word)',
    [
        Group('unknown', unknown, 6000, 400000, C.real_env, ('slow', 'fast')),
        Group('superlative', superlative, 3000, 100000, C.real_env, ('slow',)),
        Group('endings', endings, 4000, 200000, C.real_env, ('slow',)),
        Group('same-ending', same_ending, 3000, 100000, C.real_env, ('slow',)),
        Group('long-endings', long_endings, 120, 5000, C.GenEnv, ('fast',)),
        Group('gendict', gendict, 220, 8000, C.GenEnv, ('fast',)),
    ])
