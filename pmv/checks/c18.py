# -*- coding: utf-8 -*-
"""C18: a known prefix does not change the analysis of a word."""
from collections import Counter

from pmv import common as C
from pmv import langdata
from pmv.engine import Check, Discard, Group, require, require_equal
from pmv.refmodel import RU_UNITS, Config, RefAnalyzer, productive

EARLIER = ('dict', 'firstname', 'patronymic', 'single', 'particle', 'both', 'fixedleft')


def expected(morph, w, prefixes, mult, min_len):
    """From the analyses of what remains, by the analyzer itself."""
    res = []
    used = []
    for prefix in sorted(set(prefixes), key=len, reverse=True):
        rest = w[len(prefix):]
        if w.startswith(prefix) and len(rest) >= min_len:
            ps = [p for p in morph.parse(rest) if productive(str(p.tag))]
            used.append((prefix, len(ps)))
            res.extend((prefix + p.word, str(p.tag), prefix + p.normal_form, p.score * mult) for p in ps)
    return res, used


def check(d, morph, ref, w, prefixes, mult, min_len, normalised):
    w = w.lower()
    if '' in prefixes or any(r.kinds()[0] in EARLIER for r in ref.parse(w)):
        raise Discard()
    want, used = expected(morph, w, prefixes, mult, min_len)
    if not want:
        d.label('nothing remains')
        raise Discard()
    parses = morph.parse(w)
    got = [C.ptuple(p) + (p.score,) for p in parses]
    single = len(used) == 1 and not any(r.has_both() for r in ref.parse(w[len(used[0][0]):]))
    what = 'parse(%r)' % w
    # the same analysis through several prefixes is listed once; so are analyses of compounds with the same last part
    require_equal(set(x[:3] for x in got), set(x[:3] for x in want), what) if single else \
        require(set(x[:2] for x in got) == set(x[:2] for x in want) and set(x[:3] for x in got) <= set(x[:3] for x in want),
                '%s: got %r, expected %r', what, sorted(x[:3] for x in got), sorted(x[:3] for x in want))
    if single:
        require(not Counter(x[:3] for x in got) - Counter(x[:3] for x in want), '%s: duplicates: %r', what, got)
        total = sum(x[3] for x in want) if normalised else 1.0
        a, b = {}, {}
        for x in want:
            a.setdefault(x[:3], set()).add(x[3])
        for x in got:
            b.setdefault(x[:3], set()).add(x[3])
        counts = Counter(x[:3] for x in want)
        estimated = normalised and any(ref.lex.prob(w, x[1]) for x in want)
        if max(counts.values()) == 1 and len(got) == len(want) and not estimated:
            for k in a:
                x, y = list(b[k])[0], list(a[k])[0] / (total or 1.0)
                require(C.close(x, y), '%s: score of %r is %r, expected %r', what, k, x, y)
            d.label('scores')
    else:
        d.label('several prefixes')
    C.compare_parses(parses, ref.parse(w), what)
    require_equal(set(str(t) for t in morph.tag(w)), set(x[1] for x in want), 'tag(%r)' % w)
    for p in parses[:2]:
        pre = [x for x, n in used if p.word.startswith(x)]
        for f in p.lexeme[:3] + p.lexeme[-2:]:
            require(any(f.word.startswith(x) and f.normal_form == p.normal_form for x in pre), 'lexeme of %r: %r', p, f)
    d.nontrivial(w)


def known(d, env):
    w = d.choice(langdata.RU_PREFIXES) + C.base_word(d, env)
    w = C.unyo(d, w)
    if C.too_many_e(w):
        raise Discard()
    d.note('word', w)
    check(d, env.morph, env.ref, w, langdata.RU_PREFIXES, 0.75, 3, env.raw.has_prob)


def twice(d, env):
    """Several prefixes, particles and compounds behind a prefix, other case."""
    w = d.choice(langdata.RU_PREFIXES) + d.choice(langdata.RU_PREFIXES) + C.dict_word(d, env)
    k = d.draw(4)
    if k == 1:
        w = d.choice(langdata.RU_PREFIXES) + C.compound(d, env)
    elif k == 2:
        w = d.choice(langdata.RU_PREFIXES) + C.suffix_word(d, env)
    elif k == 3:
        w = C.recase(d, w)
    if C.too_many_e(w) or len(w) > 50:
        raise Discard()
    d.note('word', w)
    check(d, env.morph, env.ref, w, langdata.RU_PREFIXES, 0.75, 3, env.raw.has_prob)


WORDS = ['кот', 'яма', 'дом', 'стола', 'красивый', 'бежать', 'ёлка', 'елка', 'мы', 'когда', 'три', 'который', 'ура', 'бутявка',
         'ведение', 'экономика', 'люди']


def all_prefixes(d, env):
    """Every prefix of the documented list with several words."""
    prefix = langdata.RU_PREFIXES[d.index]
    d.note('prefix', prefix)
    for w in WORDS:
        try:
            check(d, env.morph, env.ref, prefix + w, langdata.RU_PREFIXES, 0.75, 3, env.raw.has_prob)
        except Discard:
            pass
    # closed classes are not taken from the remainder
    for w in ('который', 'ура', 'когда'):
        if '-' in prefix:
            continue
        got = env.morph.parse('щ' + prefix + w)
        require(all(p.tag.is_productive() or p.tag.POS is None for p in got), 'parse(%r): %r', prefix + w, got)


def lengths(d, env):
    """Short remainders are not handled."""
    prefix = d.choice([p for p in langdata.RU_PREFIXES if not p.endswith('-')])
    w = prefix + d.text(C.CYR, 1, 4)
    d.note('word', w)
    C.model_case(env, w)
    rs = env.ref.parse(w)
    if rs and rs[0].kinds()[0] == 'prefix':
        d.nontrivial(w)


def gendict(d, env):
    """Other lists of prefixes, multipliers and lengths."""
    import pymorphy2
    from pymorphy2 import units
    from pmv import gendict as G
    c = C.gen_case(d, env, probs=d.chance(1, 4))
    prefixes = sorted(set(d.text(G.ALPHA + '-', 1, 3) for _ in range(d.integer(1, 6))))
    prefixes = [p for p in prefixes if not p.startswith('-')] or ['в']
    mult = d.choice([0.75, 0.5, 1.0, 0.1])
    min_len = d.integer(1, 4)
    conf = Config(langdata.RU_LETTERS, langdata.RU_PARTICLES, langdata.RU_SUBS, prefixes,
                  [['dict'], ['hyphen'], ['knownprefix'], ['unkn']], skip_prefixes=prefixes if d.chance(1, 2) else [],
                  knownprefix=mult, min_remainder=min_len)
    d.note('prefixes', prefixes)
    d.note('parameters', (mult, min_len))
    morph = pymorphy2.MorphAnalyzer(path=c.path, units=[
        units.DictionaryAnalyzer(), units.HyphenatedWordsAnalyzer(skip_prefixes=conf.skip_prefixes),
        units.KnownPrefixAnalyzer(known_prefixes=d.choice([list, tuple])(prefixes), score_multiplier=mult, min_remainder_length=min_len),
        units.UnknAnalyzer()])
    ref = RefAnalyzer(c.lex, conf)
    for _ in range(20):
        w = ''.join(d.choice(prefixes) for _ in range(d.integer(1, 2))) + (d.choice(c.words) if c.words else 'а')
        if C.too_many_e(w):
            continue
        try:
            C.compare_parses(morph.parse(w), ref.parse(w), 'parse(%r)' % w)
            check(d, morph, ref, w, prefixes, mult, min_len, c.lex.has_prob)
        except Discard:
            pass


CHECK = Check(
    'C18', 'a case is a token with known prefixes: its analyses are compared with those of the remainders by the analyzer itself and with the model; '
           'non-trivial: at least one analysis comes from a remainder (distinct by token)',
    [
        Group('all-prefixes', all_prefixes, None, None, C.real_env, ('slow', 'fast'), enum=lambda env: len(langdata.RU_PREFIXES),
              doc='every prefix of the list'),
        Group('known', known, 5000, 400000, C.real_env, ('slow', 'fast')),
        Group('twice', twice, 3000, 200000, C.real_env, ('slow',)),
        Group('lengths', lengths, 4000, 200000, C.real_env, ('slow',)),
        Group('gendict', gendict, 200, 8000, C.GenEnv, ('fast',)),
    ])
