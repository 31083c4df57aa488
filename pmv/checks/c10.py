# -*- coding: utf-8 -*-
"""C10: inflection."""
from pmv import common as C
from pmv.engine import Check, Discard, Group, Violation, require, require_equal
from pmv.refmodel import grammemes
from pmv.tree import Tree, fix_rare, similarity

COMMON = ['sing', 'plur', 'nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'masc', 'femn', 'neut', '1per', '2per', '3per',
          'pres', 'past', 'futr', 'indc', 'impr', 'incl', 'excl', 'perf', 'impf', 'tran', 'intr', 'anim', 'inan',
          'actv', 'pssv', 'NOUN', 'ADJF', 'ADJS', 'COMP', 'VERB', 'INFN', 'PRTF', 'PRTS', 'GRND', 'Supr', 'V-ej', 'Cmp2']
RARE = ['gen1', 'gen2', 'acc2', 'loc1', 'loc2', 'voct']


def required_set(d, tree, lexeme):
    k = d.draw(6)
    if k == 0:
        req = d.sample(COMMON, d.integer(0, 2))
    elif k in (1, 2):
        # grammemes of some form of the lexeme
        g = sorted(grammemes(str(d.choice(lexeme).tag)))
        req = d.sample(g, d.integer(1, 3))
    elif k == 3:
        req = d.sample(RARE, 1) + d.sample(COMMON, d.integer(0, 1))
    elif k == 4:
        g = sorted(grammemes(str(d.choice(lexeme).tag)))
        req = d.sample(g, 1) + d.sample(COMMON, 1)
    else:
        req = d.sample(tree.names, d.integer(1, 2))
    return frozenset(g for g in req if g in tree.parent)


def inflected(d, morph, tree, p, req):
    lexeme = p.lexeme
    forms = [(f, grammemes(str(f.tag))) for f in lexeme]
    used = req
    cand = [(f, g) for f, g in forms if used <= g]
    if not cand:
        used = fix_rare(req)
        if used != req:
            d.label('rare case replaced')
        cand = [(f, g) for f, g in forms if used <= g]
    arg = d.choice([frozenset, set])(req)
    got = p.inflect(arg)
    require_equal(arg, req, 'the argument of inflect was changed')
    what = 'inflect(%s) of %r' % (sorted(req), tuple(p[:3]))
    if not cand:
        require(got is None, '%s: got %r, but no form of the lexeme has the grammemes', what, got)
        d.label('impossible')
        return
    require(got is not None, '%s: got None, but there is %r', what, tuple(cand[0][0][:3]))
    gg = grammemes(str(got.tag))
    require(used <= gg, '%s: %r does not have %s', what, tuple(got[:3]), sorted(used))
    require(C.ptuple(got) in [C.ptuple(f) for f, _ in cand], '%s: %r is not in the lexeme', what, got)
    target = tree.updated(grammemes(str(p.tag)), used)
    best = max(similarity(target, g) for _, g in cand)
    require(similarity(target, gg) >= best - 1e-9, '%s: %r is not a closest form, e.g. %r is closer', what, tuple(got[:3]),
            [tuple(map(str, f[:3])) for f, g in cand if similarity(target, g) == best][:2])
    if not req:
        require_equal(gg, grammemes(str(p.tag)), what)
    require_equal(C.lexeme_triples(got.lexeme), C.lexeme_triples(lexeme), 'lexeme of the result of ' + what)
    require_equal(got.normal_form, p.normal_form, 'normal form of the result of ' + what)
    if len(cand) > 1 or got.word != p.word:
        d.nontrivial((p.word, str(p.tag), tuple(sorted(req))))
        d.label('several candidates' if len(cand) > 1 else 'one candidate')


def inflections(d, morph, ref, tree, w, n=4):
    pairs = C.model_case(None, w, morph=morph, ref=ref)
    pairs = [(p, r) for p, r in pairs if not r.has_both()]
    if not pairs:
        raise Discard()
    for _ in range(n):
        p, r = pairs[d.draw(len(pairs))]
        lexeme = p.lexeme
        if d.chance(1, 3):
            p = lexeme[d.draw(len(lexeme))]
        req = required_set(d, tree, lexeme)
        d.note('form', tuple(map(str, p[:3])))
        d.note('grammemes', sorted(req))
        inflected(d, morph, tree, p, req)


def real_tree(env):
    if not hasattr(env, 'tree'):
        env.tree = Tree(env.raw.grammeme_rows)
    return env.tree


def words(d, env):
    w = C.any_word(d, env)
    inflections(d, env.morph, env.ref, real_tree(env), w)


def dict_words(d, env):
    w = C.dict_word(d, env)
    d.note('word', w)
    if C.too_many_e(w):
        raise Discard()
    inflections(d, env.morph, env.ref, real_tree(env), w, n=8)


def unknown_grammeme(d, env):
    w = C.any_word(d, env)
    p = d.choice(env.morph.parse(w))
    bad = d.choice(['foo', 'Noun', 'plural', '', 'мн', 'sing,plur', 'nomn ', 'XXXX'])
    req = {bad} | set(d.sample(COMMON, d.integer(0, 2)))
    d.note('grammemes', sorted(req))
    try:
        got = p.inflect(req)
    except ValueError:
        d.nontrivial((w, tuple(sorted(req))))
        return
    raise Violation('inflect(%r) of %r: no ValueError, got %r' % (sorted(req), tuple(p[:3]), got))


def rare_cases(d, env):
    """Words which have a rare case form, and words which have not."""
    if not hasattr(env, 'rare'):
        env.rare = [w for w in env.words if any(set(RARE) & grammemes(p.tag) for p in env.ref.dict_parses(w))]
    w = d.choice(env.rare) if d.chance(1, 2) else C.dict_word(d, env)
    d.note('word', w)
    ps = [p for p, r in C.model_case(env, w) if r.deriv[0] == 'dict']
    if not ps:
        raise Discard()
    p = d.choice(ps)
    lexeme = p.lexeme
    if d.chance(1, 2):
        p = lexeme[d.draw(len(lexeme))]
    req = frozenset([d.choice(RARE)] + d.sample(['sing', 'plur', 'masc', 'femn'], d.integer(0, 1)))
    d.note('form', tuple(map(str, p[:3])))
    d.note('grammemes', sorted(req))
    inflected(d, env.morph, real_tree(env), p, req)


def gendict(d, env):
    from pmv.gendict import GRAMMEMES
    c = C.gen_case(d, env, probs=False)
    tree = Tree(GRAMMEMES)
    for _ in range(12):
        w = C.gen_word(d, c)
        try:
            inflections(d, c.morph, c.ref, tree, w, n=3)
        except Discard:
            pass


POOL = ['masc', 'femn', 'neut', 'sing', 'plur', 'nomn', 'gent', 'datv', 'Name', 'Surn', 'Geox', 'Abbr', 'Fixd', 'Sgtm', 'Pltm', 'Qual', 'Supr',
        'Infr', 'Arch', 'V-ey', 'V-oy', 'Cmp2', 'perf', 'impf', 'tran', 'intr', '1per', '2per', 'pres', 'past', 'indc', 'impr', 'inan', 'anim']


def uneven(d, env):
    """Lexemes whose forms have between one and twenty grammemes."""
    import pymorphy2
    from pmv import gendict as G
    spec = G.Spec()
    for i in range(3):
        tags = []
        pool = d.sample(POOL, d.integer(6, len(POOL)))
        for _ in range(d.integer(2, 8)):
            size = d.integer(1, 4) if d.chance(1, 2) else d.integer(4, 20)
            tags.append([d.choice(['NOUN', 'NOUN', 'ADJF'])] + d.sample(pool, min(size, len(pool))))
        forms = [('абв'[i] * 3 + 'гдежзикл'[k] * 2, t) for k, t in enumerate(tags)]
        spec.lemmas[str(i + 1)] = (forms[0][0], [], forms)
    d.note('dictionary', G.describe(spec))
    env.scratch.clear()
    options = {'min_ending_freq': 1, 'min_paradigm_popularity': 1, 'max_suffix_length': 5, 'paradigm_prefixes': ['']}
    morph = pymorphy2.MorphAnalyzer(path=G.compile_spec(spec, env.scratch, options))
    tree = Tree(G.GRAMMEMES)
    for _, _, forms in spec.lemmas.values():
        for _ in range(8):
            p = morph.parse(d.choice(forms)[0])[0]
            g = sorted(grammemes(str(d.choice(p.lexeme).tag)))
            req = frozenset(x for x in d.sample(g, d.integer(1, min(2, len(g)))))
            d.note('form', tuple(map(str, p[:3])))
            d.note('grammemes', sorted(req))
            inflected(d, morph, tree, p, req)


CHECK = Check(
    'C10', 'a case is one token, some of its analyses (or forms of their lexemes) and several sets of grammemes; non-trivial: the '
           'result is another form, or there were several candidates (distinct by form and set)',
    [
        Group('dict-words', dict_words, 4000, 250000, C.real_env, ('slow',)),
        Group('words', words, 3000, 200000, C.real_env, ('slow', 'fast')),
        Group('rare-cases', rare_cases, 3000, 100000, C.real_env, ('slow',)),
        Group('unknown-grammeme', unknown_grammeme, 400, 20000, C.real_env, ('slow',)),
        Group('gendict', gendict, 160, 6000, C.GenEnv, ('fast',)),
        Group('uneven', uneven, 120, 8000, C.GenEnv, ('fast',)),
    ],
    assumptions=['ties between equally close forms may be broken in any way', 'compounds with two inflected halves are excluded'])
