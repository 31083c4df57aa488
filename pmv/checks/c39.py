# -*- coding: utf-8 -*-
"""C39: compounds of two inflected halves decline both of them."""
from pmv import common as C
from pmv import findings
from pmv.engine import Check, Discard, Group, require, require_equal
from pmv.refmodel import POS, grammeme_tuple, grammemes
from pmv.tree import Tree, fix_rare, similarity
from pmv.checks.c10 import real_tree, required_set

SAME = {'gen1': 'gent', 'loc1': 'loct', 'V-oy': 'V-ey'}


def alike(tag):
    return frozenset(SAME.get(g, g) for g in grammemes(str(tag)))


def joined(lefts, rights):
    """The rule of the statement; forms are (word, tag, normal form)."""
    result = []
    for b in rights:
        dist = [len(alike(a[1]) ^ alike(b[1])) for a in lefts]
        a = lefts[dist.index(min(dist))]
        result.append((a[0] + '-' + b[0], str(a[1]), a[2] + '-' + b[2]))
    return result


def both_halves(d, morph, ref, tree, w, limit=3):
    pairs = [(p, r) for p, r in C.model_case(None, w, morph=morph, ref=ref) if r.deriv[0] == 'both']
    if not pairs:
        return False
    step = max(1, len(pairs) // limit)
    for p, r in pairs[::step]:
        what = '%r' % (tuple(map(str, p[:3])),)
        lexeme = p.lexeme
        forms = C.lexeme_list(lexeme)
        require_equal(forms, C.ref_list(ref.lexeme(r)), 'lexeme of ' + what)
        require_equal(C.lexeme_list([p.normalized]), forms[:1], 'normalized of ' + what)
        # the forms decline in the same way
        f = lexeme[d.draw(len(lexeme))]
        if any('-' in x.word for x in ref.lexeme(r.deriv[1])):
            continue        # C39-hyphen
        rf = ref.lexeme(r)[lexeme.index(f)]
        require_equal(C.lexeme_list(f.lexeme), C.ref_list(ref.lexeme(rf)), 'lexeme of %r from the lexeme of %s' % (f[:3], what))
        require_equal(C.lexeme_list([f.normalized]), C.ref_list(ref.lexeme(rf))[:1], 'normalized of %r' % (f[:3],))
        for _ in range(2):
            inflection(d, tree, p, lexeme, required_set(d, tree, lexeme), what)
        if len(lexeme) > 1:
            d.nontrivial((w, p.word, str(p.tag)))
        if len(set(f[0].partition('-')[0] for f in forms)) > 1 and len(set(f[0].partition('-')[2] for f in forms)) > 1:
            d.label('both halves change')
    return True


def inflection(d, tree, p, lexeme, req, what):
    used = req
    forms = [(C.ptuple(f), grammemes(str(f.tag))) for f in lexeme]
    if not any(used <= g for _, g in forms):
        used = fix_rare(req)
    cand = [(f, g) for f, g in forms if used <= g]
    got = p.inflect(req)
    what = 'inflect(%s) of %s' % (sorted(req), what)
    require_equal(got is None, not cand, what + ' is None')
    if got is not None:
        target = tree.updated(grammemes(str(p.tag)), used)
        best = max(similarity(target, g) for _, g in cand)
        require(C.ptuple(got) in [f for f, g in cand if similarity(target, g) >= best - 1e-9],
                '%s: %r is not the closest form', what, got)


def from_halves(d, env, w):
    """The analyses and their lexemes from what the analyzer itself says about the halves."""
    lower = w.lower()
    left, right = lower.split('-')
    lefts, rights = env.morph.parse(left), env.morph.parse(right)
    known = [(C.ptuple(p), C.lexeme_list(p.lexeme)) for p in env.morph.parse(w)]
    n = 0
    for a in lefts[:6]:
        for b in rights[:6]:
            if grammeme_tuple(str(a.tag))[0] not in POS or env.ref._features(str(a.tag)) != env.ref._features(str(b.tag)):
                continue
            want = joined(C.lexeme_list(a.lexeme), C.lexeme_list(b.lexeme))
            this = (a.word + '-' + b.word, str(a.tag), a.normal_form + '-' + b.normal_form)
            require((this, want) in known, 'no analysis of %r is %r with the lexeme %r', w, this, want[:6])
            n += 1
    return n


def pair(d, env):
    k = d.draw(4)
    if k == 0:
        w = C.suffix_word(d, env) + '-' + C.plain_word(d, env)
    else:
        a = C.plain_word(d, env)
        w = a + '-' + C.similar_word(d, env, a)
        if k == 1:
            w = C.unyo(d, w)
    if C.too_many_e(w):
        raise Discard()
    d.note('word', w)
    if both_halves(d, env.morph, env.ref, real_tree(env), w) and d.chance(1, 2):
        from_halves(d, env, w)


def inside(d, env):
    """Such a compound with a known prefix or a particle."""
    a = C.plain_word(d, env)
    core = a + '-' + C.similar_word(d, env, a)
    w = core + d.choice(['-то', '-ка', '-таки']) if d.chance(1, 2) else d.choice(['псевдо', 'супер', 'авто']) + core
    if C.too_many_e(w):
        raise Discard()
    d.note('word', w)
    for p, r in C.model_case(env, w)[:4]:
        if r.has_both() and r.deriv[0] != 'both':
            forms = C.lexeme_list(p.lexeme)
            require_equal(forms, C.ref_list(env.ref.lexeme(r)), 'lexeme of %r' % (tuple(p[:3]),))
            require_equal(C.lexeme_list([p.normalized]), forms[:1], 'normalized of %r' % (tuple(p[:3]),))
            if len(forms) > 1:
                d.nontrivial((w, p.word, str(p.tag)))
                d.label('+'.join(r.kinds()))


def gendict(d, env):
    from pmv.gendict import GRAMMEMES
    c = C.gen_case(d, env, probs=d.chance(1, 5), big=d.chance(1, 2))
    if not c.words:
        raise Discard()
    tree = Tree(GRAMMEMES)
    for _ in range(25):
        w = d.choice(c.words) + '-' + d.choice(c.words)
        if w.count('-') != 1 or C.too_many_e(w):
            continue
        d.note('word', w)
        both_halves(d, c.morph, c.ref, tree, w)


def known(d, env):
    """A form of the first half with a hyphen: a known finding."""
    import pymorphy2
    from pmv import gendict as G
    spec = G.Spec()
    spec.lemmas['1'] = ('блокпост', ['NOUN', 'inan', 'masc'], [('блокпост', ['sing', 'nomn']), ('блокпоста', ['sing', 'gent'])])
    spec.lemmas['2'] = ('блок-пост', ['NOUN', 'inan', 'masc'], [('блок-пост', ['sing', 'datv']), ('блок-поста', ['sing', 'ablt'])])
    spec.lemmas['3'] = ('дом', ['NOUN', 'inan', 'masc'], [('дом', ['sing', 'nomn']), ('дома', ['sing', 'gent']), ('дому', ['sing', 'datv']), ('домом', ['sing', 'ablt'])])
    spec.links = [('1', '2', '22')]
    morph = pymorphy2.MorphAnalyzer(path=G.compile_spec(spec, env.scratch, dict(min_ending_freq=2, min_paradigm_popularity=3, max_suffix_length=5, paradigm_prefixes=['', 'по', 'наи'])))
    p = morph.parse('блокпост-дом')[0]
    want = [('блокпост-дом', 'NOUN,inan,masc sing,nomn', 'блокпост-дом'), ('блокпоста-дома', 'NOUN,inan,masc sing,gent', 'блокпост-дом'),
            ('блок-пост-дому', 'NOUN,inan,masc sing,datv', 'блокпост-дом'), ('блок-поста-домом', 'NOUN,inan,masc sing,ablt', 'блокпост-дом')]
    require_equal(C.lexeme_list(p.lexeme), want, 'lexeme of блокпост-дом')
    for i in (0, 1):
        require_equal(C.lexeme_list(p.lexeme[i].lexeme), want, 'lexeme of %s' % want[i][0])
    got = C.lexeme_list(p.lexeme[2].lexeme)
    findings.check(d, env, 'C39', 'C39-hyphen', got != want, 'lexeme of %s: %r' % (want[2][0], got))
    d.nontrivial()


CHECK = Check(
    'C39', 'a case is a compound of two words (many of one part of speech), such a compound behind a prefix or before a particle, or a generated '
           'dictionary with 25 compounds; non-trivial: an analysis with two inflected halves whose lexeme has two or more forms',
    [
        Group('pairs', pair, 2500, 200000, C.real_env, ('slow', 'fast')),
        Group('inside', inside, 1000, 60000, C.real_env, ('slow',)),
        Group('known', known, None, None, C.GenEnv, ('fast',), enum=lambda env: 1, doc='known finding'),
        Group('gendict', gendict, 120, 6000, C.GenEnv, ('fast',)),
    ],
    assumptions=['ties between equally close forms of inflect may be broken in any way; of halves, the first one counts'])
