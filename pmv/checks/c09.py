# -*- coding: utf-8 -*-
"""C09: normalization."""
from pmv import common as C
from pmv.engine import Check, Group, require, require_equal


def normalization(d, morph, ref, w):
    pairs = C.model_case(None, w, morph=morph, ref=ref)
    nf = []
    for p, _ in pairs:
        if p.normal_form not in nf:
            nf.append(p.normal_form)
    require_equal(morph.normal_forms(w), nf, 'normal_forms(%r)' % w)
    step = max(1, len(pairs) // 8)
    for p, r in pairs[::step]:
        if r.has_both():
            continue
        n = p.normalized
        want = ref.normalized(r)
        require_equal((n.word, str(n.tag)), (want.word, want.tag), 'normalized of %r' % (tuple(p[:3]),))
        require_equal(n.word, p.normal_form, 'word of normalized of %r' % (tuple(p[:3]),))
        require_equal(n.normal_form, p.normal_form, 'normal form of normalized of %r' % (tuple(p[:3]),))
        first = p.lexeme[0]
        require_equal(C.ptuple(n), C.ptuple(first), 'normalized and the first form of the lexeme of %r' % (tuple(p[:3]),))
        require_equal(C.ptuple(n.normalized), C.ptuple(n), 'normalized twice, %r' % (tuple(p[:3]),))
        require_equal(C.lexeme_triples(n.lexeme), C.lexeme_triples(p.lexeme), 'lexeme of normalized of %r' % (tuple(p[:3]),))
        if p.word != p.normal_form:
            d.nontrivial((w, p.word, str(p.tag)))
            d.label('kind:' + '+'.join(r.kinds()))


def words(d, env):
    normalization(d, env.morph, env.ref, C.any_word(d, env))


def tokens(d, env):
    normalization(d, env.morph, env.ref, C.token(d, env))


def gendict(d, env):
    c = C.gen_case(d, env, probs=d.chance(1, 3))
    for _ in range(20):
        normalization(d, c.morph, c.ref, C.gen_word(d, c))


CHECK = Check(
    'C09', 'a case is a token, or a generated dictionary with 20 tokens; non-trivial: an analysis whose word is not its normal form',
    [
        Group('words', words, 4000, 300000, C.real_env, ('slow', 'fast')),
        Group('tokens', tokens, 2000, 100000, C.real_env, ('slow', 'fast')),
        Group('gendict', gendict, 240, 8000, C.GenEnv, ('fast',)),
    ])
