# -*- coding: utf-8 -*-
"""C02: tag() gives exactly the tags of parse()."""
from pmv import common as C
from pmv.engine import Check, Group, require


def same_tags(d, morph, w, prob):
    parses = morph.parse(w)
    tags = morph.tag(w)
    a = set(str(p.tag) for p in parses)
    b = set(str(t) for t in tags)
    require(a == b, 'tag(%r): missing %r, unexpected %r', w, sorted(a - b)[:5], sorted(b - a)[:5])
    require(set(p.tag for p in parses) == set(tags), 'tags of %r differ as objects', w)
    if prob is not None:
        ps = [prob(w.lower(), str(t)) for t in tags]
        require(all(x >= y for x, y in zip(ps, ps[1:])), 'tag(%r) is not ordered by probability: %r',
                w, list(zip([str(t) for t in tags], ps)))
        if any(ps):
            d.label('probabilities')
            d.note('probabilities', ps[:6])
    if len(a) > 1:
        d.nontrivial(w)


def tokens(d, env):
    w = C.token(d, env)
    same_tags(d, env.morph, w, env.raw.prob)


def words(d, env):
    w = C.any_word(d, env)
    same_tags(d, env.morph, w, env.raw.prob)


def estimated(d, env):
    w = d.choice(prob_words(env))
    k = d.draw(4)
    if k == 1:
        w = C.recase(d, w)
    elif k == 2:
        w = C.base_word(d, env) + '-' + w
    elif k == 3:
        w = w + '-' + d.choice(['то', 'ка', 'таки'])
    if C.too_many_e(w):
        w = w.replace('е', 'о')
    d.note('word', w)
    same_tags(d, env.morph, w, env.raw.prob)


def prob_words(env):
    if not hasattr(env, 'prob_words'):
        env.prob_words = sorted(set(k.rsplit(':', 1)[0] for k in env.raw._probs.keys()))
    return env.prob_words


def gendict(d, env):
    probs = d.chance(2, 3)
    c = C.gen_case(d, env, probs=probs)
    prob = c.lex.prob if c.lex.has_prob else None
    for _ in range(30):
        same_tags(d, c.morph, C.gen_word(d, c), prob)


CHECK = Check(
    'C02', 'a case is one token, or a generated dictionary (with or without probabilities) and 30 tokens; '
           'non-trivial: the token has at least two distinct tags',
    [
        Group('words', words, 6000, 500000, C.real_env, ('slow', 'fast')),
        Group('estimated', estimated, 5000, 300000, C.real_env, ('slow', 'fast'), doc='words with P(t|w)'),
        Group('tokens', tokens, 4000, 300000, C.real_env, ('slow', 'fast')),
        Group('gendict', gendict, 240, 8000, C.GenEnv, ('fast',)),
    ])
