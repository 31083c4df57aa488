# -*- coding: utf-8 -*-
"""C03: scores."""
import copy

from pmv import common as C
from pmv.checks.c02 import prob_words
from pmv.engine import Check, Group, require
from pmv.refmodel import RefAnalyzer, productive


def scores(d, morph, ref, w):
    parses = morph.parse(w)
    got = [p.score for p in parses]
    lex = ref.lex
    if lex.has_prob:
        probs = [lex.prob(w.lower(), str(p.tag)) for p in parses]
        if any(probs):
            require(got == probs, 'scores of %r are %r, the estimates are %r', w, got, probs)
            require(all(a >= b for a, b in zip(got, got[1:])), 'analyses of %r are not sorted: %r', w, got)
            d.label('estimated')
            if len(got) > 1:
                d.nontrivial(w)
        else:
            if not any(got):
                # (allowed if the estimates of the word inside are all zero)
                require(not any(p.score for p in ref.parse(w)), 'all scores of %r are zero', w)
                d.label('all zero')
            else:
                require(C.close(sum(got), 1.0), 'scores of %r sum to %r', w, sum(got))
            d.label('normalised')
            if len(set(got)) > 1:
                d.nontrivial(w)
        require(all(0 <= x <= 1 + 1e-9 for x in got), 'score out of range for %r: %r', w, got)
    else:
        d.label('heuristic')
        if len(set(got)) > 1 or any(x not in (1.0, 0.9) for x in got):
            d.nontrivial(w)
    C.compare_parses(parses, ref.parse(w), 'parse(%r)' % w)
    d.note('scores', got[:6])


def estimated(d, env):
    w = d.choice(prob_words(env))
    k = d.draw(5)
    if k == 1:
        w = C.recase(d, w)
    elif k == 2:
        w = w.replace('ё', 'е')
    elif k == 3:
        w = d.choice(['псевдо', 'экс-', 'авто', 'не']) + w
    elif k == 4:
        w = w + d.choice(['-то', '-ка', '-таки'])
    if C.too_many_e(w):
        w = w.replace('е', 'о')
    d.note('word', w)
    scores(d, env.morph, env.ref, w)


def tokens(d, env):
    scores(d, env.morph, env.ref, C.token(d, env))


def predicted(d, env):
    w = C.any_word(d, env, kinds=[k for k in C.WORD_KINDS if k[1][0] != 'dict'])
    scores(d, env.morph, env.ref, w)


class Plain(object):
    def __init__(self):
        base = C.real_env()
        import pymorphy2
        self.morph = pymorphy2.MorphAnalyzer(probability_estimator_cls=None)
        self.raw = copy.copy(base.raw)
        self.raw.has_prob = False
        self.ref = RefAnalyzer(self.raw, C.RU_CONFIG)
        self.words = base.words
        self.known = []


def plain(d, env):
    w = C.any_word(d, env) if d.chance(4, 5) else C.token(d, env)
    scores(d, env.morph, env.ref, w)


def gendict(d, env):
    c = C.gen_case(d, env, probs=d.chance(4, 5))
    for _ in range(30):
        scores(d, c.morph, c.ref, C.gen_word(d, c))
    # the estimates of all dictionary analyses of the remainder are zero
    for w in c.words:
        tags = [p.tag for p in c.ref.dict_parses(w)]
        if c.lex.has_prob and any(c.lex.prob(w, t) for t in tags) and any(productive(t) for t in tags):
            if not any(c.lex.prob(w, t) for t in tags if productive(t)) and not C.too_many_e(w):
                w = d.choice(['авто', 'псевдо', 'экс-', 'дб', 'гва']) + w
                scores(d, c.morph, c.ref, w)
                d.label('no estimate for the remainder')


CHECK = Check(
    'C03', 'a case is one token, or a generated dictionary with a generated P(t|w) table and 30 tokens; non-trivial: '
           'several analyses scored by estimates, or different normalised or heuristic scores',
    [
        Group('estimated', estimated, 6000, 300000, C.real_env, ('slow', 'fast'), doc='words with P(t|w)'),
        Group('tokens', tokens, 3000, 200000, C.real_env, ('slow', 'fast')),
        Group('predicted', predicted, 4000, 400000, C.real_env, ('slow',)),
        Group('plain', plain, 3000, 200000, Plain, ('slow',), doc='no probability estimator'),
        Group('gendict', gendict, 280, 8000, C.GenEnv, ('fast',)),
    ],
    assumptions=['heuristic scores (1.0 for dictionary words, 0.75, 0.9, 0.5 ... for derived ones) are those of the documentation and the code base'])
