# -*- coding: utf-8 -*-
"""C05: letter case does not matter."""
from pmv import common as C
from pmv.engine import Check, Discard, Group, require, require_equal


def case_safe(w):
    return all(ch.upper().lower() == ch.lower() and ch.lower().upper() == ch.upper() and len(ch.lower()) == 1
               and len(ch.upper()) == 1 for ch in w)


def full(parses):
    return [(p[0], str(p[1]), p[2], p[3]) for p in parses]


def random_case(d, w):
    k = d.draw(5)
    if k == 0:
        return w.upper()
    if k == 1:
        return w[:1].upper() + w[1:]
    if k == 2:
        return w[:-1] + w[-1:].upper()
    if k == 3:
        return '-'.join(x[:1].upper() + x[1:] for x in w.split('-'))
    return ''.join(ch.upper() if d.chance(1, 2) else ch for ch in w)


def check(d, morph, w):
    if len(w) < 2 or not case_safe(w):
        raise Discard()
    low = w.lower()
    v = random_case(d, low)
    d.note('variant', v)
    a = morph.parse(low)
    b = morph.parse(v)
    require_equal(full(b), full(a), 'parse(%r) and parse(%r)' % (v, low))
    for p in a:
        require(p.word == p.word.lower() and p.normal_form == p.normal_form.lower(), 'not in lower case: %r', p)
    require_equal([str(t) for t in morph.tag(v)], [str(t) for t in morph.tag(low)], 'tag(%r) and tag(%r)' % (v, low))
    require_equal(morph.normal_forms(v), morph.normal_forms(low), 'normal_forms(%r)' % v)
    for strict in (False, True):
        require_equal(morph.word_is_known(v, strict=strict), morph.word_is_known(low, strict=strict),
                      'word_is_known(%r, strict=%r)' % (v, strict))
    for p, q in zip(a[:3], b[:3]):
        require_equal(C.lexeme_triples(q.lexeme), C.lexeme_triples(p.lexeme), 'lexemes for %r and %r' % (v, low))
        require_equal(tuple(map(str, q.normalized[:3])), tuple(map(str, p.normalized[:3])), 'normalized')
    if v != low:
        d.nontrivial((low, v))


def words(d, env):
    check(d, env.morph, C.any_word(d, env))


def tokens(d, env):
    check(d, env.morph, C.token(d, env))


def gendict(d, env):
    c = C.gen_case(d, env, probs=d.chance(1, 2))
    for _ in range(20):
        w = C.gen_word(d, c)
        if len(w) >= 2:
            check(d, c.morph, w)


CHECK = Check(
    'C05', 'a case is a token and a case variant of it; non-trivial: the variant differs from the lower-case token',
    [
        Group('words', words, 6000, 400000, C.real_env, ('slow', 'fast')),
        Group('tokens', tokens, 5000, 300000, C.real_env, ('slow', 'fast')),
        Group('gendict', gendict, 160, 6000, C.GenEnv, ('fast',)),
    ],
    assumptions=['letters whose case mapping is not one to one (ß, İ, ı, final sigma...) are outside the domain'])
