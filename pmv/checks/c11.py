# -*- coding: utf-8 -*-
"""C11: numeral agreement."""
from pmv import common as C
from pmv.engine import Check, Discard, Group, require, require_equal
from pmv.refmodel import CASES, grammemes, grammeme_tuple


def number_class(n):
    n = n % 100
    if 11 <= n <= 14:
        return 'many'
    return {1: 'one', 2: 'few', 3: 'few', 4: 'few'}.get(n % 10, 'many')


def expected(tag, n):
    """Set of grammemes; None: not specified."""
    grs = grammemes(tag)
    pos = grs & {'NOUN', 'ADJF', 'PRTF'}
    if not pos:
        return frozenset()
    case = grs & CASES
    if len(case) != 1:
        return None
    case = list(case)[0]
    cls = number_class(n)
    if 'NOUN' in grs:
        if case in ('nomn', 'accs'):
            return {'one': frozenset(['sing', case]), 'few': frozenset(['sing', 'gent']),
                    'many': frozenset(['plur', 'gent'])}[cls]
        return frozenset(['sing' if cls == 'one' else 'plur', case])
    if case not in ('nomn', 'accs'):
        return None
    if cls == 'one':
        return frozenset(['sing', case])
    if cls == 'few' and 'femn' in grs:
        return frozenset(['plur', 'nomn'])
    return frozenset(['plur', 'gent'])


def number(d):
    k = d.draw(4)
    if k == 0:
        return d.integer(0, 30)
    if k == 1:
        return d.integer(0, 1000)
    if k == 2:
        return d.integer(0, 10 ** 6) * 100 + d.integer(0, 99)
    return d.integer(0, 10 ** 18)


def all_tags(d, env):
    """Every tag of the dictionary with every pair of last digits."""
    tag_str = env.raw.gramtab[d.index]
    tag = env.morph.TagClass(tag_str)
    base = d.integer(0, 10 ** 7) * 100
    for n in range(100):
        want = expected(tag_str, n)
        got = tag.numeral_agreement_grammemes(n)
        if want is not None:
            require_equal(frozenset(got), want, 'agreement of %s with %d' % (tag_str, n))
        require_equal(frozenset(tag.numeral_agreement_grammemes(base + n)), frozenset(got),
                      'agreement of %s with %d (and %d)' % (tag_str, base + n, n))
    d.note('tag', tag_str)
    if expected(tag_str, 5):
        d.nontrivial(tag_str)


def words(d, env):
    w = C.dict_word(d, env) if d.chance(3, 4) else C.any_word(d, env)
    if C.too_many_e(w):
        raise Discard()
    d.note('word', w)
    ps = [p for p in env.morph.parse(w)]
    p = d.choice(ps)
    n = number(d)
    d.note('number', n)
    got = p.make_agree_with_number(n)
    want = expected(str(p.tag), n)
    grs = p.tag.numeral_agreement_grammemes(n)
    if want is not None:
        require_equal(frozenset(grs), want, 'agreement of %s with %d' % (p.tag, n))
    direct = p.inflect(set(grs))
    require_equal(got and C.ptuple(got), direct and C.ptuple(direct), 'make_agree_with_number(%d) of %r' % (n, tuple(p[:3])))
    if got is not None and want:
        require(want <= grammemes(str(got.tag)) or not any(want <= grammemes(str(f.tag)) for f in p.lexeme),
                'make_agree_with_number(%d) of %r gives %r', n, tuple(p[:3]), tuple(got[:3]))
    if want == frozenset() and '-' not in w:
        require_equal(got and grammemes(str(got.tag)), grammemes(str(p.tag)), 'agreement of %r with %d' % (tuple(p[:3]), n))
    # any number with the same last two digits
    m = (n % 100) + 100 * d.integer(0, 10 ** 5)
    other = p.make_agree_with_number(m)
    require_equal(other and C.ptuple(other), got and C.ptuple(got), 'agreement of %r with %d and %d' % (tuple(p[:3]), m, n))
    d.label(number_class(n))
    if want:
        d.nontrivial((w, str(p.tag), n % 100))
    if direct is not None and want and want <= grammemes(str(direct.tag)):
        d.label('agrees')


CHECK = Check(
    'C11', 'a case is a tag of the dictionary with all numbers 0..99 and numbers with the same last digits, or an analysis of a word '
           'and a number; non-trivial: nouns, adjectives and participles (distinct by word, tag and last digits)',
    [
        Group('all-tags', all_tags, None, None, C.real_env, ('slow',), enum=lambda env: len(env.raw.gramtab)),
        Group('words', words, 6000, 300000, C.real_env, ('slow', 'fast')),
    ],
    assumptions=['numbers are non-negative integers', 'adjectives and participles in oblique cases are not specified'])
