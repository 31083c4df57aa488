# -*- coding: utf-8 -*-
"""C16: restore_capitalization copies the letter case and nothing else."""
from pmv import common as C
from pmv.engine import Check, Group, require, require_equal

LETTERS = 'абвгдежзиёюяabcdefxyzéñđžґії'
OTHER = "0123456789.'_一ա"


def classify(s):
    """lower / upper / title / None, computed letter by letter."""
    cased = [ch for ch in s if ch.lower() != ch.upper()]
    if not cased:
        return None
    if all(ch == ch.lower() for ch in cased):
        return 'lower'
    if all(ch == ch.upper() for ch in cased):
        return 'upper'
    prev = False
    for ch in s:
        is_cased = ch.lower() != ch.upper()
        if is_cased and (ch == ch.upper()) == prev:
            return None
        prev = is_cased
    return 'title'


def apply_case(s, kind):
    if kind == 'upper':
        return ''.join(ch.upper() for ch in s)
    if kind == 'title':
        res = []
        prev = False
        for ch in s:
            res.append(ch.lower() if prev else ch.upper())
            prev = ch.lower() != ch.upper()
        return ''.join(res)
    return ''.join(ch.lower() for ch in s)


def expected(word, example):
    if '-' not in example:
        return apply_case(word, classify(example))
    ex = example.split('-')
    res = []
    for i, part in enumerate(word.split('-')):
        res.append(apply_case(part, classify(ex[i]) if i < len(ex) else 'lower'))
    return '-'.join(res)


def part(d):
    k = d.draw(8)
    if k == 0:
        return d.text(OTHER, 0, 3)
    s = d.text(LETTERS, 1, 6)
    if k == 1:
        return s
    if k in (2, 3):
        return s.upper()
    if k == 4:
        return s[:1].upper() + s[1:]
    if k == 5:
        return s[:1] + s[1:].upper()
    if k == 6:
        i = d.integer(0, len(s))
        return (s[:i] + d.choice(OTHER) + s[i:]).title()
    return ''.join(ch.upper() if d.chance(1, 2) else ch for ch in s + d.text(OTHER + LETTERS, 0, 3))


def phrase(d):
    return '-'.join(part(d) for _ in range(d.choice([1, 1, 1, 2, 2, 3, 4]))) if not d.chance(1, 12) else \
        d.choice(['', '-', '--', 'а-', '-А', 'А--б'])


def pairs(d, env):
    from pymorphy2.shapes import restore_capitalization
    word = phrase(d)
    example = phrase(d)
    d.note('word', word)
    d.note('example', example)
    got = restore_capitalization(word, example)
    what = 'restore_capitalization(%r, %r)' % (word, example)
    require_equal(got, expected(word, example), what)
    require_equal(got.lower(), word.lower(), what + ' changes more than the letter case')
    require_equal(restore_capitalization(got, example), got, what + ', again')
    if example == word and all(classify(p) for p in example.split('-')):
        require_equal(got, word, what)
    if got != word:
        d.nontrivial((word, example))
    d.label(str(classify(example)) if '-' not in example else 'hyphens')


def same(d, env):
    """Parts in a regular case are their own example."""
    from pymorphy2.shapes import restore_capitalization
    n = d.integer(1, 4)
    kinds = [d.choice(['lower', 'upper', 'title']) for _ in range(n)]
    words = [d.text(LETTERS, 2, 7) for _ in range(n)]
    word = '-'.join(apply_case(w, k) for w, k in zip(words, kinds))
    d.note('word', word)
    for v in (word, word.upper(), word.lower(), C.recase(d, word)):
        got = restore_capitalization(v, word)
        want = word if n > 1 else apply_case(words[0], kinds[0])
        require_equal(got, want, 'restore_capitalization(%r, %r)' % (v, word))
    d.nontrivial(word)


def inflected(d, env):
    """Results of the analyzer get the case of the token."""
    from pymorphy2.shapes import restore_capitalization
    w = C.recase(d, C.any_word(d, env))
    for p in env.morph.parse(w)[:2]:
        for f in p.lexeme[:4]:
            require_equal(restore_capitalization(f.word, w), expected(f.word, w), 'restore_capitalization(%r, %r)' % (f.word, w))
    d.nontrivial(w)


CHECK = Check(
    'C16', 'a case is a word and an example; the result is compared with a letter-by-letter model; non-trivial: the result differs from the word',
    [
        Group('pairs', pairs, 60000, 3000000, None, ('slow',)),
        Group('same', same, 10000, 300000, None, ('slow',)),
        Group('inflected', inflected, 2000, 100000, C.real_env, ('slow',)),
    ],
    assumptions=['letters whose case forms have the same length (no "ß", no titlecase digraphs)'])
