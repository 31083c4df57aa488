# -*- coding: utf-8 -*-
"""C17: tokenization loses nothing but white space."""
from pmv import common as C
from pmv.engine import Check, Group, require, require_equal

SPACES = ' \t\n\r\x0b\x0c\x1c\x1f\x85\u00a0\u2003\u2028\u202f\u3000'


def word_char(ch):
    return ch.isalnum() or ch in '_-'


def expected(text):
    res = []
    run = ''
    for ch in text:
        if word_char(ch):
            run += ch
            continue
        if run:
            res.append(run)
            run = ''
        if not ch.isspace():
            res.append(ch)
    if run:
        res.append(run)
    return res


def check(d, text):
    from pymorphy2.tokenizers import simple_word_tokenize
    got = simple_word_tokenize(C.as_token(d, text))
    require(isinstance(got, list), 'not a list')
    require_equal(''.join(got), ''.join(ch for ch in text if not ch.isspace()), 'text of the tokens of %r' % text)
    require_equal(got, expected(text), 'tokens of %r' % text)
    require_equal(simple_word_tokenize(' '.join(got)), got, 'tokens joined with spaces')
    return got


def piece(d, env):
    k = d.draw(10)
    if k <= 2:
        return d.text(C.CYR + C.CYR.upper() + C.LATIN, 1, 8)
    if k == 3:
        return d.text(C.PUNCT + C.SYMBOLS, 1, 4)
    if k in (4, 5):
        return d.text(SPACES, 1, 3)
    if k == 6:
        return d.text(C.DIGITS + '.,', 1, 5)
    if k == 7:
        return d.text(C.CYR + '-_+', 1, 8)
    if k == 8:
        return d.text(C.ODD, 1, 3)
    c = d.integer(0, 0x10ffff)
    return chr(c) if not 0xd800 <= c < 0xe000 else ' '


def texts(d, env):
    text = ''.join(piece(d, env) for _ in range(d.integer(0, 14)))
    d.note('text', text)
    got = check(d, text)
    if len(got) > 1:
        d.nontrivial(text)


def sentences(d, env):
    words = [C.recase(d, C.token(d, env)) for _ in range(d.integer(1, 8))]
    text = words[0]
    for w in words[1:]:
        text += d.choice([' ', ', ', '. ', '\n', ' — ', '', '-', '+', '_']) + w
    d.note('text', text)
    got = check(d, text)
    if len(got) > 1:
        d.nontrivial(text)


def long(d, env):
    """Long texts, long tokens and long runs of white space."""
    text = ''
    size = d.choice([500, 3000, 20000, 70000])
    base = [piece(d, env) for _ in range(d.integer(3, 40))]
    while len(text) < size:
        k = d.draw(8)
        if k < 5:
            text += ''.join(d.choice(base) for _ in range(20))
        elif k == 5:
            text += d.text(SPACES, 1, 3) * d.choice([1, 10, 300, 5000])
        elif k == 6:
            text += d.text(C.CYR + '-_1', 1, 9) * d.choice([1, 10, 100, 1000])
        else:
            text += d.text(C.PUNCT, 1, 3) * d.choice([1, 10, 100, 1000])
    d.note('text', text[:200])
    check(d, text)
    d.nontrivial(text[:500])


BLOCK = 0x200


def codepoints(d, env):
    """Every code point between letters, next to a space and alone."""
    n = 0
    for c in range(d.index * BLOCK, (d.index + 1) * BLOCK):
        if 0xd800 <= c < 0xe000:
            continue
        ch = chr(c)
        text = 'а%sб %s%s' % (ch, ch, ch)
        n += len(check(d, text)) > 2
    d.note('block', '%x' % (d.index * BLOCK))
    if n:
        d.nontrivial(d.index)


CHECK = Check(
    'C17', 'a case is a text (or a block of code points, each in three positions) whose tokens are compared with a character-by-character model; '
           'non-trivial: more than one token',
    [
        Group('codepoints', codepoints, None, None, None, ('slow',), enum=lambda env: 0x110000 // BLOCK),
        Group('texts', texts, 30000, 1500000, None, ('slow',)),
        Group('long', long, 40, 1500, None, ('slow',), shrink=20),
        Group('sentences', sentences, 5000, 200000, C.real_env, ('slow',)),
    ])
