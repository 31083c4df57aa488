# -*- coding: utf-8 -*-
"""C15: numbers, punctuation, Latin and Roman tokens are recognised by shape, exactly."""
import unicodedata

from pmv import common as C
from pmv.engine import Check, Discard, Group, require, require_equal
from pmv.refmodel import ROMAN, is_latin, is_punct, is_roman, number_kind

SHAPE_TAGS = ('NUMB,intg', 'NUMB,real', 'PNCT', 'LATN', 'ROMN')


def shape_of(w):
    """Tags of the shape units for a token which is not in the dictionary."""
    n = number_kind(w)
    if n:
        return {'NUMB,' + n}
    if is_punct(w):
        return {'PNCT'}
    res = set()
    if is_roman(w):
        res.add('ROMN')
    if is_latin(w):
        res.add('LATN')
    return res


def check_token(d, env, w):
    parses = env.morph.parse(w)
    tags = set(str(t) for t in env.morph.tag(w))
    want = shape_of(w)
    dictionary = any(r.kinds()[0] in ('dict', 'firstname', 'patronymic') for r in env.ref.parse(w))
    if dictionary:
        want = set()
    got = set(str(p.tag) for p in parses if str(p.tag) in SHAPE_TAGS and p.word == w.lower())
    # a hyphenated token may consist of shapes, e.g. "кошка-5" (there the part has the tag)
    direct = not any(k in ('particle', 'fixedleft', 'both', 'prefix') for r in env.ref.parse(w) for k in r.kinds())
    if direct or want:
        require_equal(got, want, 'shape tags of %r' % w)
    if want:
        require_equal(set(str(p.tag) for p in parses), want, 'tags of %r' % w)
        require_equal(len(parses), len(want), 'number of analyses of %r' % w)
        require_equal(tags, want, 'tag(%r)' % w)
        for p in parses:
            me = (w.lower(), str(p.tag), w.lower())
            require_equal(C.ptuple(p), me, 'analysis of %r' % w)
            require_equal([C.ptuple(f) for f in p.lexeme], [me], 'lexeme of %r' % w)
            require_equal(C.ptuple(p.normalized), me, 'normalized %r' % w)
            inf = p.inflect(set())
            require_equal(inf and C.ptuple(inf), me, 'inflect(set()) of %r' % w)
            require(p.inflect({'plur'}) is None and p.inflect({'gent'}) is None, 'inflect of %r', w)
            num = p.make_agree_with_number(5)
            require_equal(num and C.ptuple(num), me, 'make_agree_with_number(5) of %r' % w)
        for t in want:
            d.label(t)
        d.nontrivial(w)
    else:
        d.label('no shape')
    return want


def functions(d, w):
    from pymorphy2 import shapes
    require_equal(bool(shapes.is_latin(w)), is_latin(w), 'is_latin(%r)' % w)
    require_equal(bool(shapes.is_punctuation(w)), is_punct(w), 'is_punctuation(%r)' % w)
    if not any(ch.isspace() for ch in w):
        require_equal(bool(shapes.is_roman_number(w)), is_roman(w), 'is_roman_number(%r)' % w)


BLOCK = 0x400


def codepoints(d, env):
    """All code points (without surrogates), alone and next to a Latin letter and a comma."""
    from pymorphy2 import shapes
    n = 0
    for c in range(d.index * BLOCK, (d.index + 1) * BLOCK):
        if 0xd800 <= c < 0xe000:
            continue
        ch = chr(c)
        alpha = ch.isalpha()
        latin = alpha and 'LATIN' in unicodedata.name(ch, '')
        if bool(shapes.is_latin(ch)) != latin:
            functions(d, ch)
        require_equal(bool(shapes.is_latin('x' + ch)), latin or not alpha, 'is_latin(%r)' % ('x' + ch))
        punct = unicodedata.category(ch)[0] == 'P'
        require_equal(bool(shapes.is_punctuation(ch)), punct, 'is_punctuation(%r)' % ch)
        require_equal(bool(shapes.is_punctuation(',' + ch)), punct or ch.isspace(), 'is_punctuation(%r)' % (',' + ch))
        n += latin or punct
    if n:
        d.note('block', '%x' % (d.index * BLOCK))
        d.note('latin or punctuation', n)
        d.nontrivial(d.index)


def codepoint_tokens(d, env):
    """Code points as tokens: interesting ones, and a sample of the others."""
    if not hasattr(env, 'points'):
        env.points = [c for c in range(0x21, 0x110000) if not 0xd800 <= c < 0xe000 and c not in (0x130, 0x131) and
                      not chr(c).isspace() and
                      (unicodedata.category(chr(c))[0] in 'PN' or 'LATIN' in unicodedata.name(chr(c), '') or c % 193 == 0)]
    step = 8
    for c in env.points[d.index * step:(d.index + 1) * step]:
        w = chr(c)
        d.note('token', w)
        check_token(d, env, w)


def number_of_points(env):
    if not hasattr(env, 'points'):
        class D(object):
            index = 0
            note = label = nontrivial = lambda self, *a: None
        codepoint_tokens(D(), env)
    return (len(env.points) + 7) // 8


def roman(d, env):
    """All well-formed Roman numbers in several cases, and all short strings of their letters."""
    if not hasattr(env, 'roman'):
        import itertools
        env.roman = sorted(ROMAN) + [''.join(t) for n in (1, 2, 3, 4) for t in itertools.product('IVXLCDM', repeat=n)]
    from pymorphy2 import shapes
    for w in env.roman[d.index * 16:(d.index + 1) * 16]:
        for v in {w, w.lower(), w.capitalize(), C.recase(d, w)}:
            functions(d, v)
            if d.chance(1, 4):
                check_token(d, env, v)
        for v in (w + 'I', w + '1', '1' + w, w + w, w + '.', w[::-1]):
            functions(d, v)
        if w in ROMAN:
            d.note('roman', w)
            d.nontrivial(w)


def n_roman(env):
    return (4999 + 7 + 49 + 343 + 2401) // 16 + 1


def numbers(d, env):
    digits = d.choice([C.DIGITS] * 4 + ['٠١٢٣', '０１２'])
    sign = d.choice(['', '', '-', '+', '--', '−'])
    a = d.text(digits, 0, d.choice([3, 8, 30]))
    sep = d.choice(['', '.', ',', '.', ',', '..', ',.', "'", ':'])
    b = d.text(digits, 0, 6) if sep else ''
    exp = d.choice(['', '', '', '', 'e5', 'E-3', 'e', 'e+', 'x', '%', 'ABC', 'е'])
    w = sign + a + sep + b + exp
    d.note('token', w)
    if number_kind(w) and d.chance(1, 4) and w.isascii():
        # two numbers in one token
        w = w + d.choice(['-', '/', '.', ',']) + d.text(digits, 1, 3)
    functions(d, w)
    check_token(d, env, w)


def words_like_numbers(d, env):
    w = d.choice(['nan', 'inf', 'infinity', 'NaN', '-inf', '+Infinity', 'Nan', '0x1F', '1L', '0b1', '1j', 'one', 'e5', '²', '½', '1½',
                  '0o7', '.', ',', '-', '+', '-.', '1e', 'Ⅷ', '一', '1__0', '_1', '1_'])
    if d.chance(1, 3):
        w = w + d.choice(['', '1', '.', 'а', '-'])
    d.note('token', w)
    functions(d, w)
    check_token(d, env, w)


def tokens(d, env):
    w = C.token(d, env)
    functions(d, w)
    check_token(d, env, w)


def mixtures(d, env):
    pools = [C.PUNCT, C.LATIN, C.DIGITS, 'IVXLCDM', C.SYMBOLS, C.CYR, C.ODD]
    a, b = d.choice(pools), d.choice(pools)
    w = ''.join(d.choice(d.choice([a, a, a, b])) for _ in range(d.integer(1, 10)))
    if d.chance(1, 6):
        i = d.integer(0, len(w))
        w = w[:i] + C.junk_char(d) + w[i:]
    d.note('token', w)
    functions(d, w)
    check_token(d, env, w)


def spaces(d, env):
    """The functions also work for several tokens."""
    w = ''.join(d.choice([' ', '\t', '\n', '\u00a0', d.choice(C.PUNCT), d.choice(C.LATIN), d.choice(C.PUNCT)])
                for _ in range(d.integer(0, 6)))
    d.note('text', w)
    functions(d, w)
    d.nontrivial(w)


CHECK = Check(
    'C15', 'a case is a token (or a block of code points, or a group of Roman numbers) whose tags are compared with the shape computed from '
           'Unicode properties; non-trivial: the token has a shape (distinct by token)',
    [
        Group('codepoints', codepoints, None, None, C.real_env, ('slow',), enum=lambda env: 0x110000 // BLOCK,
              doc='is_latin and is_punctuation of every code point'),
        Group('roman', roman, None, None, C.real_env, ('slow',), enum=n_roman, doc='all Roman numbers'),
        Group('codepoint-tokens', codepoint_tokens, None, None, C.real_env, ('slow',), enum=number_of_points),
        Group('numbers', numbers, 6000, 300000, C.real_env, ('slow',)),
        Group('like-numbers', words_like_numbers, 600, 10000, C.real_env, ('slow',)),
        Group('tokens', tokens, 4000, 300000, C.real_env, ('slow', 'fast')),
        Group('mixtures', mixtures, 6000, 300000, C.real_env, ('slow',)),
        Group('spaces', spaces, 2000, 20000, None, ('slow',)),
    ],
    assumptions=['tokens contain no white space, lone surrogates or dotted/dotless I'])
