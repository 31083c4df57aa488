# -*- coding: utf-8 -*-
"""C07: the known-word API agrees with the dictionary."""
from collections import Counter

from pmv import common as C
from pmv import findings
from pmv.engine import Check, Group, require_equal
from pmv.refmodel import variants


def related(d, p, lex, ref):
    """is_known of an analysis, of its normal form and of its forms (a form of a predicted lexeme may be in the dictionary)."""
    forms = [p, p.normalized]
    lexeme = p.lexeme
    forms += lexeme if len(lexeme) <= 4 else [lexeme[d.draw(len(lexeme))] for _ in range(4)]
    for f in forms:
        if f.word.count('е') > 9:
            continue
        want = any(lex.forms(v) for v in variants(f.word, ref.cfg.subs))
        require_equal(f.is_known, want, 'is_known of %r' % (f,))
        if want and f is not p and not lex.forms(p.word):
            d.label('known form of a predicted lexeme')


def known(d, morph, ref, w):
    low = w.lower()
    w = C.as_token(d, w)
    lex = ref.lex
    exact = bool(lex.forms(low))
    fuzzy = any(lex.forms(v) for v in variants(low, ref.cfg.subs))
    require_equal(morph.word_is_known(w), fuzzy, 'word_is_known(%r)' % w)
    require_equal(morph.word_is_known(w, strict=True), exact, 'word_is_known(%r, strict=True)' % w)
    for p in morph.parse(w)[:6]:
        if p.word.count('е') > 9:
            continue
        related(d, p, lex, ref)
    d.label('known' if fuzzy else 'unknown')
    if fuzzy != exact:
        d.label('known by substitution only')
    if 1 < len(low):
        d.nontrivial(w)


def words(d, env):
    w = C.any_word(d, env)
    k = d.draw(6)
    if k == 1:
        w = w[:-1]
    elif k == 2:
        w = w + d.choice(C.CYR)
    elif k == 3:
        i = d.draw(len(w) + 1)
        w = w[:i] + d.choice(C.CYR + '-') + w[i:]
    elif k == 4:
        w = w.replace('е', 'ё', 1)
    elif k == 5:
        w = C.recase(d, w)
    if C.too_many_e(w):
        w = w.replace('е', 'о')
    d.note('word', w)
    known(d, env.morph, env.ref, w)


def tokens(d, env):
    known(d, env.morph, env.ref, C.token(d, env))


def iterated(morph, prefix):
    return Counter((p[0], str(p[1]), p[2], p[3]) for p in morph.iter_known_word_parses(prefix))


def prefixes(d, env):
    w = C.dict_word(d, env)
    k = d.integer(0, 4)
    prefix = w[:max(4, len(w) - k)]
    if d.chance(1, 8):
        prefix = d.text(C.CYR, 4, 6)
    elif d.chance(1, 6):
        prefix = prefix.replace('ё', 'е')
    elif d.chance(1, 12):
        prefix = prefix.upper()
    expected = Counter()
    for key, (para, idx) in env.raw.words.iteritems(prefix):
        p = env.ref.from_paradigm(key, para, idx, 1.0, 'dict')
        expected[p.word, p.tag, p.normal, 1.0] += 1
    d.note('prefix', prefix)
    d.note('parses', sum(expected.values()))
    got = iterated(env.morph, prefix)
    require_equal(sorted((got - expected).items())[:3], [], 'unexpected parses for the prefix %r' % prefix)
    require_equal(sorted((expected - got).items())[:3], [], 'missing parses for the prefix %r' % prefix)
    if len(expected) > 1:
        d.nontrivial(prefix)
    # the parses are usable
    for p in list(env.morph.iter_known_word_parses(prefix))[:3]:
        require_equal(p.normalized.word, p.normal_form, 'normalized of %r' % (p,))
        require_equal(p.is_known, True, 'is_known of %r' % (p,))


def gendict(d, env):
    c = C.gen_case(d, env, big=d.chance(1, 2))
    lex = c.lex
    everything = Counter()
    for (w, t, n), k in lex.all_triples().items():
        everything[w, t, n, 1.0] += k
    require_equal(iterated(c.morph, ''), everything, 'iter_known_word_parses()')
    for w in c.words[:6]:
        pre = w[:d.integer(1, len(w))]
        require_equal(iterated(c.morph, pre), Counter(dict((k, v) for k, v in everything.items() if k[0].startswith(pre))),
                      'iter_known_word_parses(%r)' % pre)
    for _ in range(25):
        known(d, c.morph, c.ref, C.gen_word(d, c))


def all_prefixes(env):
    return [a + b for a in C.CYR + "-'0" for b in C.CYR + "-'"]


def sweep(d, env):
    prefix = all_prefixes(env)[d.index]
    it = iter(env.morph.iter_known_word_parses(prefix))
    n = 0
    for key, (para, idx) in env.raw.words.iteritems(prefix):
        r = env.ref.from_paradigm(key, para, idx, 1.0, 'dict')
        p = next(it, None)
        n += 1
        require_equal(p and C.ptuple(p), r.key(), 'parse number %d with the prefix %r' % (n, prefix))
    require_equal(next(it, None), None, 'extra parse with the prefix %r' % prefix)
    d.note('prefix', prefix)
    d.note('parses', n)
    if n:
        d.nontrivial(prefix)


def known_findings(d, env):
    """U+0000 and U+0001: known findings."""
    w = 'кот'
    if d.index == 0:
        w += '\x00'
        findings.check(d, env, 'C07', 'C07-null', env.morph.word_is_known(w) or env.morph.word_is_known(w, strict=True), 'word_is_known(%r)' % w)
    else:
        w += '\x01'
        got = [p.word for p in env.morph.iter_known_word_parses(w)]
        findings.check(d, env, 'C07', 'C07-separator', any(not x.startswith(w) for x in got), 'iter_known_word_parses(%r): %r' % (w, got))
    d.nontrivial(w)


CHECK = Check(
    'C07', 'a case is a word (or a near miss of one), a prefix, or a generated dictionary with all its words; non-trivial: '
           'tokens of two or more letters, prefixes with several records',
    [
        Group('words', words, 4000, 500000, C.real_env, ('slow', 'fast')),
        Group('tokens', tokens, 2000, 200000, C.real_env, ('slow', 'fast')),
        Group('prefixes', prefixes, 500, 30000, C.real_env, ('slow', 'fast')),
        Group('gendict', gendict, 240, 8000, C.GenEnv, ('fast',)),
        Group('known', known_findings, None, None, C.real_env, ('slow', 'fast'), enum=lambda env: 2, doc='known findings'),
        Group('sweep', sweep, 0, None, C.real_env, ('slow',), enum=lambda env: len(all_prefixes(env)),
              doc='thorough: the whole dictionary (order of the dictionary file)'),
    ])
