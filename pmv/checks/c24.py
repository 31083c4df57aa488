# -*- coding: utf-8 -*-
"""C24: compiling a dictionary keeps its lexicon."""
from collections import Counter

from pmv import common as C
from pmv import gendict as G
from pmv.engine import Check, Group, require, require_equal
from pmv.refmodel import grammemes

ALPHABETS = [G.ALPHA, 'аеё', 'абвгдежзийклмнопрстуфхцчшщъыьэюяё', 'abcdeё-1\'', 'іїєґа’', 'аб']


def spelled(tag):
    """How a tag is written, except for the order of grammemes."""
    return grammemes(tag), tag.find(' ')


def lexicon(d, env, noise, links, big):
    import pymorphy2
    options = G.gen_options(d)
    spec = G.gen_spec(d, noise=noise, options=options, links=links, alpha=d.choice(ALPHABETS), big=big)
    d.note('dictionary', G.describe(spec))
    d.note('options', options)
    env.scratch.clear()
    path = G.compile_spec(spec, env.scratch, options)
    source = [[(w, grammemes(t)) for w, t in forms] for forms in G.expected_lexemes(spec)]
    spellings = set(t for forms in G.expected_lexemes(spec) for _, t in forms)
    records = set((w, g, forms[0][0]) for forms in source for w, g in forms)

    morph = pymorphy2.MorphAnalyzer(path=path, char_substitutes=None)
    got = []
    lexemes = {}
    for p in morph.iter_known_word_parses():
        got.append((p.word, grammemes(str(p.tag)), p.normal_form))
        lex = tuple((f.word, grammemes(str(f.tag))) for f in p.lexeme)
        lexemes[lex] = p
        require((p.word, grammemes(str(p.tag))) in lex, '%r is not in its lexeme', tuple(p[:3]))
        require(str(p.tag) in spellings, 'tag %r is not in the source', str(p.tag))
    missing, extra = records - set(got), set(got) - records
    # spellings which all differ in the place of the space are kept
    ways = {}
    for forms in G.parsed_lexemes(spec).values():
        for _, t in forms:
            t = G.simplify_string(t)
            ways.setdefault(grammemes(t), set()).add(t)
    kept = dict((g, len(set(t.find(' ') for t in ts)) == len(ts)) for g, ts in ways.items())
    exact = set((w, t) for forms in G.expected_lexemes(spec) for w, t in forms if kept[grammemes(t)])
    mine = set((p.word, str(p.tag)) for p in morph.iter_known_word_parses() if kept.get(grammemes(str(p.tag))))
    require(exact == mine, 'spelling of tags: missing %r; unexpected %r', sorted(exact - mine)[:5], sorted(mine - exact)[:5])
    most = max([len(ts) for g, ts in ways.items() if kept[g]] or [0])
    d.label('%d places of the space' % most)
    require(not missing and not extra, 'missing records: %r; unexpected records: %r', sorted(missing, key=repr)[:5], sorted(extra, key=repr)[:5])
    want = set(tuple(forms) for forms in source)
    require(want <= set(lexemes), 'missing lexemes: %r', sorted(want - set(lexemes), key=repr)[:3])
    require(set(lexemes) <= want, 'unexpected lexemes: %r', sorted(set(lexemes) - want, key=repr)[:3])
    # one set of grammemes with the space at one place has one spelling
    seen = {}
    for p in morph.iter_known_word_parses():
        t = str(p.tag)
        require_equal(seen.setdefault(spelled(t), t), t, 'spelling of a tag')
    # the same through parse()
    words = sorted(set(w for w, _, _ in records))
    known = Counter((w, g, n) for w, g, n in got)
    for w in d.sample(words, 6):
        ps = morph.parse(w)
        require_equal(Counter((p.word, grammemes(str(p.tag)), p.normal_form) for p in ps if type(p.methods_stack[0][0]).__name__ == 'DictionaryAnalyzer'),
                      Counter({k: v for k, v in known.items() if k[0] == w}), 'parse(%r)' % w)
        require(morph.word_is_known(w), '%r is not known', w)
        w2 = w + d.choice('абя')
        require_equal(morph.word_is_known(w2), w2 in words, 'word_is_known(%r)' % w2)
    if records:
        d.nontrivial()
    tags = set(str(p.tag) for p in morph.iter_known_word_parses())
    if len(tags) < len(spellings):
        d.label('respelled')
    if any(len(set(G.expected_lexemes(spec)[i])) < len(forms) for i, forms in enumerate(source)):
        d.label('repeated forms')
    d.label('%d lexemes' % min(len(source), 9))


def plain(d, env):
    lexicon(d, env, False, True, d.chance(1, 2))


def spelling(d, env):
    lexicon(d, env, 'heavy', d.chance(1, 2), True)


def space(d, env):
    lexicon(d, env, 'space', d.chance(1, 2), True)


def links(d, env):
    lexicon(d, env, d.chance(1, 3), 'many', d.chance(2, 3))


def suppletive(d, env):
    """Lexemes of arbitrary words: no common stem, prefixes which are (not) allowed, empty suffixes."""
    import pymorphy2
    options = G.gen_options(d)
    spec = G.Spec()
    alpha = d.choice(['аб', 'абв', 'абпо', 'аои'])
    prefixes = options['paradigm_prefixes']
    for lid in range(1, d.integer(2, 7)):
        forms = []
        core = d.text(alpha, 1, 4)
        for _ in range(d.integer(1, 5)):
            k = d.draw(4)
            if k == 0:
                w = d.text(alpha, 1, 6)
            elif k == 1:
                w = d.choice(prefixes) + core + d.text(alpha, 0, 2)
            elif k == 2:
                w = d.text(alpha, 0, 2) + core
            else:
                w = core * d.integer(1, 3)
            forms.append((w, [d.choice(['sing', 'plur']), d.choice(G.CASES6)]))
        spec.lemmas[str(lid)] = (forms[0][0], ['NOUN', 'inan'], forms)
    d.note('dictionary', G.describe(spec))
    d.note('options', options)
    env.scratch.clear()
    path = G.compile_spec(spec, env.scratch, options)
    source = set(tuple(forms) for forms in G.expected_lexemes(spec))
    morph = pymorphy2.MorphAnalyzer(path=path, char_substitutes=None)
    got = set()
    for p in morph.iter_known_word_parses():
        lex = tuple((f.word, str(f.tag)) for f in p.lexeme)
        got.add(lex)
        require((p.word, str(p.tag)) in lex, '%r is not in its lexeme', tuple(p[:3]))
        require_equal(p.normal_form, lex[0][0], 'normal form of %r' % (tuple(p[:3]),))
        require_equal((p.normalized.word, str(p.normalized.tag)), lex[0], 'normalized %r' % (tuple(p[:3]),))
    require_equal(sorted(got), sorted(source), 'lexemes')
    d.nontrivial()


def large(d, env):
    """More than 256 (or 65536 / 8) suffixes, tags, forms of a paradigm, or paradigms."""
    import pymorphy2
    options = G.gen_options(d)
    spec = G.Spec()
    alpha = 'абвгдежзиклмн'
    kind = d.choice(['one lexeme', 'many lexemes', 'several'])
    n = d.choice([90, 256, 257, 300, 700]) if kind == 'one lexeme' else d.choice([1, 3])
    count = {'one lexeme': 1, 'many lexemes': d.choice([255, 256, 257, 600]), 'several': 40}[kind]
    rows = [r[0] for r in G.GRAMMEMES[18:]]
    for lid in range(1, count + 1):
        forms = []
        for _ in range(n):
            word = d.text(alpha, 1, 2) + d.text(alpha, 2, 6) if kind != 'one lexeme' else 'кк' + d.text(alpha, 0, 5)
            forms.append((word, d.sample(rows, d.integer(1, 3))))
        spec.lemmas[str(lid * 7)] = (forms[0][0], [d.choice(['NOUN', 'VERB'])], forms)
    d.note('kind', (kind, n, count))
    env.scratch.clear()
    path = G.compile_spec(spec, env.scratch, options)
    lexemes = G.expected_lexemes(spec)
    source = set(tuple((w, grammemes(t)) for w, t in forms) for forms in lexemes)
    morph = pymorphy2.MorphAnalyzer(path=path, char_substitutes=None)
    records, got, done = set(), set(), set()
    for p in morph.iter_known_word_parses():
        records.add((p.word, grammemes(str(p.tag)), p.normal_form))
        if p.normal_form not in done or kind != 'one lexeme':
            done.add(p.normal_form)
            got.add(tuple((f.word, grammemes(str(f.tag))) for f in p.lexeme))
    require_equal(records, set((w, grammemes(t), forms[0][0]) for forms in lexemes for w, t in forms), 'records')
    require_equal(got, source, 'lexemes')
    d.label(kind)
    d.nontrivial()


def huge_spec(d):
    """More than 32768 paradigms, suffixes and tags of two forms each."""
    spec = G.Spec()
    rows = [r[0] for r in G.GRAMMEMES[18:] if r[0] not in ('sing', 'plur', 'Init')]
    rows, rows2 = rows[::2], rows[1::2]
    n = 33100
    alpha = 'абвгдежзиклмнопрстуфх'
    for i in range(n):
        a, b, c = i % 20, i // 20 % 20, i // 400
        suffix = alpha[a] + alpha[b] + alpha[c % 20] + alpha[c // 20]
        stem = 'щъ' + alpha[(a + b) % 20]
        spec.lemmas[str(i + 1)] = (stem, ['NOUN', rows[i % len(rows)]], [(stem, ['sing']), (stem + suffix, ['plur', rows2[i // 50 % len(rows2)]])])
    return spec


def huge(d, env):
    """Numbers of paradigms and suffixes which do not fit into 15 bits."""
    import pymorphy2
    options = dict(G.gen_options(d), min_paradigm_popularity=d.choice([0, 3]))
    spec = huge_spec(d)
    env.scratch.clear()
    path = G.compile_spec(spec, env.scratch, options)
    morph = pymorphy2.MorphAnalyzer(path=path, char_substitutes=None)
    got = Counter((p.word, grammemes(str(p.tag)), p.normal_form) for p in morph.iter_known_word_parses())
    lexemes = G.expected_lexemes(spec)
    require_equal(got, Counter((w, grammemes(t), forms[0][0]) for forms in lexemes for w, t in forms), 'records')
    for forms in d.sample(lexemes, 200) + lexemes[-100:]:
        w, t = forms[1]
        ps = [p for p in morph.parse(w) if grammemes(str(p.tag)) == grammemes(t) and p.normal_form == forms[0][0]]
        require(len(ps) == 1, '%r has the analyses %r', w, ps)
        require_equal([(f.word, grammemes(str(f.tag))) for f in ps[0].lexeme], [(x, grammemes(y)) for x, y in forms], 'lexeme of %r' % w)
    d.nontrivial()


CHECK = Check(
    'C24', 'a case is a generated OpenCorpora dictionary which is written as XML, compiled and loaded; its words, grammemes, normal forms and lexemes are compared with '
           'those of the source; non-trivial: the dictionary has a word form',
    [
        Group('plain', plain, 250, 8000, C.GenEnv, ('fast',)),
        Group('spelling', spelling, 350, 10000, C.GenEnv, ('fast',), doc='the same grammemes in different orders'),
        Group('space', space, 150, 5000, C.GenEnv, ('fast',), doc='the space at different places'),
        Group('links', links, 350, 10000, C.GenEnv, ('fast',), doc='link chains, several links to one lexeme, circular links'),
        Group('suppletive', suppletive, 350, 10000, C.GenEnv, ('fast',)),
        Group('huge', huge, 1, 3, C.GenEnv, ('fast',), shrink=1, doc='more than 32768 paradigms and suffixes'),
        Group('large', large, 24, 400, C.GenEnv, ('fast',), doc='more than 256 suffixes, tags, forms or paradigms'),
    ],
    assumptions=['links refer to lemmas of the file'])
