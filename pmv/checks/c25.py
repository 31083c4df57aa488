# -*- coding: utf-8 -*-
"""C25: prediction data are the most frequent analyses of endings."""
from collections import Counter, defaultdict

from pmv import common as C
from pmv import gendict as G
from pmv.engine import Check, Discard, Group, require, require_equal
from pmv.refmodel import RawDict, RefAnalyzer, grammeme_tuple

DEFAULTS = {'min_ending_freq': 2, 'min_paradigm_popularity': 3, 'max_suffix_length': 5}


def stored(raw):
    """(prefix id, ending) -> Counter of (count, paradigm, form index); read from the files."""
    res = {}
    for i, dawg in enumerate(raw._pred):
        for end, (cnt, pid, idx) in dawg.items():
            res.setdefault((i, end), Counter())[cnt, tuple(raw.paradigm(pid)), idx] += 1
    return res


def recount(lexemes, o):
    """The same, counted naively from the lexemes."""
    para = []
    for forms in lexemes:
        words = [w for w, _ in forms]
        stem = G.leftmost_lcs(words)
        prefixes = [''] if len(words) == 1 else [w[:w.index(stem)] for w in words]
        if any(p not in o['paradigm_prefixes'] for p in prefixes):
            stem, prefixes = '', [''] * len(words)
        para.append(tuple((p, t, w[len(p) + len(stem):]) for p, (w, t) in zip(prefixes, forms)))
    popular = Counter(para)
    seen = Counter()
    counts = defaultdict(Counter)
    for forms, table in zip(lexemes, para):
        if popular[table] < o['min_paradigm_popularity']:
            continue
        for idx, ((w, _), (p, tag, s)) in enumerate(zip(forms, table)):
            if w == p + s:
                continue
            for n in range(1, o['max_suffix_length'] + 1):
                if n >= len(s):
                    end = w[-n:]
                    seen[end] += 1
                    counts[o['paradigm_prefixes'].index(p), end, grammeme_tuple(tag)[0]][table, idx] += 1
    res = {}
    for (i, end, pos), c in counts.items():
        if seen[end] < o['min_ending_freq']:
            continue
        top = max(c.values())
        for (table, idx), n in c.items():
            if n == top:
                res.setdefault((i, end), Counter())[n, table, idx] += 1
    return res


def compare(d, path, lexemes, options):
    raw = RawDict(path)
    got, want = stored(raw), recount(lexemes, options)
    for k in sorted(set(got) | set(want)):
        g, w = got.get(k, Counter()), want.get(k, Counter())
        if g != w:
            require(False, 'ending %r with form prefix %r: missing %r, unexpected %r', k[1], options['paradigm_prefixes'][k[0]],
                    [(n, t[i], i) for n, t, i in w - g], [(n, t[i], i) for n, t, i in g - w])
    if want:
        d.nontrivial()
    d.label('%d endings' % min(len(want) // 10 * 10, 100))
    if any(len(set(n for n, _, _ in c)) > 1 for c in want.values()):
        d.label('several counts')
    if len(set(i for i, _ in want)) > 1:
        d.label('several form prefixes')
    return raw


def options_for(d, options):
    """Some options may be left out."""
    given = dict(options)
    for k in DEFAULTS:
        if d.chance(1, 8):
            del given[k]
            options[k] = DEFAULTS[k]
    return given


def compile_and_compare(d, env, spec, options):
    given = options_for(d, options)
    d.note('dictionary', G.describe(spec))
    d.note('options', given)
    env.scratch.clear()
    path = G.compile_spec(spec, env.scratch, given)
    lexemes = G.expected_lexemes(spec)
    compare(d, path, lexemes, options)
    return path, lexemes


def plain(d, env):
    options = G.gen_options(d)
    spec = G.gen_spec(d, options=options, big=True, links=True, alpha=d.choice([G.ALPHA, 'аб', 'абв']))
    compile_and_compare(d, env, spec, options)


def dense(d, env):
    """Many lexemes of few paradigms with similar stems."""
    options = G.gen_options(d)
    spec = G.Spec()
    alpha = d.choice(['аб', 'абё', 'абвп'])
    kinds = []
    for _ in range(d.integer(1, 4)):
        n = d.integer(1, 4)
        pos = d.choice(['NOUN', 'NOUN', 'VERB', 'ADJF', 'PREP'])
        tags = [[d.choice(['sing', 'plur']), d.choice(G.CASES6)] for _ in range(n)]
        ends = [d.text(alpha, 0, 2) for _ in range(n)]
        pre = [d.choice(options['paradigm_prefixes']) if d.chance(1, 4) else '' for _ in range(n)]
        kinds.append((pos, tags, ends, pre))
    for lid in range(1, d.integer(2, 30)):
        pos, tags, ends, pre = d.choice(kinds)
        stem = d.text(alpha, 0 if d.chance(1, 10) else 1, 3)
        forms = [(p + stem + e, t) for p, e, t in zip(pre, ends, tags)]
        if any(not w for w, _ in forms):
            continue
        spec.lemmas[str(lid)] = (forms[0][0], [pos], forms)
    if not spec.lemmas:
        raise Discard()
    compile_and_compare(d, env, spec, options)


def many(d, env):
    """Counts and numbers of paradigms which do not fit into a byte."""
    options = G.gen_options(d)
    options['min_ending_freq'] = d.choice([options['min_ending_freq'], 100, 255, 256, 257, 300])
    options['min_paradigm_popularity'] = d.choice([options['min_paradigm_popularity'], 100, 255, 256, 257])
    spec = G.Spec()
    kinds = []
    for _ in range(d.integer(1, 3)):
        ends = [d.text('абё', 0, 3) for _ in range(d.integer(1, 3))]
        kinds.append((d.choice(['NOUN', 'VERB', 'ADJF']), [[d.choice(['sing', 'plur']), d.choice(G.CASES6)] for _ in ends], ends))
    rest = 'гдежзийклмнопрст'
    lid = 0
    for pos, tags, ends in kinds:
        for i in range(d.choice([90, 254, 255, 256, 257, 258, 301, 520])):
            lid += 1
            stem = rest[i // 256] + rest[i // 16 % 16] + rest[i % 16] + d.choice(['', '', 'а', 'аб'])
            spec.lemmas[str(lid)] = (stem + ends[0], [pos], [(stem + e, t) for e, t in zip(ends, tags)])
    compile_and_compare(d, env, spec, options)


def used(d, env):
    """The compiled data are what the predictions use."""
    import pymorphy2
    c = C.gen_case(d, env, big=True)
    compare(d, c.path, c.lexemes, c.options)
    raw = RawDict(c.path)
    ref = RefAnalyzer(raw, C.RU_CONFIG)
    lex_ref = RefAnalyzer(c.lex, C.RU_CONFIG)
    for _ in range(10):
        w = C.gen_word(d, c)
        got = c.morph.parse(w)
        C.compare_parses(got, ref.parse(w), 'parse(%r)' % w)
        C.compare_parses(got, lex_ref.parse(w), 'parse(%r)' % w)


CHECK = Check(
    'C25', 'a case is a generated dictionary; the prediction data in the compiled files are compared with a naive count of the endings of its forms; non-trivial: there are prediction data',
    [
        Group('plain', plain, 400, 15000, C.GenEnv, ('fast',)),
        Group('dense', dense, 500, 20000, C.GenEnv, ('fast',)),
        Group('many', many, 24, 600, C.GenEnv, ('fast',), shrink=10, doc='hundreds of lexemes of one paradigm'),
        Group('used', used, 100, 4000, C.GenEnv, ('fast',)),
    ])
