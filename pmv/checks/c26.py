# -*- coding: utf-8 -*-
"""C26: saved dictionaries load as they were; metadata are true; formats are checked."""
import json
import os
import warnings
from collections import Counter

from pmv import common as C
from pmv import gendict as G
from pmv.checks.c24 import huge_spec
from pmv.engine import Check, Group, require, require_equal
from pmv.refmodel import RawDict, RefAnalyzer


def records(dawg):
    return Counter((k, tuple(v)) for k, v in dawg.items())


def name(d):
    return d.choice(['opencorpora.org', 'generated', '', 'словарь «№1»', 'a"b\\c\n', '\u2028x\U0001f600', d.text('абв-/. ', 0, 6)])


def huge(d, env):
    """Numbers of paradigms and suffixes which do not fit into 15 bits."""
    roundtrip(d, env, huge_spec(d))


def large(d, env):
    """Hundreds of paradigms and suffixes."""
    spec = huge_spec(d)
    ids = list(spec.lemmas)[:d.choice([255, 256, 257, 300, 520])]
    spec.lemmas = type(spec.lemmas)((i, spec.lemmas[i]) for i in ids)
    roundtrip(d, env, spec)


# options which may be left out
DEFAULTS = {'min_ending_freq': 2, 'min_paradigm_popularity': 3, 'max_suffix_length': 5}


def roundtrip(d, env, spec=None):
    """compile -> save -> load"""
    import pymorphy2
    from pymorphy2.opencorpora_dict import compile as comp
    from pymorphy2.opencorpora_dict import parse, preprocess, storage
    env.scratch.clear()
    options = G.gen_options(d)
    default = [k for k in sorted(DEFAULTS) if d.chance(1, 4)]
    options.update((k, DEFAULTS[k]) for k in default)
    noise = d.chance(1, 2) and spec is None
    spec = spec or G.gen_spec(d, noise=noise, options=options, big=d.chance(1, 2), alpha=d.choice([G.ALPHA, 'abc-\'', 'іїє’']))
    spec.version, spec.revision = d.choice(['0.92', '1', 'версия 2', '']), d.choice(['1', '417127', 'r<&>', ''])
    recorded = dict(options, note='комментарий') if d.chance(1, 4) else dict(options)
    given = dict((k, v) for k, v in recorded.items() if k not in default)
    lang, source = d.choice(['ru', 'uk', 'xx', 'ru-old']), name(d)
    d.note('dictionary', G.describe(spec))
    d.note('options', given)
    d.note('language, source', (lang, source))
    xml = env.scratch.new() + '.xml'
    with open(xml, 'w', encoding='utf8') as f:
        f.write(spec.to_xml())
    with G.quiet():
        parsed = parse.parse_opencorpora_xml(xml)
        preprocess.simplify_tags(parsed)
        preprocess.drop_unsupported_parses(parsed)
        compiled = comp.compile_parsed_dict(parsed, given)
        out = env.scratch.new()
        os.mkdir(out)
        storage.save_compiled_dict(compiled, out, source_name=source, language_code=lang)
    loaded = storage.load_dict(out)
    require_equal([str(t) for t in loaded.gramtab], [str(t) for t in compiled.gramtab], 'tags')
    require_equal(list(loaded.suffixes), list(compiled.suffixes), 'suffixes')
    require_equal([list(p) for p in loaded.paradigms], [list(p) for p in compiled.paradigms], 'paradigms')
    require_equal(records(loaded.words), records(compiled.words_dawg), 'words')
    require_equal(list(loaded.paradigm_prefixes), list(options['paradigm_prefixes']), 'paradigm prefixes')
    require_equal([records(x) for x in loaded.prediction_suffixes_dawgs], [records(x) for x in compiled.prediction_suffixes_dawgs], 'prediction data')
    # words from the source
    lexemes = G.expected_lexemes(spec)
    lex = G.GenLex(lexemes, options)
    if not noise:
        require_equal(Counter((w, str(loaded.gramtab[t])) for w, (p, i) in loaded.words.items()
                              for t in [loaded.paradigms[p][len(loaded.paradigms[p]) // 3 + i]]),
                      Counter((w, lex.paradigm(p)[i][1]) for w, ids in lex._forms.items() for p, i in ids), 'words and tags')
    # metadata, through the analyzer
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        meta = pymorphy2.MorphAnalyzer(path=out, lang='ru').dictionary.meta
    want = {
        'language_code': lang, 'source': source, 'source_version': spec.version, 'source_revision': spec.revision,
        'pymorphy2_version': pymorphy2.__version__, 'compile_options': recorded,
        'source_lexemes_count': len(spec.lemmas), 'source_links_count': len(spec.links),
        'gramtab_length': len(loaded.gramtab), 'paradigms_length': len(loaded.paradigms), 'suffixes_length': len(loaded.suffixes),
        'words_dawg_length': sum(records(loaded.words).values()),
        'prediction_suffixes_dawg_lengths': [sum(records(x).values()) for x in loaded.prediction_suffixes_dawgs],
    }
    for k in want:
        require_equal(meta.get(k), want[k], 'metadata %r' % k)
    require(str(meta['format_version']).split('.')[0] == '2', 'format %r', meta['format_version'])
    require_equal(meta['words_dawg_length'], sum(len(v) for v in lex._forms.values()) if not noise else meta['words_dawg_length'], 'number of words')
    if not noise:
        require_equal(meta['gramtab_length'], len(set(t for forms in lexemes for _, t in forms)), 'number of tags')
        require_equal(meta['paradigms_length'], len(lex._paras), 'number of paradigms')
        require_equal(meta['suffixes_length'], len(set(s for p in lex._paras for _, _, s in p)), 'number of suffixes')
    d.nontrivial()


VERSIONS = ['2.4', '2.0', '2.5', '2.99', '3.0', '1.4', '0.0', '22.4', '20.0', '12.4', '-2.4', '2', '', '3', '24', '02.4x', None, 2.4, 2.0, 3.1, 1.0, 2, 3]


def set_meta(path, change):
    fn = os.path.join(path, 'meta.json')
    with open(fn, encoding='utf8') as f:
        meta = json.load(f)
    meta = change(meta)
    with open(fn, 'w', encoding='utf8') as f:
        json.dump(meta, f, ensure_ascii=d_ascii[0])


d_ascii = [False]


def formats(d, env):
    """Format versions are checked."""
    import pymorphy2
    c = C.gen_case(d, env)
    v = d.choice(VERSIONS)
    if d.chance(1, 4):
        v = '%d.%d' % (d.integer(0, 30), d.integer(0, 30))
    d.note('format_version', v)
    d_ascii[0] = d.chance(1, 2)
    set_meta(c.path, lambda m: [x if x[0] != 'format_version' else ['format_version', v] for x in m if x[0] != 'format_version' or v is not None])
    text = str(v)
    good = text.count('.') == 1 and text.split('.')[0] == '2'
    try:
        m = pymorphy2.MorphAnalyzer(path=c.path)
    except ValueError:
        require(not good, 'a dictionary with the format %r is rejected', v)
        d.label('rejected')
    else:
        require(good, 'a dictionary with the format %r is loaded', v)
        d.label('loaded')
        w = C.gen_word(d, c)
        C.compare_parses(m.parse(w), c.ref.parse(w), 'parse(%r)' % w)
    d.nontrivial()


def old_layouts(d, env):
    """Dictionaries made by older versions of pymorphy2."""
    import pymorphy2
    c = C.gen_case(d, env, probs=d.chance(1, 3))

    def change(meta):
        meta = [x for x in meta if x[0] not in ('compile_options', 'language_code')]
        for x in meta:
            if x[0] == 'format_version':
                x[1] = '2.%d' % d.integer(0, 4)
        o = c.options
        meta.append(['prediction_options', {'min_ending_freq': o['min_ending_freq'], 'min_paradigm_popularity': o['min_paradigm_popularity'],
                                            'max_suffix_length': o['max_suffix_length']}])
        return meta
    with open(os.path.join(c.path, 'paradigm-prefixes.json'), 'w', encoding='utf8') as f:
        json.dump(c.options['paradigm_prefixes'], f, ensure_ascii=d.chance(1, 2))
    set_meta(c.path, change)
    m = pymorphy2.MorphAnalyzer(path=c.path)
    require_equal(m.lang, 'ru', 'language of a dictionary that does not declare one')
    ref = RefAnalyzer(RawDict(c.path), C.RU_CONFIG)
    for _ in range(12):
        w = C.gen_word(d, c)
        C.compare_parses(m.parse(w), c.ref.parse(w), 'parse(%r)' % w)
        C.compare_parses(m.parse(w), ref.parse(w), 'parse(%r)' % w)
    d.nontrivial()


def snapshot(root):
    res = {}
    for dirpath, dirs, files in os.walk(root):
        for fn in files:
            p = os.path.join(dirpath, fn)
            st = os.stat(p)
            with open(p, 'rb') as f:
                res[p] = (f.read(), st.st_mtime_ns, st.st_ino)
        for x in dirs:
            res[os.path.join(dirpath, x)] = os.stat(os.path.join(dirpath, x)).st_mtime_ns
    res[''] = os.stat(root).st_mtime_ns
    return res


def untouched(d, env):
    """Without overwrite, existing folders are not changed."""
    from pymorphy2.opencorpora_dict.compile import convert_to_pymorphy2
    env.scratch.clear()
    options = G.gen_options(d)
    out = env.scratch.new()
    kind = d.draw(4)
    if kind == 0:
        os.mkdir(out)
    elif kind == 1:
        first = G.gen_spec(d, options=options)
        out = G.compile_spec(first, env.scratch, options)
    elif kind == 2:
        os.makedirs(os.path.join(out, 'sub'))
        for fn in d.sample(['meta.json', 'words.dawg', 'sub/x', 'notes.txt', 'grammemes.json', 'p_t_given_w.intdawg'], d.integer(1, 6)):
            with open(os.path.join(out, fn), 'w') as f:
                f.write(d.choice(['', '[]', 'garbage']))
    spec = G.gen_spec(d, options=options)
    xml = env.scratch.new() + '.xml'
    with open(xml, 'w', encoding='utf8') as f:
        f.write(spec.to_xml())
    before = snapshot(out) if kind != 3 else None
    kw = {} if d.chance(1, 2) else {'overwrite': False}
    with G.quiet():
        convert_to_pymorphy2(xml, out, source_name='second', language_code='ru', compile_options=options, **kw)
    d.label(['empty', 'dictionary', 'other files', 'new'][kind])
    if kind == 3:
        import pymorphy2
        m = pymorphy2.MorphAnalyzer(path=out, char_substitutes=None)
        lex = G.GenLex(G.expected_lexemes(spec), options)
        require_equal(Counter((p.word, str(p.tag), p.normal_form) for p in m.iter_known_word_parses()), lex.all_triples(), 'words of the new dictionary')
    else:
        require_equal(snapshot(out), before, 'contents of the existing folder')
    d.nontrivial()


def meta_files(d, env):
    """write_meta, load_meta and update_meta"""
    import collections

    from pymorphy2.opencorpora_dict import storage

    def value(depth=0):
        k = d.draw(7 if depth < 2 else 5)
        if k == 0:
            return name(d)
        if k == 1:
            return d.integer(-10**9, 10**9)
        if k == 2:
            return d.choice([True, False, None])
        if k == 3:
            return '%d.%d' % (d.integer(0, 9), d.integer(0, 99))
        if k == 4:
            return ''
        if k == 5:
            return [value(depth + 1) for _ in range(d.integer(0, 3))]
        return dict((name(d), value(depth + 1)) for _ in range(d.integer(0, 3)))

    def pairs(lo=0):
        res = collections.OrderedDict()
        for _ in range(d.integer(lo, 6)):
            res[d.choice(['a', 'б', 'P(t|w)', 'source', 'x y']) + d.text('ab', 0, 1)] = value()
        return res
    env.scratch.clear()
    fn = env.scratch.new()
    meta, extra = pairs(), pairs()
    d.note('meta', meta)
    d.note('extra', extra)
    storage.write_meta(fn, meta if d.chance(1, 2) else [list(x) for x in meta.items()])
    require_equal(list(storage.load_meta(fn).items()), list(meta.items()), 'metadata after write_meta')
    storage.update_meta(fn, extra if d.chance(1, 2) else list(extra.items()))
    both = collections.OrderedDict(meta)
    both.update(extra)
    require_equal(list(storage.load_meta(fn).items()), list(both.items()), 'metadata after update_meta')
    if meta or extra:
        d.nontrivial((meta, extra))


def old_env():
    import pymorphy2
    import pymorphy2_dicts

    class E(object):
        known = []
    e = E()
    e.words = C.corpus()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        e.morph = pymorphy2.MorphAnalyzer(path=pymorphy2_dicts.get_path())
    e.raw = RawDict(pymorphy2_dicts.get_path())
    e.ref = RefAnalyzer(e.raw, C.RU_CONFIG)
    e.hyphenated = [w for w in e.words if '-' in w]
    return e


def old_dictionary(d, env):
    """The installed dictionary of the old layout."""
    w = C.recase(d, C.any_word(d, env))
    C.model_case(env, w)
    require_equal(set(str(t) for t in env.morph.tag(w)), env.ref.tags(w), 'tag(%r)' % w)
    d.nontrivial(w)


CHECK = Check(
    'C26', 'a case is a generated dictionary that is saved and loaded (or whose files are changed to another format), a metadata file, or a word for the installed old-format dictionary; '
           'non-trivial: everything except empty metadata',
    [
        Group('roundtrip', roundtrip, 300, 10000, C.GenEnv, ('fast',)),
        Group('large', large, 10, 200, C.GenEnv, ('fast',), shrink=10),
        Group('huge', huge, 1, 3, C.GenEnv, ('fast',), shrink=1, doc='more than 32768 paradigms and suffixes'),
        Group('formats', formats, 200, 4000, C.GenEnv, ('fast',)),
        Group('old-layouts', old_layouts, 150, 4000, C.GenEnv, ('fast',)),
        Group('no-overwrite', untouched, 150, 4000, C.GenEnv, ('fast',)),
        Group('meta', meta_files, 1500, 40000, C.GenEnv, ('fast', 'slow')),
        Group('old-dictionary', old_dictionary, 2000, 100000, old_env, ('slow',)),
    ])
