# -*- coding: utf-8 -*-
"""C34: which dictionary and which language rules an analyzer uses."""
import contextlib
import importlib
import json
import os
import pathlib
import shutil
import sys
import warnings

from pmv import common as C
from pmv import gendict as G
from pmv.engine import Check, Group, Source, Violation, require, require_equal
from pmv.refmodel import RefAnalyzer

VARIABLE = 'PYMORPHY2_DICT_PATH'
LANGS = ['ru', 'uk', 'xx', 'ru-old', 'be']
ODD_LANGS = ['RU', 'Uk', 'UK', 'ru_RU', ' ru', 'uk-UA']
NAMES = ['~', '~root', '$HOME', '${HOME}', '%HOME%', 'a b', ' x', 'x ', 'словарь', '*', '[a]', '{0}', '%s', 'a\\b', '#x', 'c:', 'ru', 'uk', 'xx', '.hidden', 'x.zip', '-', 'file:', 'None', 'meta.json']
ALPHA = 'абгґеёоиіы'
POOL = 5
OPTIONS = {'min_ending_freq': 1, 'min_paradigm_popularity': 1, 'max_suffix_length': 5, 'paradigm_prefixes': ['', 'по', 'наи']}
TOKENS = ['Ґ', 'Ы', 'І', 'Э', 'Щ', 'IV', 'abc', '12', '?', 'слово', 'по-бабому']


class Item(object):
    pass


class Env(C.GenEnv):
    """Compiled dictionaries; every one has a word of its own."""

    def __init__(self):
        C.GenEnv.__init__(self)
        self.keep = G.Scratch()
        self.items = []
        for i in range(POOL):
            d = Source(seed_text='c34-%d' % i)
            item = Item()
            spec = G.gen_spec(d, options=OPTIONS, alpha=ALPHA, links=False)
            item.marker = 'фффф' + 'щхжцъ'[i] * 3
            spec.lemmas['5000'] = (item.marker, ['CONJ'], [(item.marker, [])])
            item.lexemes = G.expected_lexemes(spec)
            item.declared = ['ru', 'uk', 'xx', 'ru', 'uk'][i]
            item.path = G.compile_spec(spec, self.keep, OPTIONS, lang=item.declared)
            item.lex = G.GenLex(item.lexemes, OPTIONS, None)
            item.words = sorted(item.lex._forms)
            item.refs = {}
            self.items.append(item)
        self.n = 0

    def close(self):
        C.GenEnv.close(self)
        self.keep.close()


def redeclared(env, item, declared):
    """A copy of the dictionary which declares another language ('' - none)."""
    path = env.scratch.new()
    shutil.copytree(item.path, path)
    fn = os.path.join(path, 'meta.json')
    with open(fn, encoding='utf8') as f:
        meta = json.load(f)
    meta = [[k, v] for k, v in meta if k != 'language_code'] + ([['language_code', declared]] if declared else [])
    with open(fn, 'w', encoding='utf8') as f:
        json.dump(meta, f)
    return path


@contextlib.contextmanager
def installed(env, packages):
    """Packages [(language, path)] which provide dictionaries."""
    if not packages:
        yield
        return
    site = env.scratch.new()
    os.makedirs(site)
    names = []
    for lang, path in packages:
        env.n += 1
        name = 'pmv_fake_dicts_%d_%d' % (os.getpid(), env.n)
        names.append(name)
        with open(os.path.join(site, name + '.py'), 'w') as f:
            f.write('def get_path():\n    return %r\n' % path)
        info = os.path.join(site, name + '-1.0.dist-info')
        os.makedirs(info)
        with open(os.path.join(info, 'METADATA'), 'w') as f:
            f.write('Metadata-Version: 2.1\nName: %s\nVersion: 1.0\n' % name)
        with open(os.path.join(info, 'entry_points.txt'), 'w') as f:
            f.write('[pymorphy2_dicts]\n%s = %s\n' % (lang, name))
    sys.path.append(site)
    importlib.invalidate_caches()
    try:
        yield
    finally:
        sys.path.remove(site)
        sys.path_importer_cache.pop(site, None)
        for n in names:
            sys.modules.pop(n, None)


@contextlib.contextmanager
def variable(value):
    old = os.environ.get(VARIABLE)
    if value is not None:
        os.environ[VARIABLE] = value
    else:
        os.environ.pop(VARIABLE, None)
    try:
        yield
    finally:
        if old is None:
            os.environ.pop(VARIABLE, None)
        else:
            os.environ[VARIABLE] = old


@contextlib.contextmanager
def folder(names):
    """The current folder."""
    old = os.getcwd()
    for x in names:
        os.chdir(x)
    try:
        yield
    finally:
        os.chdir(old)


def build(kw):
    """(analyzer or exception, user warnings)"""
    import pymorphy2
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        try:
            res = pymorphy2.MorphAnalyzer(**kw)
        except Exception as e:
            res = e
    return res, [str(w.message) for w in caught if w.category is UserWarning and 'ictionary' in str(w.message)]


def model(item, rules):
    if rules not in item.refs:
        item.refs[rules] = RefAnalyzer(item.lex, C.UK_CONFIG if rules == 'uk' else C.RU_CONFIG)
    return item.refs[rules]


def combos(d, env):
    env.scratch.clear()
    items = d.shuffle(list(env.items))
    relative = []

    def dictionary():
        item = items.pop()
        declared = d.weighted([(3, item.declared), (1, ''), (1, d.choice(LANGS))])
        path = item.path if declared == item.declared else redeclared(env, item, declared)
        if d.chance(1, 3):
            # a folder with an odd name, sometimes relative to the current one
            name = d.choice(NAMES)
            where = env.scratch.new()
            os.makedirs(where)
            link = os.path.join(where, name)
            os.symlink(path, link)
            path = link
            d.label('odd name')
            d.note('folder', name)
            if not relative and d.chance(1, 2):
                relative.append(where)
                path = name
                d.label('relative')
        return item, path, declared or None
    by_path = dictionary() if d.chance(1, 2) else None
    by_env = dictionary() if d.chance(1, 2) else None
    packages = {}
    for lang in d.sample(['uk', 'xx', 'be'], d.integer(0, 2)):
        packages[lang] = dictionary()
    lang = d.weighted([(3, None), (6, d.choice(LANGS)), (1, d.choice(ODD_LANGS))])
    kw = {}
    if by_path or d.chance(1, 3):
        kw['path'] = by_path and by_path[1]
        if by_path and d.chance(1, 4):
            kw['path'] = pathlib.Path(by_path[1])
            d.label('pathlib')
    if lang is not None or d.chance(1, 3):
        kw['lang'] = lang
    d.note('arguments', dict((k, k == 'path' and v is not None and by_path[0].marker or v) for k, v in kw.items()))
    d.note('variable', by_env and by_env[0].marker)
    d.note('packages', dict((k, v[0].marker) for k, v in packages.items()))
    d.note('declared', dict((k, v and v[2]) for k, v in [('path', by_path), ('variable', by_env)] + sorted(packages.items())))
    with variable(by_env and by_env[1]), installed(env, [(k, v[1]) for k, v in sorted(packages.items())]), folder(relative):
        morph, warned = build(kw)
    chosen = by_path or by_env
    effective = lang
    if lang is None and by_path is None:
        effective = 'ru'
    d.label('path:%s' % bool(by_path))
    d.label('variable:%s' % bool(by_env))
    d.label('lang:%s' % lang)
    d.nontrivial((by_path and by_path[2], by_env and by_env[2], sorted(packages), lang, 'path' in kw, 'lang' in kw))
    if chosen is None:
        chosen = packages.get(effective)
        if chosen is None and effective == 'ru':
            require(not isinstance(morph, Exception), 'the installed dictionary is not found: %r', morph)
            require(not any(morph.word_is_known(i.marker) for i in env.items), 'not the installed dictionary')
            require(morph.word_is_known('шестнадцатеричный'), 'not the installed dictionary')
            require_equal(morph.lang, 'ru', 'lang')
            require(not warned, 'warnings: %r', warned)
            d.label('installed')
            return
        if chosen is None:
            d.label('not installed')
            require(isinstance(morph, ValueError), 'no dictionary for %r is installed, but the result is %r', effective, morph)
            return
    if isinstance(morph, Exception):
        raise Violation('the analyzer is not created: %s: %s' % (type(morph).__name__, morph))
    item, path, declared = chosen
    for i in env.items:
        require_equal(morph.dictionary.word_is_known(i.marker), i is item, 'marker of dictionary %r is known' % i.marker)
    require_equal(morph.dictionary.lang, declared, 'dictionary.lang')
    want = effective or declared or 'ru'
    require_equal(morph.lang, want, 'language')
    if effective is not None and effective != declared:
        d.label('mismatch')
        require(warned, 'no warning: the dictionary is for %r, the analyzer for %r', declared, effective)
    if declared is not None and (effective is None or effective == declared):
        require(not warned, 'a warning about the dictionary: %r', warned)
    rules(d, morph, item, 'uk' if want == 'uk' else 'ru')


def rules(d, morph, item, lang):
    ref = model(item, lang)
    d.label('rules:' + lang)
    case = Item()
    case.words = item.words
    for _ in range(4):
        if d.chance(1, 3):
            w = d.choice(TOKENS)
        else:
            w = C.gen_word(d, case, ALPHA, ('авто', 'архи', 'най', 'не', 'псевдо', 'ультра', 'екс-', 'экс-'), ('-то', '-но', '-таки', '-ка', '-бо', '-от'))
            if d.chance(1, 2):
                w = w.replace('ґ', 'г').replace('ё', 'е')
        d.note('token', w)
        C.compare_parses(morph.parse(w), ref.parse(w), 'parse(%r) with the rules of %r' % (w, lang))


def overrides(d, env):
    """Units and substitutions which are passed explicitly are used instead of those of the language."""
    import pymorphy2
    from pymorphy2 import units
    env.scratch.clear()
    item = d.choice(env.items)
    lang = d.choice(['ru', 'uk', None])
    subs = d.choice([None, {}, {'о': 'а'}, {'е': 'ё', 'г': 'ґ'}, {'и': 'і', 'ы': 'і'}, {'а': 'б'}])
    given = d.chance(2, 3)
    kw = {'path': item.path, 'lang': lang}
    if given:
        kw['char_substitutes'] = subs
    only = d.chance(1, 2)
    if only:
        kw['units'] = d.choice([[units.DictionaryAnalyzer()], [[units.DictionaryAnalyzer(), units.UnknAnalyzer()]]])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        morph = pymorphy2.MorphAnalyzer(**kw)
    used = lang or item.declared
    table = dict(subs or {}) if given else ({'г': 'ґ'} if used == 'uk' else {'е': 'ё'})
    require_equal(morph.lang, used, 'language')
    w = d.choice(item.words)
    for _ in range(d.integer(0, 3)):
        # make it a spelling which needs substitutions
        k = d.choice(sorted(table) or ['а'])
        v = table.get(k, 'ґ')
        i = d.draw(len(w))
        if w[i] in v:
            w = w[:i] + k + w[i + 1:]
    if C.too_many_e(w):
        return
    d.note('word', w)
    d.note('substitutes', table)

    def fits(entry):
        return len(entry) == len(w) and all(a == b or b in table.get(a, '') for a, b in zip(w, entry))
    known = [x for x in item.words if fits(x)]
    d.nontrivial((w, sorted(table.items()), only))
    d.label('known:%d' % min(len(known), 2))
    require_equal(morph.word_is_known(w), bool(known), 'word_is_known(%r)' % w)
    require_equal(morph.word_is_known(w, strict=True), w in item.lex._forms, 'word_is_known(%r, strict)' % w)
    if only:
        got = sorted(set(p.word for p in morph.parse(w) if 'UNKN' not in p.tag))
        require_equal(got, known, 'words of the analyses of %r' % w)


def real(d, env):
    """The installed packages."""
    import pymorphy2_dicts_ru
    lang = d.choice([None, 'ru', 'ru-old', 'uk', 'xx'])
    old = env.old()
    kw = {} if lang is None and d.chance(1, 2) else {'lang': lang}
    by_env = d.chance(1, 5)
    d.note('lang', lang)
    d.nontrivial((lang, by_env, sorted(kw)))
    with variable(pymorphy2_dicts_ru.get_path() if by_env else None):
        morph, warned = build(kw)
    if not by_env and (lang in ('uk', 'xx') or lang == 'ru-old' and not old):
        require(isinstance(morph, ValueError), 'no dictionary for %r is installed, but the result is %r', lang, morph)
        return
    require(not isinstance(morph, Exception), 'lang=%r: %r', lang, morph)
    require_equal(morph.lang, lang or 'ru', 'language')
    if lang == 'ru-old' and not by_env:
        require_equal(morph.dictionary.path, old, 'path of the dictionary')
    else:
        require_equal(morph.dictionary.path, pymorphy2_dicts_ru.get_path(), 'path of the dictionary')
        require_equal(bool(warned), lang not in (None, 'ru'), 'a warning (%r)' % warned)
    w = C.token(d, env)
    if not (lang == 'ru-old' and not by_env) and lang != 'uk':
        C.model_case(env, w, morph=morph)


class RealEnv(C.Env):
    def old(self):
        try:
            import pymorphy2_dicts
            return pymorphy2_dicts.get_path()
        except ImportError:
            return None


CHECK = Check(
    'C34', 'a case is a combination of arguments, environment variable, installed packages and declared languages; non-trivial: all; distinct by combination and token',
    [
        Group('combinations', combos, 900, 40000, Env, ('fast',)),
        Group('overrides', overrides, 600, 30000, Env, ('fast',)),
        Group('installed', real, 60, 1500, RealEnv, ('fast', 'slow')),
    ])
