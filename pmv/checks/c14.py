# -*- coding: utf-8 -*-
"""C14: Latin and Cyrillic tag names translate back and forth."""
import copy
import os

from pmv import common as C
from pmv import gendict as G
from pmv.engine import Check, Group, Violation, require, require_equal
from pmv.schedule import in_child

DOCUMENTED = {'LATN': 'ЛАТ', 'PNCT': 'ЗПР', 'NUMB': 'ЧИСЛО', 'intg': 'цел', 'real': 'вещ', 'UNKN': 'НЕИЗВ', 'ROMN': 'РИМ'}


def alias_map(env):
    if not hasattr(env, 'aliases'):
        env.aliases = dict((r[0], r[2]) for r in env.raw.grammeme_rows)
        env.aliases.update(DOCUMENTED)
        env.alias_names = sorted(env.aliases)
        assert len(set(env.aliases.values())) == len(env.aliases)
    return env.aliases


def translate(s, aliases):
    res = []
    word = ''
    for ch in s:
        if ch in ', ':
            res.append(aliases.get(word, word))
            res.append(ch)
            word = ''
        else:
            word += ch
    res.append(aliases.get(word, word))
    return ''.join(res)


def there_and_back(morph, s, aliases):
    want = translate(s, aliases)
    require_equal(morph.lat2cyr(s), want, 'lat2cyr(%r)' % s)
    require_equal(morph.cyr2lat(want), s, 'cyr2lat(%r)' % want)
    return want


def tag_object(morph, s, aliases):
    tag = morph.TagClass(s)
    want = there_and_back(morph, s, aliases)
    require_equal(morph.lat2cyr(tag), want, 'lat2cyr of the tag %s' % s)
    require_equal(tag.cyr_repr, want, 'cyr_repr of %s' % s)
    require_equal(tag.cyr_repr, want, 'cyr_repr of %s, again' % s)
    require(isinstance(tag.grammemes_cyr, frozenset), 'grammemes_cyr of %s: %r', s, tag.grammemes_cyr)
    require_equal(tag.grammemes_cyr, frozenset(want.replace(' ', ',').split(',')), 'grammemes_cyr of %s' % s)
    require_equal(morph.TagClass.lat2cyr(s), want, 'TagClass.lat2cyr(%r)' % s)
    require_equal(str(tag), s, 'the tag has changed')


def all_tags(d, env):
    aliases = alias_map(env)
    s = env.raw.gramtab[d.index]
    d.note('tag', s)
    tag_object(env.morph, s, aliases)
    if ' ' in s:
        d.nontrivial(s)


def sequences(d, env):
    aliases = alias_map(env)
    gs = [d.choice(env.alias_names) for _ in range(d.integer(1, 10))]
    s = gs[0]
    for g in gs[1:]:
        s += d.choice([',', ',', ' ']) + g
    d.note('sequence', s)
    there_and_back(env.morph, s, aliases)
    if ' ' not in s and len(set(gs)) == len(gs):
        tag_object(env.morph, s, aliases)
    if len(gs) > 1:
        d.nontrivial(s)


OTHER = ['', '', 'Xyz', 'nOUN', '3', 'существо', 'a-b', 'NOUN.']


def others(d, env):
    """Sequences in which some items are not grammemes, or empty: they stay as they are, and so do the separators."""
    aliases = alias_map(env)
    known = set(aliases) | set(aliases.values()) - {''}
    items = [d.choice(OTHER) if d.chance(1, 3) else d.choice(env.alias_names) for _ in range(d.integer(1, 8))]
    s = items[0]
    for g in items[1:]:
        space = d.chance(1, 4) and s[-1:] not in ('', ' ')
        s += (' ' if space else ',') + g
    s = s.rstrip(' ')
    d.note('sequence', s)
    if s and not known.intersection(OTHER):
        there_and_back(env.morph, s, aliases)
        if any(x in OTHER for x in items):
            d.nontrivial(s)


def token_tags(d, env):
    """Tags of analyses of tokens."""
    aliases = alias_map(env)
    w = C.token(d, env)
    for p in env.morph.parse(w)[:3]:
        tag_object(env.morph, str(p.tag), aliases)
        require_equal(p.tag.cyr_repr, translate(str(p.tag), aliases), 'cyr_repr')
        d.nontrivial(str(p.tag))


_n = [0]


def gendict(d, env):
    """Aliases of a generated dictionary (names are new in every case: the tag class is shared)."""
    import pymorphy2
    _n[0] += 1
    mark = 'y%x_%x_' % (os.getpid(), _n[0])
    names = [mark + str(i) for i in range(d.integer(2, 10))]
    rows = [(n, '' if d.chance(1, 2) else d.choice(names), 'я' + d.text('абвГД-*_', 0, 4) + str(i) + mark, d.text('аб ', 0, 5))
            for i, n in enumerate(names)]
    spec = G.Spec()
    spec.grammemes = rows + list(G.GRAMMEMES)           # initials etc. need the usual grammemes
    base = d.sample(names, d.integer(1, 3))
    rest = d.sample([n for n in names if n not in base], 2)
    spec.lemmas['1'] = ('аб', base, [('аб', rest)])
    env.scratch.clear()
    path = G.compile_spec(spec, env.scratch, G.gen_options(d))
    morph = pymorphy2.MorphAnalyzer(path=path)
    aliases = dict((r[0], r[2]) for r in spec.grammemes)
    aliases.update(DOCUMENTED)
    s = str(morph.parse('аб')[0].tag)
    require_equal(s, G.tag_string(base, rest), 'tag')
    tag_object(morph, s, aliases)
    for _ in range(10):
        gs = [d.choice(sorted(aliases)) for _ in range(d.integer(1, 5))]
        there_and_back(morph, ','.join(gs), aliases)
    d.nontrivial()


def new_aliases(d, rows=None):
    """Other names for some of the standard grammemes."""
    names = [g[0] for g in G.GRAMMEMES]
    chosen = d.sample(names, d.integer(1, 12))
    chosen += [x for x in ('Init', 'Name', 'Patr') if x not in chosen and d.chance(1, 2)]
    if d.chance(1, 4):
        chosen = names
    old = dict((g[0], g[2]) for g in G.GRAMMEMES)
    if d.chance(1, 3):
        # the names are swapped
        new = dict(zip(chosen, [old[x] for x in d.shuffle(chosen)]))
        d.label('swapped')
    else:
        new = dict((x, 'ю' + d.text('абвГД-*_', 0, 4) + str(i)) for i, x in enumerate(chosen))
    return chosen, new


def own_aliases(d, env):
    """Dictionaries have names of their own for the standard grammemes (in a forked process: the tag class is shared)."""
    import pymorphy2
    spec = G.gen_spec(d, options=dict(paradigm_prefixes=['']), links=False)
    options = dict(G.gen_options(d), paradigm_prefixes=[''])
    env.scratch.clear()
    runs = []
    # one after another: the last one counts, whatever was loaded before
    for n in range(d.choice([1, 2, 2, 3])):
        chosen, new = new_aliases(d)
        if n and d.chance(1, 4):
            spec = G.gen_spec(d, options=options, links=False)
        spec.grammemes = [(a, b, new.get(a, c), e) for a, b, c, e in G.GRAMMEMES]
        default = {}
        if d.chance(1, 4) and not n:
            # a dictionary may lack the grammemes of initials
            default = dict(x for x in (('Name', 'имя'), ('Patr', 'отч'), ('Init', 'иниц')) if d.chance(2, 3))
            if set(default.values()) & set(new.values()) or 'Name' in str(G.expected_lexemes(spec)):
                default = {}
            spec.grammemes = [r for r in spec.grammemes if r[0] not in default]
            if default:
                d.label('no grammemes of initials')
        d.note('aliases', new)
        lang = d.choice(['ru', 'ru', 'uk'])
        aliases = dict((r[0], r[2]) for r in spec.grammemes)
        aliases.update(DOCUMENTED)
        aliases.update(default)
        sequences = [[d.choice(sorted(aliases)) for _ in range(d.integer(1, 5))] for _ in range(8)] + [[x] for x in chosen]
        known = sorted(set(w for forms in G.expected_lexemes(spec) for w, _ in forms))
        tokens = ['А', 'Б', 'а', '12', 'xv', ','] + [d.text('абв', 1, 4) for _ in range(4)] + d.sample(known, 4)
        runs.append((copy.copy(spec), lang, aliases, sequences, [w for w in tokens if not C.too_many_e(w)]))

    def child():
        try:
            # (compiled here because compilation registers the names, too)
            for spec, lang, aliases, sequences, tokens in runs:
                path = G.compile_spec(spec, env.scratch, options, lang=lang)
                morph = pymorphy2.MorphAnalyzer(path=path)
                for gs in sequences:
                    there_and_back(morph, ','.join(gs), aliases)
                for w in tokens:
                    for p in morph.parse(w)[:14]:
                        tag_object(morph, str(p.tag), aliases)
                        require_equal(p.tag.cyr_repr, translate(str(p.tag), aliases), 'cyr_repr')
                        require_equal(p.tag.grammemes_cyr, frozenset(aliases[g] for g in p.tag.grammemes), 'grammemes_cyr')
        except Violation as e:
            return str(e)
        return ''
    res = in_child(child)
    require('ok' in res, 'a dictionary with aliases of its own: %s', res)
    require(not res['ok'], '%s', res['ok'])
    d.label('%d dictionaries' % len(runs))
    d.nontrivial()


CHECK = Check(
    'C14', 'a case is a tag of the dictionary (all of them), a sequence of known grammemes with random separators, a token whose tags are translated, or a dictionary with '
           'random grammemes and aliases; non-trivial: more than one grammeme',
    [
        Group('all-tags', all_tags, None, None, C.real_env, ('slow',), enum=lambda env: len(env.raw.gramtab)),
        Group('sequences', sequences, 8000, 200000, C.real_env, ('slow',)),
        Group('others', others, 3000, 300000, C.real_env, ('slow',)),
        Group('token-tags', token_tags, 4000, 200000, C.real_env, ('slow',)),
        Group('gendict', gendict, 150, 5000, C.GenEnv, ('fast',)),
        Group('own-aliases', own_aliases, 70, 4000, C.GenEnv, ('fast',)),
    ])
