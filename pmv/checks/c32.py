# -*- coding: utf-8 -*-
"""C32: analyzers with different dictionaries coexist."""
import copy
import gc
import os

from pmv import common as C
from pmv import findings
from pmv import gendict as G
from pmv import questions as Q
from pmv import schedule as S
from pmv.checks import c31
from pmv.engine import Check, Group, Source, Violation, require

LANGS = ['ru', 'ru', 'uk', 'xx', 'ru-old']
ALPHAS = [G.ALPHA, 'абеё', 'гґіа', 'авнпо', G.ALPHA]


class Env(c31.Env):
    N = 5

    def compile(self):
        res = []
        for i in range(self.N):
            d = Source(seed_text='c32/%d' % i)
            options = dict(G.gen_options(d), max_suffix_length=[5, 2, 4, 3, 1][i])
            if i > 2:
                options.update(min_ending_freq=0, min_paradigm_popularity=0)
            spec = G.gen_spec(d, options=options, links=True, alpha=ALPHAS[i], big=i > 1)
            if i in (1, 3):
                # grammemes which the other dictionaries do not have
                spec.grammemes = spec.grammemes + [('Own%d' % i, '', 'свое%d' % i, ''), ('ownC%d' % i, 'CAse', 'свой%d' % i, '')]
            if i == 3:
                spec.grammemes = list(reversed(spec.grammemes))
            lex = G.expected_lexemes(spec)
            path = G.compile_spec(spec, self.scratch, options, lang=LANGS[i])
            if i % 2:
                C.write_probs(path, C.gen_probs(d, lex))
            res.append({'path': path, 'words': sorted(G.GenLex(lex, options)._forms)})
        return res


class Twins(Env):
    """Dictionaries as alike as can be: folders of one name with files of one age and mostly one size."""
    N = 8

    def compile(self):
        d = Source(seed_text='c32/twins')
        options = dict(G.gen_options(d), max_suffix_length=5, min_ending_freq=0, min_paradigm_popularity=0)
        spec = G.gen_spec(d, options=options, links=True, alpha='абве', big=True)
        lex = G.expected_lexemes(spec)
        probs = C.gen_probs(d, lex)
        others = {k: round(1 - x, 3) for k, x in probs.items()}
        res = []
        for i in range(self.N):
            s, o, lang = spec, dict(options), 'ru'
            if i == 3:
                o['max_suffix_length'] = 2
            elif i == 4:
                o['min_ending_freq'] = 2
            elif i == 5:
                lang = 'uk'
            elif i in (6, 7):
                # another gender, other letters
                s = copy.deepcopy(spec)
                swap = {'masc': 'femn', 'femn': 'masc', 'sing': 'plur', 'plur': 'sing'} if i == 6 else {}
                table = {} if i == 6 else {ord('а'): 'в', ord('в'): 'а'}
                for lid, lemma in s.lemmas.items():
                    if lemma:
                        s.lemmas[lid] = (lemma[0].translate(table), [swap.get(g, g) for g in lemma[1]],
                                         [(w.translate(table), [swap.get(g, g) for g in gs]) for w, gs in lemma[2]])
            path = G.compile_spec(s, self.scratch, o, lang=lang)
            if i < 6:
                C.write_probs(path, [probs, others, probs, others, probs, others][i])
            parent = self.scratch.new()
            os.mkdir(parent)
            new = os.path.join(parent, 'data')
            os.rename(path, new)
            for name in os.listdir(new):
                os.utime(os.path.join(new, name), (1500000000, 1500000000))
            res.append({'path': new, 'words': sorted(G.GenLex(G.expected_lexemes(s), o)._forms)})
        return res


def configs():
    from pymorphy2 import units as U

    from pmv import pickles
    shared = [U.DictionaryAnalyzer(), U.NumberAnalyzer(score=0.5), [U.KnownPrefixAnalyzer(known_prefixes=['не', 'аб']), U.KnownSuffixAnalyzer(min_word_length=2)], U.UnknAnalyzer()]
    return [{}, {}, {'result_type': None}, {'char_substitutes': None}, {'probability_estimator_cls': None}, {'result_type': pickles.MyParse}, {'units': shared},
            {'lang': 'ru'}, {'lang': 'uk'}, {'lang': 'xx'}, {'char_substitutes': {'а': 'б'}}, {'units': shared, 'probability_estimator_cls': pickles.Reversed},
            {'char_substitutes': {'б': 'а'}}, {'char_substitutes': {'в': 'а'}}, {'char_substitutes': {'а': 'о', 'в': 'б'}}, {'units': [U.KnownSuffixAnalyzer(min_word_length=3), U.UnknAnalyzer()]}]


NCONF = 16
NONE = (2,)
WRAPPED = ('normalized', 'is_known', 'inflect', 'agree', 'tag data', 'contains', 'updated', 'numeral')


def words_of(d, dicts, i):
    """Also words which are predicted by endings of various lengths, and other spellings."""
    words = c31.words_of(d, dicts, i)
    w = d.choice(dicts[i]['words'])
    more = [d.text('абвг', 3, 5) + w[-n:] for n in range(1, min(7, len(w)) + 1)] + [w]
    a, b = d.sample('абвое', 2)
    more += [x.replace(a, b) for x in more]
    more = [x for x in more if sum(x.count(y) for y in 'еЕ') < 7]
    return lambda d: d.choice(more) if d.chance(1, 2) else words(d)


def gen_steps(d, env):
    steps = []
    alive = {}
    held = []
    n = 0
    common = d.choice([5, d.draw(NCONF)]) if d.chance(1, 3) else None        # most analyzers have the same configuration
    for _ in range(d.integer(4, 16)):
        k = d.draw(10)
        if not alive or k < 2:
            n += 1
            di, ci = d.draw(len(env.dicts)), d.draw(NCONF)
            if common is not None and d.chance(4, 5):
                ci = common
            alive[n] = (di, ci)
            steps.append(('create', n, di, ci))
            continue
        slot = d.choice(sorted(alive))
        di, ci = alive[slot]
        words = words_of(d, env.dicts, d.weighted([(4, di), (1, d.draw(len(env.dicts)))]))
        if k == 2 and len(alive) > 1:
            del alive[slot]
            steps.append(('drop', slot))
        elif k == 3:
            held.append(slot)
            steps.append(('hold', slot, len(held), words(d), d.integer(0, 3), ci))
        elif k == 4 and held:
            i = d.draw(len(held))
            steps.append(('use', held[i], i + 1, tuple(d.sample(['plur', 'gent', 'sing', 'femn', 'past'], 2))))
        else:
            q = Q.gen_question(d, words, bad=False)
            if ci in NONE and q[0] in WRAPPED:
                q = ('parse', q[1])
            if q[0] == 'grammeme known' and ci in (6, 11, 15):
                q = ('rare', ('loc2',))     # grammemes of units which only other analyzers have: C32-known
            steps.append(('ask', slot, q))
    return steps


def execute(env, steps, only=None):
    """{index of the step: answer}; ``only``: the steps of this analyzer (the others do not exist)."""
    import pymorphy2
    confs = configs()
    slots, held, res = {}, {}, {}
    for i, step in enumerate(steps):
        if only is not None and step[1] != only:
            continue
        op = step[0]
        if op == 'create':
            slots[step[1]] = pymorphy2.MorphAnalyzer(path=env.dicts[step[2]]['path'], **confs[step[3]])
        elif op == 'drop':
            del slots[step[1]]
            gc.collect()
        elif op == 'ask':
            raw, res[str(i)] = Q.ask(slots[step[1]], step[2])
            if step[2][0] in ('parse', 'lexeme'):
                res[str(i)] = [res[str(i)], [[p.is_known, Q.canonical(p.normalized)] for p in (raw or ())[:4] if hasattr(p, 'is_known')]]
        elif op == 'hold':
            m = slots[step[1]]
            held[step[2]] = (confs[step[5]].get('result_type', True) is not None, Q.pick(m, step[3], step[4]))
            res[str(i)] = Q.canonical(held[step[2]][1])
        elif op == 'use':
            wrapped, p = held[step[2]]
            res[str(i)] = [Q.canonical(p)]
            if wrapped and hasattr(p, 'lexeme'):
                f = p.inflect(set(step[3]))
                res[str(i)] += [Q.canonical(p.lexeme), Q.canonical(f), p.is_known, Q.canonical(p.normalized)]
    return res


def result(res, what):
    if 'ok' in res:
        return res['ok']
    if res.get('code'):
        raise Violation('%s: %s\n%s' % (what, res['error'], res['trace']))
    raise RuntimeError('%s: %s\n%s' % (what, res.get('error'), res.get('trace')))


def coexist(d, env):
    steps = gen_steps(d, env)
    d.note('steps', steps)
    together = result(S.in_child(lambda: execute(env, steps)), 'analyzers together')
    slots = sorted(set(s[1] for s in steps))
    for slot in slots:
        alone = result(S.in_child(lambda: execute(env, steps, slot)), 'an analyzer alone')
        for i, want in alone.items():
            if together[i] != want:
                raise Violation('%r: alone the answer is %r, together with other analyzers %r' % (steps[int(i)], want, together[i]))
    d.label('%d analyzers' % min(len(slots), 6))
    if any(s[0] == 'drop' for s in steps):
        d.label('drop')
    if len(slots) > 1:
        d.nontrivial()


# ------------------------------------------------------------ dictionaries which disagree about grammemes

class Env2(c31.Env):
    N = 2

    def compile(self):
        res = []
        for i in range(2):
            d = Source(seed_text='c32/x%d' % i)
            options = {'min_ending_freq': 0, 'min_paradigm_popularity': 0, 'max_suffix_length': 5, 'paradigm_prefixes': ['', 'по', 'наи']}
            spec = G.Spec()
            if i:
                change = {'masc': ('masc', '', 'МУЖ', ''), 'sing': ('sing', 'Other', 'одно', ''), 'gent': ('gent', '', 'род', '')}
                spec.grammemes = [change.get(g[0], g) for g in spec.grammemes] + [('Foreign', '', 'чужое', '')]
            spec.lemmas['1'] = ('аба', ['NOUN', 'inan', 'masc'], [('аба', ['sing', 'nomn']), ('абы', ['sing', 'gent']), ('абе', ['sing', 'datv']), ('абым', ['plur', 'datv'])])
            spec.lemmas['2'] = ('гога', ['ADJF', 'Qual'], [('гога', ['masc', 'sing', 'nomn']), ('гого', ['femn', 'sing', 'nomn']), ('гоги', ['plur', 'nomn'])])
            path = G.compile_spec(spec, self.scratch, options)
            res.append({'path': path, 'words': ['аба', 'абы', 'гога', 'гоги', 'абаба', 'не-аба', '12']})
        return res


# questions whose answers come from tables of the tag class; the id of the known finding
TABLES = {'lat2cyr': 'C32-aliases', 'cyr2lat': 'C32-aliases', 'tag data': 'C32-aliases', 'updated': 'C32-incompatible', 'inflect': 'C32-incompatible',
          'agree': 'C32-incompatible', 'grammeme known': 'C32-known', 'new tag': 'C32-known', 'contains': 'C32-known'}


def all_questions(words):
    qs = []
    for w in words:
        qs += [('parse', w), ('tag', w), ('normal_forms', w), ('known', w, True), ('lexeme', w, 0), ('normalized', w, 0), ('tag data', w, 0), ('numeral', w, 0, 5), ('agree', w, 0, 5)]
        for g in ('plur', 'gent', 'sing', 'masc', 'femn', 'datv', 'nomn'):
            qs += [('updated', w, 0, (g,)), ('inflect', w, 0, (g,))]
        qs.append(('contains', w, 0, 'Foreign'))
    qs += [('lat2cyr', 'NOUN,masc sing,gent'), ('cyr2lat', 'МУЖ'), ('cyr2lat', 'мр'), ('grammeme known', 'Foreign'), ('new tag', 'NOUN,Foreign'), ('rare', ('loc2',)), ('iterate', 'а', 9)]
    return qs


def disagree(d, env):
    """The tag class is shared: known findings. Everything that does not need its tables stays as it is."""
    import pymorphy2
    a, b = [(0, 1), (1, 0)][d.index]
    qs = all_questions(env.dicts[a]['words'])

    def run():
        A = pymorphy2.MorphAnalyzer(path=env.dicts[a]['path'])
        before = [Q.ask(A, q)[1] for q in qs]
        B = pymorphy2.MorphAnalyzer(path=env.dicts[b]['path'])
        B.parse('аба')
        return before, [Q.ask(A, q)[1] for q in qs]

    before, after = result(S.in_child(run), 'two dictionaries which disagree')
    for q, x, y in zip(qs, before, after):
        if x != y:
            fid = TABLES.get(q[0])
            if not findings.listed('C32', fid):
                raise Violation('%r: %r before the other dictionary is loaded and %r after that' % (q, x, y))
            env.known.append(findings.line('C32', fid))
            d.label(fid)
    d.note('questions', qs[:20])
    d.nontrivial()


CHECK = Check(
    'C32', 'a case is a history of creating, asking and dropping analyzers for five generated dictionaries (declared for different languages, with extra grammemes of their own) in various configurations, in a forked process; '
           'every answer of each analyzer has to be the one it gives when it is the only analyzer of a process; non-trivial: at least two analyzers',
    [
        Group('disagree', disagree, None, None, Env2, ('fast',), enum=lambda env: 2, doc='two dictionaries which disagree about alias, parent and set of grammemes'),
        Group('twins', coexist, 200, 10000, Twins, ('fast',), shrink=60, doc='dictionaries which hardly differ'),
        Group('coexist', coexist, 360, 20000, Env, ('fast',), shrink=60),
    ], assumptions=['the dictionaries agree on the grammemes they share (known findings otherwise)'])
