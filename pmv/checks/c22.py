# -*- coding: utf-8 -*-
"""C22: analyzer units form a pipeline of terminal groups."""
import copy

from pmv import common as C
from pmv import langdata
from pmv.engine import Check, Discard, Group, require, require_equal
from pmv.refmodel import FIRSTNAME, PATRONYMIC, RU_UNITS, Config, RefAnalyzer

UNITS = ['dict', 'firstname', 'patronymic', 'number', 'punct', 'roman', 'latin', 'particle', 'adverb', 'hyphen',
         'knownprefix', 'unknownprefix', 'suffix', 'unkn']

_fake = []


def fake_class():
    if not _fake:
        from pymorphy2.units.base import BaseAnalyzerUnit

        class Fake(BaseAnalyzerUnit):
            def __init__(self, name, rules, log, dedup=False, extra=None, marks=(), shy=False):
                self.name = name
                self.rules = rules
                self.log = log
                self.dedup = dedup
                self.extra = extra
                self.marks = marks
                self.shy = shy

            def parse(self, word, word_lower, seen_parses):
                self.log.append(('parse', self.name, word, word_lower, self.morph))
                res = []
                if self.shy and seen_parses:
                    return res
                if word in self.marks:
                    seen_parses.add((word_lower, self.name))
                for tag, score in self.rules.get(word, ()):
                    key = (word_lower, tag)
                    if self.dedup:
                        if key in seen_parses:
                            continue
                        seen_parses.add(key)
                    res.append((word_lower, self.morph.TagClass(tag), word_lower + self.name, score, ((self, word),)))
                return res

            def tag(self, word, word_lower, seen_tags):
                self.log.append(('tag', self.name, word, word_lower, self.morph))
                res = []
                if self.shy and seen_tags:
                    return res
                if word in self.marks:
                    seen_tags.add(self.name)
                for tag, score in self.rules.get(word, ()):
                    if self.dedup:
                        if tag in seen_tags:
                            continue
                        seen_tags.add(tag)
                    res.append(self.morph.TagClass(tag))
                return res

            def get_lexeme(self, form):
                return [form, form]

            def normalized(self, form):
                return form
        _fake.append(Fake)
    return _fake[0]


def nested(d, items, lists=(list, tuple)):
    """Random nesting: [item or group of items]."""
    res, i = [], 0
    while i < len(items):
        n = d.choice([1, 1, 2, 3])
        group = items[i:i + n]
        i += n
        if len(group) == 1 and d.chance(1, 2):
            res.append(group[0])
        else:
            res.append(d.choice(lists)(group))
    return res


def flat(groups):
    """[(item, is terminal)]"""
    res = []
    for g in groups:
        if isinstance(g, (list, tuple)):
            res += [(u, False) for u in g[:-1]] + [(g[-1], True)]
        else:
            res.append((g, True))
    return res


def fakes(d, env):
    """Recorded calls of units with arbitrary results."""
    import pymorphy2
    Fake = fake_class()
    tokens = ['Кот', 'кот', 'ДОМ', 'z', '']
    tags = ['NOUN', 'VERB', 'ADVB', 'NOUN,inan', 'PREP', 'NOUN,inan,masc sing,nomn']
    log = []
    fs = []
    for i in range(d.integer(1, 6)):
        rules = {}
        for t in tokens:
            if d.chance(1, 3):
                rules[t] = [(d.choice(tags), d.integer(0, 10) / 10) for _ in range(d.integer(1, 3))]
        fs.append(Fake('u%d' % i, rules, log, dedup=d.chance(1, 3), extra=('x', i),
                       marks=d.sample(tokens, d.integer(0, 3)) if d.chance(1, 3) else (), shy=d.chance(1, 6)))
    units = nested(d, fs)
    outer = d.choice([list, tuple])
    units = outer(units)
    snapshot = repr(units)
    before = [(g, tuple(g)) if isinstance(g, (list, tuple)) else (g,) for g in units]
    d.note('units', [[(u.name, u.rules, u.dedup, u.marks, u.shy) for u in (g if isinstance(g, (list, tuple)) else [g])] for g in units])
    d.note('terminal', [t for _, t in flat(units)])
    ms = [pymorphy2.MorphAnalyzer(units=units, probability_estimator_cls=None) for _ in range(d.integer(1, 2))]
    require(log == [], 'units are used before a word is parsed')
    for m in ms:
        for t in tokens + ['нет']:
            for mode in ('parse', 'tag'):
                del log[:]
                got = getattr(m, mode)(t)
                want, calls, seen = [], [], set()
                for f, terminal in flat(units):
                    calls.append((mode, f.name, t, t.lower()))
                    skip = f.shy and bool(seen)
                    if not skip and t in f.marks:
                        seen.add(f.name)
                    for tag, score in () if skip else f.rules.get(t, ()):
                        key = (t.lower(), tag) if mode == 'parse' else tag
                        if f.dedup and key in seen:
                            continue
                        if f.dedup:
                            seen.add(key)
                        want.append((t.lower(), tag, t.lower() + f.name, score) if mode == 'parse' else tag)
                    if terminal and want:
                        break
                require_equal([c[:4] for c in log], calls, 'calls of the units for %s(%r)' % (mode, t))
                require(all(c[4] is m for c in log), 'units of another analyzer are called')
                if mode == 'parse':
                    require_equal([(p[0], str(p[1]), p[2], p[3]) for p in got], want, 'parse(%r)' % t)
                    for p in got:
                        unit = p.methods_stack[-1][0]
                        require(not any(unit is f for f in fs), 'the unit was not copied')
                        require(type(unit) is Fake and unit.morph is m, 'unit of another analyzer')
                        mine = [f for f in fs if f.name == unit.name][0]
                        require(unit.rules == mine.rules and unit.dedup == mine.dedup and unit.extra == mine.extra and unit.marks == mine.marks and unit.shy == mine.shy, 'parameters of %r', unit)
                        require_equal(p.lexeme, [p, p], 'lexeme')
                    require_equal(m.normal_forms(t), list(dict.fromkeys(x[2] for x in want)), 'normal_forms(%r)' % t)
                else:
                    require_equal([str(x) for x in got], want, 'tag(%r)' % t)
                if want:
                    d.nontrivial()
    del log[:]
    require_equal(repr(units), snapshot, 'the list of units')
    for g, b in zip(units, before):
        if isinstance(g, (list, tuple)):
            require(g is b[0] and len(g) == len(b[1]) and all(x is y for x, y in zip(g, b[1])), 'the list of units was changed')
        else:
            require(g is b[0], 'the list of units was changed')
    require(all(f.morph is None and f.dict is None for f in fs), 'the units that were passed in are bound to an analyzer')


def random_params(d):
    """(model parameters, factories) for all real units."""
    o = {}
    for name, default in (('initials', 0.1), ('number', 0.9), ('punct', 0.9), ('roman', 0.9), ('latin', 0.9), ('particle', 0.9), ('adverb', 0.7),
                          ('hyphen', 0.75), ('knownprefix', 0.75), ('unknownprefix', 0.5), ('suffix', 0.5)):
        o[name] = default if d.chance(1, 3) else d.integer(1, 20) / 20
    o['min_remainder'] = d.choice([3, 3, 1, 2, 4, 5])
    o['min_word'] = d.choice([4, 4, 1, 2, 6])
    letters = d.choice([langdata.RU_LETTERS, 'АБВ', 'абв'])
    particles = d.choice([langdata.RU_PARTICLES, ['-ка'], ['-нибудь', '-то']])
    prefixes = d.choice([langdata.RU_PREFIXES, ['не', 'авто', 'экс-', 'без'], []])
    skip = d.choice([langdata.RU_PREFIXES, ['экс-', 'по-'], []])
    return o, relisted(o, letters, particles, prefixes, skip), (letters, particles, prefixes, skip)


def relisted(o, letters, particles, prefixes, skip):
    """Factories of units with these parameters."""
    from pymorphy2 import units
    return {
        'dict': lambda: units.DictionaryAnalyzer(), 'unkn': lambda: units.UnknAnalyzer(),
        'firstname': lambda: units.AbbreviatedFirstNameAnalyzer(letters=letters, score=o['initials']),
        'patronymic': lambda: units.AbbreviatedPatronymicAnalyzer(letters, tag_pattern=PATRONYMIC, score=o['initials']),
        'number': lambda: units.NumberAnalyzer(score=o['number']), 'punct': lambda: units.PunctuationAnalyzer(o['punct']),
        'roman': lambda: units.RomanNumberAnalyzer(score=o['roman']), 'latin': lambda: units.LatinAnalyzer(score=o['latin']),
        'particle': lambda: units.HyphenSeparatedParticleAnalyzer(particles_after_hyphen=particles, score_multiplier=o['particle']),
        'adverb': lambda: units.HyphenAdverbAnalyzer(score_multiplier=o['adverb']),
        'hyphen': lambda: units.HyphenatedWordsAnalyzer(skip_prefixes=skip, score_multiplier=o['hyphen']),
        'knownprefix': lambda: units.KnownPrefixAnalyzer(known_prefixes=prefixes, score_multiplier=o['knownprefix'], min_remainder_length=o['min_remainder']),
        'unknownprefix': lambda: units.UnknownPrefixAnalyzer(score_multiplier=o['unknownprefix']),
        'suffix': lambda: units.KnownSuffixAnalyzer(score_multiplier=o['suffix'], min_word_length=o['min_word']),
    }


def pipeline(d):
    """Names of units in random groups."""
    if d.chance(1, 3):
        # the standard pipeline with some units left out
        groups = [[u for u in g if not d.chance(1, 5)] for g in RU_UNITS]
        return [g for g in groups if g] or [['dict']]
    names = d.sample(UNITS[:-1], d.integer(1, len(UNITS) - 1))
    if d.chance(2, 3) and 'dict' not in names:
        names.insert(0, 'dict')
    res = nested(d, names, (list,))
    res = [g if isinstance(g, list) else [g] for g in res]
    if d.chance(2, 3):
        res.append(['unkn'])
    return res


class Bare(object):
    """The dictionary without P(t|w)."""

    def __init__(self, raw):
        self.__dict__.update(raw.__dict__)
        self._raw = raw
        self.has_prob = False

    def __getattr__(self, name):
        return getattr(self._raw, name)


def build(d, env, raw, path=None):
    import pymorphy2
    groups = pipeline(d)
    o, make, (letters, particles, prefixes, skip) = random_params(d)
    subs = d.choice([langdata.RU_SUBS] * 4 + [{}, {'а': 'о'}, {'е': 'ё', 'о': 'а'}])
    kw = {} if subs is langdata.RU_SUBS and d.chance(1, 2) else {'char_substitutes': subs or d.choice([{}, None])}
    no_prob = d.chance(1, 3)
    if no_prob:
        kw['probability_estimator_cls'] = None
    objs = dict((n, make[n]()) for g in groups for n in g)
    if d.chance(1, 3):
        # several units of one class with different parameters
        for _ in range(d.integer(1, 3)):
            o2, make2, (letters2, particles2, prefixes2, skip2) = random_params(d)
            if d.chance(1, 2):
                o2, make2 = o, relisted(o, letters2, particles2, prefixes2, skip2)
            name = d.choice([n for n in objs if isinstance(n, str) and n != 'unkn'] or ['dict'])
            if name not in objs:
                continue
            twin = name, Config(letters2, particles2, subs, prefixes2, [], skip_prefixes=skip2, **o2)
            objs[twin] = make2[name]()
            g = d.choice(groups)
            if g == ['unkn']:
                groups.insert(len(groups) - 1, [twin])
            else:
                g.insert(d.draw(len(g) + 1), twin)
            d.label('twins')
            d.note('twin', name)
    conf = Config(letters, particles, subs, prefixes, groups, skip_prefixes=skip, **o)
    listed = []
    for g in groups:
        listed.append(objs[g[0]] if len(g) == 1 and d.chance(1, 2) else d.choice([list, tuple])(objs[n] for n in g))
    d.note('units', repr(listed)[:1500])
    d.note('options', {k: (v if not isinstance(v, type) else v.__name__) for k, v in kw.items()})
    morph = pymorphy2.MorphAnalyzer(path=path, units=listed, **kw)
    ref = RefAnalyzer(Bare(raw) if no_prob else raw, conf)
    return groups, listed, objs, morph, ref, subs


def compare(d, groups, morph, ref, w):
    pairs = C.model_case(None, w, morph=morph, ref=ref)
    if ['unkn'] in groups or not any('unkn' in g for g in groups):
        require_equal(set(str(t) for t in morph.tag(w)), ref.tags(w), 'tag(%r)' % w)
    return pairs


def real(d, env):
    """Random pipelines of the real units with random parameters, for the real dictionary."""
    groups, listed, objs, morph, ref, subs = build(d, env, env.raw)
    shown = repr(listed)
    for _ in range(14):
        w = C.token(d, env)
        if sum(ch in subs for ch in w.lower()) > 7 or len(w) > 40:
            continue
        pairs = compare(d, groups, morph, ref, w)
        if pairs:
            d.nontrivial()
            d.label(pairs[0][1].kinds()[0])
        else:
            d.label('no analyses')
        for p, r in pairs[:2]:
            if not r.has_both():
                require_equal(C.lexeme_triples(p.lexeme), C.ref_triples(ref.lexeme(r)), 'lexeme of %r' % (tuple(p[:3]),))
                require_equal(C.ptuple(p.normalized), ref.normalized(r).key(), 'normalized %r' % (tuple(p[:3]),))
    require_equal(repr(listed), shown, 'the list of units')
    require(all(u.morph is None and u.dict is None for u in objs.values()), 'a unit that was passed in is bound to an analyzer')
    if d.chance(1, 4):
        # the same list for a second analyzer
        import pymorphy2
        again = pymorphy2.MorphAnalyzer(units=listed, probability_estimator_cls=None, char_substitutes=subs)
        ref2 = RefAnalyzer(Bare(env.raw), ref.cfg)
        for _ in range(5):
            w = C.token(d, env)
            if sum(ch in subs for ch in w.lower()) > 7 or len(w) > 40:
                continue
            compare(d, groups, again, ref2, w)
            compare(d, groups, morph, ref, w)


def gendict(d, env):
    """The same with generated dictionaries, and one list of units for two dictionaries."""
    import pymorphy2
    c = C.gen_case(d, env, probs=d.chance(1, 2))
    groups, listed, objs, morph, ref, subs = build(d, env, c.lex, c.path)
    second = None
    if d.chance(1, 3):
        from pmv import gendict as G
        spec = G.gen_spec(d, options=c.options, links=True)
        path = G.compile_spec(spec, env.scratch, c.options)
        lex = G.GenLex(G.expected_lexemes(spec), c.options)
        second = (pymorphy2.MorphAnalyzer(path=path, units=listed, char_substitutes=subs), RefAnalyzer(lex, ref.cfg))
    for _ in range(20):
        w = C.gen_word(d, c)
        if sum(ch in subs for ch in w.lower()) > 7:
            continue
        if compare(d, groups, morph, ref, w):
            d.nontrivial()
        if second:
            compare(d, groups, second[0], second[1], w)
            d.label('second')


PARAMS = ['extra', 'letters2', 'a', 'Z', '_hidden', 'score2', 'word', 'prefix', 'x9']


def make_classes(d):
    """Unit classes of the user's own: [(class, {parameter: default})]; some derive from each other or from the standard units."""
    from pymorphy2 import units
    from pymorphy2.units.base import BaseAnalyzerUnit
    standard = [
        (BaseAnalyzerUnit, {}), (BaseAnalyzerUnit, {}), (units.LatinAnalyzer, {'score': 0.9}), (units.NumberAnalyzer, {'score': 0.9}),
        (units.DictionaryAnalyzer, {}), (units.UnknAnalyzer, {}), (units.KnownPrefixAnalyzer, {'known_prefixes': ['ы'], 'score_multiplier': 0.75, 'min_remainder_length': 3}),
        (units.KnownSuffixAnalyzer, {'score_multiplier': 0.5, 'min_word_length': 4}), (units.HyphenAdverbAnalyzer, {'score_multiplier': 0.7}),
    ]
    made = []
    for i in range(d.integer(1, 4)):
        base, params = d.choice(made) if made and d.chance(1, 2) else d.choice(standard)
        own = {} if d.chance(1, 4) else dict((p, d.choice([None, 1, 'б', (), 0])) for p in d.sample([p for p in PARAMS if p not in params], d.integer(1, 3)))
        body = {'label': 'k%d' % i}
        if own:
            # parameters of the base class may be fixed by the derived one
            kept = dict((k, v) for k, v in params.items() if d.chance(3, 4))
            alls = list(d.shuffle(sorted(kept) + sorted(own)))
            defaults = dict(kept, **own)
            text = 'def __init__(self, %s):\n' % ', '.join('%s=%r' % (a, defaults[a]) for a in alls)
            rest = ', '.join('%s=%s' % (k, k if k in kept else repr(v)) for k, v in sorted(params.items()))
            text += '    _init(self%s)\n' % (', ' + rest if rest else '')
            text += ''.join('    self.%s = %s\n' % (a, a) for a in own)
            space = {'_init': base.__init__}
            exec(text, space)
            body['__init__'] = space['__init__']
            new = defaults
            body['params'] = sorted(dict(params, **own))
        else:
            new = dict(params)
            body['params'] = sorted(getattr(base, 'params', params))

        def parse(self, word, word_lower, seen_parses):
            said = '%s %r' % (self.label, [(p, getattr(self, p)) for p in self.params])
            return [(word_lower, self.morph.TagClass('NOUN'), said, 0.5, ((self, word),))]

        def tag(self, word, word_lower, seen_tags):
            return [self.morph.TagClass('NOUN')]
        body['parse'], body['tag'] = parse, tag
        made.append((type('K%d' % i, (base,), body), new))
    return made


def own_classes(d, env):
    """Units of the user's own with parameters of their own keep them."""
    import pymorphy2
    from pymorphy2 import units
    classes = make_classes(d)
    pool = [lambda: units.LatinAnalyzer(score=0.3), lambda: units.KnownPrefixAnalyzer(known_prefixes=['ъ'], min_remainder_length=2), lambda: units.DictionaryAnalyzer(),
            lambda: units.NumberAnalyzer(score=0.2), lambda: units.KnownSuffixAnalyzer(min_word_length=9), lambda: units.HyphenAdverbAnalyzer(score_multiplier=0.1), lambda: units.UnknAnalyzer()]
    objs = []
    for _ in range(d.integer(1, 5)):
        cls, params = d.choice(classes)
        args = dict((p, d.choice([1, 2, 'в', ['г'], {'д': 1}, None]) if p in PARAMS else params[p]) for p in params if p == 'known_prefixes' or d.chance(2, 3))
        u = cls(**args)
        objs.append((u, dict((p, getattr(u, p)) for p in u.params)))
    mine = [u for u, _ in objs]
    everything = mine + [f() for f in d.sample(pool, d.integer(0, 4))]
    if d.chance(1, 4):
        everything.append(d.choice(mine))          # one unit may be listed twice
    listed = d.shuffle(everything)
    # none of them is terminal, so that all answer
    group = [listed + [units.UnknAnalyzer()]] if d.chance(1, 2) else [list(listed)]
    d.note('units', repr(group)[:1500])
    for n in range(d.integer(1, 2)):
        m = pymorphy2.MorphAnalyzer(units=group, probability_estimator_cls=None)
        got = [p[2] for p in m.parse('ъы7') if p[2].startswith('k')]
        want = []
        for u in listed:
            if any(u is x for x in mine):
                want.append('%s %r' % (u.label, [(p, getattr(u, p)) for p in u.params]))
        require_equal(got, want, 'parameters of the units as seen when a word is parsed')
    for u, state in objs:
        require(u.morph is None and u.dict is None, 'the unit that was passed in is bound to an analyzer')
        require_equal(dict((p, getattr(u, p)) for p in u.params), state, 'parameters of the unit that was passed in')
    if len(set(type(u) for u in mine)) > 1:
        d.label('several classes')
    d.nontrivial()


CHECK = Check(
    'C22', 'a case is a list of units (fake ones which record their calls, or the real ones with random parameters) and several tokens; results are compared '
           'with the concatenation rule and with the model; non-trivial: some token has analyses',
    [
        Group('fakes', fakes, 200, 6000, None, ('slow',)),
        Group('own-classes', own_classes, 150, 6000, None, ('slow',)),
        Group('real', real, 250, 12000, C.real_env, ('slow',)),
        Group('gendict', gendict, 250, 8000, C.GenEnv, ('fast',)),
    ])
