# -*- coding: utf-8 -*-
"""C21: single capital letters are initials."""
from pmv import common as C
from pmv import langdata
from pmv.engine import Check, Discard, Group, require, require_equal
from pmv.refmodel import FIRSTNAME, PATRONYMIC, Config, RefAnalyzer, grammemes

GENDERS = ('masc', 'femn')
CASES = ('nomn', 'gent', 'datv', 'accs', 'ablt', 'loct')
COMBOS = [(g, c) for g in GENDERS for c in CASES]


def is_initial(p):
    return type(p.methods_stack[0][0]).__name__ in ('AbbreviatedFirstNameAnalyzer', 'AbbreviatedPatronymicAnalyzer')


def gender_case(p):
    gs = grammemes(str(p.tag))
    return ([g for g in GENDERS if g in gs] + [None])[0], ([c for c in CASES if c in gs] + [None])[0]


def check_initials(parses, token, patterns, mark='Init'):
    """The analyses of a letter as an initial; patterns: [(tag pattern, is first name, score or None)]."""
    inits = [p for p in parses if is_initial(p)]
    want = []
    for pattern, first, score in patterns:
        for g, c in COMBOS:
            want.append((token.lower(), pattern % {'gender': g, 'case': c}, token.lower()))
    require_equal(sorted(C.ptuple(p) for p in inits), sorted(want), 'initials of %r' % token)
    for pattern, first, score in patterns:
        tags = dict((pattern % {'gender': g, 'case': c}, (g, c)) for g, c in COMBOS)
        for p in inits:
            if str(p.tag) not in tags:
                continue
            if type(p.methods_stack[0][0]).__name__.endswith('FirstNameAnalyzer') != first:
                continue
            if score is not None:
                require(C.close(p.score, score), 'score of %r', tuple(p[:4]))
            g, c = tags[str(p.tag)]
            lex = [(g, x) for x in CASES] if first else COMBOS
            want_lex = [(token.lower(), pattern % {'gender': a, 'case': b}, token.lower()) for a, b in lex]
            require_equal([C.ptuple(f) for f in p.lexeme], want_lex, 'lexeme of %r' % (tuple(p[:3]),))
            require_equal(C.ptuple(p.normalized), want_lex[0], 'normalized %r' % (tuple(p[:3]),))
            for x in CASES:
                f = p.inflect({x})
                require(f is not None and gender_case(f) == (g, x), 'inflect({%r}) of %r: %r', x, tuple(p[:3]), f)
            other = 'femn' if g == 'masc' else 'masc'
            f = p.inflect({other})
            if first:
                require(f is None, 'inflect({%r}) of %r: %r', other, tuple(p[:3]), f)
            else:
                require(f is not None and gender_case(f) == (other, c), 'inflect({%r}) of %r: %r', other, tuple(p[:3]), f)
    return inits


DEFAULTS = [(FIRSTNAME, True, None), (PATRONYMIC, False, None)]


def characters(env):
    if not hasattr(env, 'chars'):
        env.chars = [chr(c) for c in list(range(0x21, 0x250)) + list(range(0x370, 0x530))
                     if not chr(c).isspace() and c not in (0x130, 0x131)]
    return env.chars


def letters(d, env):
    """Every character of the Latin, Greek and Cyrillic blocks."""
    w = characters(env)[d.index]
    d.note('token', w)
    parses = env.morph.parse(w)
    tags = [str(t) for t in env.morph.tag(w)]
    if w in langdata.RU_LETTERS:
        inits = check_initials(parses, w, DEFAULTS)
        words = set(C.ptuple(p) for p in parses if not is_initial(p))
        require_equal(words, set(p.key() for p in env.ref.dict_parses(w.lower())), 'dictionary analyses of %r' % w)
        require(set(str(p.tag) for p in inits) <= set(tags), 'tag(%r) lacks initials', w)
        d.nontrivial(w)
        d.label('initial')
    else:
        require(not any(is_initial(p) for p in parses), 'parse(%r) has initials', w)
        require(not any('Init' in t for t in tags), 'tag(%r): %r', w, tags)
        d.label('not an initial')
    C.model_case(env, w)
    require_equal(set(tags), env.ref.tags(w), 'tag(%r)' % w)


def tokens(d, env):
    """Longer tokens with capital letters are not initials."""
    k = d.draw(6)
    a = d.choice(langdata.RU_LETTERS)
    if k == 0:
        w = a + d.choice(langdata.RU_LETTERS)
    elif k == 1:
        w = a + d.choice('.,-—1°’́̆̈\u200d')
    elif k == 2:
        w = d.choice('-.(«"') + a
    elif k == 3:
        w = a + '-' + d.choice(['то', 'ка', 'Б', C.dict_word(d, env), 'с'])
    elif k == 4:
        w = d.choice(['по-', 'не', 'экс-', 'авиа']) + a
    else:
        w = d.choice(langdata.RU_LETTERS.lower() + 'ЪЫЬъыьЄІЇҐAOEC' + 'ЁЙ')
    d.note('token', w)
    if w in langdata.RU_LETTERS:
        raise Discard()
    for p in env.morph.parse(w):
        require(not any(type(m[0]).__name__.startswith('Abbreviated') for m in p.methods_stack if not isinstance(m[0], tuple)), 'parse(%r): %r', w, p)
        require('Init' not in str(p.tag), 'parse(%r): %r', w, p)
    C.model_case(env, w)
    d.nontrivial(w)


def custom(d, env):
    """Other letters, tag patterns and scores (the units do not need a particular dictionary)."""
    import pymorphy2
    from pymorphy2 import units
    pool = langdata.RU_LETTERS + langdata.RU_LETTERS.lower() + 'ABCXYZ' + 'ІЇ'
    many = lambda: [d.choice(pool) + (d.choice('ьъю') if d.chance(1, 6) else '') for _ in range(d.integer(1, 6))]
    kinds = [str, list, tuple, set, frozenset]

    def make_letters():
        ls = many()
        kind = d.choice(kinds)
        if kind is str:
            ls = [x[0] for x in ls]
            return ''.join(ls), set(ls)
        return kind(ls), set(ls)

    def pattern():
        parts = ['NOUN', 'anim', '%(gender)s'] + d.sample(['Sgtm', 'Name', 'Fixd', 'Abbr', 'Init', 'Patr', 'Surn'], d.integer(0, 5))
        return ','.join(parts) + ' ' + d.choice(['sing,%(case)s', 'sing,%(case)s', '%(case)s', '%(case)s,plur'])
    (l1, s1), (l2, s2) = make_letters(), make_letters()
    p1, p2 = d.choice([None, pattern()]), d.choice([None, pattern()])
    sc1, sc2 = d.choice([0.1, 0.5, 1.0, 0.25]), d.choice([0.1, 0.5, 1.0, 0.25])
    kw1 = {'tag_pattern': p1} if p1 else {}
    kw2 = {'tag_pattern': p2} if p2 else {}
    d.note('letters', (sorted(s1), sorted(s2)))
    d.note('patterns', (p1, p2))
    d.note('scores', (sc1, sc2))
    ones = [units.AbbreviatedFirstNameAnalyzer(letters=l1, score=sc1, **kw1),
            units.AbbreviatedPatronymicAnalyzer(letters=l2, score=sc2, **kw2)]
    order = d.choice([ones, ones[::-1]])
    morph = pymorphy2.MorphAnalyzer(units=[list(order), units.UnknAnalyzer()], probability_estimator_cls=None)
    for w in sorted(s1 | s2) + [d.choice(pool) for _ in range(4)] + [sorted(s1)[0].lower(), sorted(s1)[0] * 2]:
        patterns = ([(p1 or FIRSTNAME, True, sc1)] if w in s1 else []) + ([(p2 or PATRONYMIC, False, sc2)] if w in s2 else [])
        got = morph.parse(w)
        if not patterns:
            require_equal([str(p.tag) for p in got], ['UNKN'], 'parse(%r)' % w)
            require_equal([str(t) for t in morph.tag(w)], ['UNKN'], 'tag(%r)' % w)
            continue
        check_initials(got, w, patterns)
        require_equal(len(got), 12 * len(patterns), 'number of analyses of %r' % w)
        require_equal(set(str(t) for t in morph.tag(w)), set(str(p.tag) for p in got), 'tag(%r)' % w)
        d.nontrivial((w, p1, p2, sc1, sc2))


def gendict(d, env):
    """Letters that are words of a dictionary."""
    import pymorphy2
    from pymorphy2 import units
    from pmv import gendict as G
    c = C.gen_case(d, env, probs=d.chance(1, 4))
    letters_ = G.ALPHA + G.ALPHA.upper() + langdata.RU_LETTERS[:4]
    groups = d.choice([[['dict', 'firstname', 'patronymic'], ['unkn']], [['dict'], ['firstname', 'patronymic'], ['unkn']],
                       [['firstname', 'patronymic'], ['dict'], ['unkn']],
                       [['dict', 'firstname', 'patronymic'], ['hyphen'], ['knownprefix'], ['unkn']]])
    sc = d.choice([0.1, 0.4])
    conf = Config(letters_, [], langdata.RU_SUBS, ['а', 'в-', 'до'], groups, initials=sc)
    make = {'dict': units.DictionaryAnalyzer, 'unkn': units.UnknAnalyzer, 'hyphen': lambda: units.HyphenatedWordsAnalyzer(skip_prefixes=['а', 'в-', 'до']),
            'knownprefix': lambda: units.KnownPrefixAnalyzer(known_prefixes=['а', 'в-', 'до'], min_remainder_length=1),
            'firstname': lambda: units.AbbreviatedFirstNameAnalyzer(letters=letters_, score=sc),
            'patronymic': lambda: units.AbbreviatedPatronymicAnalyzer(letters=letters_, score=sc)}
    conf.opt['min_remainder'] = 1
    d.note('units', groups)
    morph = pymorphy2.MorphAnalyzer(path=c.path, units=[[make[u]() for u in g] for g in groups])
    ref = RefAnalyzer(c.lex, conf)
    for _ in range(12):
        w = d.choice(letters_)
        if d.chance(1, 3):
            w = d.choice(['а', 'в-', 'до', w + '-']) + d.choice(letters_)
        pairs = C.model_case(None, w, morph=morph, ref=ref)
        require_equal(set(str(t) for t in morph.tag(w)), ref.tags(w), 'tag(%r)' % w)
        for p, r in pairs:
            if {'firstname', 'patronymic'} & set(r.kinds()):
                d.nontrivial()
                if not r.has_both():
                    require_equal(C.lexeme_triples(p.lexeme), C.ref_triples(ref.lexeme(r)), 'lexeme of %r' % (tuple(p[:3]),))
                    require_equal(C.ptuple(p.normalized), ref.normalized(r).key(), 'normalized %r' % (tuple(p[:3]),))
                    break


def old_env():
    import pymorphy2

    class E(object):
        known = []
    e = E()
    e.morph = pymorphy2.MorphAnalyzer(lang='ru-old')
    return e


def old_dictionary(d, env):
    """Dictionaries without the grammeme Init."""
    w = langdata.RU_LETTERS[d.index]
    d.note('token', w)
    check_initials(env.morph.parse(w), w, DEFAULTS)
    require(not any(is_initial(p) for p in env.morph.parse(w.lower())), 'parse(%r) has initials', w.lower())
    d.nontrivial(('old', w))


CHECK = Check(
    'C21', 'a case is a character, a token with capital letters, or a set of letters, tag patterns and scores; analyses, lexemes, normal forms and inflections are compared '
           'with the table of genders and cases; non-trivial: the token is an initial (or looks like one)',
    [
        Group('letters', letters, None, None, C.real_env, ('slow',), enum=lambda env: len(characters(env)), doc='every character of the Latin, Greek and Cyrillic blocks'),
        Group('tokens', tokens, 2500, 60000, C.real_env, ('slow',)),
        Group('custom', custom, 60, 2000, None, ('slow',)),
        Group('old-dictionary', old_dictionary, None, None, old_env, ('slow',), enum=lambda env: len(langdata.RU_LETTERS)),
        Group('gendict', gendict, 160, 5000, C.GenEnv, ('fast',)),
    ])
