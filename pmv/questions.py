# -*- coding: utf-8 -*-
"""Questions to an analyzer as data, so that they can be asked again, elsewhere and in another order."""
from __future__ import annotations

from pmv import common as C
from pmv.peer import fields

ERRORS = (ValueError, AttributeError, TypeError, KeyError, RuntimeError)
ATTRS = ('POS', 'animacy', 'aspect', 'case', 'gender', 'involvement', 'mood', 'number', 'person', 'tense', 'transitivity', 'voice')


def pick(morph, w, i):
    ps = morph.parse(w)
    return ps[i % len(ps)]


def ask(morph, q):
    """(what the analyzer returned, the same as comparable data)"""
    try:
        raw = _ask(morph, q)
    except ERRORS as e:
        return None, 'raises %s: %s' % (type(e).__name__, e)
    return raw, canonical(raw)


def _ask(morph, q):
    op, args = q[0], q[1:]
    if op == 'parse':
        return morph.parse(args[0])
    if op == 'tag':
        return morph.tag(args[0])
    if op == 'normal_forms':
        return morph.normal_forms(args[0])
    if op == 'known':
        return morph.word_is_known(args[0], strict=args[1])
    if op == 'iterate':
        res = []
        for p in morph.iter_known_word_parses(args[0]):
            if len(res) >= args[1]:
                break
            res.append(p)
        return res
    if op == 'cyr2lat':
        return morph.cyr2lat(args[0])
    if op == 'lat2cyr':
        return morph.lat2cyr(args[0])
    if op == 'new tag':
        return morph.TagClass(args[0])
    if op == 'tables':
        t = morph.TagClass(args[0])
        known = [g for g in GRAMMEMES if morph.TagClass.grammeme_is_known(g)]
        return known + [t.updated_grammemes({g}) for g in known] + [morph.lat2cyr(g) for g in GRAMMEMES] + [morph.cyr2lat(morph.lat2cyr(args[0]))]
    if op == 'rare':
        return morph.TagClass.fix_rare_cases(set(args[0]))
    if op == 'grammeme known':
        return morph.TagClass.grammeme_is_known(args[0])
    p = pick(morph, args[0], args[1])
    rest = args[2:]
    if op == 'lexeme':
        return morph.get_lexeme(p)
    if op == 'normalized':
        return p.normalized
    if op == 'is_known':
        return p.is_known
    if op == 'inflect':
        return p.inflect(set(rest[0]))
    if op == 'agree':
        return p.make_agree_with_number(rest[0])
    if op == 'tag data':
        t = p.tag
        return [str(t), repr(t), len(t), t.grammemes, t.cyr_repr, t.grammemes_cyr, t.is_productive()] + [getattr(t, a) for a in ATTRS]
    if op == 'contains':
        return (rest[0] in p.tag) if isinstance(rest[0], str) else (set(rest[0]) in p.tag)
    if op == 'updated':
        return p.tag.updated_grammemes(set(rest[0]))
    if op == 'numeral':
        return p.tag.numeral_agreement_grammemes(rest[0])
    raise AssertionError(op)


def canonical(x):
    if isinstance(x, tuple) and len(x) == 5 and isinstance(x[4], tuple):
        return fields(x)
    if isinstance(x, (list, tuple)):
        return [canonical(y) for y in x]
    if isinstance(x, (set, frozenset)):
        return ['set'] + sorted(x)
    if x is None or isinstance(x, (bool, int, float)):
        return x
    return str(x)


GRAMMEMES = ['sing', 'plur', 'nomn', 'gent', 'datv', 'accs', 'ablt', 'loct', 'masc', 'femn', 'neut', 'past', 'pres', '1per', '2per', '3per',
             'gen2', 'loc2', 'voct', 'NOUN', 'VERB', 'ADJF', 'INFN', 'ADJS', 'COMP', 'Supr', 'anim', 'inan', 'PRTF', 'actv', 'pssv', 'GRND', 'impr', 'excl']


def gen_question(d, words, bad=True):
    """words: a function which returns a token."""
    k = d.weighted([(6, 'parse'), (3, 'tag'), (1, 'normal_forms'), (2, 'known'), (2, 'iterate'), (1, 'cyr2lat'), (1, 'lat2cyr'), (1, 'new tag'), (1, 'rare'),
                    (1, 'grammeme known'), (5, 'lexeme'), (3, 'normalized'), (1, 'is_known'), (5, 'inflect'), (3, 'agree'), (2, 'tag data'), (1, 'contains'),
                    (2, 'updated'), (2, 'numeral')])
    if k in ('parse', 'tag', 'normal_forms'):
        return (k, words(d))
    if k == 'known':
        return (k, words(d), d.chance(1, 2))
    if k == 'iterate':
        w = words(d)
        return (k, w[:d.integer(1, 6)] or 'а', d.integer(1, 12))
    if k == 'cyr2lat':
        return (k, d.choice(['СУЩ', 'ед', 'СУЩ,од,мр ед,им', 'ГЛ', 'ПР', 'неод']))
    if k == 'lat2cyr':
        return (k, d.choice(['NOUN', 'sing', 'NOUN,anim,masc sing,nomn', 'VERB', 'PREP', 'inan', 'UNKN']))
    if k == 'new tag':
        names = GRAMMEMES + (['foo'] if bad else [])
        return (k, d.choice(['NOUN', 'VERB', 'ADJF']) + ',' + ','.join(d.choice(names) for _ in range(d.integer(1, 3))))
    if k == 'rare':
        return (k, tuple(d.sample(['gen1', 'gen2', 'acc2', 'loc1', 'loc2', 'voct', 'plur', 'nomn'], d.integer(0, 4))))
    if k == 'grammeme known':
        return (k, d.choice(GRAMMEMES + ['foo', 'NUMB', 'Init', 'LATN', 'UNKN', 'PNCT', 'ROMN', 'Patr', 'Name', 'intg']))
    i = d.integer(0, 4)
    q = (k, words(d), i)
    grs = tuple(d.sample(GRAMMEMES + (['foo'] if bad and d.chance(1, 8) else []), d.weighted([(3, 1), (3, 2), (1, 0), (1, 3)])))
    if k in ('inflect', 'updated'):
        return q + (grs,)
    if k in ('agree', 'numeral'):
        return q + (d.choice([0, 1, 2, 3, 4, 5, 11, 12, 21, 22, 25, 101, 111, 112, 1001]),)
    if k == 'contains':
        return q + (d.choice([grs, (grs or ('plur',))[0]]),)
    return q


def parts(x, depth=0):
    """Lists and sets within an answer: its elements and the sets of grammemes of its tags."""
    res = []
    if isinstance(x, (list, tuple)) and depth < 3:
        for y in x:
            res += parts(y, depth + 1)
    for name in ('grammemes', 'grammemes_cyr'):
        try:
            y = getattr(x, name, None)
        except Exception:
            continue
        res.append(y)
    return [y for y in res + [x] if isinstance(y, (list, set))] if depth == 0 else res + [x]


def spoil(d, x):
    """Change a returned list or set, or one within it, the way a caller may do."""
    inner = parts(x)
    if inner and (d.chance(1, 2) or not isinstance(x, (list, set))):
        return spoil_one(d, d.choice(inner))
    return spoil_one(d, x)


def spoil_one(d, x):
    if isinstance(x, list):
        k = d.draw(5)
        if k == 0:
            x.clear()
        elif k == 1:
            x.reverse()
        elif k == 2:
            x.append('junk')
        elif k == 3 and x:
            x[0] = None
        elif x:
            del x[d.draw(len(x)):]
        return True
    if isinstance(x, set):
        k = d.draw(3)
        if k == 0:
            x.clear()
        elif k == 1:
            x.add('junk')
        else:
            x.update(['plur', 'NOUN'])
        return True
    return False
