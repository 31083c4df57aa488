# -*- coding: utf-8 -*-
"""C29: pickling an analyzer or its tags keeps their behaviour."""
import atexit
import base64
import copy
import os
import pickle

from pmv import common as C
from pmv import langdata
from pmv import gendict as G
from pmv import peer as P
from pmv.engine import Check, Group, require, require_equal

PROTOCOLS = range(pickle.HIGHEST_PROTOCOL + 1)


def some_units(d, mod):
    from pymorphy2 import units as U
    pool = [
        lambda: U.NumberAnalyzer(score=d.integer(1, 9) / 10), lambda: U.PunctuationAnalyzer(score=d.integer(1, 9) / 10), lambda: U.LatinAnalyzer(),
        lambda: U.RomanNumberAnalyzer(score=d.integer(1, 9) / 10),
        lambda: U.HyphenSeparatedParticleAnalyzer(particles_after_hyphen=d.choice([['-ка'], langdata.RU_PARTICLES, ('-то',)]), score_multiplier=d.integer(1, 9) / 10),
        lambda: U.HyphenAdverbAnalyzer(score_multiplier=d.integer(1, 9) / 10),
        lambda: U.HyphenatedWordsAnalyzer(skip_prefixes=d.choice([langdata.RU_PREFIXES, ['экс-']]), score_multiplier=d.integer(1, 9) / 10),
        lambda: U.KnownPrefixAnalyzer(known_prefixes=d.choice([langdata.RU_PREFIXES, ['не', 'аб']]), score_multiplier=d.integer(1, 9) / 10, min_remainder_length=d.integer(1, 4)),
        lambda: [U.UnknownPrefixAnalyzer(score_multiplier=d.integer(1, 9) / 10), U.KnownSuffixAnalyzer(min_word_length=d.integer(1, 5), score_multiplier=d.integer(1, 9) / 10)],
        lambda: U.AbbreviatedFirstNameAnalyzer(letters=d.choice([langdata.RU_LETTERS, 'АБ']), score=d.integer(1, 9) / 10),
        lambda: mod.Echo(words=tuple(d.text(G.ALPHA, 1, 3) for _ in range(3)), score=d.integer(1, 9) / 10),
        lambda: mod.Echo(),
    ]
    chosen = [U.DictionaryAnalyzer()] if d.chance(4, 5) else []
    for make in d.sample(pool, d.integer(0, 6)):
        chosen.append(make())
    if d.chance(2, 3) or not chosen:
        chosen.append(U.UnknAnalyzer())
    return d.choice([list, tuple])(chosen)


def config(d, mod, has_prob):
    """Constructor arguments apart from path and lang."""
    kw = {}
    if d.chance(1, 2):
        kw['result_type'] = d.choice([None, mod.MyParse, mod.Bare])
    k = d.draw(5)
    if k == 1:
        kw['probability_estimator_cls'] = None
    elif k == 2:
        kw['probability_estimator_cls'] = mod.Reversed
    elif k == 3 and has_prob:
        kw['probability_estimator_cls'] = mod.Estimator
    if d.chance(1, 2):
        kw['char_substitutes'] = d.choice([None, {}, {'а': 'б'}, {'е': 'ё'}, {'е': 'ё', 'а': 'о'}, {'г': 'ґ'}])
    if d.chance(1, 3):
        kw['units'] = some_units(d, mod)
    return kw


def copies(d, morph):
    """[(how, analyzer)]"""
    res = []
    for _ in range(2):
        k = d.draw(5)
        p = d.choice(PROTOCOLS)
        if k == 0:
            m = pickle.loads(pickle.dumps(morph, p))
            res.append(('pickle protocol %d' % p, m))
        elif k == 1:
            m = pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(morph, p)), d.choice(PROTOCOLS)))
            res.append(('pickled twice', m))
        elif k == 2:
            a, b, (c, x) = pickle.loads(pickle.dumps([morph, 1, (morph, {'x': morph})], p))
            require(a is c and x['x'] is a, 'an analyzer that is pickled several times in one pickle is one analyzer')
            res.append(('pickled in a container', a))
        elif k == 3:
            res.append(('copy.copy', copy.copy(morph)))
        else:
            res.append(('copy.deepcopy', copy.deepcopy(morph)))
        require(res[-1][1] is not morph or k == 3, '%s gives the same object', res[-1][0])
    return res


def compare(morph, other, how, words, mod):
    for w in words:
        if sum(w.lower().count(x) for x in 'аег') > 9:
            continue
        a, b = mod.say(morph, w), mod.say(other, w)
        require(a == b, '%s: %r: the original says %r, the copy %r', how, w, a, b)


def describe(kw):
    return dict((k, repr(v)[:600]) for k, v in kw.items())


def generated(d, env):
    import warnings

    from pmv import pickles as mod
    warnings.simplefilter('ignore')
    c = C.gen_case(d, env, probs=d.chance(2, 3), alpha='абеё', lang=d.choice(['ru', 'ru', 'uk']))
    kw = config(d, mod, bool(c.probs))
    if d.chance(1, 4):
        kw['lang'] = d.choice(['ru', 'uk', 'ru-old', 'xx', None])
    d.note('configuration', describe(kw))
    cls = d.choice([mod.pymorphy2.MorphAnalyzer, mod.pymorphy2.MorphAnalyzer, mod.Morph])
    old = os.environ.get('PYMORPHY2_DICT_PATH')
    try:
        k = d.draw(4)
        if k == 0:
            # the folder is found by means of the environment
            os.environ['PYMORPHY2_DICT_PATH'] = c.path
            d.note('how', 'PYMORPHY2_DICT_PATH')
            d.label('PYMORPHY2_DICT_PATH')
            morph = cls(**kw)
            require_equal(os.path.realpath(morph.dictionary.path), os.path.realpath(c.path), 'dictionary folder')
        elif k == 1:
            morph = cls(c.path, **kw)
        else:
            morph = cls(path=c.path, **kw)
        check_copies(d, env, c, kw, morph, mod)
    finally:
        if old is None:
            os.environ.pop('PYMORPHY2_DICT_PATH', None)
        else:
            os.environ['PYMORPHY2_DICT_PATH'] = old
    if kw:
        d.nontrivial()


def check_copies(d, env, c, kw, morph, mod):
    words = [C.gen_word(d, c, alpha='абеё') for _ in range(8)] + ['12', 'xv', ',', d.text('абв', 1, 3), 'А', 'б']
    if d.chance(1, 2):
        for w in words[:3]:
            mod.say(morph, w)
    for how, other in copies(d, morph):
        d.label(how)
        compare(morph, other, how, words, mod)
        require(other.dictionary.meta == morph.dictionary.meta, '%s: another dictionary', how)
        require_equal(other.lang, morph.lang, '%s: lang' % how)
        if 'units' not in kw:
            require_equal(mod.iterate(other, 'а'), mod.iterate(morph, 'а'), '%s: known words' % how)


def real(d, env):
    """The real dictionary."""
    import warnings

    from pmv import pickles as mod
    warnings.simplefilter('ignore')
    kw = config(d, mod, True)
    if d.chance(1, 3):
        kw['lang'] = d.choice(['ru', 'ru', 'ru-old'] if env.slow else ['ru'])
    d.note('configuration', describe(kw))
    morph = mod.Morph(**kw) if d.chance(1, 4) else mod.pymorphy2.MorphAnalyzer(**kw)
    words = [C.token(d, env) for _ in range(12)]
    d.note('words', words)
    for how, other in copies(d, morph)[:1]:
        d.label(how)
        compare(morph, other, how, words, mod)
        if 'units' not in kw:
            w = C.dict_word(d, env)
            require_equal(mod.iterate(other, w[:3]), mod.iterate(morph, w[:3]), '%s: known words' % how)
    if kw:
        d.nontrivial()


_peer = []


class PeerEnv(C.GenEnv):
    def __init__(self):
        C.GenEnv.__init__(self)
        if not _peer:
            _peer.append(P.Peer())
            atexit.register(_peer[0].close)
        self.peer = _peer[0]


def other_process(d, env):
    """Pickled here, unpickled in a process of the other venv (without the DAWG extension)."""
    import warnings

    from pmv import pickles as mod
    warnings.simplefilter('ignore')
    c = C.gen_case(d, env, probs=d.chance(2, 3), alpha='абеё')
    kw = config(d, mod, bool(c.probs))
    d.note('configuration', describe(kw))
    morph = mod.pymorphy2.MorphAnalyzer(c.path, **kw)
    words = [C.gen_word(d, c, alpha='абеё') for _ in range(8)] + ['12', 'xv', ',', d.text('абв', 1, 3), 'А', 'б']
    words = [w for w in words if sum(w.count(x) for x in 'аег') <= 9]
    data = pickle.dumps(morph, d.choice(PROTOCOLS))
    res = env.peer.ask(op='unpickle', name='x', data=base64.b64encode(data).decode('ascii'))
    require('ok' in res, 'unpickling in another process: %s', res.get('error'))
    res = env.peer.ask(op='say', name='x', tokens=words)
    require('ok' in res, 'an unpickled analyzer in another process: %s', res.get('error'))
    env.peer.ask(op='drop', name='x')
    import json
    for w, theirs in zip(words, res['ok']):
        mine = json.loads(json.dumps(mod.say(morph, w)))
        require(mine == theirs, '%r: the original says %r, the copy in another process %r', w, mine, theirs)
    if kw:
        d.nontrivial()


def tags(d, env):
    from pmv import pickles as mod
    tag = env.morph.dictionary.gramtab[d.draw(len(env.morph.dictionary.gramtab))]
    if d.chance(1, 3):
        # a combination which is not in the dictionary
        grs = d.sample(sorted(env.morph.TagClass.KNOWN_GRAMMEMES), d.integer(1, 6))
        tag = env.morph.TagClass(','.join(grs) + (d.choice(['', ' plur,gent'])))
    if d.chance(1, 4):
        tag = mod.MyTag(str(tag))
    d.note('tag', repr(tag))
    if d.chance(1, 2):
        tag.grammemes, tag.cyr_repr, tag.grammemes_cyr, tag.POS        # lazily computed things
    p = d.choice(PROTOCOLS)
    k = d.draw(5)
    if k == 0:
        got = pickle.loads(pickle.dumps(tag, p))
    elif k == 1:
        got, again = pickle.loads(pickle.dumps({'a': [tag, (tag,)]}, p))['a']
        require(again[0] is got, 'one tag in a pickle becomes several')
    elif k == 2:
        got = copy.copy(tag)
    elif k == 3:
        got = copy.deepcopy([tag])[0]
    else:
        got = pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(tag, p)), p))
    require(type(got) is type(tag), 'a copy of %r is a %s', tag, type(got))
    require_equal(str(got), str(tag), 'str of a copied tag')
    require_equal(repr(got), repr(tag), 'repr of a copied tag')
    require(got == tag and not (got != tag) and hash(got) == hash(tag) and got in {tag} and not got < tag and not got > tag, 'a copy of %r is not equal to it', tag)
    require_equal(got.grammemes, tag.grammemes, 'grammemes of a copied tag')
    require_equal(got.cyr_repr, tag.cyr_repr, 'cyr_repr of a copied tag')
    require_equal(got.grammemes_cyr, tag.grammemes_cyr, 'grammemes_cyr of a copied tag')
    for name in ('POS', 'animacy', 'aspect', 'case', 'gender', 'involvement', 'mood', 'number', 'person', 'tense', 'transitivity', 'voice'):
        require_equal(getattr(got, name), getattr(tag, name), '%s of a copied tag' % name)
    # a copied tag is as good as the tag for inflection
    require_equal(got.is_productive(), tag.is_productive(), 'is_productive of a copied tag')
    require_equal(got.updated_grammemes({'plur'}), tag.updated_grammemes({'plur'}), 'updated_grammemes of a copied tag')
    n = d.integer(0, 200)
    require_equal(got.numeral_agreement_grammemes(n), tag.numeral_agreement_grammemes(n), 'numeral_agreement_grammemes of a copied tag')
    d.nontrivial((str(tag), k, p))


def setup_real():
    env = C.Env()
    try:
        import pymorphy2_dicts
        env.slow = True
    except ImportError:
        env.slow = False
    return env


CHECK = Check(
    'C29', 'a case is a dictionary, a constructor configuration, a way of copying (pickle protocols, twice, within containers, copy, deepcopy, another process) and tokens, or a tag and a way of copying it; '
           'original and copy have to answer alike; non-trivial: configurations other than the default one, distinct tags',
    [
        Group('tags', tags, 4000, 200000, C.real_env, ('slow',)),
        Group('real', real, 24, 1500, setup_real, ('slow', 'fast')),
        Group('generated', generated, 300, 12000, C.GenEnv, ('fast',)),
        Group('other process', other_process, 160, 6000, PeerEnv, ('fast',)),
    ])
