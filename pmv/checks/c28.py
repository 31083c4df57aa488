# -*- coding: utf-8 -*-
"""C28: P(t|w) estimation counts the disambiguated corpus.

nltk and opencorpora-tools are not installed: the classes of them which the
code uses are provided here with the documented behaviour.
"""
import json
import os
import sys
import types
from collections import Counter, OrderedDict, defaultdict

from pmv import common as C
from pmv import gendict as G
from pmv.engine import Check, Group, require, require_equal


# ------------------------------------------------------------ stand-ins

class FreqDist(Counter):
    def N(self):
        return sum(self.values())

    def B(self):
        return len(self)

    def freq(self, sample):
        return self[sample] / self.N() if self.N() else 0


class ConditionalFreqDist(defaultdict):
    def __init__(self, cond_samples=None):
        defaultdict.__init__(self, FreqDist)
        for cond, sample in cond_samples or ():
            self[cond][sample] += 1

    def conditions(self):
        return list(self.keys())

    def N(self):
        return sum(fd.N() for fd in self.values())


class LidstoneProbDist(object):
    def __init__(self, freqdist, gamma, bins=None):
        if bins == 0 or (bins is None and freqdist.N() == 0):
            raise ValueError('A Lidstone probability distribution must have at least one bin.')
        if bins is not None and bins < freqdist.B():
            raise ValueError('The number of bins must be greater than or equal to the number of samples')
        self._freqdist = freqdist
        self._gamma = float(gamma)
        self._bins = bins if bins is not None else freqdist.B()

    def freqdist(self):
        return self._freqdist

    def prob(self, sample):
        return (self._freqdist[sample] + self._gamma) / (self._freqdist.N() + self._bins * self._gamma)

    def samples(self):
        return self._freqdist.keys()


class LaplaceProbDist(LidstoneProbDist):
    def __init__(self, freqdist, bins=None):
        LidstoneProbDist.__init__(self, freqdist, 1, bins)


class ConditionalProbDist(dict):
    def __init__(self, cfdist, probdist_factory, *args, **kw):
        for condition in cfdist:
            self[condition] = probdist_factory(cfdist[condition], *args, **kw)

    def conditions(self):
        return list(self.keys())


CORPORA = {}


class CorpusReader(object):
    def __init__(self, filename, *args, **kw):
        self.filename = filename

    def iter_parsed_words(self, *args, **kw):
        for word, parses in CORPORA[self.filename]:
            yield word, [tuple(p) for p in parses]


def install():
    nltk = types.ModuleType('nltk')
    for cls in (FreqDist, ConditionalFreqDist, LidstoneProbDist, LaplaceProbDist, ConditionalProbDist):
        setattr(nltk, cls.__name__, cls)
    nltk.probability = nltk
    oc = types.ModuleType('opencorpora')
    oc.CorpusReader = CorpusReader
    sys.modules['nltk'] = sys.modules['nltk.probability'] = nltk
    sys.modules['opencorpora'] = oc


# ------------------------------------------------------------ model

RARE = [('loc1', 'loct'), ('gen1', 'gent'), ('acc1', 'accs')]


def grammemes(tag):
    parts = frozenset(x for part in tag.split(' ') for x in part.split(','))
    common = dict(RARE)
    return frozenset(common.get(x, x) for x in parts)


def expected(corpus, analyze, min_freq):
    """analyze(word) -> the list of tags (strings) of the word.

    Returns {(word, tag): probability}, words, outcomes, cut words."""
    counts = OrderedDict()
    for word, parses in corpus:
        if len(parses) != 1:
            continue
        if len(analyze(word)) < 2:
            continue
        gr = grammemes(parses[0][1])
        if gr == {'UNKN'}:
            continue
        counts.setdefault(word.lower(), Counter())[gr] += 1
    res = {}
    cut = same = 0
    for word, fd in counts.items():
        n = sum(fd.values())
        if n < min_freq:
            cut += 1
            continue
        tags = analyze(word)
        bins = max(len(tags), len(fd))
        probs = dict((t, (fd[grammemes(t)] + 1) / (n + bins)) for t in tags)
        if len(set(fd[grammemes(t)] for t in tags)) <= 1:
            same += 1
            continue
        for t, p in probs.items():
            res[word, t] = p
    return res, len(counts), sum(sum(fd.values()) for fd in counts.values()), cut, same


def stored(path):
    import dawg
    d = dawg.IntCompletionDAWG().load(os.path.join(path, 'p_t_given_w.intdawg'))
    return dict(d.items())


def respell(d, tag):
    """The same tag the way the corpus may write it."""
    for rare, common in RARE:
        if d.chance(1, 6):
            tag = tag.replace(common, rare)
    if d.chance(1, 10):
        a, sep, b = tag.partition(' ')
        a = a.split(',')
        tag = ','.join(a[:1] + d.shuffle(a[1:])) + sep + b
    if d.chance(1, 12):
        tag = tag.replace(' ', ',')
    return tag


def gen_corpus(d, words, tags_of):
    pool = [d.choice(words) for _ in range(d.integer(1, 6))]
    corpus = []
    for _ in range(d.integer(0, 25)):
        w = d.choice(pool)
        tags = tags_of(w)
        if d.chance(1, 4):
            w = C.recase(d, w)
        k = d.draw(12)
        if k == 0 and len(tags) > 1:
            corpus.append((w, [(w.lower(), t) for t in tags]))      # not disambiguated
            continue
        if k == 1:
            corpus.append((w, [(w, 'UNKN')]))
            continue
        if k == 2:
            corpus.append((w, []))
            continue
        if k == 3:
            corpus.append((w, [(w, d.choice(['PNCT', 'NOUN,inan,masc sing,nomn', 'ADVB', 'INTJ', 'PREP']))]))
            continue
        t = tags[d.weighted([(3, 0), (1, 1), (1, 2), (1, 3)]) % len(tags)]
        corpus.append((w, [(w.lower(), respell(d, t))]))
    if d.chance(1, 4):
        # many occurrences, nearly the same number for each tag
        w = d.choice(pool)
        n = d.weighted([(8, d.integer(5, 150)), (1, d.integer(250, 2500))])
        for t in tags_of(w):
            corpus += [(w, [(w.lower(), t)])] * max(0, n + d.choice([0, 0, 1, -1, 2]))
    return corpus


def check(d, path, morph, corpus, min_freq, given_morph):
    from pymorphy2.opencorpora_dict import probability, storage
    meta_fn = os.path.join(path, 'meta.json')
    before = storage.load_meta(meta_fn)
    CORPORA.clear()
    name = os.path.join(path, 'corpus.xml')
    CORPORA[name] = corpus
    with G.quiet():
        probability.add_conditional_tag_probability(name, path, d.choice([min_freq, str(min_freq)]), morph=given_morph)
    cache = {}

    def analyze(w):
        if w not in cache:
            cache[w] = [str(t) for t in morph.tag(w)]
        return cache[w]

    exp, n_words, outcomes, cut, same = expected(corpus, analyze, min_freq)
    got = stored(path)
    keys = dict(('%s:%s' % k, p) for k, p in exp.items())
    require_equal(sorted(got), sorted(keys), 'words and tags with a stored probability')
    for k, p in keys.items():
        require(abs(got[k] - p * 1000000) <= 1, 'P of %r is stored as %r, expected %r', k, got[k], p)
    meta = storage.load_meta(meta_fn)
    require_equal(meta.get('P(t|w)'), True, 'meta P(t|w)')
    require_equal(meta.get('P(t|w)_unique_words'), n_words, 'meta P(t|w)_unique_words')
    require_equal(meta.get('P(t|w)_outcomes'), outcomes, 'meta P(t|w)_outcomes')
    require_equal(meta.get('P(t|w)_min_word_freq'), min_freq, 'meta P(t|w)_min_word_freq')
    for k, v in before.items():
        if not k.startswith('P(t|w)'):
            require_equal(meta.get(k), v, 'meta %s' % k)
    require_equal(set(k for k in meta if not k.startswith('P(t|w)')), set(k for k in before if not k.startswith('P(t|w)')), 'keys of the metadata')
    if exp:
        d.label('some probabilities')
        d.nontrivial((sorted(keys), min_freq))
    if cut:
        d.label('word is rare')
    if same:
        d.label('all the same')
    return exp


def generated(d, env):
    import pymorphy2
    c = C.gen_case(d, env, probs=d.chance(1, 4), big=True)
    if not c.words:
        return
    plain = pymorphy2.MorphAnalyzer(c.path, probability_estimator_cls=None)
    words = [w for w in c.words if len(plain.tag(w)) > 1] * 3 + c.words + [d.text(G.ALPHA, 1, 5) for _ in range(3)]
    exp = {}
    for _ in range(d.integer(1, 2)):
        corpus = gen_corpus(d, words, lambda w: [str(t) for t in plain.tag(w)])
        d.note('corpus', corpus)
        min_freq = d.integer(0, 3)
        d.note('min_word_freq', min_freq)
        exp = check(d, c.path, plain, corpus, min_freq, d.choice([None, None, plain, c.morph]))
    # an analyzer which loads the dictionary uses the numbers
    morph = pymorphy2.MorphAnalyzer(c.path)
    for w in sorted(set(k[0] for k in exp)):
        got = dict((str(p.tag), p.score) for p in morph.parse(w))
        for t, s in got.items():
            if (w, t) in exp:
                require(abs(s - exp[w, t]) < 3e-6, 'score of %s of %r is %r, estimated %r', t, w, s, exp[w, t])


def real(d, env):
    """The real dictionary and a made-up corpus."""
    env.scratch.clear()
    path = env.scratch.new()
    os.mkdir(path)
    with open(os.path.join(path, 'meta.json'), 'w', encoding='utf8') as f:
        json.dump([['language_code', 'ru'], ['format_version', '2.4'], ['source', 'x']], f)
    words = [C.any_word(d, env).lower() for _ in range(4)]
    for _ in range(4):
        w = C.dict_word(d, env)
        words.append(w)
    words = words + ['стали', 'а', 'уже', '12', 'xv', 'мыла']
    corpus = gen_corpus(d, words, lambda w: [str(t) for t in env.morph.tag(w)])
    d.note('corpus', corpus)
    min_freq = d.integer(0, 3)
    d.note('min_word_freq', min_freq)
    check(d, path, env.morph, corpus, min_freq, env.morph)


def setup_real():
    install()
    env = C.Env()
    env.scratch = G.Scratch()
    env.close = env.scratch.close
    return env


def setup_gen():
    install()
    return C.GenEnv()


CHECK = Check(
    'C28', 'a case is a dictionary (generated, or the installed one), a corpus of annotated tokens and min_word_freq; the stored probabilities and metadata have to be those of an independent count; '
           'non-trivial: some probability is stored',
    [
        Group('real', real, 500, 30000, setup_real, ('fast',)),
        Group('generated', generated, 260, 12000, setup_gen, ('fast',)),
    ], assumptions=['nltk and opencorpora-tools are stood in for by classes with their documented behaviour (they are not installed)'])
