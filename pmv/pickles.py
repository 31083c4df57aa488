# -*- coding: utf-8 -*-
"""Importable classes for pickled analyzers, and what an analyzer says as data."""
import collections

import pymorphy2
from pymorphy2.analyzer import Parse, ProbabilityEstimator
from pymorphy2.tagset import OpencorporaTag
from pymorphy2.units.base import BaseAnalyzerUnit

from pmv.peer import fields


class MyParse(Parse):
    def hello(self):
        return self.word + '!'


class Bare(collections.namedtuple('Bare', 'a b c d e')):
    pass


class Reversed(object):
    """An estimator of the user's own: the scores are set to 1/2, 1/3, ... and the order is reversed."""

    def __init__(self, dict_path):
        self.path = dict_path

    def apply_to_parses(self, word, word_lower, parses):
        return [p[:3] + (1 / (i + 2),) + p[4:] for i, p in enumerate(reversed(parses))]

    def apply_to_tags(self, word, word_lower, tags):
        return list(reversed(tags))


class Estimator(ProbabilityEstimator):
    def apply_to_tags(self, word, word_lower, tags):
        return sorted(tags, key=str)


class Morph(pymorphy2.MorphAnalyzer):
    def shout(self, word):
        return [p[0].upper() for p in self.parse(word)]


class Echo(BaseAnalyzerUnit):
    """A unit of the user's own with parameters."""

    def __init__(self, words=(), score=0.3):
        self.words = words
        self.score = score

    def parse(self, word, word_lower, seen_parses):
        if word_lower not in self.words:
            return []
        return [(word_lower, self.morph.TagClass('INTJ'), word_lower, self.score, ((self, word),))]

    def normalized(self, form):
        return form

    def get_lexeme(self, form):
        return [form]


class MyTag(OpencorporaTag):
    typed_grammemes = False


def say(morph, token):
    """Everything about a token; works for every result type."""
    ps = morph.parse(token)
    res = [type(morph).__name__, type(ps[0]).__name__ if ps else '', [fields(p) for p in ps], [str(t) for t in morph.tag(token)],
           morph.normal_forms(token), morph.word_is_known(token), morph.word_is_known(token, strict=True), morph.lang]
    for p in ps[:3]:
        lex = morph.get_lexeme(p)
        res.append([fields(f) for f in lex])
        if isinstance(p, Parse):
            res.append(fields(p.normalized))
            f = p.inflect({'plur'})
            res.append(f and fields(f))
            res.append(p.is_known)
            if isinstance(p, MyParse):
                res.append(p.normalized.hello())
    if isinstance(morph, Morph):
        res.append(morph.shout(token))
    return res


def iterate(morph, prefix, limit=30):
    res = []
    for p in morph.iter_known_word_parses(prefix):
        res.append(fields(p))
        if len(res) >= limit:
            break
    return res
