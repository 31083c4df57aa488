# -*- coding: utf-8 -*-
"""An independent, naive model of the analyzer.

Nothing here imports pymorphy2.  ``RawDict`` reads the files of a compiled
dictionary directly (JSON, the paradigm array, DAWGs through the third-party
library); ``RefAnalyzer`` computes, from the documented rules, what the
analyses of a word are, and what the lexeme of an analysis is.
"""
from __future__ import annotations

import itertools
import json
import os
import re
import struct
import unicodedata
from collections import namedtuple

try:
    import dawg as dawglib
except ImportError:
    import dawg_python as dawglib

POS = frozenset('NOUN ADJF ADJS COMP VERB INFN PRTF PRTS GRND NUMR ADVB NPRO PRED PREP CONJ PRCL INTJ'.split())
NON_PRODUCTIVE = frozenset('NUMR NPRO PRED PREP CONJ PRCL INTJ Apro'.split())
NUMBERS = frozenset(['sing', 'plur'])
CASES = frozenset('nomn gent datv accs ablt loct voct gen1 gen2 acc2 loc1 loc2'.split())
PERSONS = frozenset(['1per', '2per', '3per'])
TENSES = frozenset(['pres', 'past', 'futr'])
RARE_CASES = {'gen1': 'gent', 'gen2': 'gent', 'acc1': 'accs', 'acc2': 'accs', 'loc1': 'loct',
              'loc2': 'loct', 'voct': 'nomn'}
FEATURES = POS | NUMBERS | CASES | PERSONS | TENSES

_gr_cache = {}


def grammemes(tag):
    try:
        return _gr_cache[tag]
    except KeyError:
        r = frozenset(tag.replace(' ', ',', 1).split(','))
        if len(_gr_cache) < 100000:
            _gr_cache[tag] = r
        return r


def grammeme_tuple(tag):
    return tuple(tag.replace(' ', ',', 1).split(','))


def productive(tag):
    return not (grammemes(tag) & NON_PRODUCTIVE)


def variants(word, subs, limit=4096):
    """All spellings obtained by replacing any subset of substitutable letters
    (the unchanged word comes first)."""
    if not subs:
        return [word]
    pos = [i for i, ch in enumerate(word) if ch in subs]
    if not pos:
        return [word]
    if 2 ** len(pos) > limit:
        raise ValueError('too many substitutable letters')
    res = []
    for mask in itertools.product((0, 1), repeat=len(pos)):
        chars = list(word)
        for bit, i in zip(mask, pos):
            if bit:
                chars[i] = subs[chars[i]]
        res.append(''.join(chars))
    return res


class RawDict(object):
    """Direct reader of a compiled dictionary folder."""

    def __init__(self, path):
        self.path = path

        def load(fn):
            with open(os.path.join(path, fn), encoding='utf8') as f:
                return json.load(f)
        self._load = load
        self.meta = dict(load('meta.json'))
        self.suffixes = load('suffixes.json')
        self.gramtab = load(self.meta['gramtab_formats']['opencorpora-int'])
        self.grammeme_rows = [tuple(r) for r in load('grammemes.json')]
        try:
            self.paradigm_prefixes = self.meta['compile_options']['paradigm_prefixes']
            self.max_suffix_length = self.meta['compile_options']['max_suffix_length']
        except KeyError:
            self.paradigm_prefixes = load('paradigm-prefixes.json')
            self.max_suffix_length = self.meta['prediction_options']['max_suffix_length']
        with open(os.path.join(path, 'paradigms.array'), 'rb') as f:
            data = f.read()
        pos = 2
        self._paras = []
        for _ in range(struct.unpack_from('<H', data, 0)[0]):
            n = struct.unpack_from('<H', data, pos)[0]
            pos += 2
            self._paras.append(struct.unpack_from('<%dH' % n, data, pos))
            pos += 2 * n
        assert pos == len(data)
        self.words = dawglib.RecordDAWG(str('>HH')).load(os.path.join(path, 'words.dawg'))
        self._pred = [dawglib.RecordDAWG(str('>HHH')).load(os.path.join(path, 'prediction-suffixes-%d.dawg' % i))
                      for i in range(len(self.paradigm_prefixes))]
        self.has_prob = bool(self.meta.get('P(t|w)'))
        self._probs = None
        if self.has_prob:
            self._probs = dawglib.IntCompletionDAWG().load(os.path.join(path, 'p_t_given_w.intdawg'))
        self._pcache = {}

    def n_paradigms(self):
        return len(self._paras)

    def forms(self, word):
        return [tuple(v) for v in self.words.get(word) or []]

    def paradigm(self, para_id):
        r = self._pcache.get(para_id)
        if r is None:
            p = self._paras[para_id]
            n = len(p) // 3
            r = self._pcache[para_id] = [
                (self.paradigm_prefixes[p[2 * n + i]], self.gramtab[p[n + i]], self.suffixes[p[i]])
                for i in range(n)]
        return r

    def endings(self, prefix_id, ending):
        return [tuple(v) for v in self._pred[prefix_id].get(ending) or []]

    def prob(self, word, tag):
        return self._probs.get('%s:%s' % (word, tag), 0) / 1000000


class RP(object):
    """A reference parse."""
    __slots__ = ('word', 'tag', 'normal', 'score', 'deriv', 'sig')

    def __init__(self, word, tag, normal, score, deriv, sig):
        self.word = word
        self.tag = tag
        self.normal = normal
        self.score = score
        self.deriv = deriv
        self.sig = sig

    def scored(self, score):
        return RP(self.word, self.tag, self.normal, score, self.deriv, self.sig)

    def __repr__(self):
        return 'RP(%r, %r, %r, %r)' % (self.word, self.tag, self.normal, self.score)

    def key(self):
        return (self.word, self.tag, self.normal)

    def has_both(self):
        """Is a compound with two inflected halves involved?"""
        d = self.deriv
        if d[0] == 'both':
            return True
        return any(isinstance(x, RP) and x.has_both() for x in d[1:])

    def kinds(self):
        d = self.deriv
        res = [d[0]]
        for x in d[1:]:
            if isinstance(x, RP):
                res.extend(x.kinds())
        return res


def dedup_id(sig):
    return sig[0][2] if len(sig[0]) > 2 else None


def roman_set():
    res = set()
    th = ['', 'M', 'MM', 'MMM', 'MMMM']
    h = ['', 'C', 'CC', 'CCC', 'CD', 'D', 'DC', 'DCC', 'DCCC', 'CM']
    t = ['', 'X', 'XX', 'XXX', 'XL', 'L', 'LX', 'LXX', 'LXXX', 'XC']
    o = ['', 'I', 'II', 'III', 'IV', 'V', 'VI', 'VII', 'VIII', 'IX']
    for a in th:
        for b in h:
            for c in t:
                for d in o:
                    res.add(a + b + c + d)
    res.discard('')
    return frozenset(res)


ROMAN = roman_set()
_INT = re.compile(r'[+-]?\d+(_\d+)*\Z', re.UNICODE)
_REAL = re.compile(r'[+-]?(\d+(_\d+)*\.?(\d+(_\d+)*)?|\.\d+(_\d+)*)([eE][+-]?\d+(_\d+)*)?\Z', re.UNICODE)


def is_roman(token):
    return token.isascii() and token.upper() in ROMAN


def is_latin(token):
    letters = [ch for ch in token if ch.isalpha()]
    return bool(letters) and all('LATIN' in unicodedata.name(ch, '') for ch in letters)


def is_punct(token):
    rest = [ch for ch in token if not ch.isspace()]
    return bool(rest) and all(unicodedata.category(ch).startswith('P') for ch in rest)


def number_kind(token):
    if _INT.match(token):
        return 'intg'
    if _REAL.match(token.replace(',', '.')):
        return 'real'
    return None


FIRSTNAME = 'NOUN,anim,%(gender)s,Sgtm,Name,Fixd,Abbr,Init sing,%(case)s'
PATRONYMIC = 'NOUN,anim,%(gender)s,Sgtm,Patr,Fixd,Abbr,Init sing,%(case)s'


class Config(object):
    """Language configuration of the reference model (written from the docs)."""

    def __init__(self, letters, particles, subs, prefixes, units, skip_prefixes=None, **opt):
        self.skip_prefixes = list(prefixes if skip_prefixes is None else skip_prefixes)
        # parameters of the units
        self.opt = dict(initials=0.1, firstname_pattern=FIRSTNAME, patronymic_pattern=PATRONYMIC, number=0.9, punct=0.9,
                        roman=0.9, latin=0.9, particle=0.9, adverb=0.7, hyphen=0.75, knownprefix=0.75,
                        min_remainder=3, unknownprefix=0.5, suffix=0.5, min_word=4)
        assert set(opt) <= set(self.opt)
        self.opt.update(opt)
        self.letters = frozenset(letters)
        self.particles = list(particles)
        self.subs = dict(subs)
        self.prefixes = list(prefixes)
        self.units = units


RU_UNITS = [['dict', 'firstname', 'patronymic'], ['number'], ['punct'], ['roman', 'latin'],
            ['particle'], ['adverb'], ['hyphen'], ['knownprefix'], ['unknownprefix', 'suffix'], ['unkn']]
UK_UNITS = [['dict', 'firstname', 'patronymic', 'roman', 'latin'], ['number'], ['punct'],
            ['particle'], ['hyphen'], ['knownprefix'], ['unknownprefix', 'suffix'], ['unkn']]


class RefAnalyzer(object):
    def __init__(self, lex, config):
        self.lex = lex
        self.cfg = config
        self.opt = config.opt
        self.known_prefixes = sorted(set(config.prefixes), key=len, reverse=True)
        self._memo = {}
        self.mark = ''              # tells units of one class apart

    # ---- the pipeline
    def parse(self, word):
        r = self._memo.get(word)
        if r is not None:
            return r
        lower = word.lower()
        res = []
        seen = set()
        for group in self.cfg.units:
            for unit in group:
                if isinstance(unit, tuple):
                    # another unit of the class, with parameters of its own
                    res.extend(getattr(self._view(unit[1]), 'u_' + unit[0])(word, lower, seen))
                else:
                    res.extend(getattr(self, 'u_' + unit)(word, lower, seen))
            if res:
                break
        res = self.apply_scores(lower, res)
        if len(self._memo) > 3000:
            self._memo.clear()
        self._memo[word] = res
        return res

    def _view(self, cfg):
        view = RefAnalyzer(self.lex, cfg)
        view.parse = self.parse
        view.mark = '#%d' % id(cfg)
        return view

    def tags(self, word):
        return set(p.tag for p in self.parse(word))

    def normal_forms(self, word):
        res = []
        for p in self.parse(word):
            if p.normal not in res:
                res.append(p.normal)
        return res

    def apply_scores(self, lower, parses):
        if not parses or not self.lex.has_prob:
            return parses
        probs = [self.lex.prob(lower, p.tag) for p in parses]
        if not any(probs):
            total = sum(p.score for p in parses) or 1.0
            return [p.scored(p.score / total) for p in parses]
        pairs = sorted(zip(probs, range(len(parses))), key=lambda x: (-x[0], x[1]))
        return [parses[i].scored(pr) for pr, i in pairs]

    # ---- units
    def dict_parses(self, lower):
        res = []
        for form in variants(lower, self.cfg.subs):
            for para, idx in self.lex.forms(form):
                res.append(self.from_paradigm(form, para, idx, 1.0, 'dict'))
        return res

    def from_paradigm(self, form, para, idx, score, kind):
        table = self.lex.paradigm(para)
        prefix, tag, suffix = table[idx]
        stem = form[len(prefix):len(form) - len(suffix)]
        normal = form if idx == 0 else table[0][0] + stem + table[0][2]
        return RP(form, tag, normal, score, ('dict', para, idx, stem), ((kind + self.mark, form, para, idx),))

    def u_dict(self, word, lower, seen):
        return self.dict_parses(lower)

    def _initials(self, word, lower, kind):
        if word not in self.cfg.letters:
            return []
        tags = [self.opt[kind + '_pattern'] % {'gender': g, 'case': c} for g in ('masc', 'femn') for c in ('nomn', 'gent', 'datv', 'accs', 'ablt', 'loct')]
        return [RP(lower, t, lower, self.opt['initials'], (kind, tuple(tags)), ((kind + self.mark, word),)) for t in tags]

    def u_firstname(self, word, lower, seen):
        return self._initials(word, lower, 'firstname')

    def u_patronymic(self, word, lower, seen):
        return self._initials(word, lower, 'patronymic')

    def _single(self, word, lower, tag, score):
        return [RP(lower, tag, lower, score, ('single',), ((tag + self.mark, word),))]

    def u_number(self, word, lower, seen):
        k = number_kind(word)
        return self._single(word, lower, 'NUMB,' + k, self.opt['number']) if k else []

    def u_punct(self, word, lower, seen):
        return self._single(word, lower, 'PNCT', self.opt['punct']) if is_punct(word) else []

    def u_roman(self, word, lower, seen):
        return self._single(word, lower, 'ROMN', self.opt['roman']) if is_roman(word) else []

    def u_latin(self, word, lower, seen):
        return self._single(word, lower, 'LATN', self.opt['latin']) if is_latin(word) else []

    def u_unkn(self, word, lower, seen):
        if seen:
            return []
        return self._single(word, lower, 'UNKN', 1.0)

    def _add(self, p, result, seen):
        key = (p.word, p.tag, dedup_id(p.sig))
        if key in seen:
            return
        seen.add(key)
        result.append(p)

    def u_particle(self, word, lower, seen):
        result = []
        if '-' not in lower:
            return result
        for part in self.cfg.particles:
            if lower.endswith(part) and len(lower) > len(part):
                for p in self.parse(lower[:-len(part)]):
                    self._add(RP(p.word + part, p.tag, p.normal + part, p.score * self.opt['particle'],
                                 ('particle', part, p), p.sig + (('particle' + self.mark, part),)), result, seen)
                break
        return result

    def u_adverb(self, word, lower, seen):
        if len(lower) < 5 or not lower.startswith('по-'):
            return []
        if any({'ADJF', 'sing', 'datv'} <= grammemes(p.tag) for p in self.parse(lower[3:])):
            seen.add(('adverb', lower))
            return self._single(word, lower, 'ADVB', self.opt['adverb'])
        return []

    def _features(self, tag):
        return frozenset({'gen1': 'gent', 'loc1': 'loct'}.get(g, g) for g in grammemes(tag) & FEATURES)

    def u_hyphen(self, word, lower, seen):
        if lower.strip('-') != lower or lower.count('-') != 1:
            return []
        if any(lower.startswith(p) for p in self.cfg.skip_prefixes):
            return []
        left, right = lower.split('-')
        lefts = self.parse(left)
        rights = self.parse(right)
        result = []
        for a in lefts:
            if grammeme_tuple(a.tag)[0] not in POS:
                continue
            fa = self._features(a.tag)
            for b in rights:
                if self._features(b.tag) == fa:
                    result.append(RP(a.word + '-' + b.word, a.tag, a.normal + '-' + b.normal, a.score * self.opt['hyphen'],
                                     ('both', a, b), (('hyphen' + self.mark, a.sig, b.sig),)))
        for b in rights:
            if grammeme_tuple(b.tag)[0] not in POS:
                continue
            result.append(RP(left + '-' + b.word, b.tag, left + '-' + b.normal, b.score * self.opt['hyphen'],
                             ('fixedleft', left, b), (('hyphen' + self.mark, left, b.sig),)))
        return result

    def u_knownprefix(self, word, lower, seen):
        result = []
        for prefix in self.known_prefixes:
            if not lower.startswith(prefix):
                continue
            rest = lower[len(prefix):]
            if len(rest) < self.opt['min_remainder']:
                continue
            for p in self.parse(rest):
                if productive(p.tag):
                    self._add(self._prefixed(prefix, p, p.score * self.opt['knownprefix'], 'knownprefix'), result, seen)
        return result

    def _prefixed(self, prefix, p, score, kind):
        return RP(prefix + p.word, p.tag, prefix + p.normal, score, ('prefix', prefix, p),
                  p.sig + ((kind + self.mark, prefix),))

    def u_unknownprefix(self, word, lower, seen):
        result = []
        for i in range(1, 6):
            if len(lower) - i < 3:
                break
            for p in self.dict_parses(lower[i:]):
                if productive(p.tag):
                    self._add(self._prefixed(lower[:i], p, self.opt['unknownprefix'], 'unknownprefix'), result, seen)
        return result

    def u_suffix(self, word, lower, seen):
        if len(word) < self.opt['min_word']:
            return []
        found = []
        for prefix_id in reversed(range(len(self.lex.paradigm_prefixes))):
            if not lower.startswith(self.lex.paradigm_prefixes[prefix_id]):
                continue
            total = 1
            mine = []
            for n in range(self.lex.max_suffix_length, 0, -1):
                end = lower[-n:]
                start = lower[:len(lower) - len(end)]
                for v in variants(end, self.cfg.subs):
                    for cnt, para, idx in self.lex.endings(prefix_id, v):
                        tag = self.lex.paradigm(para)[idx][1]
                        if not productive(tag):
                            continue
                        total += cnt
                        key = (start + v, tag, para)
                        if key in seen:
                            continue
                        seen.add(key)
                        p = self.from_paradigm(start + v, para, idx, None, 'fake')
                        p.sig = p.sig + (('suffix' + self.mark, v),)
                        mine.append((cnt, p))
                if total > 1:
                    break
            found.extend(p.scored(cnt / total * self.opt['suffix']) for cnt, p in mine)
        found.sort(key=lambda p: -p.score)
        return found

    # ---- lexemes
    def lexeme(self, p):
        """List of reference parses (word, tag, normal are meaningful)."""
        d = p.deriv
        kind = d[0]
        if kind == 'dict':
            _, para, idx, stem = d
            res = []
            for i, (prefix, tag, suffix) in enumerate(self.lex.paradigm(para)):
                w = prefix + stem + suffix
                res.append(RP(w, tag, p.normal, 1.0, ('dict', para, i, stem),
                              ((p.sig[0][0], w, para, i),) + p.sig[1:]))
            return res
        if kind == 'single':
            return [p]
        if kind == 'patronymic':
            return [RP(p.word, t, p.normal, p.score, d, p.sig) for t in d[1]]
        if kind == 'firstname':
            g = 'masc' if 'masc' in grammemes(p.tag) else 'femn'
            return [RP(p.word, t, p.normal, p.score, d, p.sig) for t in d[1] if g in grammemes(t)]
        if kind == 'prefix':
            return [self._prefixed(d[1], b, b.score, p.sig[-1][0]) for b in self.lexeme(d[2])]
        if kind == 'particle':
            return [RP(b.word + d[1], b.tag, b.normal + d[1], b.score, ('particle', d[1], b), b.sig)
                    for b in self.lexeme(d[2])]
        if kind == 'fixedleft':
            return [RP(d[1] + '-' + b.word, b.tag, d[1] + '-' + b.normal, b.score, ('fixedleft', d[1], b),
                       (('hyphen' + self.mark, d[1], b.sig),)) for b in self.lexeme(d[2])]
        if kind == 'both':
            lefts = self.lexeme(d[1])
            res = []
            for b in self.lexeme(d[2]):
                gb = self._aligned(b.tag)
                best = min(lefts, key=lambda a: len(self._aligned(a.tag) ^ gb))
                res.append(RP(best.word + '-' + b.word, best.tag, best.normal + '-' + b.normal,
                              (best.score + b.score) / 2, ('both', best, b), (('hyphen' + self.mark, best.sig, b.sig),)))
            return res
        raise AssertionError(kind)

    def _aligned(self, tag):
        return frozenset({'V-oy': 'V-ey', 'gen1': 'gent', 'loc1': 'loct'}.get(g, g) for g in grammemes(tag))

    def normalized(self, p):
        lex = self.lexeme(p)
        return lex[0]
