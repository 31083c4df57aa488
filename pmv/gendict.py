# -*- coding: utf-8 -*-
"""Random OpenCorpora dictionaries: generator, XML writer and naive model."""
from __future__ import annotations

import contextlib
import io
import json
import os
import shutil
import tempfile
from collections import Counter, OrderedDict, defaultdict
from xml.sax.saxutils import escape, quoteattr

from pmv.refmodel import grammeme_tuple, productive

# (name, parent, alias, description): the inventory of OpenCorpora (a subset that is closed under parents)
GRAMMEMES = [
    ('POST', '', 'ЧР', 'часть речи'), ('NOUN', 'POST', 'СУЩ', 'имя существительное'),
    ('ADJF', 'POST', 'ПРИЛ', 'имя прилагательное (полное)'), ('ADJS', 'POST', 'КР_ПРИЛ', 'прил (краткое)'),
    ('COMP', 'POST', 'КОМП', 'компаратив'), ('VERB', 'POST', 'ГЛ', 'глагол (личная форма)'),
    ('INFN', 'POST', 'ИНФ', 'глагол (инфинитив)'), ('PRTF', 'POST', 'ПРИЧ', 'причастие (полное)'),
    ('PRTS', 'POST', 'КР_ПРИЧ', 'причастие (краткое)'), ('GRND', 'POST', 'ДЕЕПР', 'деепричастие'),
    ('NUMR', 'POST', 'ЧИСЛ', 'числительное'), ('ADVB', 'POST', 'Н', 'наречие'),
    ('NPRO', 'POST', 'МС', 'местоимение-существительное'), ('PRED', 'POST', 'ПРЕДК', 'предикатив'),
    ('PREP', 'POST', 'ПР', 'предлог'), ('CONJ', 'POST', 'СОЮЗ', 'союз'), ('PRCL', 'POST', 'ЧАСТ', 'частица'),
    ('INTJ', 'POST', 'МЕЖД', 'междометие'), ('ANim', '', 'Од-неод', 'одушевлённость'),
    ('anim', 'ANim', 'од', 'одушевлённое'), ('inan', 'ANim', 'неод', 'неодушевлённое'),
    ('GNdr', '', 'хр', 'род / род не выражен'), ('masc', 'ms-f', 'мр', 'мужской род'),
    ('femn', 'ms-f', 'жр', 'женский род'), ('neut', 'GNdr', 'ср', 'средний род'),
    ('ms-f', 'GNdr', 'мж', 'общий род (м/ж)'), ('NMbr', '', 'Число', 'число'),
    ('sing', 'NMbr', 'ед', 'единственное число'), ('plur', 'NMbr', 'мн', 'множественное число'),
    ('Sgtm', '', 'sg', 'singularia tantum'), ('Pltm', '', 'pl', 'pluralia tantum'), ('Fixd', '', '0', 'неизменяемое'),
    ('CAse', '', 'Падеж', 'категория падежа'), ('nomn', 'CAse', 'им', 'именительный падеж'),
    ('gent', 'CAse', 'рд', 'родительный падеж'), ('datv', 'CAse', 'дт', 'дательный падеж'),
    ('accs', 'CAse', 'вн', 'винительный падеж'), ('ablt', 'CAse', 'тв', 'творительный падеж'),
    ('loct', 'CAse', 'пр', 'предложный падеж'), ('voct', 'nomn', 'зв', 'звательный падеж'),
    ('gen1', 'gent', 'рд1', 'первый родительный падеж'), ('gen2', 'gent', 'рд2', 'второй родительный падеж'),
    ('acc1', 'accs', 'вн1', 'первый винительный падеж'), ('acc2', 'accs', 'вн2', 'второй винительный падеж'), ('loc1', 'loct', 'пр1', 'первый предложный падеж'),
    ('loc2', 'loct', 'пр2', 'второй предложный (местный) падеж'), ('Abbr', '', 'аббр', 'аббревиатура'),
    ('Name', '', 'имя', 'имя'), ('Surn', '', 'фам', 'фамилия'), ('Patr', '', 'отч', 'отчество'),
    ('Geox', '', 'гео', 'топоним'), ('Supr', '', 'превосх', 'превосходная степень'), ('Qual', '', 'кач', 'качественное'),
    ('Apro', '', 'мест-п', 'местоименное'), ('Anum', '', 'числ-п', 'порядковое'), ('V-ey', '', '*ею', 'форма на -ею'),
    ('V-oy', '', '*ою', 'форма на -ою'), ('Cmp2', '', 'сравн2', 'сравнительная степень на по-'),
    ('ASpc', '', 'Вид', 'категория вида'), ('perf', 'ASpc', 'сов', 'совершенный вид'),
    ('impf', 'ASpc', 'несов', 'несовершенный вид'), ('TRns', '', 'Перех', 'категория переходности'),
    ('tran', 'TRns', 'перех', 'переходный'), ('intr', 'TRns', 'неперех', 'непереходный'),
    ('PErs', '', 'Лицо', 'категория лица'), ('1per', 'PErs', '1л', '1 лицо'), ('2per', 'PErs', '2л', '2 лицо'),
    ('3per', 'PErs', '3л', '3 лицо'), ('TEns', '', 'Время', 'категория времени'),
    ('pres', 'TEns', 'наст', 'настоящее время'), ('past', 'TEns', 'прош', 'прошедшее время'),
    ('futr', 'TEns', 'буд', 'будущее время'), ('MOod', '', 'Накл', 'категория наклонения'),
    ('indc', 'MOod', 'изъяв', 'изъявительное наклонение'), ('impr', 'MOod', 'повел', 'повелительное наклонение'),
    ('Infr', '', 'разг', 'разговорное'), ('Arch', '', 'арх', 'устаревшее'), ('Init', '', 'иниц', 'Инициал'),
    ('Ms-f', '', 'ор', 'общий род (м/ж/с)'),
]

EXCLUDED_LINKS = ('7', '21', '23', '27')
LINK_TYPES = [str(i) for i in range(1, 28)]


class Spec(object):
    """A source dictionary, as it is written to XML."""

    def __init__(self):
        self.grammemes = list(GRAMMEMES)
        self.version = '0.92'
        self.revision = '1'
        # id -> None (deleted lemma) or (lemma text, [base grammemes], [(form, [grammemes])])
        self.lemmas = OrderedDict()
        self.links = []             # (from id, to id, type)
        self.restrictions = False

    def to_xml(self):
        out = ['<?xml version="1.0" encoding="utf-8" standalone="yes"?>',
               '<dictionary version=%s revision=%s>' % (quoteattr(self.version), quoteattr(self.revision)),
               '<grammemes>']
        for name, parent, alias, descr in self.grammemes:
            out.append('<grammeme parent=%s><name>%s</name><alias>%s</alias><description>%s</description></grammeme>'
                       % (quoteattr(parent), escape(name), escape(alias), escape(descr)))
        out.append('</grammemes>')
        if self.restrictions:
            out.append('<restrictions><restr type="maybe" auto="0"><left type="lemma"/><right type="lemma">NOUN'
                       '</right></restr></restrictions>')
        out.append('<lemmata>')
        for lid, lemma in self.lemmas.items():
            if lemma is None:
                out.append('<lemma id="%s" rev="%s"></lemma>' % (lid, lid))
                continue
            text, base, forms = lemma

            def gs(items):
                return ''.join('<g v=%s/>' % quoteattr(g) for g in items)
            out.append('<lemma id="%s" rev="%s"><l t=%s>%s</l>%s</lemma>' % (
                lid, lid, quoteattr(text), gs(base),
                ''.join('<f t=%s>%s</f>' % (quoteattr(w), gs(g)) for w, g in forms)))
        out.append('</lemmata><link_types>')
        for t in LINK_TYPES:
            out.append('<type id="%s">X-Y</type>' % t)
        out.append('</link_types><links>')
        for i, (a, b, t) in enumerate(self.links):
            out.append('<link id="%d" from="%s" to="%s" type="%s"/>' % (i + 1, a, b, t))
        out.append('</links></dictionary>')
        return '\n'.join(out)


def tag_string(base, extra):
    return (','.join(base) + ' ' + ','.join(extra)).strip()


def parsed_lexemes(spec):
    """What the XML says: id -> [(form, tag)]."""
    res = OrderedDict()
    for lid, lemma in spec.lemmas.items():
        if lemma is None:
            res[lid] = []
            continue
        _, base, forms = lemma
        if any(not base and not g for _, g in forms):
            res[lid] = []
            continue
        res[lid] = [(w.lower(), tag_string(base, g)) for w, g in forms]
    return res


def simplify_string(tag):
    for a, b in (('loc1', 'loct'), ('gen1', 'gent'), ('acc1', 'accs')):
        tag = tag.replace(a, b)
    return tag


def expected_lexemes(spec):
    """Lexemes of the compiled dictionary: list of lists of (form, tag after the
    removal of redundant cases).  Tag spelling (grammeme order) is not unified."""
    lex = OrderedDict((lid, [(w, simplify_string(t)) for w, t in forms if 'Init' not in t])
                      for lid, forms in parsed_lexemes(spec).items())
    # links are applied in file order: the lexeme of "to" is appended to the lexeme "from" is in
    moved = {}
    for a, b, t in spec.links:
        if t in EXCLUDED_LINKS:
            continue
        if b in moved:
            continue                # joined already
        while a in moved:
            a = moved[a]
        if a == b:
            continue                # circular link
        lex[a] = lex[a] + lex[b]
        lex[b] = []
        moved[b] = a
    return [lex[lid] for lid in sorted(lex, key=int) if lex[lid]]


def leftmost_lcs(items):
    """The leftmost longest common substring (position in the first string)."""
    if len(items) == 1:
        return items[0]
    first = items[0]
    for n in range(len(first), 0, -1):
        for i in range(len(first) - n + 1):
            if all(first[i:i + n] in x for x in items[1:]):
                return first[i:i + n]
    return ''


class GenLex(object):
    """Naive compiled dictionary (the interface of refmodel.RawDict)."""

    def __init__(self, lexemes, options, probs=None):
        self.lexemes = lexemes
        self.options = options
        self.paradigm_prefixes = list(options['paradigm_prefixes'])
        self.max_suffix_length = options['max_suffix_length']
        self.probs = probs
        self.has_prob = probs is not None
        self._paras = []
        ids = {}
        self._forms = defaultdict(list)
        entries = []
        popularity = Counter()
        for forms in lexemes:
            words = [w for w, _ in forms]
            stem = leftmost_lcs(words)
            if len(words) == 1:
                prefixes = ['']
            else:
                prefixes = [w[:w.index(stem)] for w in words]
                if any(p not in self.paradigm_prefixes for p in prefixes):
                    stem = ''
                    prefixes = [''] * len(words)
            table = tuple((p, t, w[len(p) + len(stem):]) for p, (w, t) in zip(prefixes, forms))
            if table not in ids:
                ids[table] = len(self._paras)
                self._paras.append(list(table))
            pid = ids[table]
            popularity[pid] += 1
            for i, (w, t) in enumerate(forms):
                entries.append((w, pid, i))
                self._forms[w].append((pid, i))
        self.entries = entries
        # a form is stored once per (word, paradigm, index)
        for w in self._forms:
            self._forms[w] = sorted(set(self._forms[w]))
        self._predict(entries, popularity)

    def _predict(self, entries, popularity):
        o = self.options
        total = Counter()
        table = defaultdict(Counter)        # (prefix id, ending, POS) -> counts of (para, idx)
        for w, pid, i in entries:
            if popularity[pid] < o['min_paradigm_popularity']:
                continue
            prefix, tag, suffix = self._paras[pid][i]
            if len(w) == len(prefix) + len(suffix):
                continue
            for n in range(max(len(suffix), 1), self.max_suffix_length + 1):
                end = w[-n:]
                total[end] += 1
                table[self.paradigm_prefixes.index(prefix), end, grammeme_tuple(tag)[0]][pid, i] += 1
        self._endings = defaultdict(list)
        for (prefix_id, end, pos), counts in table.items():
            if total[end] < o['min_ending_freq']:
                continue
            top = max(counts.values())
            for (pid, i), c in counts.items():
                if c == top:
                    self._endings[prefix_id, end].append((c, pid, i))
        for k in self._endings:
            self._endings[k].sort()

    def forms(self, word):
        return self._forms.get(word, [])

    def paradigm(self, pid):
        return self._paras[pid]

    def endings(self, prefix_id, end):
        return self._endings.get((prefix_id, end), [])

    def prob(self, word, tag):
        return self.probs.get((word, tag), 0.0)

    def all_triples(self):
        """Multiset of (form, tag, normal form) of distinct stored entries."""
        res = Counter()
        for w, pids in self._forms.items():
            for pid, i in pids:
                res[(w, self._paras[pid][i][1], self.normal(w, pid, i))] += 1
        return res

    def normal(self, w, pid, i):
        prefix, _, suffix = self._paras[pid][i]
        stem = w[len(prefix):len(w) - len(suffix)]
        return self._paras[pid][0][0] + stem + self._paras[pid][0][2]


# ---------------------------------------------------------------- generation

ALPHA = 'абвгдеёоы'
CASES6 = ['nomn', 'gent', 'datv', 'accs', 'ablt', 'loct']


def _noun_tags(d):
    base = ['NOUN', d.choice(['inan', 'anim']), d.choice(['masc', 'femn', 'neut'])]
    if d.chance(1, 6):
        base.append(d.choice(['Name', 'Surn', 'Geox', 'Sgtm', 'Fixd', 'Abbr']))
    forms = [[n, c] for n in ('sing', 'plur') for c in CASES6]
    k = d.integer(1, 12)
    forms = forms[:k]
    if d.chance(1, 4):
        forms.append(['sing', d.choice(['loc2', 'gen2', 'voct', 'loc1', 'gen1', 'acc1', 'acc2'])])
    if d.chance(1, 6):
        forms.append(['sing', 'ablt', 'V-oy'])
    return base, forms


def _adj_tags(d):
    base = ['ADJF'] + d.choice([[], [], ['Qual'], ['Apro'], ['Anum']])
    forms = [[g, 'sing', c] for g in ('masc', 'femn', 'neut') for c in CASES6[:d.integer(1, 6)]]
    forms += [['plur', c] for c in CASES6[:d.integer(0, 6)]]
    return base, forms


def _verb_tags(d):
    base = ['VERB', d.choice(['perf', 'impf']), d.choice(['tran', 'intr'])]
    forms = [[n, p, 'pres', 'indc'] for n in ('sing', 'plur') for p in ('1per', '2per', '3per')]
    return base, forms[:d.integer(1, 6)]


def _infn_tags(d):
    return ['INFN', d.choice(['perf', 'impf']), d.choice(['tran', 'intr'])], [[]]


def _comp_tags(d):
    return ['COMP', 'Qual'], [[], ['Cmp2']]


def _adjs_tags(d):
    return ['ADJS', 'Qual'], [['masc', 'sing'], ['femn', 'sing'], ['neut', 'sing'], ['plur']][:d.integer(1, 4)]


def _prtf_tags(d):
    return (['PRTF', 'perf'], [['masc', 'sing', c] for c in CASES6[:d.integer(1, 6)]])


def _closed_tags(d):
    pos = d.choice(['PREP', 'CONJ', 'PRCL', 'INTJ', 'NPRO', 'NUMR', 'PRED', 'ADVB'])
    if pos in ('NPRO', 'NUMR'):
        return [pos], [[c] for c in CASES6[:d.integer(1, 6)]]
    return [pos], [[]]


def gen_spec(d, noise=False, options=None, links=True, alpha=ALPHA, big=False):
    """A random source dictionary.

    ``noise``: also vary how the same grammemes are spelled in different lexemes (True or 'heavy'; 'space': only the place of the space).
    ``links``: 'many' adds targets of several links and circular links.
    """
    spec = Spec()
    spec.version = '0.%d' % d.integer(0, 99)
    spec.revision = str(d.integer(1, 400000))
    spec.restrictions = d.chance(1, 3)
    prefixes = [p for p in options['paradigm_prefixes'] if p]
    kinds = [_noun_tags, _noun_tags, _adj_tags, _verb_tags, _infn_tags, _comp_tags, _adjs_tags, _prtf_tags,
             _closed_tags]
    stems = [d.text(alpha, 1, 4) for _ in range(d.integer(2, 8 if big else 5))]
    used = set()
    lid = 0
    for _ in range(d.integer(1, 5 if big else 4)):
        base, form_tags = d.choice(kinds)(d)
        endings = [d.text(alpha, 0, 3) for _ in form_tags]
        form_prefixes = ['' for _ in form_tags]
        if prefixes and len(form_tags) > 1 and d.chance(1, 3):
            for i in range(len(form_tags)):
                if d.chance(1, 2):
                    form_prefixes[i] = d.choice(prefixes)
        for stem in (d.sample(stems, d.integer(1, len(stems)))):
            lid += d.integer(1, 9)
            forms = []
            for p, e, g in zip(form_prefixes, endings, form_tags):
                w = p + stem + e
                if d.chance(1, 25):
                    w = d.text(alpha, 1, 5)             # suppletive form
                if d.chance(1, 30):
                    w = w[:1].upper() + w[1:]
                if d.chance(1, 40):
                    w = w + '-' + d.text(alpha, 1, 3)
                g = list(g)
                if noise and noise != 'space' and len(g) > 1 and d.chance(2 if noise == 'heavy' else 1, 4):
                    g = d.shuffle(g)
                forms.append((w, g))
            b = list(base)
            if noise == 'space':
                for _ in range(d.integer(0, len(b) - 1)):
                    g0 = b.pop()
                    forms = [(w, [g0] + g) for w, g in forms]
            elif noise and len(b) > 2 and d.chance(2 if noise == 'heavy' else 1, 4):
                b = [b[0]] + d.shuffle(b[1:])
            if noise and noise != 'space' and d.chance(3 if noise == 'heavy' else 1, 12) and len(b) > 1:
                # move a grammeme from the lexeme to its forms (another place of the space)
                g0 = b.pop()
                forms = [(w, [g0] + g) for w, g in forms]
            if d.chance(1, 25):
                b.append('Init')
            spec.lemmas[str(lid)] = (forms[0][0], b, forms)
    if d.chance(1, 5):
        lid += 1
        spec.lemmas[str(lid)] = None
    if d.chance(1, 8):
        lid += 1
        w = d.text(alpha, 1, 4)
        spec.lemmas[str(lid)] = (w, [], [(w, [])])
    if d.chance(1, 3):
        # XML order is not id order
        items = d.shuffle(list(spec.lemmas.items()))
        spec.lemmas = OrderedDict(items)
    if links:
        ids = list(spec.lemmas)
        order = d.shuffle(ids)
        chosen = []
        for i, b in enumerate(order):
            if i and d.chance(1, 4):
                a = order[d.draw(i)]
                chosen.append((a, b, d.choice(LINK_TYPES)))
            elif i and d.chance(1, 12):
                chosen.append((order[d.draw(i)], b, d.choice(EXCLUDED_LINKS)))
        if links == 'many':
            # targets of several links and circular links
            for _ in range(d.integer(0, 6)):
                chosen.append((d.choice(ids), d.choice(ids), d.choice(LINK_TYPES)))
        if chosen and d.chance(1, 4):
            # the same link again
            chosen += [d.choice(chosen) for _ in range(d.integer(1, 3))]
        spec.links = d.shuffle(chosen)
    return spec


def gen_options(d):
    return {
        'min_ending_freq': d.integer(0, 3),
        'min_paradigm_popularity': d.integer(0, 3),
        'max_suffix_length': d.weighted([(4, 5), (1, 1), (1, 2), (1, 3), (1, 4), (1, 6), (1, d.integer(7, 12))]),
        'paradigm_prefixes': d.weighted([(4, ['', 'по', 'наи']), (1, ['']), (1, ['', 'на', 'о']), (1, ['', 'в', 'до', 'а'])]),
    }


# ---------------------------------------------------------------- compilation

_counter = [0]


def scratch_root():
    for base in ('/dev/shm', tempfile.gettempdir()):
        if os.path.isdir(base) and os.access(base, os.W_OK):
            return base
    return tempfile.gettempdir()


class Scratch(object):
    """A scratch directory of the worker; emptied after every case."""

    def __init__(self):
        self.root = tempfile.mkdtemp(prefix='pmv-', dir=scratch_root())
        self.n = 0

    def new(self):
        self.n += 1
        return os.path.join(self.root, 'd%d' % self.n)

    def clear(self):
        for name in os.listdir(self.root):
            p = os.path.join(self.root, name)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                os.unlink(p)

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    """pymorphy2 reports compilation progress on stdout/stderr."""
    import sys
    o, e = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = o, e


def compile_spec(spec, scratch, options, lang='ru', source='generated'):
    """Write XML, run the converter of the code under test; returns the dictionary folder."""
    from pymorphy2.opencorpora_dict.compile import convert_to_pymorphy2
    xml = scratch.new() + '.xml'
    with open(xml, 'w', encoding='utf8') as f:
        f.write(spec.to_xml())
    out = scratch.new()
    with quiet():
        convert_to_pymorphy2(xml, out, source_name=source, language_code=lang, overwrite=True,
                             compile_options=dict(options))
    return out


def describe(spec, limit=12):
    lines = []
    for lid, lemma in list(spec.lemmas.items())[:limit]:
        if lemma is None:
            lines.append('%s: deleted' % lid)
        else:
            lines.append('%s: %s | %s' % (lid, ','.join(lemma[1]),
                                          ' '.join('%s(%s)' % (w, ','.join(g)) for w, g in lemma[2][:14])))
    return {'lemmas': lines, 'links': spec.links[:10], 'n': len(spec.lemmas)}
