# -*- coding: utf-8 -*-
"""C35: reading of OpenCorpora XML files."""
from pmv import gendict as G
from pmv.engine import Check, Group, require, require_equal

# ---------------------------------------------------------------- documents

NAMES = 'абвёйьъіґ'
FORM_CHARS = 'абвгдеёжзАБВЁЯґҐіІїЇ-\'’&<">123 abCİǅßΣς'
GRAMMEME_CHARS = 'abcdefNOUNVERB123-_'
TEXT_CHARS = 'абв где/()-.&<>"\'ёі0'
ENCODINGS = ['utf-8', 'utf-8', 'utf-8', 'utf-8', 'utf-16', 'windows-1251', 'koi8-r']
JUNK = ['note', 'restr', 'left', 'right', 'auto', 'type', 'lemmas', 'F', 'links_', 'grammems', 'Lemma', 'x']


class Doc(object):
    """The content of a file (expected) and how it is written."""

    def __init__(self):
        self.version = '0.92'
        self.revision = '1'
        self.grammemes = []
        self.lemmas = []        # (id, None or (base grammemes, [(form, grammemes)]))
        self.links = []


def gen_doc(d):
    doc = Doc()
    doc.version = d.choice([None, '0.8', '0.92', d.text('0123456789.', 1, 5), ''])
    doc.revision = d.choice([None, '403605', d.text('0123456789', 1, 7), '0'])
    for i in range(d.integer(0, 6)):
        doc.grammemes.append((d.text(GRAMMEME_CHARS, 1, 5), d.choice([None, '', '', d.text(GRAMMEME_CHARS, 1, 4)]),
                              '' if d.chance(1, 6) else d.text(TEXT_CHARS.strip(), 1, 5), '' if d.chance(1, 5) else d.text(TEXT_CHARS, 1, 12)))
    lid = 0
    for i in range(d.integer(0, 8)):
        lid += d.integer(1, 50)
        k = d.draw(12)
        if k == 0:
            doc.lemmas.append((str(lid), None))
            continue
        base = [d.text(GRAMMEME_CHARS, 1, 4) for _ in range(d.integer(0, 3))]
        forms = []
        for _ in range(d.integer(0, 5)):
            forms.append((d.text(FORM_CHARS, 1, 6), [d.text(GRAMMEME_CHARS, 1, 4) for _ in range(d.integer(0 if base or k == 1 else 1, 3))]))
        doc.lemmas.append((str(lid), (base, forms)))
    doc.lemmas = d.shuffle(doc.lemmas)
    ids = [x for x, _ in doc.lemmas] or ['1', '2']
    for i in range(d.integer(0, 6)):
        doc.links.append((d.choice(ids), d.choice(ids), str(d.integer(1, 30))))
    return doc


def wanted(doc):
    lexemes = {}
    for lid, lemma in doc.lemmas:
        if lemma is None or any(not lemma[0] and not g for _, g in lemma[1]):
            lexemes[lid] = []
        else:
            lexemes[lid] = [(w.lower(), G.tag_string(lemma[0], g)) for w, g in lemma[1]]
    return lexemes


# ---------------------------------------------------------------- layout

class Writer(object):
    """Writes elements with a random layout.  ``wild`` = 0 is the plain layout."""

    def __init__(self, d, wild, pad):
        self.d = d
        self.wild = wild
        self.pad = pad

    def ref(self, ch):
        d = self.d
        if ch in '&<':
            return {'&': '&amp;', '<': '&lt;'}[ch]
        if ch in '>"\'':
            return {'>': '&gt;', '"': '&quot;', "'": '&apos;'}[ch]
        if self.wild and d.chance(1, 12):
            return '&#%d;' % ord(ch) if d.chance(1, 2) else '&#x%X;' % ord(ch)
        return ch

    def text(self, s):
        d = self.d
        if self.wild and ']]>' not in s and s and d.chance(1, 8):
            d.label('cdata')
            return '<![CDATA[%s]]>' % s
        return ''.join(self.ref(ch) for ch in s)

    def attr(self, k, v):
        d = self.d
        q = d.choice(['"', "'"]) if self.wild else '"'
        eq = d.choice(['=', '=', ' = ', '=\n']) if self.wild else '='
        return k + eq + q + ''.join(self.ref(ch) for ch in v) + q

    def gap(self):
        """Between elements."""
        d = self.d
        if not self.wild:
            return d.choice(['', '\n'])
        out = d.choice(['', '', '\n', '\n    ', '\t', '\r\n'])
        if d.chance(1, 14):
            d.label('comment')
            out += d.choice(['<!-- x -->', '<!---->', '<!-- <lemma id="7"><l t="а"/></lemma> -->', '<!--\n<link from="1" to="2" type="3"/>-->', '<?pi data?>', '<?lemma id="1"?>'])
        if self.pad and d.chance(1, 6):
            out += d.choice([' ', '\n', '<!--%s-->']).replace('%s', '1') if d.chance(1, 3) else '<!--%s-->' % ('y' * d.integer(100, 20000))
        return out

    def junk(self, depth=0):
        d = self.d
        name = d.choice(JUNK)
        kids = [self.junk(depth + 1) for _ in range(d.integer(0, 2))] if depth < 2 else []
        return self.elem(name, [('type', 'lemma'), ('id', '5'), ('v', 'z')][:d.integer(0, 3)], kids or [d.choice(['', 'текст', 'NOUN'])])

    def elem(self, name, attrs, kids=(), text=None, extra=False):
        d = self.d
        attrs = [(k, v) for k, v in attrs if v is not None]
        if self.wild:
            attrs = d.shuffle(attrs)
        head = '<' + name + ''.join((d.choice([' ', ' ', '\n ', '  ']) if self.wild else ' ') + self.attr(k, v) for k, v in attrs)
        head += d.choice(['', '', ' ']) if self.wild else ''
        if text is not None:
            return head + '>' + self.text(text) + '</' + name + '>'
        kids = list(kids)
        if extra and self.wild and d.chance(1, 6):
            d.label('unrelated element')
            kids.insert(d.integer(0, len(kids)), self.junk())
        if not kids and d.chance(1, 2):
            inner = self.gap()
            return head + '/>' if not inner.strip() else head + '>' + inner + '</' + name + '>'
        return head + '>' + ''.join(self.gap() + k for k in kids) + self.gap() + '</' + name + d.choice(['', '', ' ' if self.wild else '']) + '>'

    def document(self, doc, encoding):
        d = self.d
        e = self.elem
        rev = [('rev', '7')] if d.chance(1, 2) else []

        def gs(items):
            return [e('g', [('v', g)], extra=False) for g in items]
        grammemes = [e('grammeme', [('parent', p)] + rev, self.mixed([e('name', [], text=n), e('alias', [], text=a), e('description', [], text=t)]), extra=True)
                     for n, p, a, t in doc.grammemes]
        lemmas = []
        for lid, lemma in doc.lemmas:
            if lemma is None:
                lemmas.append(e('lemma', [('id', lid)] + rev))
                continue
            base, forms = lemma
            head = e('l', [('t', forms[0][0] if forms else 'а')], gs(base))
            fs = [e('f', [('t', w)], gs(g)) for w, g in forms]
            if self.wild and d.chance(1, 5):
                i = d.integer(0, len(fs))
                kids = fs[:i] + [head] + fs[i:]
            else:
                kids = [head] + fs
            lemmas.append(e('lemma', [('id', lid)] + rev, kids, extra=True))
        links = [e('link', [('id', str(i + 1)), ('from', a), ('to', b), ('type', t)]) for i, (a, b, t) in enumerate(doc.links)]
        sections = [e('grammemes', [], grammemes, extra=True), e('lemmata', [], lemmas, extra=True), e('links', [], links, extra=True),
                    e('link_types', [], [e('type', [('id', '1')], text='ADJF-ADJS')])]
        if d.chance(1, 2):
            sections.insert(1, e('restrictions', [], [e('restr', [('type', 'maybe')], [e('left', [('type', 'lemma')]), e('right', [('type', 'form')], text='NOUN')])]))
        if self.wild and d.chance(1, 3):
            sections = d.shuffle(sections)
        out = ''
        if encoding != 'utf-8' or d.chance(3, 4):
            out += '<?xml version="1.0" encoding="%s"%s?>' % (encoding, d.choice(['', ' standalone="yes"']))
            out += d.choice(['', '\n'])
        if self.wild and d.chance(1, 4):
            out += d.choice(['<!-- dictionary version="9" -->', '<!DOCTYPE dictionary>', '<?x y?>\n'])
        out += e('dictionary', [('version', doc.version), ('revision', doc.revision)], sections, extra=True)
        return out + d.choice(['', '\n', '<!-- end -->' if self.wild else ''])

    def mixed(self, kids):
        return self.d.shuffle(kids) if self.wild and self.d.chance(1, 3) else kids


def write(d, env, doc):
    wild = d.integer(0, 1)
    pad = wild and d.chance(1, 5)
    encoding = d.choice(ENCODINGS) if wild else 'utf-8'
    text = Writer(d, wild, pad).document(doc, encoding)
    try:
        data = text.encode(encoding)
    except UnicodeEncodeError:
        encoding = 'utf-8'
        text = text.replace('encoding="windows-1251"', 'encoding="utf-8"').replace('encoding="koi8-r"', 'encoding="utf-8"')
        data = text.encode(encoding)
    if encoding == 'utf-8' and wild and d.chance(1, 8):
        data = b'\xef\xbb\xbf' + data
    d.label('encoding:' + encoding)
    d.label('wild:%d' % wild)
    if len(data) > 70000:
        d.label('several chunks')
    d.note('file', text[:1500])
    fn = env.scratch.new() + '.xml'
    with open(fn, 'wb') as f:
        f.write(data)
    return fn


def check(d, doc, fn):
    from pymorphy2.opencorpora_dict.parse import get_dictionary_info, parse_opencorpora_xml
    with G.quiet():
        res = parse_opencorpora_xml(fn)
    require_equal((res.version, res.revision), (doc.version, doc.revision), 'version and revision')
    require_equal(tuple(get_dictionary_info(fn)), (doc.version, doc.revision), 'get_dictionary_info')
    require_equal([(n, p, a or '', t or '') for n, p, a, t in res.grammemes], doc.grammemes, 'grammemes')      # an empty element may be None
    require_equal([tuple(x) for x in res.links], doc.links, 'links')
    want = wanted(doc)
    require_equal(sorted(res.lexemes), sorted(want), 'lemma ids')
    for lid in want:
        require_equal([tuple(x) for x in res.lexemes[lid]], want[lid], 'forms of lemma %s' % lid)


def documents(d, env):
    env.scratch.clear()
    doc = gen_doc(d)
    fn = write(d, env, doc)
    if doc.lemmas or doc.grammemes or doc.links:
        d.nontrivial((repr(doc.grammemes), repr(doc.lemmas), repr(doc.links), doc.version))
    if any(l is None for _, l in doc.lemmas):
        d.label('deleted lemma')
    if any(l is not None and any(not l[0] and not g for _, g in l[1]) for _, l in doc.lemmas):
        d.label('form without grammemes')
    check(d, doc, fn)


def large(d, env):
    """Files of many parser chunks."""
    env.scratch.clear()
    doc = Doc()
    doc.grammemes = [('G%d' % i, None, 'а%d' % i, 'о' * d.integer(1, 50)) for i in range(d.integer(1, 80))]
    n = d.integer(100, 1500)
    step = d.integer(1, 30)
    base = d.text('абвгд', 3, 6)
    for i in range(n):
        if (i * step) % 97 == 5:
            doc.lemmas.append((str(i + 1), None))
        else:
            forms = [('%s%d%s' % (base, i, 'хуё'[:k % 4]), ['g%d' % k, 'h%d' % (i % 7)][:1 + (i + k) % 2]) for k in range((i * step) % 23)]
            doc.lemmas.append((str(i + 1), (['NOUN', 'b%d' % (i % 5)], forms)))
    doc.links = [(str(i + 1), str(n - i), str(1 + i % 27)) for i in range(0, n, d.integer(1, 9))]
    fn = write(d, env, doc)
    d.nontrivial((n, step, base))
    check(d, doc, fn)


class Env(object):
    def __init__(self):
        self.scratch = G.Scratch()
        self.known = []

    def close(self):
        self.scratch.close()


CHECK = Check(
    'C35', 'a case is a document and its layout (attribute order, quotes, references, comments, encoding, unrelated elements); non-trivial: documents with a grammeme, lemma or link',
    [
        Group('documents', documents, 1600, 150000, Env, ('fast', 'slow')),
        Group('large', large, 16, 400, Env, ('fast', 'slow')),
    ])
