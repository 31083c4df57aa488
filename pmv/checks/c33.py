# -*- coding: utf-8 -*-
"""C33: the command line prints what the API returns."""
import io
import logging
import os
import subprocess
import sys

from pmv import common as C
from pmv import gendict as G
from pmv.checks.c17 import expected as tokenize
from pmv.checks.c34 import installed
from pmv.engine import REPO, Check, Group, Violation, require, require_equal


class Near(Exception):
    """A sum of scores is too near to a limit to say how it is rounded or sorted."""


def tokens_of(text, tokenized):
    lines = text.replace('\r\n', '\n').replace('\r', '\n').split('\n')
    if tokenized:
        return [x for x in (line.strip() for line in lines) if x]
    return [t for line in lines for t in tokenize(line)]


def line_for(morph, token, lemma, score, tag, thresh):
    if not lemma and not score and not thresh:
        items = [str(t) for t in morph.tag(token)]
    elif lemma and not tag:
        sums = {}
        for p in morph.parse(token):
            sums.setdefault(p.normal_form, []).append(p.score)
        pairs = [(n, sum(xs)) for n, xs in sums.items()]
        for i, (n, w) in enumerate(pairs):
            many = len(sums[n]) > 1
            if many and (abs(w - thresh) < 1e-9 or abs(w * 1000 % 1 - 0.5) < 1e-6):
                raise Near()
            if any(0 < abs(w - v) < 1e-9 for m, v in pairs[:i]):
                raise Near()
        pairs = [x for x in pairs if x[1] >= thresh]
        pairs.sort(key=lambda x: -x[1])
        items = ['%s:%.3f' % x if score else x[0] for x in pairs]
    else:
        items = []
        for p in morph.parse(token):
            if p.score >= thresh:
                s = ''
                if lemma:
                    s += p.normal_form + ':'
                if score:
                    s += '%.3f=' % p.score
                items.append(s + str(p.tag))
    return '%s{%s}\n' % (token, '|'.join(items))


def run_cli(argv, stdin=None):
    """Output of the command."""
    from pymorphy2 import cli
    old = sys.stdin, sys.stdout
    out = io.StringIO()
    sys.stdout = out
    if stdin is not None:
        sys.stdin = io.TextIOWrapper(io.BytesIO(stdin.encode('utf8')), encoding='utf8')
    try:
        cli.main(argv)
    finally:
        sys.stdin, sys.stdout = old
    return out.getvalue()


def options(d):
    argv = []
    lemma, score, tag = d.choice([(0, 0, 0), (1, 0, 0), (1, 1, 0), (1, 0, 1), (1, 1, 1), (0, 0, 1), (0, 1, 1)])
    if lemma:
        argv.append(d.choice(['-l', '--lemmatize']))
    if score:
        argv.append(d.choice(['-s', '--score']))
    if tag:
        argv.append(d.choice(['-t', '--tag']))
    if not argv:
        lemma = score = tag = 1
    thresh = 0.0
    if d.chance(1, 2):
        text = d.choice(['0.0', '0.1', '0.5', '0.9', '1', '0.001', '1e-2', '.25', '2'])
        argv += ['--thresh', text] if d.chance(1, 2) else ['--thresh=' + text]
        thresh = float(text)
    tokenized = d.chance(1, 3)
    if tokenized:
        argv.append('--tokenized')
    if d.chance(2, 3):
        size = d.choice(['0', '1', '2', '3', '20000', 'unlim', '5'])
        argv += d.choice([['-c', size], ['--cache', size], ['--cache=' + size]])
    return d.shuffle(argv_groups(argv)), bool(lemma), bool(score), bool(tag), thresh, tokenized


def argv_groups(argv):
    """Options with their values, so that they can be reordered."""
    res, i = [], 0
    while i < len(argv):
        n = 2 if argv[i] in ('--thresh', '-c', '--cache') else 1
        res.append(argv[i:i + n])
        i += n
    return res


# white space and line separators which do not end lines of a file
ODD_SPACE = '\u2028\u2029\x85\x0b\x0c\x1c\x1d\x1e\xa0\u3000\t'


def text_of(d, words, tokenized, size=None):
    out = []
    if size and d.chance(1, 3):
        # all on one line, or on a few
        return ''.join(words(d) + (' ' if d.chance(999, 1000) else '\n') for _ in range(size))
    for _ in range(size or d.integer(0, 14)):
        out.append(words(d))
        if tokenized:
            out.append(d.choice(['\n', '\n', '\n', ' \n', '\r\n', '\n\n\t\n', ' ', d.choice(ODD_SPACE)]))
        else:
            out.append(d.choice([' ', ' ', ', ', '. ', '\n', '\r\n', '', '-', '!', ' \u2028 ', d.choice(ODD_SPACE)]))
    return ''.join(out)


def near_score(d, morph, token):
    """The score of an analysis (or of all with one normal form), or a value slightly above or below."""
    ps = morph.parse(token)
    p = d.choice(ps)
    v = p.score if d.chance(1, 2) else sum(x.score for x in ps if x.normal_form == p.normal_form)
    return max(0.0, v + d.choice([0, 0, 0.0001, -0.0001, 0.0004, -0.0004, 0.004, -0.004, 0.02, 1e-7, -1e-7]))


def file_name(d):
    """Names of input files; some of them look like something else."""
    name = d.choice(['a', 'text', 'текст', 'Ёж', '1', 'ru', 'parse', 'meta', '', 'in put'])
    name += d.choice(['', '-', '--', ' -', '-l', '.txt', '.txt', '.gz', '.', '.-', '-.txt', '=', '{}', '%s', ' ', '.json', '.xml', '.dawg', '.UTF-16'])
    if d.chance(1, 4):
        name = d.choice(['-', '--', ' ', '.', '#', '<', '%']) + name
    return 'file' if name in ('', '.', '..') else name


def case(d, env, words, morph, extra, size=None):
    groups, lemma, score, tag, thresh, tokenized = options(d)
    argv = ['parse'] + [x for g in groups for x in g] + extra
    text = text_of(d, words, tokenized, size)
    stdin = None
    if d.chance(1, 4):
        stdin = text
        if d.chance(1, 2):
            argv.append('-')
    else:
        fn = os.path.join(env.scratch.root, file_name(d))
        with open(fn, 'w', encoding='utf8', newline='') as f:
            f.write(text)
        argv.append(fn)
    d.note('argv', argv)
    d.note('text', text[:2000])
    toks = tokens_of(text, tokenized)
    if toks and not any(x.startswith('--thresh') for x in argv) and d.chance(1, 3):
        thresh = near_score(d, morph, d.choice(toks))
        argv.insert(1, '--thresh=%r' % thresh)
        d.label('limit next to a score')
    try:
        want = ''.join(line_for(morph, t, lemma, score, tag, thresh) for t in toks)
    except Near:
        d.label('near a limit')
        return None
    d.label('lemma:%d score:%d tag:%d' % (lemma, score, tag))
    if toks:
        d.nontrivial((tuple(toks), lemma, score, tag, thresh))
    if len(set(toks)) < len(toks):
        d.label('repeated tokens')
    if any('{}' in x for x in want.split('\n')):
        d.label('all dropped')
    return argv, stdin, want


def compare(got, want):
    if got == want:
        return
    for a, b in zip(got.split('\n') + [''], want.split('\n') + ['']):
        if a != b:
            raise Violation('the command prints %r, expected %r' % (a, b))
    raise Violation('the command prints %r, expected %r' % (got[-200:], want[-200:]))


def recased(d, pool):
    """Some of the words in other cases and spellings as well."""
    return pool + [d.choice([w.upper(), w.title(), w.lower(), w.replace('ё', 'е'), w.swapcase()]) for w in pool if d.chance(1, 3)]


def real(d, env):
    env.scratch.clear()
    pool = recased(d, [C.token(d, env) for _ in range(d.integer(1, 6))])
    extra = d.choice([[], ['--lang', 'ru'], ['--lang=ru']])
    res = case(d, env, lambda d: d.choice(pool), env.morph, extra)
    if res:
        compare(run_cli(res[0], res[1]), res[2])


def generated(d, env):
    """Another dictionary and language."""
    import pymorphy2
    lang = d.choice(['ru', 'uk'])
    c = C.gen_case(d, env, probs=d.chance(1, 2), lang=lang, alpha=d.choice([G.ALPHA, 'гґієа']))
    extra = ['--dict', c.path] + (['--lang', lang] if lang != 'ru' or d.chance(1, 2) else [])
    morph = pymorphy2.MorphAnalyzer(path=c.path, lang=lang)
    pool = recased(d, [C.gen_word(d, c) for _ in range(d.integer(1, 6))] + ['12', 'А', 'Ґ'])
    res = case(d, env, lambda d: d.choice(pool), morph, extra)
    if res:
        compare(run_cli(res[0], res[1]), res[2])
    meta(c.path, ['--dict', c.path])


def meta(path, extra):
    """The command prints the metadata."""
    from pymorphy2 import cli
    from pymorphy2.opencorpora_dict.storage import load_dict
    expected = load_dict(path).meta
    out = io.StringIO()
    old = sys.stderr
    logger = logging.getLogger('pymorphy2')
    sys.stderr = out
    logging.disable(logging.NOTSET)
    try:
        cli.main(['dict', 'meta'] + extra)
    finally:
        logging.disable(logging.CRITICAL)
        sys.stderr = old
        for h in list(logger.handlers):
            if isinstance(h, logging.StreamHandler):
                logger.removeHandler(h)
        logger.setLevel(logging.NOTSET)
    lines = out.getvalue().split('\n')
    for k, v in expected.items():
        require('%s: %s' % (k, v) in lines, 'dict meta does not print %r: %r', '%s: %s' % (k, v), lines)


def long(d, env):
    """Long texts of many different tokens (more than the cache keeps)."""
    env.scratch.clear()
    pool = recased(d, [C.token(d, env) for _ in range(d.choice([20, 200, 500]))])
    words = lambda d: d.choice(pool)
    n = d.choice([1000, 2500])
    if d.index % 10 == 0:
        n = 21000       # numbers are fast; the cache has 20000 entries unless told otherwise
        words = lambda d: '1' + str(d.draw(90000)) if d.chance(29, 30) else d.choice(pool)
    res = case(d, env, words, env.morph, [], n)
    if res:
        compare(run_cli(res[0], res[1]), res[2])


def languages(d, env):
    """Dictionaries of installed packages, selected by language."""
    import pymorphy2
    env.scratch.clear()
    langs = d.sample(['xx', 'uk', 'be'], d.integer(1, 3))
    cases = [(lang, C.gen_case(d, env, probs=d.chance(1, 2), lang=lang, keep=True)) for lang in langs]
    with installed(env, [(lang, c.path) for lang, c in cases]):
        for lang, c in d.shuffle(cases):
            morph = pymorphy2.MorphAnalyzer(path=c.path, lang=lang)
            extra = d.choice([['--lang', lang], ['--lang=' + lang]])
            pool = recased(d, [C.gen_word(d, c) for _ in range(d.integer(1, 6))])
            res = case(d, env, lambda d: d.choice(pool), morph, extra)
            if res:
                compare(run_cli(res[0], res[1]), res[2])
            meta(c.path, extra)


def process(d, env):
    """A process of its own, with bytes for input and output."""
    env.scratch.clear()
    pool = recased(d, [C.token(d, env) for _ in range(d.integer(1, 8))])
    res = case(d, env, lambda d: d.choice(pool), env.morph, [])
    if not res:
        return
    argv, stdin, want = res
    env2 = dict(os.environ, PYTHONPATH=REPO)
    if d.chance(1, 2):
        # a locale which says nothing of UTF-8: input files are in UTF-8 all the same
        env2.update(LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0', PYTHONIOENCODING='utf8')
        env2.pop('LANG', None)
        d.label('C locale')
    p = subprocess.Popen([sys.executable, '-W', 'ignore', '-c', 'from pymorphy2.cli import main; main()'] + argv,
                         stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env2, cwd=env.scratch.root)
    out, err = p.communicate(None if stdin is None else stdin.encode('utf8'))
    require_equal(p.returncode, 0, 'exit status (%s)' % err[-300:].decode('utf8', 'replace'))
    compare(out.decode('utf8'), want)


class Env(C.Env):
    def __init__(self):
        C.Env.__init__(self)
        self.scratch = G.Scratch()

    def close(self):
        self.scratch.close()


class LangEnv(C.GenEnv):
    def __init__(self):
        C.GenEnv.__init__(self)
        self.n = 0


CHECK = Check(
    'C33', 'a case is a text and a combination of command line options; the output is compared with lines built from the results of the API; non-trivial: texts with at least one token',
    [
        Group('real', real, 900, 60000, Env, ('slow',)),
        Group('long', long, 10, 300, Env, ('slow',), shrink=10),
        Group('process', process, 16, 800, Env, ('slow',)),
        Group('languages', languages, 40, 2000, LangEnv, ('fast',)),
        Group('generated', generated, 160, 8000, C.GenEnv, ('fast',)),
    ])
