# -*- coding: utf-8 -*-
"""C38: repeated and interrupted compilation."""
import json
import os
import resource
import shutil
import signal
import sys
import warnings

from pmv import common as C
from pmv import gendict as G
from pmv.engine import REPO, Check, Discard, Group, Violation, require, require_equal
from pmv.refmodel import RefAnalyzer
from pmv.schedule import in_child

CODE = os.path.join(REPO, 'pymorphy2') + os.sep


def write_xml(spec, scratch):
    fn = scratch.new() + '.xml'
    with open(fn, 'w', encoding='utf8') as f:
        f.write(spec.to_xml())
    return fn


def convert(xml, out, options, lang='ru', source='generated', overwrite=True):
    from pymorphy2.opencorpora_dict.compile import convert_to_pymorphy2
    with G.quiet():
        return convert_to_pymorphy2(xml, out, source_name=source, language_code=lang, overwrite=overwrite, compile_options=dict(options))


def contents(path, tokens):
    """Everything a loaded dictionary says, as data."""
    import pymorphy2
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m = pymorphy2.MorphAnalyzer(path=path)
    meta = dict(m.dictionary.meta)
    meta.pop('compiled_at', None)
    res = {'meta': json.dumps(meta, sort_keys=True), 'lang': m.lang, 'estimator': m.prob_estimator is not None,
           'words': sorted((p.word, str(p.tag), p.normal_form) for p in m.iter_known_word_parses())}
    for t in tokens:
        ps = m.parse(t)
        res['parse ' + t] = sorted((p.word, str(p.tag), p.normal_form, round(p.score, 9)) for p in ps)
        res['tag ' + t] = sorted(map(str, m.tag(t)))
        if ps:
            res['lexeme ' + t] = C.lexeme_triples(ps[0].lexeme)
    return res


def snapshot(path):
    res = {}
    for name in os.listdir(path):
        with open(os.path.join(path, name), 'rb') as f:
            res[name] = f.read()
    return res


def differ(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


def gen(d):
    o = G.gen_options(d)
    return G.gen_spec(d, options=o), o


def tokens_of(d, words):
    case = type('Case', (), {})()
    case.words = words
    res = []
    for _ in range(8):
        try:
            res.append(C.gen_word(d, case))
        except Discard:
            pass
    return res + words[:6]


def words_of(*specs):
    return sorted(set(w.lower() for spec in specs for lemma in spec.lemmas.values() if lemma for w, _ in lemma[2]))


def recompile(d, env):
    """A history of compilations into one folder."""
    env.scratch.clear()
    out = env.scratch.new()
    specs = []
    state = None
    history = []
    for step in range(d.integer(2, 4)):
        overwrite = step == 0 or d.chance(3, 4)
        spec, o = gen(d)
        if specs and d.chance(1, 4):
            spec = specs[-1]
        specs.append(spec)
        lang = d.choice(['ru', 'ru', 'uk'])
        before = snapshot(out) if step else None
        xml = write_xml(spec, env.scratch)
        convert(xml, out, o, lang, 'step %d' % step, overwrite)
        history.append(('compile', overwrite, lang))
        if not overwrite:
            require_equal(differ(snapshot(out), before), [], 'files changed without "overwrite"')
            d.label('not overwritten')
            continue
        fresh = env.scratch.new()
        convert(xml, fresh, o, lang, 'step %d' % step)
        tokens = tokens_of(d, words_of(*specs))
        a, b = contents(out, tokens), contents(fresh, tokens)
        require_equal(differ(a, b), [], 'the recompiled dictionary and a new one (%s) differ in' % history)
        require(not a['estimator'], 'estimates of another dictionary are used: %r', history)
        lexemes = G.expected_lexemes(spec)
        lex = G.GenLex(lexemes, o)
        require_equal(a['words'], sorted(lex.all_triples().elements()), 'words of the dictionary')
        if d.chance(1, 2):
            # the folder gets estimates
            probs = {}
            for forms in lexemes:
                for w, t in forms:
                    if d.chance(1, 2):
                        probs[w, t] = d.integer(1, 999) / 1000
            if probs:
                C.write_probs(out, probs)
                history.append(('estimates',))
                with_probs = contents(out, [])
                require(with_probs['estimator'], 'estimates are not used')
                d.label('estimates')
        d.note('history', history)
    d.nontrivial(repr([G.describe(s) for s in specs]) + repr(history))


# ---------------------------------------------------------------- interruptions

def state_of(path):
    try:
        return sorted((e.name, e.stat().st_size, e.stat().st_mtime_ns) for e in os.scandir(path))
    except OSError:
        return None


class Steps(object):
    """Counts executed lines of the code under test and stops it at a given one."""

    def __init__(self, stop, kind, out):
        self.n = 0
        self.stop = stop
        self.kind = kind
        self.out = out
        self.changes = []
        self.last = None

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(CODE):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == 'line':
            self.n += 1
            if self.stop is None:
                s = state_of(self.out)
                if s != self.last:
                    self.last = s
                    # what a crash at this point leaves
                    shutil.copytree(self.out, '%s-%d' % (self.out, len(self.changes)))
                    self.changes.append(self.n)
            elif self.n == self.stop:
                if self.kind == 'kill':
                    os.kill(os.getpid(), signal.SIGKILL)
                sys.settrace(None)
                raise (KeyboardInterrupt if self.kind == 'interrupt' else OSError)('stopped here')
        return self.local


def under_trace(fn, out, stop, kind):
    steps = Steps(stop, kind, out)
    sys.settrace(steps.trace)
    try:
        fn()
    finally:
        sys.settrace(None)
    return [steps.n, steps.changes]


def limited(fn, limit):
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
    fn()
    return None


def interrupt_points(fn, out):
    res = in_child(lambda: under_trace(fn, out, None, None))
    if 'ok' not in res:
        raise Violation('compilation failed: %s %s' % (res.get('error'), res.get('trace')))
    return res['ok']


def stop_somewhere(d, fn, out, total, changes, largest):
    """Run fn in another process and stop it; returns a description."""
    kind = d.weighted([(3, 'kill'), (2, 'interrupt'), (1, 'error'), (3, 'limit')])
    d.label('kind:' + kind)
    if kind == 'limit':
        limit = d.integer(0, largest + 1) if d.chance(1, 2) else d.integer(0, 1200)
        res = in_child(lambda: limited(fn, limit))
        return 'at most %d bytes per file' % limit, 'ok' in res
    if d.chance(3, 4) and changes:
        at = max(1, d.choice(changes) + d.integer(-2, 3))
    else:
        at = d.integer(1, total)
    res = in_child(lambda: under_trace(fn, out, at, kind))
    return '%s at step %d of %d' % (kind, at, total), 'ok' in res


def judge(d, out, states, tokens, what):
    """The folder fails to load or has one of the states."""
    try:
        got = contents(out, tokens)
    except Exception as e:
        d.label('does not load: ' + type(e).__name__)
        return None
    for name, want in states:
        if not differ(got, want):
            d.label('loads: ' + name)
            return name
    raise Violation('%s: the folder loads, but the dictionary is wrong: %r' % (what, differ(got, states[-1][1])[:5]))


def interrupted(d, env):
    env.scratch.clear()
    spec, o = gen(d)
    xml = write_xml(spec, env.scratch)
    fresh = env.scratch.new()
    convert(xml, fresh, o)
    tokens = tokens_of(d, words_of(spec))
    complete = contents(fresh, tokens)
    largest = max(len(x) for x in snapshot(fresh).values())
    again = d.chance(1, 2)
    old = None
    probe = env.scratch.new()
    out = env.scratch.new()
    if again:
        # the folder has a dictionary already
        spec0, o0 = gen(d)
        if d.chance(1, 3):
            spec0 = spec
        xml0 = write_xml(spec0, env.scratch)
        convert(xml0, out, o0, source='old')
        if d.chance(1, 3):
            C.write_probs(out, dict(((w, t), 0.5) for forms in G.expected_lexemes(spec0) for w, t in forms))
        old = contents(out, tokens)
        shutil.copytree(out, probe)
        d.label('over another dictionary')
    total, changes = interrupt_points(lambda: convert(xml, probe, o), probe)
    states = ([('old', old)] if again else []) + [('complete', complete)]
    d.nontrivial(repr(G.describe(spec)))
    d.label('crash states: %d' % (len(changes) // 5 * 5))
    for i in range(len(changes)):
        judge(d, '%s-%d' % (probe, i), states, tokens, 'crash state %d of %d' % (i, len(changes)))
    require_equal(judge(d, probe, states, tokens, 'all'), 'complete', 'the compiled dictionary')
    what, done = stop_somewhere(d, lambda: convert(xml, out, o), out, total, changes, largest)
    d.note('interruption', what)
    name = judge(d, out, [('complete', complete)] if done else states, tokens, what)
    require(not done or name == 'complete', '%s: compilation reported no error, but the dictionary does not load', what)
    if d.chance(1, 2):
        # it can be repeated
        convert(xml, out, o)
        require_equal(differ(contents(out, tokens), complete), [], 'dictionary which is compiled after an interruption (%s)' % what)


class Env(C.GenEnv):
    def __init__(self):
        C.GenEnv.__init__(self)
        # the default lock of tqdm is shared with child processes, which are killed here
        try:
            import threading

            import tqdm
            tqdm.tqdm.monitor_interval = 0
            tqdm.tqdm.set_lock(threading.RLock())
        except ImportError:
            pass


CHECK = Check(
    'C38', 'a case is a history of compilations into one folder, or a dictionary with every state of the folder that a crash of its compilation leaves (looked at before each executed line), and an interruption (kill, exception, file size limit); non-trivial: all; distinct by source dictionaries',
    [
        Group('recompile', recompile, 160, 10000, Env, ('fast',)),
        Group('interrupted', interrupted, 90, 8000, Env, ('fast',)),
    ])
