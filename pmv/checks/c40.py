# -*- coding: utf-8 -*-
"""C40: a call that fails or is interrupted leaves nothing behind."""
import json
import os
import shutil
import threading

from pmv import common as C
from pmv import gendict as G
from pmv import interrupt as I
from pmv import questions as Q
from pmv import schedule as S
from pmv.checks import c31, c38
from pmv.engine import Check, Group, Violation, require

Env = c31.Env
HANG = 45


class EnvLacking(Env):
    """Dictionaries without some grammemes of the rules for initials: the rules bring them."""
    EXTRA = ('Init', 'Name', 'Patr')

    def compile(self):
        res = super(EnvLacking, self).compile()
        for i, di in enumerate(res):
            fn = os.path.join(di['path'], 'grammemes.json')
            with open(os.path.join(di['path'], 'gramtab-opencorpora-int.json'), encoding='utf8') as f:
                used = f.read()
            with open(fn, encoding='utf8') as f:
                grammemes = json.load(f)
            lacks = [x for j, x in enumerate(self.EXTRA) if x not in used and (i + j) % 4]
            with open(fn, 'w', encoding='utf8') as f:
                json.dump([g for g in grammemes if g[0] not in lacks], f)
        return res


def child(fn, what):
    res = S.in_child(fn)
    if 'ok' in res:
        return res['ok']
    if res.get('error', '').startswith('Hang'):
        raise Violation('%s: %s' % (what, res['error']))
    if res.get('code'):
        raise Violation('%s: %s\n%s' % (what, res['error'], res['trace']))
    raise RuntimeError('%s: %s\n%s' % (what, res.get('error'), res.get('trace')))


class Hang(Exception):
    pass


def in_thread(fn):
    """fn() in another thread: a lock that is still held would stop it."""
    res = []

    def run():
        try:
            res.append(('ok', fn()))
        except BaseException as e:
            res.append(('error', e))
    t = threading.Thread(target=run)
    t.daemon = True
    t.start()
    t.join(HANG)
    if not res:
        raise Hang('a call in another thread does not come to an end: a lock is still held')
    if res[0][0] == 'error':
        raise res[0][1]
    return res[0][1]


def analyzer(env, di, kw):
    import pymorphy2
    return pymorphy2.MorphAnalyzer(path=env.dicts[di]['path'], **kw)


def points_of(d, n, most):
    """Points of a run of n events: all of them, or some which are spread over it."""
    if n <= most:
        return list(range(1, n + 1))
    off = d.draw(1000)
    return sorted(set(1 + (i * n + off * n // 1000) // most % n for i in range(most)))


def gen_work(d, words):
    work = Q.gen_question(d, words, bad=False)
    if work[0] in ('cyr2lat', 'lat2cyr', 'rare', 'grammeme known', 'new tag', 'known') and d.chance(2, 3):
        work = (d.choice(['parse', 'tag', 'tag data', 'lexeme']), words(d), d.integer(0, 3))
        if work[0] in ('parse', 'tag'):
            work = work[:2]
    return work


def tables_question(d):
    return ('tables', d.choice(['NOUN,inan,masc sing,nomn', 'ADJF,Qual femn,sing,gent', 'VERB,perf,tran masc,sing,past,indc']))


def judge(kind, got, want, what):
    """An interrupted call either raises the very exception or (if that was caught on purpose) gives the right answer."""
    if kind == 'did' and got != want:
        raise Violation('%s: the exception is lost and the answer is %r, usually %r' % (what, got, want))


MOST = 70


def same(d, env):
    """One question is interrupted at many points, one after another; it and others are asked again."""
    di = d.draw(len(env.dicts))
    kw = c31.CONFIGS[d.choice([0, 0, 0, 4, 5])]
    words = c31.words_of(d, env.dicts, di)
    work = gen_work(d, words)
    others = [c31.related(d, work, words) for _ in range(d.integer(1, 3))]
    error = d.choice(sorted(I.KINDS))
    grain = d.choice(['line', 'line', 'store'])
    spread = d.draw(1 << 16)
    d.note('interrupted', work)
    d.note('others', others)
    d.note('exception', error)
    d.note('grain', grain)
    d.label('error:' + error)
    d.label('work:' + work[0])

    def reference():
        a = analyzer(env, di, kw)
        r = I.Raiser(grain=grain)
        did = r.run(lambda: Q.ask(a, work)[1])[1]
        return did, [Q.ask(a, q)[1] for q in others], r.events

    did, asked, n = child(reference, 'without interruptions')
    if not n:
        d.label('nothing to interrupt')
        return
    most = max(8, min(MOST, 40000 // n))
    step = max(1, n // most)
    points = list(range(1 + spread % step, n + 1, step))

    def interrupted():
        a = analyzer(env, di, kw)
        res = []
        for i, point in enumerate(points):
            r = I.Raiser(point, I.KINDS[error](), grain)
            kind, got = r.run(lambda: Q.ask(a, work)[1])
            again = Q.ask(a, work)[1]
            q = i % len(others)
            res.append([point, r.raised, kind, got, again, q, Q.ask(a, others[q])[1]])
        after = in_thread(lambda: [Q.ask(a, q)[1] for q in others] + [Q.ask(analyzer(env, di, kw), work)[1]])
        return res, after

    res, after = child(interrupted, '%r interrupted' % (work,))
    count = 0
    for point, where, kind, got, again, q, x in res:
        what = '%r, %s at point %d of %d (%s)' % (work, error, point, n, where)
        judge(kind, got, did, what)
        count += kind == 'raised'
        if again != did:
            raise Violation('%s; asked again: %r, usually %r' % (what, again, did))
        if x != asked[q]:
            raise Violation('%s; then %r: %r, usually %r' % (what, others[q], x, asked[q]))
    for q, x, want in zip(others + [work], after, asked + [did]):
        if x != want:
            raise Violation('after interruptions of %r: %r: %r, usually %r' % (work, q, x, want))
    if count > 1:
        d.nontrivial()
    d.label('interruptions:%s' % ('1-9' if count < 10 else '10-49' if count < 50 else 'more'))


def fresh(d, env):
    """Words that were never seen before are met by the interruption; the same, or something else about them, is asked afterwards."""
    di = d.draw(len(env.dicts))
    kind, tokens = c31.family(d, [w for w in env.dicts[di]['words'] if w and sum(w.count(x) for x in 'еЕ') < 7], env.FAMILY)
    work, ask = c31.questions_for(d, kind)
    error = d.choice(sorted(I.KINDS))
    grain = d.choice(['line', 'line', 'store'])
    offset = d.draw(1000)
    d.note('tokens', tokens)
    d.note('interrupted', work('...'))
    d.note('asked afterwards', ask('...'))
    d.note('exception', error)
    d.note('grain', grain)
    d.label('fresh:' + kind)

    def reference():
        a = analyzer(env, di, {})
        res = []
        for t in tokens:
            r = I.Raiser(grain=grain)
            did = r.run(lambda: Q.ask(a, work(t))[1])[1]
            res.append([r.events, did, Q.ask(a, ask(t))[1]])
        return res

    ref = child(reference, 'without interruptions')

    def interrupted():
        a = analyzer(env, di, {})
        res = []
        for i, t in enumerate(tokens):
            n = max(1, ref[i][0])
            point = 1 + (i * n + offset * n // 1000) // len(tokens) % n
            r = I.Raiser(point, I.KINDS[error](), grain)
            kind, got = r.run(lambda: Q.ask(a, work(t))[1])
            res.append([point, r.raised, kind, got, Q.ask(a, ask(t))[1], Q.ask(a, work(t))[1]])
        return res

    count = 0
    for t, (n, did, asked), (point, where, kind, got, other, again) in zip(tokens, ref, child(interrupted, '%r interrupted' % (work('...'),))):
        what = '%r, %s at point %d of %d (%s)' % (work(t), error, point, n, where)
        judge(kind, got, did, what)
        count += kind == 'raised'
        if again != did:
            raise Violation('%s; asked again: %r, usually %r' % (what, again, did))
        if other != asked:
            raise Violation('%s; then %r: %r, usually %r' % (what, ask(t), other, asked))
    if count:
        d.nontrivial()


def creation(d, env, apart=False):
    """The creation of an analyzer is interrupted; existing ones stay as they are and the next creation succeeds."""
    existing = [(d.draw(len(env.dicts)), d.choice([{}, {}, {'char_substitutes': None}])) for _ in range(0 if apart else d.integer(0, 2))]
    di = d.choice([x for x, _ in existing]) if existing and d.chance(1, 2) else d.draw(len(env.dicts))
    kw = d.choice([{}, {}, {'result_type': None}, {'char_substitutes': None}, {'probability_estimator_cls': None}])
    error = d.choice(sorted(I.KINDS))
    grain = d.choice(['line', 'line', 'store'])
    questions = [[tables_question(d)] + [Q.gen_question(d, c31.words_of(d, env.dicts, x), bad=False) for _ in range(d.integer(1, 3))] for x, _ in existing]
    words = c31.words_of(d, env.dicts, di)
    new = [tables_question(d)]
    for _ in range(d.integer(2, 4)):
        q = Q.gen_question(d, words, bad=False)
        if 'result_type' in kw and q[0] in ('normalized', 'is_known', 'inflect', 'agree', 'tag data', 'contains', 'updated', 'numeral'):
            q = ('parse', q[1])
        new.append(q)
    if apart and 'result_type' not in kw:
        new += [('tag data', d.choice('АБВЖИКЭЯ'), d.integer(0, 30)) for _ in range(2)]
    # the tag class is what outlives an analyzer that was never made
    files = ('tagset.py',) if apart and d.chance(2, 3) else None
    first = d.chance(1, 3)
    spread = [d.draw(1 << 20) for _ in range(1 if first else d.integer(2, 12))]
    d.note('existing', [env.dicts[x]['path'] for x, _ in existing])
    d.note('created', kw)
    d.note('questions', questions + [new])
    d.note('exception', error)
    d.note('grain', grain)
    d.label('existing:%d' % len(existing))
    d.label('error:' + error)

    def reference():
        ms = [analyzer(env, x, k) for x, k in existing]
        asked = [[Q.ask(m, q)[1] for q in qs] for m, qs in zip(ms, questions)]
        r = I.Raiser(grain=grain)
        r.places = {}
        a = r.run(lambda: analyzer(env, di, kw))[1]
        return asked, [Q.ask(a, q)[1] for q in new], r.events, r.pick(spread, files) if r.places else []

    asked, want, n, points = child(reference, 'without interruptions')
    if not points:
        return

    def interrupted(points):
        ms = [analyzer(env, x, k) for x, k in existing]
        res = []
        for point in points:
            r = I.Raiser(point, I.KINDS[error](), grain)
            kind, a = r.run(lambda: analyzer(env, di, kw))
            got = [[Q.ask(m, q)[1] for q in qs] for m, qs in zip(ms, questions)]
            res.append([point, r.raised, kind, got, in_thread(lambda: [Q.ask(b, q)[1] for b in [analyzer(env, di, kw)] for q in new]),
                        [Q.ask(a, q)[1] for q in new] if kind == 'did' else None])
        return res

    count = 0
    # in one process, one after another, or each in a process of its own (where it is the first creation)
    runs = [[x] for x in points] if apart else [points]
    for point, where, kind, got, fresh, made in [x for r in runs for x in child(lambda: interrupted(r), 'creation interrupted')]:
        what = 'creation (%r), %s at point %d of %d (%s)' % (kw, error, point, n, where)
        judge(kind, made, want, what)
        count += kind == 'raised'
        for (x, k), qs, gs, ws in zip(existing, questions, got, asked):
            for q, g, w in zip(qs, gs, ws):
                if g != w:
                    raise Violation('%s; an existing analyzer (%s, %r), %r: %r, usually %r' % (what, env.dicts[x]['path'], k, q, g, w))
        for q, g, w in zip(new, fresh, want):
            if g != w:
                raise Violation('%s; created again, %r: %r, usually %r' % (what, q, g, w))
    if count:
        d.nontrivial()


def first_creation(d, env):
    """The first creation of an analyzer in a process is interrupted; the dictionary may lack grammemes which the rules use."""
    creation(d, env, apart=True)


# ------------------------------------------------------------ errors with a reason

DAMAGE = ['remove', 'remove', 'empty', 'half', 'junk']


def damage(d, path):
    names = sorted(n for n in os.listdir(path))
    name = d.choice(names)
    how = d.choice(DAMAGE)
    if name.endswith('dawg') and how != 'remove':
        how = 'empty'           # the DAWG library itself does not survive much else
    fn = os.path.join(path, name)
    if how == 'remove':
        os.remove(fn)
    else:
        with open(fn, 'rb') as f:
            data = f.read()
        with open(fn, 'wb') as f:
            f.write({'empty': b'', 'half': data[:len(data) // 2], 'junk': b'{"junk": 1}'}[how])
    return name, how


def failing_creation(d, env, di, scratch):
    """(description, a function which tries to create something and fails)"""
    import pymorphy2
    kind = d.choice(['no such folder', 'file', 'damaged', 'damaged', 'damaged', 'unit', 'unit init', 'estimator', 'format', 'xml'])
    path = env.dicts[di]['path']
    if kind == 'no such folder':
        return kind, lambda: pymorphy2.MorphAnalyzer(path=os.path.join(path, 'nothing here'))
    if kind == 'file':
        return kind, lambda: pymorphy2.MorphAnalyzer(path=os.path.join(path, 'meta.json'))
    if kind == 'unit':
        return kind, lambda: pymorphy2.MorphAnalyzer(path=path, units=[None])
    if kind == 'unit init':
        from pymorphy2.units.base import BaseAnalyzerUnit

        class Broken(BaseAnalyzerUnit):
            def init(self, morph):
                super(Broken, self).init(morph)
                raise I.Trouble('init')
        return kind, lambda: pymorphy2.MorphAnalyzer(path=path, units=list(pymorphy2.lang.ru.DEFAULT_UNITS)[:2] + [Broken()])
    if kind == 'estimator':
        def broken(path):
            raise I.Trouble('estimator')
        return kind, lambda: pymorphy2.MorphAnalyzer(path=path, probability_estimator_cls=broken)
    if kind == 'xml':
        from pymorphy2.opencorpora_dict.compile import convert_to_pymorphy2
        fn = scratch.new() + '.xml'
        with open(fn, 'w', encoding='utf8') as f:
            f.write(d.choice(['', '<dictionary version="0.92" revision="1"><grammemes></grammemes>', 'nothing',
                              '<dictionary version="0.92" revision="1"><grammemes><grammeme parent=""><name>POST</name><alias>x</alias></grammeme></grammemes><lemmata><lemma id="1">']))

        def run():
            with G.quiet():
                convert_to_pymorphy2(fn, scratch.new(), source_name='x', language_code='ru', overwrite=True)
        return kind, run
    copy = scratch.new()
    shutil.copytree(path, copy)
    if kind == 'format':
        import json
        with open(os.path.join(copy, 'meta.json'), encoding='utf8') as f:
            meta = json.load(f)
        for item in meta:
            if item[0] == 'format_version':
                item[1] = '1.0'
        with open(os.path.join(copy, 'meta.json'), 'w', encoding='utf8') as f:
            json.dump(meta, f)
        return kind, lambda: pymorphy2.MorphAnalyzer(path=copy)
    what = damage(d, copy)

    def try_and_repair():
        try:
            pymorphy2.MorphAnalyzer(path=copy)
        finally:
            # the same folder, repaired, is to be used afterwards
            shutil.rmtree(copy)
            shutil.copytree(path, copy)
    try_and_repair.path = copy
    return 'damaged: %s %s' % what, try_and_repair


BAD = [('inflect', ('foo',)), ('inflect', ('sing', 'Foo')), ('contains', 'foo'), ('contains', ('foo', 'NOUN')), ('updated', ('foo',)), ('new tag', 'foo,bar'),
       ('new tag', 'NOUN,foo'), ('inflect', (None,)), ('inflect', (1, 'sing')), ('agree', 'x'), ('agree', None), ('parse', None), ('parse', 5), ('tag', None), ('tag', ('кот',)),
       ('known', None, False), ('normal_forms', None), ('iterate', 5, 3), ('lexeme', None), ('cyr2lat', None), ('lat2cyr', 5), ('parse', b'abc')]


def ask_badly(a, words, q):
    """A question that makes no sense (or hardly any)."""
    try:
        if q[0] in ('inflect', 'contains', 'updated', 'agree'):
            p = a.parse(words)[0]
            if q[0] == 'inflect':
                p.inflect(set(q[1]))
            elif q[0] == 'agree':
                p.make_agree_with_number(q[1])
            elif q[0] == 'updated':
                p.tag.updated_grammemes(set(q[1]))
            elif isinstance(q[1], str):
                q[1] in p.tag
            else:
                set(q[1]) in p.tag
        elif q[0] == 'lexeme':
            a.get_lexeme(q[1])
        elif q[0] == 'new tag':
            str(a.TagClass(q[1]).POS)
        elif q[0] == 'known':
            a.word_is_known(q[1])
        elif q[0] == 'iterate':
            list(a.iter_known_word_parses(q[1]))
        else:
            getattr(a, q[0])(q[1])
    except Exception as e:
        return type(e).__name__
    return None


def errors(d, env):
    """Creations and questions which fail for a reason, among others that do not."""
    di = d.draw(len(env.dicts))
    words = c31.words_of(d, env.dicts, di)
    seed = d.draw(1 << 20)
    questions = [Q.gen_question(d, words, bad=False) for _ in range(d.integer(2, 5))] + [tables_question(d)]
    bad = [(d.choice(BAD), words(d)) if d.chance(1, 2) else None for _ in range(d.integer(1, 6))]
    d.note('questions', questions)
    d.note('bad questions, or None for a creation', bad)
    plans = []
    env_scratch = G.Scratch()
    try:
        for b in bad:
            if b is None:
                plans.append(failing_creation_plan(d, env))

        def run():
            a = analyzer(env, di, {})
            before = [Q.ask(a, q)[1] for q in questions]
            res = []
            k = 0
            for b in bad:
                if b is None:
                    x, choices = plans[k]
                    k += 1
                    kind, fn = failing_creation(replay(choices), env, x, env_scratch)
                    try:
                        fn()
                        failed = None
                    except BaseException as e:
                        failed = type(e).__name__
                    extra = None
                    if getattr(fn, 'path', None):
                        import pymorphy2
                        m2 = in_thread(lambda: pymorphy2.MorphAnalyzer(path=fn.path))
                        m3 = analyzer(env, x, {})
                        ts = env.dicts[x]['words'][:3] + ['бвгока']
                        extra = [[Q.canonical(m.parse(t)) for t in ts] for m in (m2, m3)]
                else:
                    kind, failed, extra = list(b[0]), ask_badly(a, b[1], b[0]), None
                again = in_thread(lambda: [Q.ask(a, q)[1] for q in questions])
                res.append([str(kind), failed, again, extra])
            fresh = [Q.ask(m, q)[1] for m in [in_thread(lambda: analyzer(env, di, {}))] for q in questions]
            return before, res, fresh

        before, res, fresh = child(run, 'errors')
    finally:
        env_scratch.close()
    failures = 0
    for kind, failed, again, extra in res:
        d.label('%s: %s' % (kind.split(':')[0], failed))
        if kind in ('unit init', 'estimator') and failed != 'Trouble':
            raise Violation('creation with an %s which raises Trouble: %s' % (kind, failed or 'no exception'))
        failures += failed is not None
        for q, x, want in zip(questions, again, before):
            if x != want:
                raise Violation('after %s (%s): %r: %r, before that %r' % (kind, failed, q, x, want))
        if extra and extra[0] != extra[1]:
            raise Violation('%s (%s), then the folder is repaired: %r, a new one %r' % (kind, failed, extra[0], extra[1]))
    for q, x, want in zip(questions, fresh, before):
        if x != want:
            raise Violation('after errors, a new analyzer: %r: %r, before that %r' % (q, x, want))
    if failures:
        d.nontrivial()


def failing_creation_plan(d, env):
    return d.draw(len(env.dicts)), [d.draw(1 << 16) for _ in range(6)]


class replay(object):
    """A source of choices which were made before."""

    def __init__(self, choices):
        self.choices = list(choices)

    def draw(self, n):
        return self.choices.pop(0) % n

    def choice(self, seq):
        return seq[self.draw(len(seq))]


# ------------------------------------------------------------ own units that fail

def own_units(d, env):
    """A unit of the user raises for some words: the exception reaches the caller, and that is all."""
    import pymorphy2  # noqa
    di = d.draw(len(env.dicts))
    words = c31.words_of(d, env.dicts, di)
    place = d.draw(20)
    terminal = d.chance(1, 2)
    history = []
    pool = [words(d) for _ in range(d.integer(1, 3))]
    for _ in range(d.integer(3, 9)):
        history.append((d.choice(['parse', 'tag', 'normal_forms']), d.choice(pool), d.chance(1, 2)))
    error = d.choice(sorted(I.KINDS))
    late = d.chance(1, 2)
    d.note('place', place)
    d.note('history (operation, word, the unit fails)', history)
    d.note('exception', error)

    def run():
        import pymorphy2
        from pymorphy2.units.base import BaseAnalyzerUnit
        state = {'fail': False, 'asked': 0}
        err = I.KINDS[error]()

        class Own(BaseAnalyzerUnit):
            def parse(self, word, word_lower, seen_parses):
                state['asked'] += 1
                if state['fail']:
                    if late:
                        seen_parses.add('junk')
                    raise err
                return []

            def tag(self, word, word_lower, seen_tags):
                state['asked'] += 1
                if state['fail']:
                    if late:
                        seen_tags.add('junk')
                    raise err
                return []
        units = [list(u) if isinstance(u, (list, tuple)) else u for u in pymorphy2.lang.ru.DEFAULT_UNITS]
        i = place % (len(units) + 1)
        if terminal or i == len(units) or not isinstance(units[i], list):
            units.insert(i, Own())
        else:
            units[i].insert(place % len(units[i]), Own())
        path = env.dicts[di]['path']
        m = pymorphy2.MorphAnalyzer(path=path, units=units)
        plain = pymorphy2.MorphAnalyzer(path=path)
        res = []
        for op, w, fail in history:
            want = Q.ask(plain, (op, w))[1]
            state.update(fail=fail, asked=0)
            try:
                got = ['did', Q.canonical(getattr(m, op)(w))]
            except BaseException as e:
                got = ['raised', type(e).__name__ if e is err else 'another: %r' % (e,)]
            state['fail'] = False
            res.append([want, state['asked'], got])
        return res

    failures = 0
    for (op, w, fail), (want, asked, got) in zip(history, child(run, 'own unit')):
        if fail and asked:
            failures += 1
            if got != ['raised', type(I.KINDS[error]()).__name__]:
                raise Violation('%s(%r): the unit raises %s; got %r' % (op, w, error, got))
        elif got != ['did', want]:
            raise Violation('%s(%r) after failures of a unit: %r, without that unit %r' % (op, w, got, want))
    if failures and any(not f for _, _, f in history):
        d.nontrivial()
    d.label('failures:%s' % ('0' if not failures else '1+'))


# ------------------------------------------------------------ compilation

def compilation(d, env):
    """A compilation is interrupted; the next ones in this process, and existing analyzers, are as if it was not."""
    options = G.gen_options(d)
    spec = G.gen_spec(d, options=options)
    error = d.choice(sorted(I.KINDS))
    grain = d.choice(['line', 'line', 'store'])
    spread = [d.draw(1 << 20) for _ in range(d.integer(1, 5))]
    into_same = d.chance(1, 2)
    di = d.draw(len(env.dicts))
    words = c31.words_of(d, env.dicts, di)
    questions = [tables_question(d)] + [Q.gen_question(d, words, bad=False) for _ in range(d.integer(1, 3))]
    tokens = c38.words_of(spec)[:8] + ['бвгабока', 'не' + words(d)]
    d.note('options', options)
    d.note('exception', error)
    d.note('grain', grain)
    d.note('points', spread)
    d.note('lemmas', G.describe(spec))
    scratch = G.Scratch()
    try:
        xml = c38.write_xml(spec, scratch)

        def reference():
            a = analyzer(env, di, {})
            asked = [Q.ask(a, q)[1] for q in questions]
            out = scratch.new()
            r = I.Raiser(grain=grain)
            r.places = {}
            r.run(lambda: c38.convert(xml, out, options))
            return asked, c38.contents(out, tokens), r.events, r.pick(spread)

        asked, want, n, points = child(reference, 'compilation')

        def interrupted():
            a = analyzer(env, di, {})
            res = []
            for point in points:
                r = I.Raiser(point, I.KINDS[error](), grain)
                out = scratch.new()
                kind = r.run(lambda: c38.convert(xml, out, options))[0]
                got = [Q.ask(a, q)[1] for q in questions]
                if not into_same:
                    out = scratch.new()
                c38.convert(xml, out, options)
                res.append([point, r.raised, kind, got, in_thread(lambda: c38.contents(out, tokens)), [Q.ask(a, q)[1] for q in questions]])
            return res

        count = 0
        for point, where, kind, got, again, after in child(interrupted, 'compilation interrupted'):
            what = 'compilation, %s at point %d of %d (%s)' % (error, point, n, where)
            count += kind == 'raised'
            diff = c38.differ(again, want)
            if diff:
                raise Violation('%s; compiled again, the dictionary differs in %r: %r, usually %r' % (what, diff, again.get(diff[0]), want.get(diff[0])))
            for gs in (got, after):
                for q, x, w in zip(questions, gs, asked):
                    if x != w:
                        raise Violation('%s; an existing analyzer, %r: %r, usually %r' % (what, q, x, w))
    finally:
        scratch.close()
    if count:
        d.nontrivial()


CHECK = Check(
    'C40', 'a case is a call (a question, the creation of an analyzer) and an exception which is raised at one or many points of it (a line, or an instruction that stores into an object), or a history of questions, creations '
           'and own units of which some fail for a reason; afterwards all answers have to be those of analyzers to which nothing happened; non-trivial: something was interrupted or failed, and answers were compared after it',
    [
        Group('same', same, 120, 20000, Env, ('fast',), shrink=40, doc='one question interrupted at many points'),
        Group('fresh', fresh, 120, 20000, Env, ('fast',), shrink=30, doc='words which were never seen before'),
        Group('creation', creation, 120, 20000, Env, ('fast',), shrink=40),
        Group('first creation', first_creation, 60, 10000, EnvLacking, ('fast',), shrink=40, doc='each in a process of its own'),
        Group('errors', errors, 120, 20000, Env, ('fast',), shrink=40, doc='failures for a reason'),
        Group('own units', own_units, 120, 20000, Env, ('fast',), shrink=40),
        Group('compilation', compilation, 100, 5000, Env, ('fast',), shrink=20),
        Group('same-real', same, 10, 1500, lambda: Env(True), ('slow',), shrink=10, doc='as same, with the installed dictionary'),
        Group('fresh-real', fresh, 10, 1500, lambda: Env(True), ('slow',), shrink=10, doc='as fresh, with the installed dictionary'),
    ], assumptions=['exceptions are raised between lines and before storing instructions of pymorphy2 code only; never in "finally" and "except" blocks; an OSError may be handled and lead to another exception'])
