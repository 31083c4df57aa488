# -*- coding: utf-8 -*-
"""C31: one analyzer can be used, and others created, from many threads."""
import json
import unicodedata

from pmv import common as C
from pmv import gendict as G
from pmv import questions as Q
from pmv import schedule as S
from pmv.engine import Check, Group, Source, Violation, require


class Env(object):
    """The worker itself never creates an analyzer: tables of the tag class are as in a new process."""
    N = 5
    FAMILY = 40

    def __init__(self, real=False):
        self.known = []
        self.scratch = G.Scratch()
        if real:
            self.dicts = [{'path': None, 'words': C.corpus()}]
        else:
            res = S.in_child(self.compile)
            if 'ok' not in res:
                raise RuntimeError('compilation: %s\n%s' % (res['error'], res['trace']))
            self.dicts = res['ok']

    def compile(self):
        res = []
        for i in range(self.N):
            d = Source(seed_text='c31/%d' % i)
            options = G.gen_options(d)
            spec = G.gen_spec(d, options=options, links=True, big=i > 2)
            lex = G.expected_lexemes(spec)
            path = G.compile_spec(spec, self.scratch, options)
            if i % 2:
                C.write_probs(path, C.gen_probs(d, lex))
            res.append({'path': path, 'words': sorted(G.GenLex(lex, options)._forms)})
        return res

    def close(self):
        self.scratch.close()


SPECIAL = ['12', '1,5', 'xv', 'IV', '!', 'python', 'щщщщ', 'А', 'б', 'Ж', '42-й', 'не-а', '']


def words_of(d, dicts, i):
    ws = dicts[i]['words']
    pool = [d.choice(ws) for _ in range(3)] + [d.choice(['авто', 'не', 'по-', 'аб']) + d.choice(ws), d.choice(ws) + d.choice(['-то', '-ка']),
                                               d.text('абвг', 2, 3) + d.choice(ws)[-3:], d.choice(ws) + '-' + d.choice(ws), d.choice(SPECIAL), d.choice(SPECIAL)]
    pool = [w for w in pool if sum(w.count(x) for x in 'еЕ') < 7]
    return lambda d: d.choice(pool)


CONFIGS = [{}, {}, {}, {'result_type': None}, {'char_substitutes': None}, {'probability_estimator_cls': None}]


def gen_program(d, env, shared):
    """A list of ('create', slot, dictionary, config) and ('ask', slot, question); slot 0 is the shared analyzer."""
    prog = []
    slots = {}
    if shared is not None:
        slots[0] = (shared, {})
    for _ in range(d.integer(1, 6)):
        if not slots or d.chance(1, 3):
            slot = len(prog) + 1
            di, ci = d.draw(len(env.dicts)), d.draw(len(CONFIGS))
            slots[slot] = (di, CONFIGS[ci])
            prog.append(('create', slot, di, ci))
            continue
        slot = d.choice(sorted(slots))
        di, kw = slots[slot]
        words = words_of(d, env.dicts, di)
        for _ in range(d.integer(1, 3)):
            q = Q.gen_question(d, words, bad=False)
            if 'result_type' in kw and q[0] in ('normalized', 'is_known', 'inflect', 'agree', 'tag data', 'contains', 'updated', 'numeral'):
                q = ('parse', q[1])
            prog.append(('ask', slot, q))
    return prog


def make(env, di, ci):
    import pymorphy2
    return pymorphy2.MorphAnalyzer(path=env.dicts[di]['path'], **CONFIGS[ci])


def program(env, prog, shared):
    def run(out):
        slots = {0: shared}
        for step in prog:
            if step[0] == 'create':
                slots[step[1]] = make(env, step[2], step[3])
                out.append('created')
            else:
                out.append(Q.ask(slots[step[1]], step[2])[1])
    return run


def run_case(d, env, n=None):
    n = n or d.choice([2, 2, 3])
    shared = d.draw(len(env.dicts)) if d.chance(1, 2) else None
    programs = [gen_program(d, env, shared) for _ in range(n)]
    schedule = S.gen_schedule(d, n)
    grain = d.choice(['line', 'store'])
    d.note('grain', grain)
    d.label('grain:' + grain)
    d.note('shared analyzer', shared is not None)
    d.note('programs', programs)
    d.note('schedule', schedule)

    def start():
        import pymorphy2        # noqa: the module is imported when threads start
        return make(env, shared, 0) if shared is not None else None

    def reference():
        a = start()
        outs = []
        for p in programs:
            out = []
            program(env, p, a)(out)
            outs.append(out)
        return outs

    def threads():
        a = start()
        s = S.Scheduler(n, schedule, grain)
        outs = s.run([program(env, p, a) for p in programs])
        # and afterwards, with one thread
        after = []
        for p in programs:
            out = []
            try:
                program(env, p, a)(out)
            except Exception as e:
                out.append('raises %s: %s' % (type(e).__name__, e))
            after.append(out)
        return {'outs': outs, 'after': after, 'switches': s.switches, 'events': s.events, 'stalls': s.stalls}

    ref = S.in_child(reference)
    if 'ok' not in ref:
        if ref.get('code'):
            raise Violation('without threads: %s\n%s' % (ref['error'], ref['trace']))
        raise RuntimeError('reference: %s\n%s' % (ref.get('error'), ref.get('trace')))
    res = S.in_child(threads)
    if 'deadlock' in res:
        raise Violation('deadlock: %s' % res['deadlock'])
    if 'ok' not in res:
        if res.get('code'):
            raise Violation('%s\n%s' % (res['error'], res['trace']))
        raise RuntimeError('threads: %s\n%s' % (res.get('error'), res.get('trace')))
    res = res['ok']
    d.label('switches:%s' % ('0' if not res['switches'] else '1-3' if res['switches'] < 4 else '4-12' if res['switches'] < 13 else 'more'))
    if res['stalls']:
        d.label('waited for a lock')
    for kind in ('outs', 'after'):
        for i, (got, want) in enumerate(zip(res[kind], ref['ok'])):
            for j, (a, b) in enumerate(zip(got, want)):
                if a != b:
                    raise Violation('thread %d, step %r%s: %r, without threads %r%s' % (
                        i, programs[i][j], '' if kind == 'outs' else ' (after the threads)', a, b,
                        '\n' + str(got[j + 1]) if isinstance(a, str) and a.startswith('raises') and len(got) > j + 1 else ''))
            require(len(got) == len(want), 'thread %d: %r, without threads %r', i, got, want)
    if res['switches']:
        d.nontrivial()
    return res


def generated(d, env):
    run_case(d, env)


def real(d, env):
    """The installed dictionary: mostly questions to a shared analyzer."""
    run_case(d, env, 2)


def related(d, q, words):
    """Another question which has to do with the same word."""
    if d.chance(1, 3):
        return q
    w = q[1] if len(q) > 1 and isinstance(q[1], str) else words(d)
    q2 = Q.gen_question(d, (lambda d: w) if d.chance(3, 4) else words, bad=False)
    return q2


def probe(d, env):
    """One thread does one thing; another one asks a question at chosen points of it."""
    di = d.draw(len(env.dicts))
    kw = CONFIGS[d.choice([0, 0, 4, 5])]
    words = words_of(d, env.dicts, di)
    if d.chance(2, 5):
        work = ('create', d.draw(len(env.dicts)), d.choice([0, 4, 5]))
        questions = [d.choice([('tables', d.choice(['NOUN,inan,masc sing,nomn', 'ADJF,Qual femn,sing,gent', 'VERB,perf,tran masc,sing,past,indc'])),
                               Q.gen_question(d, words, bad=False)])]
    else:
        work = Q.gen_question(d, words, bad=False)
        if work[0] in ('cyr2lat', 'lat2cyr', 'rare', 'grammeme known'):
            work = ('tag data', words(d), d.integer(0, 3))
        questions = [related(d, work, words) for _ in range(d.integer(1, 2))]
    grain = d.choice(['line', 'line', 'store'])
    spots = [d.draw(10000) for _ in range(d.integer(1, 5))]
    dense = d.chance(2, 3)
    offset = d.draw(1000)
    d.note('grain', grain)
    d.note('one thread', work)
    d.note('the other thread', questions)
    d.note('points', spots)

    def do(a):
        if work[0] == 'create':
            make(env, work[1], work[2])
            return 'created'
        return Q.ask(a, work)[1]

    def analyzer():
        import pymorphy2
        return pymorphy2.MorphAnalyzer(path=env.dicts[di]['path'], **kw)

    def reference():
        a = analyzer()
        asked = [Q.ask(a, q)[1] for q in questions]
        did = do(a)
        p = S.Probe(lambda n: None)
        b = analyzer()
        return did, asked, p.run(lambda: do(b), grain=grain)

    def answers(a, points, every):
        asked = []
        p = S.Probe(lambda n: asked.append([n, [Q.ask(a, q)[1] for q in questions]]))
        out = []
        n = p.run(lambda: out.append(do(a)), points, every, grain)
        after = [Q.ask(a, q)[1] for q in questions]
        bad = [[k, v] for k, v in p.answers if v is not None]
        return {'did': out[0], 'asked': asked, 'bad': bad, 'after': after, 'again': do(a), 'stalls': p.stalls, 'events': n}

    def threads(n):
        res = []
        for x in spots:
            res.append(answers(analyzer(), set([1 + x * n // 10000]), None))
        if dense:
            step = max(1, n // 500)
            res.append(answers(analyzer(), None, (1 + offset % step, step)))
        return res

    def get(res, what):
        if 'deadlock' in res:
            raise Violation('deadlock: %s' % res['deadlock'])
        if 'ok' not in res:
            if res.get('code'):
                raise Violation('%s: %s\n%s' % (what, res['error'], res['trace']))
            raise RuntimeError('%s: %s\n%s' % (what, res.get('error'), res.get('trace')))
        return res['ok']

    did, asked, n = get(S.in_child(reference), 'without threads')
    total = 0
    for r in get(S.in_child(lambda: threads(n)), 'threads'):
        total += len(r['asked'])
        for k, v in r['bad']:
            raise Violation('the other thread, at point %d of %d of %r: %s' % (k, r['events'], work, v))
        for k, v in r['asked']:
            for q, x, want in zip(questions, v, asked):
                if x != want:
                    raise Violation('%r at point %d of %d of %r in another thread: %r, without threads %r' % (q, k, r['events'], work, x, want))
        for what in ('did', 'again'):
            if r[what] != did:
                raise Violation('%r while another thread asked %r%s: %r, without threads %r' % (work, questions, ' (asked again)' if what == 'again' else '', r[what], did))
        for q, x, want in zip(questions, r['after'], asked):
            if x != want:
                raise Violation('%r after threads: %r, without threads %r' % (q, x, want))
        if r['stalls']:
            d.label('waited for a lock')
    d.label('work:' + work[0])
    if total:
        d.nontrivial()


# ------------------------------------------------------------ tokens which were never seen before

LATIN = [chr(c) for c in list(range(0xC0, 0x250)) + list(range(0x1E00, 0x1F00)) if 'LATIN SMALL' in unicodedata.name(chr(c), '') and chr(c).lower() == chr(c)]
POS = ['NOUN', 'VERB', 'ADJF', 'INFN', 'ADJS', 'COMP']


def family(d, words, n):
    """n tokens of the same kind, with nothing in common as far as that is possible; the kind."""
    kind = d.choice(['latin', 'latin', 'number', 'ending', 'word', 'prefix', 'compound', 'case', 'tag', 'grammemes', 'cyr', 'punct'])
    ws = d.sample(words, min(len(words), n))
    if kind == 'latin':
        ls = d.sample(LATIN, 2 * n)
        k = d.integer(1, 2)
        return kind, [''.join(ls[i * k:i * k + k]) for i in range(n)]
    if kind == 'number':
        return kind, [str(x) for x in d.sample(range(1000, 9000), n)]
    if kind == 'punct':
        return kind, [chr(x) for x in d.sample(range(0x2010, 0x2050), min(n, 60)) if unicodedata.category(chr(x))[0] == 'P']
    if kind == 'ending':
        return kind, [d.text('абвгд', 3, 5) + w[-4:] for w in ws]
    if kind == 'prefix':
        return kind, [d.choice(['авто', 'не', 'псевдо', 'аб', 'в', 'пере']) + w for w in ws]
    if kind == 'compound':
        return kind, [a + d.choice(['-', '-', '-то', '-ка', '-' + a]) for a in ws]
    if kind == 'case':
        return kind, [d.choice([w.upper(), w.title(), w.swapcase()]) for w in ws]
    if kind in ('tag', 'cyr', 'grammemes'):
        return kind, list(dict.fromkeys(d.choice(POS) + ',' + ','.join(d.sample(Q.GRAMMEMES[:26], d.integer(1, 3))) for _ in range(n)))
    return kind, ws


def questions_for(d, kind):
    """Functions token -> question."""
    if kind == 'tag':
        return d.sample([lambda t: ('new tag', t), lambda t: ('lat2cyr', t), lambda t: ('tables', t)], 2)
    if kind == 'cyr':
        return [lambda t: ('lat2cyr', t)] * 2
    if kind == 'grammemes':
        return [lambda t: ('rare', tuple(t.split(',')[1:]))] * 2
    res = []
    i = d.integer(0, 2)
    g = d.choice(Q.GRAMMEMES)
    n = d.choice([1, 2, 5])
    ops = [lambda t: ('parse', t), lambda t: ('tag', t), lambda t: ('known', t, d_strict), lambda t: ('lexeme', t, i), lambda t: ('normalized', t, i), lambda t: ('inflect', t, i, (g,)),
           lambda t: ('agree', t, i, n), lambda t: ('tag data', t, i), lambda t: ('updated', t, i, (g,)), lambda t: ('iterate', t[:3], 5), lambda t: ('normal_forms', t), lambda t: ('is_known', t, i)]
    d_strict = d.chance(1, 2)
    for _ in range(2):
        res.append(d.weighted([(3, ops[0]), (2, ops[1]), (3, ops[d.draw(len(ops))])]))
    if d.chance(2, 3):
        res[1] = res[0]
    return res


def fresh(d, env):
    """Every point of the work on a token is met with a token which was never seen before."""
    di = d.draw(len(env.dicts))
    kind, tokens = family(d, [w for w in env.dicts[di]['words'] if w], env.FAMILY)
    work, ask = questions_for(d, kind)
    grain = d.choice(['line', 'line', 'store'])
    offset = d.draw(1000)
    d.note('grain', grain)
    d.note('tokens', tokens)
    d.note('one thread', work('...'))
    d.note('the other thread', ask('...'))
    d.label('fresh:' + kind)

    def analyzer():
        import pymorphy2
        return pymorphy2.MorphAnalyzer(path=env.dicts[di]['path'])

    def reference():
        a = analyzer()
        res = []
        for t in tokens:
            did = []
            p = S.Probe(lambda n: None)
            n = p.run(lambda: did.append(Q.ask(a, work(t))[1]), grain=grain)
            res.append([n, did[0], Q.ask(a, ask(t))[1]])
        return res

    def threads(ref):
        a = analyzer()
        res = []
        for i, t in enumerate(tokens):
            n = max(1, ref[i][0])
            point = 1 + (i * n + offset * n // 1000) // len(tokens) % n
            out = []
            p = S.Probe(lambda k: Q.ask(a, ask(t))[1])
            p.run(lambda: out.append(Q.ask(a, work(t))[1]), set([point]), None, grain)
            res.append([point, out[0], [v for _, v in p.answers], Q.ask(a, work(t))[1], Q.ask(a, ask(t))[1]])
        return res

    def get(res, what):
        if 'deadlock' in res:
            raise Violation('deadlock: %s' % res['deadlock'])
        if 'ok' not in res:
            if res.get('code'):
                raise Violation('%s: %s\n%s' % (what, res['error'], res['trace']))
            raise RuntimeError('%s: %s\n%s' % (what, res.get('error'), res.get('trace')))
        return res['ok']

    ref = get(S.in_child(reference), 'without threads')
    total = 0
    for t, (n, did, asked), (point, did2, asked2, again, after) in zip(tokens, ref, get(S.in_child(lambda: threads(ref)), 'threads')):
        total += len(asked2)
        for got, want, what in [(did2, did, 'while another thread asks %r at point %d of %d' % (ask(t), point, n))] + \
                [(x, asked, 'at point %d of %d of %r in another thread' % (point, n, work(t))) for x in asked2] + \
                [(again, did, 'after that'), (after, asked, 'after that')]:
            if got != want:
                raise Violation('token %r: %r %s, without threads %r' % (t, got, what, want))
    if total:
        d.nontrivial()


# ------------------------------------------------------------ the same operation on two words of one kind

KINDS = {
    'word': lambda d, w: w,
    'case': lambda d, w: w.title(),
    'known prefix': lambda d, w: d.choice(['авто', 'не', 'псевдо', 'пере', 'супер']) + w,
    'two prefixes': lambda d, w: d.choice(['псевдо', 'супер']) + d.choice(['авто', 'лже', 'квази']) + w,
    'cut prefix': lambda d, w: d.text('абвг', 1, 3) + w,
    'ending': lambda d, w: d.text('абвгд', 3, 6) + w[-4:],
    'particle': lambda d, w: w + d.choice(['-то', '-ка', '-таки', '-с']),
    'first part': lambda d, w: d.text('абвг', 2, 4) + '-' + w,
    'two halves': lambda d, w: w + '-' + w,
    'adverb': lambda d, w: 'по-' + w,
    'shape': lambda d, w: d.choice(['12', '345', '1,5', '0.25', 'xv', 'IV', '!', '...', 'python', 'foo-bar']),
    'initial': lambda d, w: d.choice(list('АБВГДЖЗИ')),
    'nothing': lambda d, w: d.choice(['щщщщ', 'ъъ-ъъ', 'ь', 'ыщщщщ-то']),
}
ON_FORM = ['lexeme', 'lexeme', 'normalized', 'inflect', 'agree', 'tag data', 'is_known']
ON_WORD = ['parse', 'parse', 'tag', 'normal_forms']


def do(m, op, w, form, gr):
    if op in ('parse', 'tag', 'normal_forms'):
        return Q.canonical(getattr(m, op)(w))
    try:
        if op == 'lexeme':
            return Q.canonical(m.get_lexeme(form))
        if op == 'normalized':
            return Q.canonical(form.normalized)
        if op == 'is_known':
            return form.is_known
        if op == 'inflect':
            return Q.canonical(form.inflect(set(gr)))
        if op == 'agree':
            return Q.canonical(form.make_agree_with_number(5))
        t = form.tag
        return Q.canonical([str(t), t.grammemes, t.cyr_repr, t.grammemes_cyr, t.POS, t.number, t.case, t.gender])
    except Q.ERRORS as e:
        return 'raises %s: %s' % (type(e).__name__, e)


def pairs(d, env):
    """At every point of an operation on a word another thread does it with another word of the same kind."""
    di = d.draw(len(env.dicts))
    words = [w for w in env.dicts[di]['words'] if len(w) > 2 and sum(w.count(x) for x in 'еЕ') < 7] or ['кошка']
    kind = d.choice(sorted(KINDS))
    twice = d.chance(1, 4)
    cases = []
    for _ in range(d.integer(3, 6)):
        w = d.choice(words)
        a = KINDS[kind](d, w)
        b = KINDS[kind](d, w if d.chance(1, 4) else d.choice(words))
        op = d.choice(ON_FORM if d.chance(2, 3) else ON_WORD)
        op2 = op if d.chance(3, 4) else d.choice(ON_FORM + ON_WORD)
        cases.append((a, b, op, op2, d.integer(0, 5), d.integer(0, 5), d.sample(Q.GRAMMEMES[:8], d.integer(1, 2)), d.draw(1000)))
    grain = d.choice(['line', 'line', 'store'])
    d.note('grain', grain)
    d.note('kind', kind)
    d.note('words, operations, numbers of the analyses, grammemes, offset', cases)
    d.label('pairs:' + kind)

    def threads():
        import pymorphy2
        m = pymorphy2.MorphAnalyzer(path=env.dicts[di]['path'])
        res = []
        for a, b, op, op2, i, j, gr, offset in cases:
            f, g = Q.pick(m, a, i), Q.pick(m, b, j)
            want, want2 = do(m, op, a, f, gr), do(m, op2, b, g, gr)
            n = S.Probe(lambda n: None).run(lambda: do(m, op, a, f, gr), grain=grain)
            step = max(1, n // 300)
            if step > 1 and twice:
                step //= 2
            p = S.Probe(lambda n: do(m, op2, b, g, gr))
            out = []
            p.run(lambda: out.append(do(m, op, a, f, gr)), None, (1 + offset % step, step), grain)
            bad = [[k, x] for k, x in p.answers if x != want2][:1]
            res.append([want, out[0], want2, bad, len(p.answers), n, do(m, op, a, f, gr), do(m, op2, b, g, gr)])
        return res

    res = S.in_child(threads)
    if 'deadlock' in res:
        raise Violation('deadlock: %s' % res['deadlock'])
    if 'ok' not in res:
        if res.get('code'):
            raise Violation('%s\n%s' % (res['error'], res['trace']))
        raise RuntimeError('threads: %s\n%s' % (res.get('error'), res.get('trace')))
    total = 0
    for (a, b, op, op2, i, j, gr, _), (want, got, want2, bad, asked, n, again, again2) in zip(cases, res['ok']):
        total += asked
        if got != want:
            raise Violation('%s of %r (analysis %d) while another thread asks for %s of %r (analysis %d): %r, without threads %r' % (op, a, i, op2, b, j, got, want))
        for k, x in bad:
            raise Violation('%s of %r (analysis %d) at point %d of %d of %s of %r (analysis %d) in another thread: %r, without threads %r' % (op2, b, j, k, n, op, a, i, x, want2))
        if again != want or again2 != want2:
            raise Violation('%s of %r or %s of %r after the threads: %r, %r; before them %r, %r' % (op, a, op2, b, again, again2, want, want2))
    if total:
        d.nontrivial()


CHECK = Check(
    'C31', 'a case is a program of calls for each of two or three threads (questions to a shared analyzer, creation of analyzers and questions to them) and a schedule: after how many lines (or instructions which store into objects) of pymorphy2 code '
           'which thread goes on; it runs in a forked process in which no analyzer was created before; all answers have to be those of the same programs without threads; non-trivial: the token changed hands',
    [
        Group('generated', generated, 260, 30000, Env, ('fast',), shrink=60),
        Group('probe', probe, 150, 30000, Env, ('fast',), shrink=40, doc='one thread asks a question at single points, or at all points, of what another one does'),
        Group('pairs', pairs, 150, 20000, Env, ('fast',), shrink=30, doc='at every point of an operation on a word another thread does it with another word of the same kind'),
        Group('pairs-real', pairs, 12, 1500, lambda: Env(True), ('slow',), shrink=10, doc='as pairs, with the installed dictionary'),
        Group('fresh', fresh, 80, 20000, Env, ('fast',), shrink=20, doc='one question at single points of the work on tokens which were never seen before'),
        Group('fresh-real', fresh, 12, 1500, lambda: Env(True), ('slow',), shrink=10, doc='as fresh, with the installed dictionary'),
        Group('real', real, 16, 1500, lambda: Env(True), ('slow',), shrink=20),
    ], assumptions=['threads are switched between lines and before storing instructions of pymorphy2 code only, not within third-party libraries'])
