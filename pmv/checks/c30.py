# -*- coding: utf-8 -*-
"""C30: answers do not depend on what was asked before."""
import atexit
import json

from pmv import common as C
from pmv import gendict as G
from pmv import langdata
from pmv import peer as P
from pmv import questions as Q
from pmv.engine import Check, Group, Violation, require, require_equal


def differ(q, first, now, how):
    raise Violation('%r: the answer is %r at first and %r %s' % (q, first, now, how))


def run_history(d, make, words, model, peer=None):
    """make() -> a fresh analyzer."""
    A = make()
    first = {}
    order = []
    held = []           # (parse, its fields, its lexeme)
    iters = []          # (iterator, prefix, seen so far)
    steps = d.integer(4, 24)
    log = []
    touched = False
    for _ in range(steps):
        k = d.draw(12)
        if k == 0:
            w = words(d)[:d.integer(1, 5)] or 'а'
            iters.append((A.iter_known_word_parses(w), w, []))
            log.append('iterate over %r' % w)
        elif k == 1 and iters:
            it, w, seen = iters[d.draw(len(iters))]
            for _ in range(d.integer(1, 5)):
                p = next(it, None)
                if p is None:
                    break
                seen.append(Q.fields(p))
            log.append('go on with %r' % w)
        elif k == 2 and order:
            q = d.choice(order)
            log.append(repr(q))
            raw, got = Q.ask(A, q)
            if got != first[q]:
                d.note('history', log)
                differ(q, first[q], got, 'later')
            if d.chance(1, 2) and Q.spoil(d, raw):
                log.append('... changed')
                touched = True
        elif k == 3 and held:
            p, data, lex = held[d.draw(len(held))]
            grs = set(d.sample(Q.GRAMMEMES, 2))
            passed = set(grs)
            try:
                f = p.inflect(passed)
            except ValueError:
                f = None
            require_equal(passed, grs, 'inflect() changes the set it was given')
            l = A.get_lexeme(p)
            log.append('inflect an older %r to %r' % (data[:2], sorted(grs)))
            if [Q.fields(x) for x in l] != lex:
                d.note('history', log)
                raise Violation('the lexeme of %r is %r at first and %r later' % (data, lex, l))
            if f is not None:
                held.append((f, Q.fields(f), None))
            Q.spoil(d, passed)
            Q.spoil(d, l)
            l = p.lexeme
            require_equal([Q.fields(x) for x in l], lex, 'the attribute lexeme of %r' % (data,))
            n = p.normalized
            Q.spoil(d, l)
            require_equal([Q.fields(x) for x in p.lexeme], lex, 'the attribute lexeme of %r, asked again' % (data,))
            require_equal(Q.fields(p.normalized), Q.fields(n), 'the attribute normalized of %r, asked again' % (data,))
            held = [h for h in held if h[2] is not None]
        else:
            q = Q.gen_question(d, words)
            log.append(repr(q))
            raw, got = Q.ask(A, q)
            if q in first:
                if got != first[q]:
                    d.note('history', log)
                    differ(q, first[q], got, 'later')
            else:
                first[q] = got
                order.append(q)
            if q[0] == 'parse' and raw:
                p = raw[d.draw(len(raw))]
                held.append((p, Q.fields(p), [Q.fields(x) for x in A.get_lexeme(p)]))
            if d.chance(1, 3) and Q.spoil(d, raw):
                log.append('... changed')
                touched = True
            d.label('op:' + q[0])
    d.note('history', log)
    # what was handed out is as it was
    for p, data, lex in held:
        if lex is not None:
            require_equal(Q.fields(p), data, 'an older result')
            require_equal([Q.fields(x) for x in A.get_lexeme(p)], lex, 'the lexeme of an older result')
            require_equal([Q.fields(x) for x in p.lexeme], lex, 'the attribute lexeme of an older result')
    # the same questions again, and to an analyzer which was not asked anything
    B = make()
    for q in reversed(order):
        got = Q.ask(B, q)[1]
        if got != first[q]:
            differ(q, first[q], got, 'from a fresh analyzer')
    for q in order:
        got = Q.ask(A, q)[1]
        if got != first[q]:
            differ(q, first[q], got, 'at the end')
    for it, w, seen in iters:
        for p in it:
            if len(seen) > 40:
                break
            seen.append(Q.fields(p))
        want = []
        for p in B.iter_known_word_parses(w):
            if len(want) >= len(seen):
                break
            want.append(Q.fields(p))
        require_equal(seen, want, 'iteration over %r which was interrupted by other calls' % w)
    # the model has no history
    for q in order:
        if q[0] == 'parse' and model(q[1]):
            C.compare_parses(A.parse(q[1]), model(q[1]), 'parse(%r) after the history' % q[1])
    if peer is not None:
        qs = sorted(order, key=repr)
        for q, theirs in zip(qs, peer.ask(op='questions', name='default', questions=qs)['ok']):
            mine = json.loads(json.dumps(first[q]))
            if mine != theirs:
                differ(q, mine, theirs, 'in a process with another history')
    if touched:
        d.label('a result was changed')
    if len(order) > 3:
        d.nontrivial()


_peer = []


class RealEnv(C.Env):
    def __init__(self):
        C.Env.__init__(self)
        if not _peer:
            _peer.append(P.Peer())
            atexit.register(_peer[0].close)
            assert 'ok' in _peer[0].ask(op='load', name='default', kw={})
        self.peer = _peer[0]


def real(d, env):
    import pymorphy2
    pool = [C.token(d, env) for _ in range(d.integer(1, 6))]
    words = lambda d: d.choice(pool)
    run_history(d, pymorphy2.MorphAnalyzer, words, lambda w: env.ref.parse(w), env.peer)


def generated(d, env):
    import pymorphy2
    c = C.gen_case(d, env, probs=d.chance(1, 2))
    pool = [C.gen_word(d, c) for _ in range(d.integer(1, 5))] + [d.choice(['12', 'xv', 'А', 'б', '', ','])]
    words = lambda d: d.choice(pool)
    kw = d.choice([{}, {}, {'char_substitutes': None}, {'probability_estimator_cls': None}])
    d.note('options', sorted(kw))
    run_history(d, lambda: pymorphy2.MorphAnalyzer(path=c.path, **kw), words, lambda w: None if kw else c.ref.parse(w))


def long(d, env):
    """Hundreds or thousands of questions to one analyzer; then the first ones again."""
    import pymorphy2
    A = pymorphy2.MorphAnalyzer()
    n = d.choice([300, 1200, 2500])
    pool = [C.token(d, env) for _ in range(d.choice([5, n // 10, n]))]
    first = {}
    for i in range(n):
        q = Q.gen_question(d, lambda d: d.choice(pool))
        raw, got = Q.ask(A, q)
        if first.setdefault(q, got) != got:
            differ(q, first[q], got, 'after %d other questions' % i)
        if d.chance(1, 10):
            Q.spoil(d, raw)
    d.note('questions', n)
    order = list(first)
    for q in order[:200] + d.sample(order, min(len(order), 200)):
        got = Q.ask(A, q)[1]
        if got != first[q]:
            differ(q, first[q], got, 'at the end of %d questions' % n)
    some = d.sample(order, min(len(order), 500))
    theirs = env.peer.ask(op='questions', name='default', questions=some)['ok']
    for q, b in zip(some, theirs):
        a = json.loads(json.dumps(first[q]))
        if a != b:
            differ(q, a, b, 'in a process with another history')
    d.nontrivial()


def wide(d, env):
    """One question about thousands of different words; another process is asked in the reverse order."""
    import pymorphy2
    A = pymorphy2.MorphAnalyzer()
    op = ('normal_forms', 'parse', 'tag', 'lexeme', 'normalized', 'known', 'inflect', 'is_known')[d.index % 8]
    rest = {'lexeme': (0,), 'normalized': (0,), 'is_known': (0,), 'known': (False,), 'inflect': (0, ('plur',))}.get(op, ())
    n = 1000 if op in ('lexeme', 'inflect') else 3000
    size = d.integer(6, 10)
    words = [w for w in env.words if len(w) == size] if d.chance(1, 2) else env.words
    tail = d.choice(['', '', '', 'и', 'ой'])
    qs = [(op, w + tail) + rest for w in d.sample(words, min(n, len(words)))]
    d.note('question', op)
    first = [Q.ask(A, q)[1] for q in qs]
    theirs = env.peer.ask(op='questions', name='default', questions=qs[::-1])['ok'][::-1]
    for q, a, b in zip(qs, first, theirs):
        if json.loads(json.dumps(a)) != b:
            differ(q, a, b, 'in a process where the words came in the reverse order')
    d.nontrivial()


def generated_long(d, env):
    """The same for a generated dictionary: fresh analyzers give the expected answers."""
    import pymorphy2
    c = C.gen_case(d, env, probs=d.chance(1, 2), big=True)
    A = pymorphy2.MorphAnalyzer(path=c.path)
    n = d.choice([200, 600])
    pool = [C.gen_word(d, c) for _ in range(d.choice([5, n // 4, n]))] + ['12', 'xv', 'А', 'б', '', ',']
    first = {}
    for i in range(n):
        q = Q.gen_question(d, lambda d: d.choice(pool))
        raw, got = Q.ask(A, q)
        if first.setdefault(q, got) != got:
            differ(q, first[q], got, 'after %d other questions' % i)
        if d.chance(1, 10):
            Q.spoil(d, raw)
    B = pymorphy2.MorphAnalyzer(path=c.path)
    for q in reversed(list(first)):
        for m, how in ((A, 'at the end'), (B, 'from a fresh analyzer')):
            got = Q.ask(m, q)[1]
            if got != first[q]:
                differ(q, first[q], got, how)
    d.nontrivial()


def iterate(d, A, fresh, words, limit):
    """Iterators opened, left unfinished and opened again."""
    pool = []
    for _ in range(d.integer(1, 3)):
        w = words(d)
        for _ in range(d.integer(1, 3)):
            pool.append(w[:d.integer(0 if limit is None else min(3, len(w)), max(len(w), 1))])
    want = {}

    def complete(m, w):
        out = []
        for p in m.iter_known_word_parses(w):
            if limit is not None and len(out) >= limit:
                break
            out.append(Q.fields(p))
        return out

    log = []
    live = []
    ended = 0
    for _ in range(d.integer(4, 20)):
        k = d.draw(6)
        if k < 2:
            w = d.choice(pool)
            live.append((A.iter_known_word_parses(w), w, []))
            log.append('open %r' % w)
        elif k < 4 and live:
            n = d.draw(len(live))
            it, w, seen = live[n]
            for _ in range(d.choice([1, 1, 2, 3, 7])):
                p = next(it, None)
                if p is None:
                    ended += 1
                    break
                seen.append(Q.fields(p))
            log.append('go on with %d' % n)
        elif k == 4 and live:
            n = d.draw(len(live))
            if d.chance(1, 2):
                live[n][0].close()
            live.pop(n)
            log.append('drop %d' % n)
        else:
            w = d.choice(pool)
            log.append('all of %r' % w)
            got = complete(A, w)
            if got != want.setdefault(w, got):
                d.note('history', log)
                raise Violation('iter_known_word_parses(%r): %d items at first, %d later' % (w, len(want[w]), len(got)))
        if d.chance(1, 5):
            Q.ask(A, Q.gen_question(d, words))
    d.note('history', log)
    for w in sorted(set(pool)):
        theirs = complete(fresh, w)
        for it, v, seen in live:
            if v == w:
                require_equal(seen, theirs[:len(seen)], 'an iterator over %r which was interrupted' % w)
                if limit is None or len(theirs) < limit:
                    require_equal(seen + [Q.fields(p) for p in it], theirs, 'an iterator over %r which was interrupted and finished' % w)
        got = complete(A, w)
        if got != theirs:
            raise Violation('iter_known_word_parses(%r): %d items from an analyzer which iterated before, %d from a fresh one: %r' % (
                w, len(got), len(theirs), [x for x in theirs if x not in got][:3]))
    if len(log) > 3:
        d.nontrivial(tuple(log))


def iterators(d, env):
    import pymorphy2
    if not hasattr(env, 'left'):
        env.left = 0
    if env.left == 0:
        env.asked, env.left = pymorphy2.MorphAnalyzer(), 10
        env.fresh = pymorphy2.MorphAnalyzer()
    env.left -= 1
    iterate(d, env.asked, env.fresh if d.chance(1, 2) else pymorphy2.MorphAnalyzer(), lambda d: C.dict_word(d, env), 60)


def iterators_generated(d, env):
    import pymorphy2
    c = C.gen_case(d, env, probs=d.chance(1, 2), big=d.chance(1, 4))
    iterate(d, pymorphy2.MorphAnalyzer(path=c.path), pymorphy2.MorphAnalyzer(path=c.path), lambda d: C.gen_word(d, c), None)


CHECK = Check(
    'C30', 'a case is a history of calls on one analyzer (with results changed by the caller, failing calls, interleaved iterators, older results used again); every answer is compared with the one at first, '
           'of a fresh analyzer, of the model and of a process with another history; non-trivial: at least four different questions',
    [
        Group('real', real, 400, 25000, RealEnv, ('slow',)),
        Group('long', long, 6, 300, RealEnv, ('slow',), shrink=10, doc='long histories'),
        Group('wide', wide, 8, 160, RealEnv, ('slow',), shrink=6, doc='thousands of words'),
        Group('generated', generated, 240, 12000, C.GenEnv, ('fast',)),
        Group('generated-long', generated_long, 16, 800, C.GenEnv, ('fast',), shrink=10, doc='long histories'),
        Group('iterators', iterators, 250, 15000, RealEnv, ('slow',), doc='iterators left unfinished'),
        Group('iterators-generated', iterators_generated, 160, 8000, C.GenEnv, ('fast',), doc='iterators left unfinished'),
    ])
