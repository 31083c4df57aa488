# -*- coding: utf-8 -*-
"""A small property-based testing engine.

Hypothesis is not available for the interpreters pymorphy2 runs on here
(PyPy 3.9, with and without the DAWG C++ extension), so this is a
choice-sequence engine in the style of minithesis: every random decision of a
case is one integer drawn from a ``Source``; a case is replayed from the list
of integers it drew and is shrunk by editing that list.

A check module defines *groups*.  A group is a function ``fn(d, env)`` which is
run for a number of cases; ``d`` is the source of choices and the place where
the case reports what it did (labels, notes, non-triviality).  ``env`` is
whatever the group's ``setup`` returned once for the worker process.

A case fails by raising ``Violation`` (usually through ``require``).  An
exception that escapes from the code under test (a frame of the traceback lies
in the checked tree) is a failure too; any other exception is an error of the
harness and is reported as such, never as a violation.
"""
from __future__ import annotations

import collections
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback


class Violation(Exception):
    pass


class Discard(Exception):
    """The case does not fall into the domain of the property."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def require_equal(got, expected, what):
    if got != expected:
        raise Violation("%s: got %r, expected %r" % (what, got, expected))


class Source(object):
    """Choices of one case."""

    def __init__(self, seed_text=None, choices=None, index=0):
        self.index = index
        self.rng = random.Random(seed_text) if choices is None else None
        self.replay = list(choices) if choices is not None else None
        self.pos = 0
        self.drawn = []
        self.labels = []
        self.notes = collections.OrderedDict()
        self.is_nontrivial = False
        self.keys = []

    # ---- choices
    def draw(self, n):
        """An integer in range(n); 0 is the simplest one."""
        if n <= 1:
            return 0
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            self.pos += 1
            if v >= n:
                v = n - 1
            if v < 0:
                v = 0
        else:
            v = self.rng.randrange(n)
        self.drawn.append(v)
        return v

    def integer(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def choice(self, seq):
        return seq[self.draw(len(seq))]

    def chance(self, num, den):
        """True in num of den cases (False is the simplest)."""
        return self.draw(den) >= den - num

    def weighted(self, pairs):
        """pairs: [(weight, value)]; the first one is the simplest."""
        total = sum(w for w, _ in pairs)
        k = self.draw(total)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        return pairs[-1][1]

    def size(self, lo, hi):
        """A length, biased to small values but covering lo..hi."""
        span = hi - lo
        if span <= 0:
            return lo
        a = self.draw(span + 1)
        if self.draw(3) < 2:
            b = self.draw(span + 1)
            a = min(a, b)
        return lo + a

    def many(self, gen, lo, hi):
        return [gen(self) for _ in range(self.size(lo, hi))]

    def text(self, alphabet, lo, hi):
        return ''.join(self.choice(alphabet) for _ in range(self.size(lo, hi)))

    def sample(self, seq, k):
        pool = list(seq)
        res = []
        for _ in range(min(k, len(pool))):
            res.append(pool.pop(self.draw(len(pool))))
        return res

    def shuffle(self, seq):
        return self.sample(seq, len(seq))

    # ---- reporting
    def label(self, name):
        self.labels.append(name)

    def note(self, name, value):
        self.notes[name] = value
        return value

    def nontrivial(self, key=None):
        """This case is non-trivial; ``key`` identifies it for distinctness."""
        self.is_nontrivial = True
        if key is not None:
            self.keys.append(repr(key))

    def fingerprint(self):
        text = '|'.join(self.keys) if self.keys else repr((self.index, self.drawn))
        return hashlib.blake2b(text.encode('utf8', 'surrogatepass'), digest_size=6).hexdigest()


class Group(object):
    def __init__(self, name, fn, quick, thorough, setup=None, backends=('slow',),
                 enum=None, shrink=300, doc=''):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.setup = setup
        self.backends = tuple(backends)
        self.enum = enum        # function env -> number of enumerated cases
        self.shrink = shrink
        self.doc = doc

    def count(self, tier, env):
        if self.enum is not None:
            n = self.enum(env)
            cap = self.thorough if tier == 'thorough' else self.quick
            return n if cap is None else min(n, cap)
        return self.thorough if tier == 'thorough' else self.quick


class Check(object):
    """What a check module exports as CHECK."""

    def __init__(self, pid, rule, groups, assumptions=(), level='exploration', exhaustive=False):
        self.pid = pid
        self.rule = rule
        self.groups = list(groups)
        self.assumptions = list(assumptions)
        self.level = level
        self.exhaustive = exhaustive

    def group(self, name):
        for g in self.groups:
            if g.name == name:
                return g
        raise KeyError(name)


REPO = os.environ.get('PMV_REPO', '/repo')


def from_code_under_test(tb):
    prefix = os.path.join(REPO, 'pymorphy2') + os.sep
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(prefix):
            return True
        tb = tb.tb_next
    return False


def malformed_answer(e):
    """An answer of the code under test was such that the check could not go on (None instead of a list, a shorter tuple, ..)."""
    if isinstance(e, AttributeError):
        return not str(e).startswith(('module ', 'type object '))
    return isinstance(e, (TypeError, IndexError, KeyError, ValueError, StopIteration))


class Outcome(object):
    __slots__ = ('kind', 'message', 'trace')

    def __init__(self, kind, message='', trace=''):
        self.kind = kind            # ok / discard / violation / error
        self.message = message
        self.trace = trace


def _stuck(signum, frame):
    f = frame
    prefix = os.path.join(REPO, 'pymorphy2') + os.sep
    while f is not None:
        if f.f_code.co_filename.startswith(prefix):
            raise Violation('the code under test did not return in %d s' % CASE_LIMIT)
        f = f.f_back
    raise RuntimeError('the case takes more than %d s' % CASE_LIMIT)


CASE_LIMIT = 150


def run_case(group, d, env):
    signal.signal(signal.SIGALRM, _stuck)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
    try:
        return _run_case(group, d, env)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _run_case(group, d, env):
    try:
        group.fn(d, env)
        return Outcome('ok')
    except Discard:
        return Outcome('discard')
    except Violation as e:
        return Outcome('violation', str(e), traceback.format_exc())
    except (KeyboardInterrupt, MemoryError, SystemExit) as e:
        if isinstance(e, SystemExit) and from_code_under_test(sys.exc_info()[2]):
            return Outcome('violation', 'the code under test raised %r' % e, traceback.format_exc())
        raise
    except Exception as e:
        tb = sys.exc_info()[2]
        if from_code_under_test(tb):
            return Outcome('violation', 'unexpected exception: %s: %s' % (type(e).__name__, e),
                           traceback.format_exc())
        if malformed_answer(e):
            return Outcome('violation', 'an answer the check can not deal with: %s: %s' % (type(e).__name__, e), traceback.format_exc())
        return Outcome('error', '%s: %s' % (type(e).__name__, e), traceback.format_exc())


def shrink(group, env, choices, budget, index):
    """Minimise a failing choice list."""
    best = list(choices)
    best_out = None
    runs = [0]
    t_end = time.time() + 25

    def attempt(cand):
        if runs[0] >= budget or time.time() > t_end:
            return False
        runs[0] += 1
        d = Source(choices=cand, index=index)
        out = run_case(group, d, env)
        if out.kind == 'violation':
            nonlocal best, best_out
            used = d.drawn
            if (len(used), used) < (len(best), best):
                best = list(used)
                best_out = out
                return True
        return False

    improved = True
    while improved and runs[0] < budget and time.time() < t_end:
        improved = False
        for size in (16, 8, 4, 2, 1):
            i = len(best) - size
            while i >= 0:
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                i -= max(1, size // 2) if size > 1 else 1
                i = min(i, len(best) - size) if len(best) >= size else -1
        i = 0
        while i < len(best):
            if best[i] > 0:
                if attempt(best[:i] + [0] + best[i + 1:]):
                    improved = True
                else:
                    lo, hi = 0, best[i]
                    while hi - lo > 1 and runs[0] < budget:
                        mid = (lo + hi) // 2
                        if attempt(best[:i] + [mid] + best[i + 1:]):
                            improved = True
                            if i >= len(best):
                                break
                            hi = best[i]
                        else:
                            lo = mid
            i += 1
    return best, best_out, runs[0]


def seed_text(seed, pid, group, index):
    return '%s/%s/%s/%s' % (seed, pid, group, index)


def run_group(check, group, tier, seed, backend, worker, nworkers, result):
    """Run this worker's share of a group and add to ``result``."""
    t0 = time.time()
    stats = result['groups'].setdefault(group.name, {
        'backend': backend, 'evaluations': 0, 'discarded': 0, 'nontrivial': 0,
        'labels': {}, 'planned': 0, 'wall_s': 0.0})
    try:
        env = group.setup() if group.setup else None
    except Violation as e:
        result['failures'].append({'group': group.name, 'backend': backend, 'index': -1,
                                   'choices': None, 'message': 'setup: %s' % e,
                                   'trace': traceback.format_exc(), 'notes': {}})
        return
    except Exception as e:
        kind = 'failures' if from_code_under_test(sys.exc_info()[2]) or malformed_answer(e) else 'errors'
        result[kind].append({'group': group.name, 'backend': backend, 'index': -1, 'choices': None,
                             'message': 'setup: %s: %s' % (type(e).__name__, e),
                             'trace': traceback.format_exc(), 'notes': {}})
        return
    total = group.count(tier, env)
    stats['planned'] = total
    labels = collections.Counter()
    hashes = result['hashes']
    samples = result['samples'].setdefault(group.name, [])
    for index in range(worker, total, nworkers):
        d = Source(seed_text=seed_text(seed, check.pid + '/' + backend, group.name, index), index=index)
        out = run_case(group, d, env)
        if out.kind == 'ok':
            stats['evaluations'] += 1
            labels.update(d.labels)
            if d.is_nontrivial:
                stats['nontrivial'] += 1
                hashes.add(d.fingerprint())
                if len(samples) < 2 and d.notes:
                    samples.append(dict(d.notes, group=group.name, backend=backend, index=index))
        elif out.kind == 'discard':
            stats['discarded'] += 1
        elif out.kind == 'violation':
            stats['evaluations'] += 1
            choices, best_out, runs = d.drawn, None, 0
            # a failure has to reproduce from its choice list
            again = Source(choices=d.drawn, index=index)
            out2 = run_case(group, again, env)
            reproduced = out2.kind == 'violation'
            if reproduced:
                choices, best_out, runs = shrink(group, env, d.drawn, group.shrink, index)
            final = Source(choices=choices, index=index)
            fin_out = run_case(group, final, env) if reproduced else out
            if fin_out.kind != 'violation':
                fin_out = best_out or out
                final = d
            result['failures'].append({
                'group': group.name, 'backend': backend, 'index': index,
                'choices': list(choices), 'original_choices': list(d.drawn),
                'message': fin_out.message, 'trace': fin_out.trace,
                'notes': jsonable(final.notes), 'reproduced': reproduced, 'shrink_runs': runs})
            break
        else:
            result['errors'].append({
                'group': group.name, 'backend': backend, 'index': index, 'choices': d.drawn,
                'message': out.message, 'trace': out.trace, 'notes': jsonable(d.notes)})
            break
    for k, v in labels.items():
        stats['labels'][k] = stats['labels'].get(k, 0) + v
    if env is not None and hasattr(env, 'close'):
        env.close()
    if env is not None and getattr(env, 'known', None):
        for line in env.known:
            if line not in result['known']:
                result['known'].append(line)
    stats['wall_s'] = round(time.time() - t0, 2)


def jsonable(x):
    try:
        return json.loads(json.dumps(x, ensure_ascii=True, default=repr))
    except Exception:
        return repr(x)
