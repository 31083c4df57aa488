# -*- coding: utf-8 -*-
"""C36: helpers."""
import itertools
from collections import Counter

from pmv import gendict as G
from pmv.engine import Check, Group, require, require_equal


def word(d, alpha='абв', lo=0, hi=8):
    return d.text(alpha, lo, hi)


def spoil(d, res):
    """The caller may change a list it was given."""
    if isinstance(res, list) and d.chance(1, 2):
        res.reverse()
        res.append(None)
        if d.chance(1, 2):
            del res[:]


def lcs(d, env):
    from pymorphy2.utils import longest_common_substring as f
    n = d.weighted([(6, d.integer(0, 5)), (1, d.integer(6, 40))])
    alpha = d.choice(['а', 'аб', 'абв', 'абвгде', 'aо\U0001d54fё'])
    common = word(d, alpha, 0, 6) if d.chance(5, 6) else word(d, alpha, 7, 30)
    items = [word(d, alpha, 0, 6) + (common if d.chance(4, 5) else '') + word(d, alpha, 0, 6) for _ in range(n)]
    if n and d.chance(1, 4):
        items[d.draw(n)] = d.choice(items)
    if n in (2, 3) and d.chance(1, 12):
        k = d.draw(n)
        items[k] = word(d, alpha, 60, 160) + items[k] + word(d, alpha, 0, 160)
        d.label('long')
    d.note('strings', items)
    res = f(list(items))
    if n > 1:
        d.nontrivial(tuple(items))
    d.label('n:%d' % n)
    if not items:
        require_equal(res, '', 'longest_common_substring([])')
        return
    require(all(res in x for x in items), 'longest_common_substring(%r) is %r: not common', items, res)
    shared = set.intersection(*(set(x[i:j] for i in range(len(x) + 1) for j in range(i, len(x) + 1)) for x in items))
    require_equal(len(res), max(map(len, shared)), 'length of longest_common_substring(%r) = %r' % (items, res))
    d.label('length:%d' % min(len(res), 5))


def combos(d, env):
    from pymorphy2.utils import combinations_of_all_lengths as f
    n = d.integer(0, 7)
    items = [d.integer(0, 20) for _ in range(n)]
    if d.chance(1, 2):
        items = list(range(n))
    kind = d.choice([list, tuple, lambda x: ''.join(chr(97 + i) for i in x)])
    res = [tuple(x) for x in f(kind(items))]
    src = list(kind(items))
    d.note('items', items)
    if n:
        d.nontrivial(tuple(items))
    want = Counter(tuple(src[i] for i in range(n) if m >> i & 1) for m in range(1, 2 ** n))
    require_equal(Counter(res), want, 'combinations of %r' % (items,))
    spoil(d, res)
    require_equal(Counter(tuple(x) for x in f(kind(items))), want, 'combinations of %r, again' % (items,))


def largest(d, env):
    from pymorphy2.utils import largest_elements as f
    n = d.integer(0, 12) if d.chance(5, 6) else d.integer(13, 150)
    span = d.choice([2, 5, 30, 200])
    items = [(d.integer(-span, span), i) for i in range(n)]
    key = d.choice([lambda x: x[0], lambda x: abs(x[0]), lambda x: -x[0], lambda x: x[0] / 2, lambda x: (x[0] % 3, abs(x[0]))])
    k = d.integer(0, 4) if d.chance(5, 6) else d.integer(5, 12)
    src = d.choice([list, tuple, iter, lambda x: (y for y in x)])(items)
    res = f(src, key) if k == 1 and d.chance(1, 2) else f(src, key, k)
    d.note('items', items)
    if n:
        d.nontrivial((tuple(items), k))
    top = sorted(set(key(x) for x in items), reverse=True)[:k]
    require_equal(list(res), [x for x in items if key(x) in top], 'largest_elements(%r, n=%d)' % (items, k))
    spoil(d, res)
    require_equal(list(f(items, key, k)), [x for x in items if key(x) in top], 'largest_elements(%r, n=%d), again' % (items, k))


def splits(d, env):
    from pymorphy2.utils import word_splits as f
    w = word(d, d.choice(['абвгд', 'аб', 'аё-\'ґ', 'Аа -1\u0301z', '\U0001f600а']), 0, d.choice([14, 14, 14, 60]))
    kw = {}
    if d.chance(1, 2):
        kw['min_reminder'] = d.integer(0, d.choice([6, 6, 20]))
    if d.chance(1, 2):
        kw['max_prefix_length'] = d.integer(0, d.choice([8, 8, 40]))
    res = f(w, **kw)
    d.note('word', w)
    d.note('kw', kw)
    d.nontrivial((w, sorted(kw.items())))
    lo, hi = kw.get('min_reminder', 3), kw.get('max_prefix_length', 5)
    want = [(w[:i], w[i:]) for i in range(1, len(w) + 1) if i <= hi and len(w) - i >= lo]
    require_equal([tuple(x) for x in res], want, 'word_splits(%r, %r)' % (w, kw))
    spoil(d, res)
    require_equal([tuple(x) for x in f(w, **kw)], want, 'word_splits(%r, %r), again' % (w, kw))


def value(d, depth=0):
    k = d.draw(9 if depth < 3 else 6)
    if k == 0:
        return d.integer(-10 ** 6, 10 ** 12)
    if k == 1:
        return d.choice([None, True, False])
    if k == 2:
        return d.integer(-1000, 1000) / 8
    if k in (3, 4, 5):
        return ''.join(d.choice(['а', 'ё', 'ґ', '"', '\\', '\n', '\t', '\x7f', '\u2028', '\U0001f600', 'z', '/', '\x01', '\ufeff']) for _ in range(d.integer(0, 6)))
    if k in (6, 7):
        return [value(d, depth + 1) for _ in range(d.integer(0, 4))]
    return dict((value_key(d), value(d, depth + 1)) for _ in range(d.integer(0, 4)))


def value_key(d):
    return d.text('абё"\\ z', 0, 4)


def json_files(d, env):
    from pymorphy2.utils import json_read, json_write
    env.scratch.clear()
    fn = env.scratch.new() + d.choice(['.json', '.ё'])
    for _ in range(d.integer(1, 3)):
        obj = value(d)
        kw = d.choice([{}, {}, {'ensure_ascii': True}, {'indent': None}, {'indent': 0}, {'sort_keys': True}, {'separators': (',', ':')}])
        json_write(fn, obj, **kw)
    d.note('object', obj)
    d.note('options', kw)
    d.nontrivial((repr(obj), repr(kw)))
    res = json_read(fn)
    require(same(res, obj, order='sort_keys' not in kw), 'read %r, written %r', res, obj)
    if isinstance(res, (list, dict)):
        copy = json_read(fn)
        res.clear()
        require(same(copy, obj, order='sort_keys' not in kw), 'another result was changed: %r, written %r', copy, obj)
        res = json_read(fn)
        require(same(res, obj, order='sort_keys' not in kw), 'read %r again, written %r', res, obj)
    with open(fn, 'rb') as f:
        data = f.read()
    if kw.get('ensure_ascii'):
        require(all(c < 128 for c in data), 'not ASCII: %r', data)
    if 'indent' in kw:
        require(kw['indent'] is not None or b'\n' not in data, 'indent=None: %r', data)
        require(kw['indent'] != 0 or b'\n ' not in data, 'indent=0: %r', data)
    if 'sort_keys' in kw and isinstance(obj, dict):
        require_equal(list(json_read(fn)), sorted(obj), 'sorted keys')
    if not kw and any(ord(c) > 127 for c in repr(obj)):
        require(b'\\u0430' not in data, 'not readable: %r', data)
    if d.chance(1, 4):
        res = json_read(fn, parse_float=str)
        require(same(res, obj, floats=str, order=False), 'read %r with parse_float=str, written %r', res, obj)


def same(a, b, floats=None, order=True):
    if isinstance(b, float) and floats is str:
        return isinstance(a, str) and float(a) == b
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y, floats, order) for x, y in zip(a, b))
    if isinstance(a, dict):
        return (list(a) == list(b) if order else sorted(a) == sorted(b)) and all(same(a[k], b[k], floats, order) for k in a)
    return a == b


def meta_files(d, env):
    """Metadata: written, extended and loaded in order."""
    from pymorphy2.opencorpora_dict import storage
    env.scratch.clear()
    fn = env.scratch.new() + '.json'
    keys = ['a', 'b', 'c', 'ё', 'source', 'P(t|w)', 'P(t|w)_unique_words']
    import collections
    state = collections.OrderedDict()
    for k in d.sample(keys, d.integer(0, len(keys))):
        state[k] = plain(d)
    storage.write_meta(fn, d.choice([lambda s: s, lambda s: [list(x) for x in s.items()], lambda s: list(s.items())])(state))
    loaded = storage.load_meta(fn)
    require_equal(list(loaded.items()), list(state.items()), 'metadata')
    loaded.clear()
    for _ in range(d.integer(0, 3)):
        extra = collections.OrderedDict((k, plain(d)) for k in d.sample(keys, d.integer(1, 3)))
        storage.update_meta(fn, d.choice([lambda e: e, lambda e: list(e.items())])(extra))
        state.update(extra)
        require_equal(list(storage.load_meta(fn).items()), list(state.items()), 'metadata after the update with %r' % (extra,))
    d.note('meta', state)
    d.nontrivial(repr(state))


def plain(d):
    v = value(d, 1)
    while has_float(v):
        v = value(d, 1)
    return v


def has_float(v):
    if isinstance(v, float):
        return True
    if isinstance(v, dict):
        return any(map(has_float, v.values()))
    return isinstance(v, list) and any(map(has_float, v))


def memo(d, env):
    from pymorphy2.cache import memoized_with_single_argument
    cache = {}
    calls = []
    results = {}

    def fn(x):
        calls.append(x)
        r = d.choice([None, 0, '', False, x, [x], (), 5]) if not d.chance(1, 6) else KeyError(x)
        if isinstance(r, KeyError):
            raise r
        results[x] = r
        return r
    wrapped = memoized_with_single_argument(cache)(fn)
    other = memoized_with_single_argument({})(lambda x: ('other', x))
    args = d.choice([['а', 'б', 'в'], [0, 1, None, ''], [(), ('а',), 'а'], ['е', 'ё', 'Е']])
    seq = [d.choice(args) for _ in range(d.integer(1, 12))]
    d.note('calls', seq)
    if len(set(seq)) < len(seq):
        d.nontrivial(tuple(seq))
    done = {}
    for x in seq:
        before = len(calls)
        try:
            r = wrapped(x)
        except KeyError:
            require(x not in done, 'the function is called again for %r', x)
            require_equal(len(calls), before + 1, 'calls')
            continue
        if x in done:
            require_equal(len(calls), before, 'calls of the function for a repeated %r' % (x,))
            require(r is done[x], 'another result: %r, was %r', r, done[x])
        else:
            require_equal(calls[before:], [x], 'calls')
            require(r is results[x], 'result %r, the function returned %r', r, results[x])
            done[x] = r
        require_equal(other(x), ('other', x), 'another memoized function')


def lru(d, env):
    """lru_cache never changes results."""
    from pymorphy2.cache import lru_cache
    size = d.choice([1, 2, 3, None])
    calls = []

    @lru_cache(size)
    def fn(x):
        calls.append(x)
        return [x]
    seq = [d.choice('абвг') for _ in range(d.integer(1, 15))]
    d.note('calls', seq)
    d.nontrivial((size, tuple(seq)))
    for x in seq:
        require_equal(fn(x), [x], 'result')
    if size is None:
        require_equal(sorted(calls), sorted(set(seq)), 'calls')


def progress(d, env):
    from pymorphy2.utils import with_progress
    n = d.integer(0, 30)
    items = [d.choice([None, 0, 'а', i]) for i in range(n)]
    src = d.choice([list, tuple, iter, lambda x: (y for y in x)])(items)
    kw = {}
    if d.chance(1, 2):
        kw['desc'] = 'text'
    if d.chance(1, 3):
        kw['total'] = d.integer(0, 40)
    if d.chance(1, 3):
        kw['leave'] = d.chance(1, 2)
    if n:
        d.nontrivial((repr(items), sorted(kw.items())))
    with G.quiet():
        res = list(with_progress(src, **kw))
    require_equal(res, items, 'items')


def kwargs_text(d, env):
    from pymorphy2.utils import kwargs_repr
    kw = dict((k, value(d, 2)) for k in d.sample(['a', 'b', 'foo', 'x1', 'z'], d.integer(0, 5)))
    hide = d.sample(['a', 'b', 'foo', 'q'], d.integer(0, 3))
    d.note('kw', kw)
    if kw:
        d.nontrivial((repr(kw), tuple(hide)))
    res = kwargs_repr(kw, d.choice([list, set, tuple])(hide)) if hide or d.chance(1, 2) else kwargs_repr(kw)
    require_equal(res, ', '.join('%s=%s' % (k, '<...>' if k in hide else repr(kw[k])) for k in sorted(kw)), 'kwargs_repr(%r)' % kw)


class Env(object):
    def __init__(self):
        self.scratch = G.Scratch()
        self.known = []

    def close(self):
        self.scratch.close()


CHECK = Check(
    'C36', 'a case is one call (or a history of calls) of a helper; non-trivial: at least one (two for the substring, a repeated argument for the memoizer) item',
    [
        Group('substring', lcs, 4000, 300000, Env, ('fast', 'slow')),
        Group('combinations', combos, 1500, 50000, Env, ('slow',)),
        Group('largest', largest, 4000, 300000, Env, ('fast', 'slow')),
        Group('splits', splits, 3000, 200000, Env, ('slow',)),
        Group('json', json_files, 3000, 200000, Env, ('fast', 'slow')),
        Group('meta', meta_files, 2000, 100000, Env, ('slow',)),
        Group('memoized', memo, 4000, 300000, Env, ('slow',)),
        Group('lru', lru, 1500, 100000, Env, ('fast', 'slow')),
        Group('progress', progress, 1500, 50000, Env, ('fast', 'slow')),
        Group('kwargs', kwargs_text, 1500, 50000, Env, ('slow',)),
    ])
