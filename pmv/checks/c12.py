# -*- coding: utf-8 -*-
"""C12: tags behave as immutable sets of grammemes."""
import copy
import pickle

from pmv import common as C
from pmv.engine import Check, Discard, Group, Violation, require, require_equal
from pmv.refmodel import NON_PRODUCTIVE, POS, grammeme_tuple, grammemes

CATEGORIES = {
    'POS': POS,
    'animacy': 'anim inan', 'gender': 'masc femn neut', 'number': 'sing plur',
    'case': 'nomn gent datv accs ablt loct voct gen1 gen2 acc2 loc1 loc2', 'aspect': 'perf impf',
    'transitivity': 'tran intr', 'person': '1per 2per 3per', 'tense': 'pres past futr', 'mood': 'indc impr',
    'voice': 'actv pssv', 'involvement': 'incl excl',
}
CATEGORIES = dict((k, frozenset(v.split()) if isinstance(v, str) else frozenset(v)) for k, v in CATEGORIES.items())
NAMES = sorted(CATEGORIES)
# grammemes of tokens which are not in the dictionary
EXTRA = ['LATN', 'NUMB', 'PNCT', 'ROMN', 'UNKN', 'intg', 'real']


def known(env):
    if not hasattr(env, 'known_grammemes'):
        env.known_grammemes = sorted(set(r[0] for r in env.raw.grammeme_rows) | set(EXTRA))
    return env.known_grammemes


def raises_value_error(fn, what):
    try:
        r = fn()
    except ValueError:
        return
    raise Violation('%s: no ValueError, got %r' % (what, r))


def check_tag(env, tag, s):
    """Everything about one tag."""
    grs = grammemes(s)
    names = known(env)
    require_equal(str(tag), s, 'str of the tag')
    require(isinstance(tag.grammemes, frozenset), 'grammemes of %s: %r', s, tag.grammemes)
    require_equal(tag.grammemes, grs, 'grammemes of %s' % s)
    require_equal(len(tag), len(grammeme_tuple(s)), 'length of %s' % s)
    for g in names:
        require_equal(g in tag, g in grs, '%r in %s' % (g, s))
    for attr in NAMES:
        got = getattr(tag, attr)
        both = grs & CATEGORIES[attr]
        if not both:
            require(got is None, '%s of %s: %r', attr, s, got)
        else:
            require(str(got) in both, '%s of %s: %r', attr, s, got)
    require_equal(bool(tag.is_productive()), not (grs & NON_PRODUCTIVE), 'is_productive of %s' % s)
    # ask again (answers may be cached)
    require_equal(tag.grammemes, grs, 'grammemes of %s' % s)


def same(a, b, what):
    require(a == b, '%s: not equal', what)
    require(not (a != b), '%s: != is true', what)
    require_equal(hash(a), hash(b), '%s: hash' % what)
    require(not (a < b) and not (a > b), '%s: ordered', what)
    require_equal(str(a), str(b), what)


def copies(tag, s):
    for proto in range(pickle.HIGHEST_PROTOCOL + 1):
        same(pickle.loads(pickle.dumps(tag, proto)), tag, 'pickle (protocol %d) of %s' % (proto, s))
    same(copy.copy(tag), tag, 'copy of %s' % s)
    same(copy.deepcopy(tag), tag, 'deepcopy of %s' % s)


def all_tags(d, env):
    s = env.raw.gramtab[d.index]
    d.note('tag', s)
    tag = env.morph.TagClass(s)
    check_tag(env, tag, s)
    copies(tag, s)
    check_tag(env, copy.deepcopy(tag), s)
    same(env.morph.TagClass(s), tag, 'the same tag again: %s' % s)
    if len(grammemes(s)) > 1:
        d.nontrivial(s)


def rand_tag(d, env):
    k = d.draw(4)
    if k == 0:
        return d.choice(env.raw.gramtab)
    names = known(env)
    if k == 1:
        # change a tag of the dictionary
        parts = list(grammeme_tuple(d.choice(env.raw.gramtab)))
        parts[d.draw(len(parts))] = d.choice(names)
    else:
        parts = d.sample(names, d.integer(1, 8))
    seen = []
    for p in parts:
        if p not in seen:
            seen.append(p)
    if len(seen) > 1 and d.chance(1, 2):
        i = d.integer(1, len(seen) - 1)
        return ','.join(seen[:i]) + ' ' + ','.join(seen[i:])
    return ','.join(seen)


def subset_tests(d, env):
    s = rand_tag(d, env)
    d.note('tag', s)
    tag = env.morph.TagClass(s)
    check_tag(env, tag, s)
    grs = grammemes(s)
    names = known(env)
    for _ in range(6):
        sub = set(d.sample(sorted(grs), d.integer(0, 4)))
        if d.chance(1, 3):
            sub.add(d.choice(names))
        arg = d.choice([set, frozenset])(sub)
        require_equal(arg in tag, sub <= grs, '%r in %s' % (sorted(sub), s))
        require_equal(set(arg), sub, 'the argument was changed')
    if d.chance(1, 4):
        copies(tag, s)
    d.nontrivial(s)


def comparisons(d, env):
    T = env.morph.TagClass
    ss = [rand_tag(d, env) for _ in range(4)]
    # the same grammemes with the space at another place; a permutation; a prefix
    p = grammeme_tuple(ss[0])
    if len(p) > 1:
        i = d.integer(1, len(p) - 1)
        ss.append(','.join(p[:i]) + ' ' + ','.join(p[i:]))
        ss.append(','.join(p[:i]))
        p = d.sample(p, len(p))
        ss.append(','.join(p[:i]) + ' ' + ','.join(p[i:]))
    ss.append(ss[d.draw(len(ss))])
    d.note('tags', ss)
    tags = [T(s) for s in ss]
    for a, sa in zip(tags, ss):
        for b, sb in zip(tags, ss):
            if grammeme_tuple(sa) == grammeme_tuple(sb):
                require(a == b and not a != b, '%s and %s are not equal', sa, sb)
            if grammemes(sa) != grammemes(sb):
                require(a != b and not a == b, '%s and %s are equal', sa, sb)
            require((a == b) == (not (a != b)), '== and != of %s and %s', sa, sb)
            if a == b:
                require_equal(hash(a), hash(b), 'hashes of %s and %s' % (sa, sb))
            require_equal([a < b, a == b, a > b].count(True), 1, 'order of %s and %s' % (sa, sb))
            require_equal(a < b, b > a, 'order of %s and %s' % (sa, sb))
            for c, sc in zip(tags, ss):
                require(not (a < b and b < c) or a < c, 'order of %s, %s, %s', sa, sb, sc)
    require_equal(len(set(tags)), len(set(grammeme_tuple(s) for s in ss)), 'number of distinct tags') \
        if len(set(map(grammemes, ss))) == len(set(map(grammeme_tuple, ss))) else None
    d.nontrivial(tuple(ss))


def unknown_name(d, env):
    names = known(env)
    g = d.choice(names)
    k = d.draw(7)
    bad = [g.swapcase(), g[:-1], g + 'x', ' ' + g, g + ' ', 'foo', ''][k] if k < 7 else ''
    if d.chance(1, 6):
        bad = env.morph.lat2cyr(g)
    if d.chance(1, 6):
        bad = d.text('abcdefNOUNsing', 0, 5)
    if bad in names:
        raise Discard()
    return bad


def unknown(d, env):
    T = env.morph.TagClass
    s = rand_tag(d, env)
    tag = T(s)
    bad = unknown_name(d, env)
    d.note('tag', s)
    d.note('grammeme', bad)
    raises_value_error(lambda: bad in tag, '%r in %s' % (bad, s))
    some = d.sample(sorted(grammemes(s)), d.integer(0, 3))
    raises_value_error(lambda: set(some + [bad]) in tag, '%r in %s' % (some + [bad], s))
    raises_value_error(lambda: frozenset([bad]) in tag, '{%r} in %s' % (bad, s))
    if ' ' not in bad:
        raises_value_error(lambda: T(s + ',' + bad), 'tag %r' % (s + ',' + bad))
        raises_value_error(lambda: T(bad + ',' + s), 'tag %r' % (bad + ',' + s))
        raises_value_error(lambda: T(bad), 'tag %r' % bad)
    raises_value_error(lambda: tag.updated_grammemes({bad}), 'updated_grammemes({%r}) of %s' % (bad, s))
    # the errors change nothing
    check_tag(env, tag, s)
    d.nontrivial((s, bad))


def typed(d, env):
    """Attributes may be compared only with values of their own category."""
    T = env.morph.TagClass
    s = d.choice(env.raw.gramtab)
    tag = T(s)
    attr = d.choice(NAMES)
    values = CATEGORIES[attr]
    got = getattr(tag, attr)
    d.note('tag', s)
    d.note('attribute', attr)
    if got is None:
        raise Discard()
    for v in sorted(values):
        require_equal(got == v, str(got) == v, '%s of %s == %r' % (attr, s, v))
        require_equal(got != v, str(got) != v, '%s of %s != %r' % (attr, s, v))
        require_equal(got in (v,), str(got) == v, '%s of %s in (%r,)' % (attr, s, v))
    require(not (got == None), 'equal to None')       # noqa
    others = [g for g in known(env) if g not in values]
    for v in d.sample(others, 5) + ['foo', '', str(got).upper() + '_', d.choice(others)]:
        if v in values:
            continue
        raises_value_error(lambda: got == v, '%s of %s == %r' % (attr, s, v))
        raises_value_error(lambda: got != v, '%s of %s != %r' % (attr, s, v))
        raises_value_error(lambda: v == got, '%r == %s of %s' % (v, attr, s))
    require_equal({str(got): 1}.get(got), 1, 'hash of %s of %s' % (attr, s))
    d.nontrivial((s, attr))


CHECK = Check(
    'C12', 'a case is a tag of the dictionary or a random combination of known grammemes, compared with the set of its grammemes; a group of tags '
           'compared with each other; a tag with an unknown grammeme. Non-trivial: several grammemes, or an error is due',
    [
        Group('all-tags', all_tags, None, None, C.real_env, ('slow',), enum=lambda env: len(env.raw.gramtab),
              doc='every tag of the dictionary'),
        Group('subsets', subset_tests, 6000, 300000, C.real_env, ('slow',)),
        Group('comparisons', comparisons, 3000, 150000, C.real_env, ('slow',)),
        Group('unknown', unknown, 5000, 200000, C.real_env, ('slow',)),
        Group('typed', typed, 8000, 200000, C.real_env, ('slow',)),
    ],
    assumptions=['whether tags with the same grammemes in another order are equal is not specified'])
