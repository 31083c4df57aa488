# -*- coding: utf-8 -*-
"""C13: updated_grammemes removes exactly the incompatible grammemes."""
import os

from pmv import common as C
from pmv import gendict as G
from pmv.engine import Check, Discard, Group, Violation, require, require_equal
from pmv.refmodel import grammemes
from pmv.checks.c10 import real_tree
from pmv.schedule import in_child


def updated(d, tree, tag, grs, req):
    before = frozenset(tag.grammemes)
    arg = d.choice([set, frozenset])(req)
    got = tag.updated_grammemes(arg)
    want = tree.updated(grs, req)
    # what the added grammemes exclude among themselves is excluded as well
    require_equal(set(got), want, 'updated_grammemes(%s) of %s' % (sorted(req), tag))
    require_equal(frozenset(tag.grammemes), before, 'the tag was changed')
    require_equal(set(arg), set(req), 'the argument was changed')
    return want


def all_tags(d, env):
    """Every tag of the dictionary with every single grammeme of the tree."""
    tree = real_tree(env)
    s = env.raw.gramtab[d.index]
    d.note('tag', s)
    tag = env.morph.TagClass(s)
    grs = grammemes(s)
    removed = 0
    for g in tree.names:
        want = updated(d, tree, tag, grs, {g})
        removed += bool(grs - want)
    updated(d, tree, tag, grs, set())
    if removed:
        d.nontrivial(s)


def random_sets(d, env):
    tree = real_tree(env)
    s = d.choice(env.raw.gramtab)
    tag = env.morph.TagClass(s)
    grs = grammemes(s)
    for _ in range(8):
        req = set(d.sample(tree.names, d.integer(1, 4)))
        if d.chance(1, 3):
            req |= set(d.sample(sorted(grs), 1))
        want = updated(d, tree, tag, grs, req)
        if grs - want:
            d.nontrivial((s, tuple(sorted(req))))
    d.note('tag', s)
    d.note('grammemes', sorted(req))


_n = [0]


def trees(d, env):
    """Dictionaries with random grammeme trees (names are new in every case: the tag class is shared)."""
    import pymorphy2
    _n[0] += 1
    mark = 'x%x_%x_' % (os.getpid(), _n[0])
    n = d.integer(3, 16)
    names = [mark + str(i) for i in range(n)]
    rows = []
    for i, name in enumerate(names):
        parent = ''
        if i and d.chance(4, 5):
            parent = names[d.draw(i)]
        elif d.chance(1, 12):
            parent = mark + 'missing'
        elif d.chance(1, 3):
            parent = d.choice(['GNdr', 'NMbr', 'plur', 'ms-f', 'POST', 'NOUN', 'CAse', 'nomn'])
        rows.append((name, parent, 'а' + name, 'о ' + name))
    rows = rows + list(G.GRAMMEMES)         # initials etc. need the usual grammemes
    rows = d.shuffle(rows)          # children may come before their parents
    spec = G.Spec()
    spec.grammemes = rows
    base = d.sample(names, d.integer(1, 5))
    spec.lemmas['1'] = ('аб', base, [('аб', ['sing'])])
    options = G.gen_options(d)
    short = lambda x: x.replace(mark, '')
    d.note('tree', [(short(r[0]), short(r[1])) for r in rows if mark in r[0]])
    env.scratch.clear()
    path = G.compile_spec(spec, env.scratch, options)
    morph = pymorphy2.MorphAnalyzer(path=path)
    tree = G_tree(rows)
    linked = names + sorted(set(r[1] for r in rows if mark in r[0] and r[1] in tree.parent))
    all_names = linked + ['GNdr', 'NMbr', 'sing', 'plur', 'masc', 'femn', 'ms-f', 'NOUN', 'nomn', 'gent', 'CAse']
    removed = 0
    for _ in range(30):
        own = d.sample(linked if d.chance(1, 2) else all_names, d.integer(1, 6))
        req = set(d.sample(all_names, d.integer(0, 3)))
        tag = morph.TagClass(','.join(own))
        want = updated(d, tree, tag, frozenset(own), req)
        removed += bool(set(own) - want)
    if removed:
        d.nontrivial()


def G_tree(rows):
    from pmv.tree import Tree
    return Tree(rows)


def standard_trees(d, env):
    """Trees of the standard names which differ between the dictionaries of one (forked) process."""
    import pymorphy2
    env.scratch.clear()
    names = [g[0] for g in G.GRAMMEMES]
    options = dict(G.gen_options(d), paradigm_prefixes=[''])
    runs = []
    for _ in range(d.choice([1, 2, 2, 3])):
        order = d.shuffle(names)
        moved = set(d.sample(names, d.integer(1, 20)))
        rows = []
        for name, parent, alias, text in G.GRAMMEMES:
            if name in moved:
                # no cycles: parents come before children in the order
                i = order.index(name)
                parent = d.choice(['', order[d.draw(i)]]) if i else ''
            rows.append((name, parent, alias, text))
        if cyclic(rows):
            raise Discard()
        if d.chance(1, 3):
            rows = d.shuffle(rows)
        spec = G.gen_spec(d, options=options, links=False)
        spec.grammemes = rows
        path = G.compile_spec(spec, env.scratch, options, lang=d.choice(['ru', 'ru', 'uk']))
        cases = []
        for _ in range(15):
            cases.append((d.sample(names, d.integer(1, 7)), d.sample(names, d.integer(1, 3))))
        runs.append((path, rows, cases))
        d.note('moved', [r[:2] for r in rows if r[0] in moved])

    def child():
        try:
            removed = 0
            for path, rows, cases in runs:
                morph = pymorphy2.MorphAnalyzer(path=path)
                tree = G_tree(rows)
                known = [str(p.tag) for p in morph.iter_known_word_parses()][:5]
                for own, req in cases + [(sorted(grammemes(t)), cases[0][1]) for t in known]:
                    tag = morph.TagClass(','.join(own))
                    want = updated(d, tree, tag, frozenset(own), set(req))
                    removed += bool(set(own) - want)
        except Violation as e:
            return str(e)
        return removed
    res = in_child(child)
    require('ok' in res, 'dictionaries with trees of their own: %s', res)
    require(not isinstance(res['ok'], str), '%s', res['ok'])
    d.label('%d dictionaries' % len(runs))
    if res['ok']:
        d.nontrivial()


def cyclic(rows):
    parents = dict((r[0], r[1]) for r in rows)
    for name in parents:
        seen = set()
        while name:
            if name in seen:
                return True
            seen.add(name)
            name = parents.get(name)
    return False


CHECK = Check(
    'C13', 'a case is a tag of the dictionary with every grammeme of the tree, or with random sets of grammemes, or a dictionary with a random tree of '
           'grammemes and 30 random tags and sets; non-trivial: some grammeme has to go',
    [
        Group('all-tags', all_tags, None, None, C.real_env, ('slow',), enum=lambda env: len(env.raw.gramtab)),
        Group('random-sets', random_sets, 6000, 300000, C.real_env, ('slow',)),
        Group('trees', trees, 250, 10000, C.GenEnv, ('fast',)),
        Group('standard-trees', standard_trees, 100, 4000, C.GenEnv, ('fast',), doc='other trees of the standard names'),
    ],
    assumptions=['grammemes requested at the same time may exclude each other'])
