# -*- coding: utf-8 -*-
"""The grammeme tree of a dictionary: which grammemes exclude each other."""
from pmv.refmodel import RARE_CASES


class Tree(object):
    def __init__(self, rows):
        """rows: (name, parent, alias, description)"""
        self.parent = dict((r[0], r[1]) for r in rows)
        self.alias = dict((r[0], r[2]) for r in rows)
        self.names = [r[0] for r in rows]

    def family(self, root):
        """Children and grandchildren of a category ('' - of no category)."""
        res = set()
        for n in self.names:
            p = self.parent[n]
            if p and (p == root or self.parent.get(p) == root):
                res.add(n)
        return res

    def incompatible(self, g):
        if g not in self.parent:
            return set()
        res = self.family(self.parent[g]) if self.parent[g] else set()
        if g == 'plur':
            res |= self.family('GNdr') | {'GNdr'}
        return res - {g}

    def updated(self, grs, required):
        res = set(grs) | set(required)
        for g in required:
            res -= self.incompatible(g)
        return res


def fix_rare(grs):
    return frozenset(RARE_CASES.get(g, g) for g in grs)


def similarity(target, grs):
    return len(target & grs) - 0.1 * len(target ^ grs)
