"""Reference model: an ordered forest with integer node ids. Independent of the library."""
import itertools, random
from functools import lru_cache


class Forest:
    def __init__(self):
        self.kids = {None: []}
        self.par = {}
        self.val = {}          # id -> (val1, val2), sorted trees only

    def copy(self):
        f = Forest()
        f.kids = {k: list(v) for k, v in self.kids.items()}
        f.par = dict(self.par)
        f.val = dict(self.val)
        return f

    def ids(self):
        return list(self.pre(None))

    def pre(self, root, maxd=None, d=0):
        """depth first order below root (root excluded)"""
        if maxd is not None and d >= maxd:
            return
        for k in self.kids[root]:
            yield k
            yield from self.pre(k, maxd, d + 1)

    def insert(self, new, parent, idx):
        self.kids[parent].insert(idx, new)
        self.kids[new] = []
        self.par[new] = parent

    def subtree(self, n):
        return [n] + list(self.pre(n))

    def is_desc(self, a, b):
        """a is a strict descendant of b"""
        p = self.par[a]
        while p is not None:
            if p == b:
                return True
            p = self.par[p]
        return False

    def ancestors(self, n):
        out = []
        p = self.par[n]
        while p is not None:
            out.insert(0, p)
            p = self.par[p]
        return out

    def depth(self, n):
        return len(self.ancestors(n)) + 1

    def tup(self, root=None):
        return tuple((k, self.tup(k)) for k in self.kids[root])

    def key(self, n):
        v1, v2 = self.val[n]
        return (v1, -v2)       # node_order_by = ["val1", "-val2"]

    def sorted_idx(self, group, key):
        """index before the first greater element"""
        for i, g in enumerate(group):
            if self.key(g) > key:
                return i
        return len(group)

    # --- operations -------------------------------------------------------------------------------------------------
    def op_add(self, new, parent, idx):
        self.insert(new, parent, idx)

    def place(self, target, pos, moving=None, key=None):
        """(parent, index) in the forest from which `moving` has already been unlinked; target may be `moving`"""
        raise NotImplementedError

    def unlink(self, n):
        p = self.par[n]
        i = self.kids[p].index(n)
        del self.kids[p][i]
        return p, i

    def move(self, n, t, pos):
        """returns None when rejected as a move below itself, else self"""
        if pos in ("first-child", "last-child", "sorted-child"):
            if n == t:
                return None
            newpar = t
        else:
            newpar = self.par[t]
        if newpar is not None and (newpar == n or self.is_desc(newpar, n)):
            return None
        if t != n and self.is_desc(t, n):
            return None
        if n == t and pos in ("left", "right"):
            return self
        self.unlink(n)
        g = self.kids[newpar]
        if pos.startswith("first"):
            i = 0
        elif pos.startswith("last"):
            i = len(g)
        elif pos == "left":
            i = g.index(t)
        elif pos == "right":
            i = g.index(t) + 1
        else:
            i = self.sorted_idx(g, self.key(n))
        g.insert(i, n)
        self.par[n] = newpar
        return self

    def add_sibling(self, new, t, pos):
        p = self.par[t]
        g = self.kids[p]
        i = {"first-sibling": lambda: 0, "last-sibling": lambda: len(g), "left": lambda: g.index(t),
             "right": lambda: g.index(t) + 1, "sorted-sibling": lambda: self.sorted_idx(g, self.key(new))}[pos]()
        self.insert(new, p, i)

    def delete(self, sel):
        gone = set()
        for s in sel:
            gone.update(self.subtree(s))
        for g in gone:
            p = self.par[g]
            if p not in gone:
                self.kids[p].remove(g)
        for g in gone:
            del self.kids[g], self.par[g]
            self.val.pop(g, None)
        return gone


@lru_cache(None)
def shapes(n):
    """all ordered forests with n nodes, as nested tuples"""
    if n == 0:
        return ((),)
    out = []
    for k in range(1, n + 1):                  # size of the first tree
        for first in shapes(k - 1):
            for rest in shapes(n - k):
                out.append((first,) + rest)
    return tuple(out)


def from_shape(shape, ids, keys=None):
    """build a forest, giving ids in the given order to nodes in preorder"""
    f = Forest()
    it = iter(ids)
    def rec(parent, sh):
        for s in sh:
            n = next(it)
            f.insert(n, parent, len(f.kids[parent]))
            rec(n, s)
    rec(None, shape)
    if keys is not None:
        def rec2(parent):
            vals = sorted((keys() for _ in f.kids[parent]), key=lambda v: (v[0], -v[1]))
            for k, v in zip(f.kids[parent], vals):
                f.val[k] = v
                rec2(k)
        rec2(None)
    return f
