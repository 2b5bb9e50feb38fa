"""Contracts of treebeard.mp_tree.

A stored path is a sequence of steps.  The table's paths denote a tree (`Tree`): every path of a live row is the path of its parent
plus one step `pos`.  A path held by the code (`StrPath`) is the path of a row, or the empty path, followed by known steps; it belongs
to the tree in which it was read and is carried over to a later one only while the prefix it stands on has not been rewritten.
The number codec is used by its contract (C10): _str2int(_int2str(n)) = n, one step holds exactly the numbers 0..M.
"""
import z3
import core, table, vc, mpath
from common import *
from core import SymInt, SymBool, sort, Unsupported, PathEnd, Restart, raw


def proves(g, timeout=4000): return core.C.ask(g, timeout)


def obligation(name, g, extra=None):
    """a condition that must hold at this point of the path"""
    be = table.W.spec
    if not core.C.replaying(): core.C.checks.append(prove(core.C, f"{be.prefix}: {name}", g, extra))
    core.C.assume(g)


def obligation_forall(name, sorts, fn, lemma=None):
    """lemma(*sks): facts of string prefixes at the arbitrary rows of the obligation"""
    sks = [core.C.fresh("skl", s) for s in sorts]
    ex = {}
    if lemma: core.C.assume(*lemma(*sks))
    for s, t in zip(sorts, sks): ex.setdefault(s, []).append(t)
    g = fn(*sks)
    if not core.C.replaying(): core.C.checks.append(prove(core.C, f"{table.W.spec.prefix}: {name}", g, ex))


# ------------------------------------------------------------------------------------------------------------ trees
def memo2(f):
    m = {}
    def g(*a):
        k = tuple(x.get_id() for x in a)
        if k not in m: m[k] = (f(*a), a)
        return m[k][0]
    return g


class Tree:
    n = 0
    def __init__(self, par, pos, D, inside, prev=None, changed=None):
        self.par, self.pos, self.D, self.inside = memo2(par), memo2(pos), memo2(D), memo2(inside)
        self.prev, self.changed = prev, changed      # changed(row) -> Bool: the path of this row was rewritten by the last step
        Tree.n += 1
        self.k = prev.k + 1 if prev is not None else 0
        self.lexf = z3.Function(f"lex{self.k}", sort("Row"), sort("Row"), z3.BoolSort())
        self.occ = {}

    def root(self, r): return self.D(r) == 1
    def same(self): return Tree(self.par, self.pos, self.D, self.inside, self, lambda r: BoolVal(False))
    def child_of(self, r, proot, prow):
        """r is a child of the base (root level if proot)"""
        if z3.is_true(proot): return self.root(r)
        if z3.is_false(proot): return And(Not(self.root(r)), self.par(r) == prow)
        return And(self.root(r) == proot, Or(proot, self.par(r) == prow))
    def depth_of(self, proot, prow):
        if z3.is_true(proot): return z3.IntVal(0)
        if z3.is_false(proot): return self.D(prow)
        return If(proot, 0, self.D(prow))

    def attach(self, m, proot, prow, v):
        """the branch of row m becomes the child of the base at position v"""
        t = self
        ins = t.inside
        par = lambda r: If(r == m, prow, t.par(r))
        pos = lambda r: If(r == m, v, t.pos(r))
        D = lambda r: If(ins(m, r), t.D(r) - t.D(m) + t.depth_of(proot, prow) + 1, t.D(r))
        inside = lambda a, b: If(ins(m, b), If(ins(m, a), ins(a, b), And(Not(proot), ins(a, prow))), ins(a, b))
        return Tree(par, pos, D, inside, t, lambda r: ins(m, r))

    def insert(self, n, proot, prow, v):
        t = self
        return Tree(lambda r: If(r == n, prow, t.par(r)), lambda r: If(r == n, v, t.pos(r)), lambda r: If(r == n, t.depth_of(proot, prow) + 1, t.D(r)),
                    lambda a, b: If(b == n, Or(a == n, And(Not(proot), t.inside(a, prow))), And(a != n, t.inside(a, b))), t, lambda r: BoolVal(False))

    def shift(self, live, proot, prow, lo, hi):
        """the children of the base at positions lo..hi go one position to the right"""
        t, c = self, core.C
        sh = lambda r: And(live(r), t.child_of(r, proot, prow), lo <= t.pos(r), t.pos(r) <= hi)
        known = {}
        def changed(r):
            if r.get_id() not in known: known[r.get_id()] = (_changed(r), r)
            return known[r.get_id()][0]
        def _changed(r):
            e, w = c.fresh("inshift", z3.BoolSort()), c.term("Row", c.fresh("shifted", "Row"))
            c.assume(Implies(e, And(sh(w), t.inside(w, r))))
            c.forall("not in a shifted branch", ["Row"], lambda x: Implies(And(Not(e), sh(x)), Not(t.inside(x, r))))
            return e
        return Tree(t.par, lambda r: t.pos(r) + If(sh(r), 1, 0), t.D, t.inside, t, changed)

    def occupant(self, proot, prow, v):
        """(exists, row): the live row at this place"""
        c = core.C
        key = (proot.get_id(), prow.get_id(), v.get_id())
        if key not in self.occ:
            st = self.state
            e, w = c.fresh("occupied", z3.BoolSort()), c.term("Row", c.fresh("occ", "Row"))
            at = lambda r: And(st.live(r), self.child_of(r, proot, prow), self.pos(r) == v)
            c.assume(Implies(e, at(w)))
            c.forall("free place", ["Row"], lambda r: Implies(Not(e), Not(at(r))))
            self.occ[key] = (e, w, proot, prow, v)
        return self.occ[key][:2]


def prefixes(t, st, *rows):
    """the prefix relation of strings at these rows: transitive, and prefixes of one string are comparable"""
    out = []
    for a in rows:
        for b in rows:
            out.append(Implies(And(t.inside(a, b), t.inside(b, a), st.live(a), st.live(b)), a == b))
            for m in rows:
                out.append(Implies(And(t.inside(a, m), t.inside(m, b)), t.inside(a, b)))
                out.append(Implies(And(t.inside(a, b), t.inside(m, b)), Or(t.inside(a, m), t.inside(m, a))))
    return out


NOROW = None
def norow():
    global NOROW
    if NOROW is None: NOROW = z3.Const("norow", sort("Row"))
    return NOROW

T_, F_ = z3.BoolVal(True), z3.BoolVal(False)


def steps_of(k, ell):
    """number of whole steps in a character count"""
    if isinstance(k, int):
        if k % ell: raise Unsupported("slice inside a step")
        return z3.IntVal(k // ell)
    t = k.t
    if not proves(t % ell == 0): raise Unsupported("slice inside a step")
    return z3.simplify(t / ell)


class StrPath:
    vc_is_str = True
    __hash__ = None
    def __init__(self, tree, root, row, steps=(), ov=None):
        self.tree, self.root, self.row, self.steps, self.ov = tree, root, row, tuple(steps), ov
        self.lifted = {}
    @classmethod
    def of(cls, tree, row): return cls(tree, F_, row)
    @classmethod
    def empty(cls, tree): return cls(tree, T_, norow())

    def __repr__(self): return f"path({self.row}+{self.steps}@{self.tree.k})"
    @property
    def ell(self): return table.W.spec.ell

    def ok(self):
        if self.ov is not None:
            if not proves(self.ov == 0): obligation("no step beyond the last one is used", self.ov == 0)
            self.ov = None
        return self

    # ---- structure
    def nsteps(self):
        n = self.tree.depth_of(self.root, self.row)
        return n + len(self.steps) if self.steps else n
    def drop(self):
        if self.steps: return type(self)(self.tree, self.root, self.row, self.steps[:-1])
        return type(self)(self.tree, self.tree.root(self.row), self.tree.par(self.row))
    def last(self): return self.steps[-1] if self.steps else self.tree.pos(self.row)
    def is_row(self): return not self.steps and z3.is_false(z3.simplify(self.root))
    def prefix(self, j):
        L = self.nsteps()
        if proves(j == L - 1): return self.drop()
        if proves(j == L): return self
        if proves(j == 0): return type(self).empty(self.tree)
        c = core.C
        if c.branch(j < 0, "negative slice"): raise Unsupported("negative slice")
        if c.branch(j >= L, "slice beyond the end"): return self
        if c.branch(j == L - 1, "all but the last step"): return self.drop()
        if c.branch(j == 0, "empty prefix"): return type(self).empty(self.tree)
        s = self
        while s.steps: s = s.drop()
        if self.steps and c.branch(j == s.nsteps()): return s
        a = c.term("Row", c.fresh("anc", "Row"))
        t, live = self.tree, self.tree.state.live
        c.assume(live(a), t.inside(a, s.row), t.D(a) == j)
        c.forall("there is one ancestor at each level", ["Row"], lambda b: Implies(And(live(b), t.inside(b, s.row), t.D(b) == j), b == a))
        return type(self).of(self.tree, a)

    # ---- carrying over to a later tree
    def lift(self, tree):
        self.ok()
        if tree is self.tree: return self
        if tree.k not in self.lifted: self.lifted[tree.k] = (self._lift(tree), tree)
        return self.lifted[tree.k][0]
    def _lift(self, tree):
        chain, t = [], tree
        while t is not self.tree:
            chain.append(t)
            t = t.prev
            if t is None: raise Unsupported("a path of a later state")
        s = self
        for t in reversed(chain):
            if z3.is_true(z3.simplify(s.root)):
                s = type(self)(t, s.root, s.row, s.steps); continue
            ch = And(Not(s.root), t.changed(s.row))
            if not core.C.branch(ch, "path rewritten"):
                s = type(self)(t, s.root, s.row, s.steps); continue
            d = type(self)(s.tree, s.tree.root(s.row), s.tree.par(s.row), (s.tree.pos(s.row),) + s.steps)
            ch2 = And(Not(d.root), t.changed(d.row))
            if core.C.branch(ch2, "prefix rewritten"):
                obligation("no path is used after the branch it lies in has been moved", F_)
                raise PathEnd
            s = type(self)(t, d.root, d.row, d.steps)
        return s

    @staticmethod
    def common(a, b):
        if a.tree is b.tree: return a, b
        if a.tree.k < b.tree.k: return a.lift(b.tree), b
        return a, b.lift(a.tree)

    def other(self, o):
        if isinstance(o, StrPath): return o
        if o is None or o == "": return type(self).empty(self.tree)
        raise Unsupported(f"comparison of a path with {o!r}")

    # ---- relations
    def eq(self, o):
        a, b = StrPath.common(self.ok(), o.ok())
        return StrPath._eq(a, b)
    @staticmethod
    def _eq(a, b):
        if a.steps and b.steps:
            return And(StrPath._eq(a.drop(), b.drop()), a.last() == b.last())
        if not a.steps and not b.steps:
            return Or(And(a.root, b.root), And(Not(a.root), Not(b.root), a.row == b.row))
        if not a.steps: a, b = b, a
        return And(Not(b.root), StrPath._eq(a.drop(), b.drop()), a.last() == b.last())
    def sw(self, o):
        a, b = StrPath.common(self.ok(), o.ok())
        return StrPath._sw(a, b)
    @staticmethod
    def _sw(a, b):
        if a.steps: return Or(StrPath._eq(a, b), StrPath._sw(a.drop(), b))
        if not b.steps:
            return Or(b.root, And(Not(a.root), a.tree.inside(b.row, a.row)))
        if len(b.steps) > 1: raise Unsupported("prefix of several steps")
        e, w = a.tree.occupant(b.root, b.row, b.steps[0])
        return And(Not(a.root), e, a.tree.inside(w, a.row))
    def lt(self, o):
        a, b = StrPath.common(self.ok(), o.ok())
        t = a.tree
        if a.is_row() and b.is_row():
            same = t.child_of(a.row, t.root(b.row), t.par(b.row))
            return If(same, a.last() < b.last(), t.lexf(a.row, b.row))
        if a.is_row() and len(b.steps) == 1: return StrPath._row_lt_step(a, b)
        if b.is_row() and len(a.steps) == 1: return StrPath._step_lt_row(a, b)
        same = And(Not(And(a.root, not a.steps)), Not(And(b.root, not b.steps)), StrPath._eq(a.drop(), b.drop()))
        u = core.C.fresh("lexless", z3.BoolSort())
        core.C.loose.append(same)
        return If(same, a.last() < b.last(), u)
    @staticmethod
    def _parts(t, base, r):
        """(base is a proper prefix of r's path, r is a child of the base, the step of r's path after the base)"""
        inside = Or(base.root, And(r != base.row, t.inside(base.row, r)))
        child = t.child_of(r, base.root, base.row)
        below = z3.Function(f"stepbelow{t.k}", z3.BoolSort(), sort("Row"), sort("Row"), z3.IntSort())(base.root, base.row, r)
        below = If(below < 1, 1, If(below > table.W.spec.M, table.W.spec.M, below))
        return inside, child, If(child, t.pos(r), below)
    @staticmethod
    def _row_lt_step(a, b):
        """row a < base + one step"""
        t, base, v = a.tree, b.drop(), b.steps[0]
        inside, child, s = StrPath._parts(t, base, a.row)
        return If(inside, s < v, Or(And(Not(base.root), Or(a.row == base.row, StrPath.of(t, a.row).lt(StrPath.of(t, base.row))))))
    @staticmethod
    def _step_lt_row(a, b):
        """base + one step < row b"""
        t, base, v = a.tree, a.drop(), a.steps[0]
        inside, child, s = StrPath._parts(t, base, b.row)
        return If(inside, Or(v < s, And(v == s, Not(child))), And(Not(base.root), b.row != base.row, Not(StrPath.of(t, b.row).lt(StrPath.of(t, base.row)))))

    # ---- what Python code does with a path
    def vc_len(self):
        n = self.ell * self.nsteps()
        return SymInt(n if self.ov is None else n + self.ov)
    def __bool__(self):
        if self.steps: return True
        return core.C.branch(Not(self.root), "path is not empty")
    def __getitem__(self, k):
        self.ok()
        if not isinstance(k, slice) or k.step is not None: raise Unsupported(f"path[{k!r}]")
        ell = self.ell
        a, b = k.start, k.stop
        if a is None or isinstance(a, int) and a == 0:
            if b is None: return self
            if isinstance(b, int) and b < 0:
                if b != -ell: raise Unsupported("slice")
                if core.C.branch(self.nsteps() == 0, "empty path"): return self
                return self.drop()
            return self.prefix(steps_of(b, ell))
        if b is None and isinstance(a, int) and a == -ell:
            if core.C.branch(self.nsteps() == 0, "empty path"): return ""
            return Step(self.last())
        if b is None: return Suffix(self, steps_of(a, ell))
        raise Unsupported(f"path[{k!r}]")
    def startswith(self, o): return SymBool(self.sw(self.other(o)))
    def __eq__(self, o):
        if not isinstance(o, (StrPath, str)): return False
        return SymBool(self.eq(self.other(o)))
    def __ne__(self, o):
        if not isinstance(o, (StrPath, str)): return True
        return SymBool(Not(self.eq(self.other(o))))
    def __lt__(self, o): return SymBool(self.lt(self.other(o)))
    def __gt__(self, o): return SymBool(self.other(o).lt(self))
    def __le__(self, o): return SymBool(Not(self.other(o).lt(self)))
    def __ge__(self, o): return SymBool(Not(self.lt(self.other(o))))
    def __add__(self, o):
        self.ok()
        if isinstance(o, Suffix): return o.onto(self)
        be = table.W.spec
        if isinstance(o, str):
            if o == "": return self
            if o == be.Base.alphabet[0] * self.ell: return type(self)(self.tree, self.root, self.row, self.steps + (z3.IntVal(0),))
            if o == be.Base.alphabet[-1] * self.ell: return type(self)(self.tree, self.root, self.row, self.steps + (be.M,))
        if isinstance(o, Step): return type(self)(self.tree, self.root, self.row, self.steps + (o.v,))
        raise Unsupported(f"path + {o!r}")
    def __radd__(self, o):
        if o == "": return self
        raise Unsupported("text + path")
    def vc_fstr(self, vals): return join(vals)
    def vc_str(self): return self

    # ---- what the database does with the column
    def db_lookup(self, ops, arg):
        op = ops[0] if ops else "exact"
        if len(ops) > 1: raise Unsupported("lookup on a path")
        if op == "range":
            lo, hi = [self.other(x).lift(self.tree) for x in arg]
            be = table.W.spec
            if not (len(lo.steps) == 1 and len(hi.steps) == 1 and proves(And(lo.steps[0] == 0, hi.steps[0] == be.M, StrPath._eq(lo.drop(), hi.drop())))):
                return And(Not(self.lt(lo)), Not(hi.lt(self)))
            t, r = self.tree, self.row
            deep = z3.Function(f"deep{t.k}", sort("Row"), z3.BoolSort())
            child = t.child_of(r, lo.root, lo.row)
            return Or(child, And(Not(child), Or(lo.root, And(r != lo.row, t.inside(lo.row, r))), deep(r)))
        if op == "in" and hasattr(arg, "contains"): return arg.contains(self)
        if op == "in": return Or([self.eq(self.other(x)) for x in arg]) if len(arg) else F_
        if op == "isnull": return F_ if arg else T_
        if arg is None: raise Unsupported("path=None")
        o = self.other(arg)
        o = o.lift(self.tree)
        if op == "exact": return StrPath._eq(self, o)
        if op == "startswith": return StrPath._sw(self, o)
        if op == "gt": return o.lt(self)
        if op == "gte": return Not(self.lt(o))
        if op == "lt": return self.lt(o)
        if op == "lte": return Not(o.lt(self))
        raise Unsupported(f"path__{op}")
    def db_less(self, o): return self.lt(o)
    def db_eq(self, o): return self.eq(o)
    def ite(self, c, a, b): raise Unsupported("conditional path")
    def same_value(self, o):
        if not isinstance(o, StrPath): return F_
        return self.eq(o)


class PathSet:
    """the prefixes of a path with lo <= steps < hi"""
    def __init__(self, path, lo, hi): self.path, self.lo, self.hi = path, lo, hi
    def contains(self, v):
        if self.path is None: return F_
        t = v.tree
        p = self.path.lift(t)
        return And(t.inside(v.row, p.row), self.lo <= t.D(v.row), t.D(v.row) < self.hi)
    def __iter__(self): raise Unsupported("iteration over paths")
    def vc_len(self): raise Unsupported("len of paths")


class Step:
    """the text of exactly one step"""
    vc_is_str = True
    def __init__(self, v): self.v = v

class Suffix:
    """path[j:]"""
    def __init__(self, s, j): self.s, self.j = s, j
    def onto(self, p):
        """p + s[j:]"""
        s = self.s
        if not proves(p.nsteps() == self.j): raise Unsupported("splice at another length")
        if proves(s.nsteps() == self.j): return p
        c = core.C
        if c.branch(s.nsteps() == self.j, "nothing after the prefix"): return p
        if s.steps:
            b = StrPath(s.tree, s.root, s.row, s.steps[:-1])
            if c.branch(b.nsteps() == self.j, "one step after the prefix"): return StrPath(p.tree, p.root, p.row, p.steps + (s.last(),))
            if b.steps: raise Unsupported("splice")
        else: b = s
        # the branch at s[:j] now carries the path p: the row that s stands on was carried along
        tree = table.W.state.tree
        if not proves(And(Not(b.root), b.nsteps() > self.j)): raise Unsupported("splice")
        a = c.fresh("spl", "Row")
        c.assume(s.tree.state.live(a), s.tree.inside(a, b.row), s.tree.D(a) == self.j)
        rows = list(c.terms["Row"].values())
        for x in rows:
            if proves(And(s.tree.state.live(x), s.tree.inside(x, b.row), s.tree.D(x) == self.j)):
                c.assume(a == x)        # prefixes of equal length are equal
                a = x
                break
        else: c.term("Row", a)
        if not proves(StrPath._eq(StrPath.of(tree, a), p.lift(tree))): raise Unsupported("splice onto an unrelated path")
        return StrPath(tree, F_, b.row, s.steps[-1:])

class Key:
    """the text of a number without leading zeroes"""
    vc_is_str = True
    def __init__(self, n, l): self.n, self.l = n, l
    def vc_len(self): return SymInt(self.l)
    def vc_fstr(self, vals): return join(vals)
    def rjust(self, w, ch): return join_key(self, w, ch)
    def zfill(self, w): return join_key(self, w, "0")

class Pad:
    vc_is_str = True
    def __init__(self, ch, n): self.ch, self.n = ch, n
    def vc_fstr(self, vals): return join(vals)
core.PAD = Pad

def join(vals):
    be = table.W.spec
    vals = [v for v in vals if not (isinstance(v, str) and v == "")]
    if len(vals) == 1 and isinstance(vals[0], StrPath): return vals[0]
    base = vals.pop(0) if isinstance(vals[0], StrPath) else StrPath.empty(table.W.state.tree)
    if len(vals) == 2 and isinstance(vals[0], Pad) and isinstance(vals[1], Key):
        pad, key = vals
        base.ok()
        if pad.ch == be.Base.alphabet[0] and z3.is_true(z3.simplify(pad.n + key.l == be.ell)):
            return StrPath(base.tree, base.root, base.row, base.steps + (key.n,), If(key.l > be.ell, key.l - be.ell, 0))
        raise Unsupported("padding")
    return "<text>"


# ------------------------------------------------------------------------------------------------------- expressions
class Rewritten:
    """new ++ path[start-1:] for a row"""
    def __init__(self, new, old, n): self.new, self.old, self.n = new, old, n
    def nsteps(self): return self.new.nsteps() + self.old.nsteps() - self.n

def strlen(v):
    if isinstance(v, (StrPath, Rewritten)): return table.W.spec.ell * v.nsteps()
    raise Unsupported("Length of a value")
mpath.STRLEN = strlen
mpath.REWRITE = lambda new, old, start: Rewritten(new.lift(old.tree), old, steps_of(SymInt(raw(start) - 1), table.W.spec.ell))


# ------------------------------------------------------------------------------------------------------------- loops
class SymRun:
    """the nodes at positions lo..hi of one group of siblings, read in the state `st`, in ascending (or descending) order"""
    def __init__(self, st, proot, prow, lo, hi, down=False):
        self.st, self.proot, self.prow, self.lo, self.hi, self.down, self.added = st, proot, prow, lo, hi, down, []
    def append(self, x): self.added.append(x)
    def reverse(self): self.down = not self.down
    def vc_reversed(self): return SymRun(self.st, self.proot, self.prow, self.lo, self.hi, not self.down)
    def __getitem__(self, k):
        if isinstance(k, slice) and k.start is None and k.stop is None and k.step == -1: return self.vc_reversed()
        raise Unsupported("element of a run")
    def __iter__(self): raise Unsupported("iteration over a run")
    def __bool__(self): return core.C.branch(self.hi >= self.lo, "run not empty")


class CollectLoop(vc.Plain):
    """for node in siblings: if node.path > prior: break; run.append(node); prior = node's next path

    invariant: the run holds the visited nodes, they are those at positions lo..h, prior is the path at position h+1, and all
    siblings not yet visited come after position h."""
    def __init__(self, key, qs, loc, assigned):
        c = core.C
        if qs._cache is None: qs._cache = table.W.state
        self.qs, self.st, t = qs, qs._cache, qs._cache.tree
        self.lname = [k for k in assigned if isinstance(loc.get(k), list) and not loc[k]][0]
        self.pname = [k for k in assigned if isinstance(loc.get(k), StrPath)][0]
        p0 = loc[self.pname].lift(t)
        if not p0.steps: p0 = StrPath(t, t.root(p0.row), t.par(p0.row), (t.pos(p0.row),))
        if len(p0.steps) != 1: raise Unsupported("loop without a contract")
        self.p0, lo = p0, p0.steps[0]
        x = c.fresh("ini", "Row")
        if not c.ask(Implies(qs.holds(self.st, x), And(t.child_of(x, p0.root, p0.row), t.pos(x) >= lo)), 8000, {"Row": [x]}):
            raise Unsupported("loop without a contract: rows that are no later siblings")
        self.h = h = c.fresh("h", "Int")
        c.assume(lo <= h + 1)
        if loc[self.pname].ov is not None: raise Unsupported("loop without a contract")
        self.run = SymRun(self.st, p0.root, p0.row, lo, h)
        top = c.term("Row", c.fresh("top", "Row"))
        c.assume(Implies(h >= lo, And(qs.holds(self.st, top), t.pos(top) == h)))      # the last node of the run
        self.some = c.branch(c.fresh("iteration", z3.BoolSort()), "loop: an arbitrary iteration")
        self.havoc = {self.lname: self.run, self.pname: StrPath(t, p0.root, p0.row, (h + 1,))}
        c.assume(h + 1 <= table.W.spec.M)
    def elements(self):
        import sys
        fr = sys._getframe(1)
        c, qs, st, t, h = core.C, self.qs, self.st, self.qs._cache.tree, self.h
        if not self.some:
            c.forall("loop exhausted", ["Row"], lambda r: Implies(qs.holds(st, r), t.pos(r) <= h))
            return
        x = c.term("Row", c.fresh("visited", "Row"))
        c.assume(qs.holds(st, x), t.pos(x) > h)
        c.forall("next in order", ["Row"], lambda r: Implies(And(qs.holds(st, r), t.pos(r) > h), t.pos(r) >= t.pos(x)))
        kept = (table.W.state, len(table.W.writes), len(table.W.signals))
        obj = qs._row_value(x)
        yield obj
        loc = fr.f_locals
        run, prior = loc[self.lname], loc[self.pname]
        good = run is self.run and len(run.added) == 1 and run.added[0] is obj and isinstance(prior, StrPath) and kept == (table.W.state, len(table.W.writes), len(table.W.signals))
        if not good: raise Unsupported("loop without a contract")
        obligation("loop: the run of siblings to shift has no gap and ends before the next path", And(t.pos(x) == h + 1, prior.eq(StrPath(t, self.p0.root, self.p0.row, (h + 2,)))))
        raise PathEnd


class ShiftLoop(vc.Plain):
    """for node in run (from the last one back): the branch of node goes one position to the right

    invariant at threshold J: exactly the siblings at positions J..hi have moved; the paths the code keeps (oldpath, target.path) are
    those of the same place in the moved table."""
    def __init__(self, key, run, loc, assigned):
        c, W = core.C, table.W
        if not run.down: raise Unsupported("loop without a contract: ascending shift")
        self.run, self.S = run, W.state
        self.T = t = W.state.tree
        base = StrPath(run.st.tree, run.proot, run.prow).lift(t)
        self.proot, self.prow = base.root, base.row
        W.read_barrier = None
        self.strs = [k for k in assigned if isinstance(loc.get(k), StrPath)]
        self.objs = [(k, o) for k, o in sorted(loc.items()) if isinstance(o, table.Model) and isinstance(o.__dict__.get("path"), StrPath) and k not in assigned]
        self.start = {k: loc[k].lift(t) for k in self.strs}
        self.ostart = {k: o.__dict__["path"].lift(t) for k, o in self.objs}
        # per kept path: does the code update it along with the table ("follow"), or leave it alone?
        self.fkey = lambda k: (key, "follow", W.spec.prefix, k)
        self.follow = {k: vc.CANDIDATE.get(self.fkey(k), 0) == 0 for k in self.strs + [k for k, _ in self.objs]}
        self.some = c.branch(c.fresh("iteration", z3.BoolSort()), "loop: an arbitrary iteration")
        if self.some:
            self.J = J = c.fresh("J", "Int")
            c.assume(run.lo < J, J <= run.hi + 1)
        else: self.J = J = run.lo
        self.free()
        self.at(J)
        W.writes.append(("loop", W.atomic > 0))
        if W.atomic == 0: W.segments += 2
        self.havoc = {k: self.phi(s, J) for k, s in self.start.items() if self.follow[k]}
        self.apply_objs(J)

    def free(self):
        """the place after the run is free and inside the step's range"""
        S, t, hi = self.S, self.T, self.run.hi
        obligation_forall("loop: the place after the run is free", ["Row"], lambda r: Implies(And(self.run.lo <= hi, S.live(r), t.child_of(r, self.proot, self.prow)), t.pos(r) != hi + 1))
        x = core.C
        core.C.forall("place after the run is free", ["Row"], lambda r: Implies(And(self.run.lo <= hi, S.live(r), t.child_of(r, self.proot, self.prow)), t.pos(r) != hi + 1))

    def tree_at(self, J): return self.T.shift(self.S.live, self.proot, self.prow, J, self.run.hi)
    def at(self, J):
        self.tree = self.tree_at(J)
        table.W.state = self.S.with_tree(self.tree)
    def phi(self, s, J):
        """the path s (of the state before the loop) once positions J..hi have moved"""
        if not s.steps:
            if z3.is_true(z3.simplify(s.root)): return StrPath(self.tree, s.root, s.row)
            return StrPath(self.tree, s.root, s.row)
        b = StrPath(s.tree, s.root, s.row)
        on = And(b.root == self.proot, Or(b.root, b.row == self.prow)) if len(s.steps) == 1 else F_
        v = s.steps[0] + If(And(on, J <= s.steps[0], s.steps[0] <= self.run.hi), 1, 0)
        return StrPath(self.tree, s.root, s.row, (v,) + s.steps[1:])
    def apply_objs(self, J):
        for k, o in self.objs:
            if self.follow[k]: o.__dict__["path"] = self.phi(self.ostart[k], J)

    def elements(self):
        import sys
        fr = sys._getframe(1)
        if not self.some: return
        c, W, run, J = core.C, table.W, self.run, self.J
        x = c.term("Row", c.fresh("runnode", "Row"))
        st = run.st
        c.assume(st.live(x), st.tree.child_of(x, run.proot, run.prow), st.tree.pos(x) == J - 1)
        obj = W.spec.Base._fetched(x, st)
        before = {k: fr.f_locals.get(k) for k in self.strs}
        obefore = {k: o.__dict__["path"] for k, o in self.objs}
        ev0, sg0, fields0 = len(W.events), len(W.signals), W.state
        yield obj
        # ---- the invariant at J-1
        loc = fr.f_locals
        now = W.state
        if len(W.events) == ev0: raise Unsupported("loop without a contract")
        got = now.tree
        want = self.tree_at(J - 1)
        obligation_forall("loop: exactly the node's branch has moved by one place", ["Row", "Row"], lambda a, b: Implies(And(now.live(a), now.live(b)),
            And(got.pos(a) == want.pos(a), got.D(a) == want.D(a), Implies(got.D(a) > 1, got.par(a) == want.par(a)), got.inside(a, b) == want.inside(a, b))),
            lambda a, b: prefixes(self.T, self.S, a, b, x))
        names = [f for f in W.spec.fields + W.spec.user if f != "path"]
        obligation_forall("loop: nothing else changes", ["Row"], lambda r: And(now.live(r) == fields0.live(r), And([eqv(now.get(f, r), fields0.get(f, r)) for f in names])))
        W.spec.match_events(lambda n, g: obligation(n, g), ev0, sg0)
        c.pinned = set(c.pinned)
        saved, self.tree = self.tree, got
        for k, val, old, s0 in [(k, loc.get(k), before[k], self.start[k]) for k in self.strs] + [(k, o.__dict__["path"], obefore[k], self.ostart[k]) for k, o in self.objs]:
            if self.follow[k] and not self.same(val, self.phi(s0, J - 1)):
                vc.CANDIDATE[self.fkey(k)] = 1
                raise Restart
            if not self.follow[k] and val is not old: raise Unsupported("loop without a contract: paths kept by the code")
        self.tree = saved
        raise PathEnd

    def same(self, a, b):
        if not isinstance(a, StrPath): return False
        if a.tree is not b.tree:
            try: a = a.lift(b.tree)
            except Unsupported: return False
        return proves(StrPath._eq(a, b), 8000)


def is_collect(key, it, loc, assigned):
    return isinstance(it, table.QuerySet) and not it._none and any(isinstance(loc.get(k), list) and not loc[k] for k in assigned) and any(isinstance(loc.get(k), StrPath) for k in assigned)

def mp_loops(key, it, loc, assigned):
    if table.W is None or not isinstance(table.W.spec, MP): return None
    if isinstance(it, SymRun): return ShiftLoop(key, it, loc, assigned)
    if is_collect(key, it, loc, assigned): return CollectLoop(key, it, loc, assigned)
    return None
vc.FINDERS.append(mp_loops)


# ----------------------------------------------------------------------------------------------------------- backend
class MP(Back):
    name = "mp"
    fields = ("path", "depth", "numchild")
    mirror_fields = ("path",)
    object_fields = fields
    tree_props = ("C01",)
    signals = True
    ell = 4

    def make_models(self, nodecls):
        super().make_models(nodecls)
        be = self
        def _int2str(cls, num):
            c = core.C
            n = raw(num)
            if c.branch(n < 0, "negative number"): raise core.real(ValueError("number must be positive"))
            l = c.fresh("keylen", "Int")
            c.assume(l >= 1, (l <= be.ell) == (n <= be.M))
            return Key(n, l)
        def _str2int(cls, s):
            if isinstance(s, Step): return SymInt(s.v)
            if isinstance(s, Key): return SymInt(s.n)
            raise Unsupported("_str2int of a text")
        self.Base._int2str = classmethod(_int2str)
        self.Base._str2int = classmethod(_str2int)
        if self.cfg.get("steplen"): self.Base.steplen = self.ell = self.cfg["steplen"]

    def declare(self, c):
        R, I, B = sort("Row"), z3.IntSort(), z3.BoolSort()
        self.cc0 = z3.Function("cc0", R, I)
        self.kid0 = z3.Function("kid0", R, R)
        self.M = z3.Int("M"); self.maxlen = z3.Int("maxlen")
        c.assume(self.M >= 2, self.maxlen >= self.ell)
        pos, D = z3.Function("pos0", R, I), z3.Function("D0", R, I)
        ins = z3.Function("inside0", R, R, B)
        self.tree0 = Tree(lambda r: self.par0(r), lambda r: pos(r), lambda r: D(r), lambda a, b: ins(a, b))
        self.W.events = []
        return {"path": (lambda r: None), "depth": z3.Function("depthcol0", R, I), "numchild": z3.Function("numchild0", R, I)}

    def enter(self, c):
        super().enter(c)
        self.signal_log = []

    def init_state(self, st):
        st.set_tree(self.tree0)
        return st

    def codec_props(self, name): return ("C10",) if name in ("depth is the number of steps", "steps are in range", "paths are distinct") else ()
    def ghost0(self): return (self.tree0, lambda r: self.cc0(r))
    def derive(self, s, t): return [("Row", self.par0(t))] if s == "Row" else []
    def tune_field(self, g):
        if g.name == "path": g.max_length = SymInt(self.maxlen)

    def wf(self, S, par, tree, cc):
        t, g = tree, S.get
        pre = S is self.S0
        out = [
            ("depth is the number of steps", ["Row"], lambda r: Implies(S.live(r), And(g("depth", r) == t.D(r), t.D(r) >= 1, self.ell * t.D(r) <= self.maxlen))),
            ("steps are in range", ["Row"], lambda r: Implies(S.live(r), And(1 <= t.pos(r), t.pos(r) <= self.M))),
            ("the parent's path exists", ["Row"], lambda r: Implies(And(S.live(r), t.D(r) > 1), And(S.live(t.par(r)), t.par(r) == par(r), t.D(t.par(r)) == t.D(r) - 1))),
            ("paths are distinct", ["Row", "Row"], lambda a, b: Implies(And(S.live(a), S.live(b), a != b, t.child_of(a, t.root(b), t.par(b))), t.pos(a) != t.pos(b))),
            ("numchild is the number of children", ["Row"], lambda r: Implies(S.live(r), g("numchild", r) == cc(r))),
        ]
        if pre:
            out += [
                ("number of children", ["Row"], lambda r: Implies(S.live(r), And(cc(r) >= 0, Implies(t.D(r) > 1, cc(t.par(r)) >= 1)))),
                ("a child of a parent", ["Row"], lambda r: Implies(And(S.live(r), cc(r) > 0), And(S.live(self.kid0(r)), t.D(self.kid0(r)) == t.D(r) + 1, t.par(self.kid0(r)) == r))),
                ("inside", ["Row", "Row"], lambda a, r: Implies(And(S.live(a), S.live(r)), And(t.inside(a, r) == Or(a == r, And(t.D(r) > 1, t.inside(a, t.par(r)))), Implies(t.inside(a, r), And(t.D(a) <= t.D(r), Implies(t.D(a) == t.D(r), a == r)))))),
            ]
        return out

    def ghost_insert(self, n, P, rootlevel):
        add = (lambda r: z3.IntVal(0)) if P is None else (lambda r: If(And(Not(rootlevel), r == P), 1, 0))
        return self.W.state.tree, lambda r: If(r == n, 0, self.cc0(r) + add(r))
    def ghost_move(self, n, P, rootlevel):
        return self.W.state.tree, lambda r: self.cc0(r) + If(And(Not(rootlevel), r == P), 1, 0) - If(And(self.tree0.D(n) > 1, r == self.par0(n)), 1, 0)
    def ghost_delete(self, P):
        import delete
        return delete.mp_ghost(self, P)
    def wf_extra(self, name, n): return {"Row": [n]}
    wf_extra_move = wf_extra

    # ---- queries
    def depth0_of(self, r): return self.tree0.D(r)
    def kid_terms(self, n): return [self.kid0(n)]
    def query_facts(self):
        S, T = self.S0, self.tree0
        self.c.forall("lemma: an ancestor has children", ["Row", "Row"], lambda a, r: Implies(And(S.live(a), S.live(r), a != r, T.inside(a, r)), self.cc0(a) >= 1))
    def lemmas(self, P):
        S, T = self.S0, self.tree0
        lem = lambda a, r: Implies(And(S.live(a), S.live(r), a != r, T.inside(a, r)), self.cc0(a) >= 1)
        P.forall((P.prop,), "lemma (induction over the depth): an ancestor has children", ["Row", "Row"], lambda a, r: Implies(Implies(T.D(r) > 1, lem(a, T.par(r))), lem(a, r)))
    def dfs_facts(self, a, b, s, t):
        """order of strings: a proper prefix comes first; what follows the first difference does not matter (proved in strorder.py)"""
        S, T = self.S0, self.tree0
        lt = lambda x, y: self.before(S, x, y)
        lv = And(S.live(a), S.live(b), S.live(s), S.live(t))
        return [Implies(And(S.live(a), S.live(b), a != b, T.inside(a, b)), lt(a, b)),
                Implies(And(lv, T.child_of(s, T.root(t), T.par(t)), T.pos(s) < T.pos(t), T.inside(s, a), T.inside(t, b)), lt(a, b))]
    def count_ghost(self, P, what, n, block): return self.cc0(n) if what == "children" else None
    def range_comp(self, kind, lo, hi, step, elt):
        """[f(k) for k in range(lo, hi, step)] where f(k) is the prefix of k characters of one path"""
        c = core.C
        if not (isinstance(step, int) and step == self.ell): raise Unsupported("comprehension over a range")
        lo, hi = raw(lo), raw(hi)
        if not proves(And(lo % self.ell == 0, hi % self.ell == 0)): raise Unsupported("comprehension over a range")
        lo, hi = z3.simplify(lo / self.ell), z3.simplify(hi / self.ell)
        if not c.branch(lo < hi, "range not empty"): return PathSet(None, lo, hi)
        k = c.fresh("element", "Int")
        c.assume(lo <= k, k < hi)
        p = elt(SymInt(self.ell * k))
        if not (isinstance(p, StrPath) and not p.steps and proves(Not(p.root))): raise Unsupported("comprehension over a range")
        for r in list(c.terms["Row"].values()):
            # which row is it a prefix of?  the last element has length hi-1: the row whose prefixes are taken is at least that deep
            if proves(And(self.S0.live(r), p.tree.inside(p.row, r), p.tree.D(p.row) == k, p.tree.D(r) >= hi - 1, lo >= 1)) and not r.eq(p.row):
                return PathSet(StrPath.of(p.tree, r), lo, hi)
        raise Unsupported("comprehension over a range")

    def isroot(self, S, r): return S.tree.D(r) == 1
    def before(self, S, a, b): return StrPath.of(S.tree, a).lt(StrPath.of(S.tree, b))
    def comparable(self, S, a, b): return And(a != b, self.same_parent(S, S.tree.par, a, b))
    def inside(self, S, n, r): return S.tree.inside(n, r)
    def parent_is(self, S, r, p, rootlevel):
        t = S.tree
        if p is None: return t.D(r) == 1
        return If(rootlevel, t.D(r) == 1, And(t.D(r) > 1, t.par(r) == p))

    def fetch(self, name, *a, **k):
        o = super().fetch(name, *a, **k)
        self.c.term("Row", self.kid0(o._row))
        return o

    def field_defaults(self): return {"numchild": SymInt(z3.IntVal(0)), "path": "", "depth": None}
    def make_stale(self, o):
        o.__dict__["numchild"] = SymInt(self.c.fresh("stale_numchild", "Int"))

    def obj_attrs(self, o): return {f: o.__dict__.get(f) for f in self.fields}

    def path_value(self, st, r): return StrPath.of(st.tree, r)
    def saving(self, o, r, st, vals):
        if "path" in vals:
            p = vals.pop("path")
            if not (isinstance(p, StrPath) and proves(p.eq(self.path_value(st, r)))): raise Unsupported("save() changes the path")
        return vals

    # ---- table changes
    def insert_tree(self, st, row, vals):
        p = vals["path"]
        if not isinstance(p, StrPath): raise Unsupported("a node without a path")
        p = p.lift(st.tree)
        s = p if len(p.steps) == 1 else None
        if s is None:
            if p.steps: raise Unsupported("path of several new steps")
            s = StrPath(st.tree, st.tree.root(p.row), st.tree.par(p.row), (st.tree.pos(p.row),))
        obligation("the new path has room in the column", self.ell * p.nsteps() <= self.maxlen)
        obligation("the new path's parent exists", Or(s.root, st.live(s.row)))
        obligation_forall("the new path is free", ["Row"], lambda r: Implies(st.live(r), Not(And(st.tree.child_of(r, s.root, s.row), st.tree.pos(r) == s.steps[0]))))
        return st.tree.insert(row, s.root, s.row, s.steps[0])

    def update_hook(self, qs, st, kw):
        """UPDATE ... SET path = Concat(new, Substr(path, n)): a branch gets another prefix"""
        if "path" not in kw: return None
        e = kw["path"]
        if not isinstance(e, mpath.Concat): raise Unsupported("update of path")
        c, t = self.c, st.tree
        new, sub = e.parts()
        new = new.ok().lift(t)
        old = None
        for q in qs._conds:
            for k in q.kids:
                if isinstance(k, tuple) and k[0] == "path__startswith": old = k[1]
        if not isinstance(old, StrPath): raise Unsupported("update of path without a prefix")
        oldl = old.lift(t)
        if oldl.steps: ex, m = t.occupant(oldl.root, oldl.row, oldl.steps[0]) if len(oldl.steps) == 1 else (F_, norow())
        else: ex, m = Not(oldl.root), oldl.row
        sk = c.fresh("rw", "Row")
        obligation_forall("the paths that are rewritten are exactly those of one branch", ["Row"], lambda r: qs.holds(st, r) == And(st.live(r), ex, t.inside(m, r)))
        n = c.fresh("updated", "Int")
        if not c.branch(ex, "the branch exists"):
            c.assume(n == 0)
            self.W.events.append((old, new, n))
            return st, n
        start = raw(e.start())
        obligation("a rewritten path is the new prefix followed by the rest of the old path", start == self.ell * oldl.nsteps() + 1)
        s = new if len(new.steps) == 1 else None
        if s is None:
            if new.steps: raise Unsupported("new prefix of several steps")
            s = StrPath(t, t.root(new.row), t.par(new.row), (t.pos(new.row),))
        v = s.steps[0]
        obligation("the branch is not moved into itself", Or(s.root, And(st.live(s.row), Not(t.inside(m, s.row)))))
        obligation_forall("the new path is free", ["Row"], lambda r: Implies(And(st.live(r), r != m), Not(And(t.child_of(r, s.root, s.row), t.pos(r) == v))))
        obligation_forall("the rewritten paths have room in the column", ["Row"], lambda r: Implies(And(st.live(r), t.inside(m, r)), self.ell * (t.D(r) - t.D(m) + t.depth_of(s.root, s.row) + 1) <= self.maxlen))
        tree = t.attach(m, s.root, s.row, v)
        upd = {}
        for f, x in kw.items():
            if f == "path": continue
            if f not in st.fields: raise Unsupported(f"update({f})")
            upd[f] = lambda r, x=x: table.ev(x, st, r, qs)
        st1 = st.with_update(lambda r: And(st.live(r), t.inside(m, r)), upd) if upd else st.with_tree(tree)
        st1.set_tree(tree)
        c.assume(n >= 1)
        self.W.events.append((old, new, n))
        return st1, n

    # ---- signals: one path_updated per rewritten prefix
    def mirror_save(self, o, r): pass
    def on_delete(self, gone, st): pass
    def on_signal(self, sig, sender, kw):
        m = self.mod
        self.signal_log.append((sig, sender, kw, len(self.W.events)))
    def match_events(self, goal, ev0=0, sg0=0):
        ev, sg = self.W.events[ev0:], self.W.signals[sg0:]
        i = 0
        for j, (old, new, n) in enumerate(ev):
            s = sg[i] if i < len(sg) else None
            hit = s is not None and s[0] is self.mod.path_updated and s[2].get("old_path") is old and (s[2].get("new_path") is new or isinstance(s[2].get("new_path"), StrPath) and proves(s[2]["new_path"].lift(new.tree).eq(new)))
            if hit:
                i += 1
                goal("signals: path_updated is sent only when paths have changed", n >= 1)
                goal("signals: path_updated is sent by the tree model", BoolVal(s[1] is self.Base or s[1] is self.model and self.cfg.get("model") == "proxy"))
            else: goal("signals: every rewritten prefix is announced with its old and new value", n == 0)
        goal("signals: every path_updated describes a rewritten prefix", BoolVal(i == len(sg)))

    def check_signals(self, P):
        if getattr(self, "topsel", None) is not None:
            import delete
            return delete.deleted_signal(self, P)
        self.match_events(lambda n, g: P.goal(("C16",), n, g))

    # ---- PathOverflow only when there is no room
    def overflow(self, P, e, op, node, target):
        S0, t = self.S0, self.tree0
        rows = list(self.c.terms.get("Row", {}).values())
        if op == "add_root": full = Or([And(S0.live(x), t.root(x), t.pos(x) == self.M) for x in rows])
        else:
            child = op == "add_child" or op == "move" and P.eff in CHILD
            tr = target._row
            proot, prow = (F_, tr) if child else (t.root(tr), t.par(tr))
            full = Or([And(S0.live(x), t.child_of(x, proot, prow), t.pos(x) == self.M) for x in rows])
            nd = t.depth_of(proot, prow) + 1
            if op == "move": deep = Or([And(S0.live(x), t.inside(node._row, x), self.ell * (t.D(x) - t.D(node._row) + nd) > self.maxlen) for x in rows])
            else: deep = self.ell * nd > self.maxlen
            full = Or(full, deep)
        P.goal(("C12", "C10"), "PathOverflow is raised only when the last position is taken or the column is too short", full)

    def object_cache(self, P, what, o):
        q = o.__dict__.get("_cached_parent_obj")
        if q is not None:
            P.goal(("C18",), f"the parent cached on {what} is its parent", And(Not(self.isroot(self.W.state, o._row)), q._row == self.par1(o._row)))
