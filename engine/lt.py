"""Contracts of treebeard.ltree.

A path is a list of labels; the table's paths denote a tree as in mp.py, with labels in place of numbered steps.  Labels are the elements
of a countable total order: they are represented by the reals (every countable order embeds in them), ZERO is the label "0".  Appending a
character to a label is a function of which only lemmas on strings over 0-9A-Z are used: the result is greater, appending the same
character to different labels gives different labels, and appending "0" keeps the order.
generate_label is used by its contract (C11), PathValue by the meaning of a list of labels."""
import z3
import core, table, vc, mpath
import mp
from mp import StrPath, Tree, obligation, obligation_forall, proves, norow, T_, F_
from common import *
from core import SymInt, SymBool, sort, Unsupported, PathEnd, raw

Real = z3.RealSort()
ZERO = z3.Const("label0", Real)
def app_fn(s): return z3.Function("append_" + s, Real, Real)
CHARS = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def text(s):
    """a label given as text"""
    if s == "0": return ZERO
    raise Unsupported(f"the label {s!r}")


class Label:
    vc_is_str = True
    __hash__ = None
    def __init__(self, t): self.t = t
    def __repr__(self): return f"label({self.t})"
    def __bool__(self): return True
    def _o(self, o):
        if isinstance(o, Label): return o.t
        if isinstance(o, str) and o: return text(o)
        raise Unsupported(f"comparison of a label with {o!r}")
    def __eq__(self, o): return SymBool(self.t == self._o(o)) if isinstance(o, (Label, str)) and o != "" else False
    def __ne__(self, o): return SymBool(self.t != self._o(o)) if isinstance(o, (Label, str)) and o != "" else True
    def __lt__(self, o): return SymBool(self.t < self._o(o))
    def __le__(self, o): return SymBool(self.t <= self._o(o))
    def __gt__(self, o): return SymBool(self.t > self._o(o))
    def __ge__(self, o): return SymBool(self.t >= self._o(o))
    def __add__(self, o):
        if not (isinstance(o, str) and len(o) == 1 and o in CHARS): raise Unsupported("label + text")
        return Label(app_fn(o)(self.t))
    def vc_fstr(self, vals):
        if len(vals) == 2 and vals[0] is self: return self + vals[1]
        if len(vals) == 1: return self
        raise Unsupported("text around a label")
    def vc_str(self): return self


class LabelAt:
    """label number k of a path, k symbolic"""
    __hash__ = None
    def __init__(self, path, k): self.path, self.k = path, k
    def __eq__(self, o): return SameAt(self, o) if isinstance(o, LabelAt) else False
    def __ne__(self, o): raise Unsupported("comparison of labels at a position")
    def __bool__(self): raise Unsupported("label at a position")


class SameAt:
    """are the labels number k of two paths equal?"""
    def __init__(self, a, b): self.a, self.b = a, b
    def __bool__(self): raise Unsupported("comparison of labels at a position")


class Agree:
    """[p[k] == q[k] for k over the labels of q]"""
    def __init__(self, p, q): self.p, self.q = p, q
    def vc_all(self): return SymBool(self.p.sw(self.q))      # agreeing on all labels of q: q is a prefix
    def __iter__(self): raise Unsupported("iteration over labels")


class Enum:
    """enumerate(path)"""
    def __init__(self, path): self.path = path
    def __iter__(self): raise Unsupported("iteration over a path")
    def vc_comp2(self, kind, cond, elt, has_if):
        if has_if or kind not in ("list", "gen"): raise Unsupported("comprehension over a path")
        c = core.C
        k = c.fresh("index", "Int")
        c.assume(0 <= k, k < self.path.nsteps())
        if c.ask(F_): return []
        v = elt((SymInt(k), LabelAt(self.path, k)))
        if isinstance(v, SameAt):
            for a, b in ((v.a, v.b), (v.b, v.a)):
                if b.path is self.path and b.k.eq(k) and a.k.eq(k): return Agree(a.path, self.path)
        raise Unsupported("comprehension over a path")


class LPath(StrPath):
    vc_is_str = False
    __hash__ = None
    def vc_len(self): return SymInt(self.nsteps())
    def __getitem__(self, k):
        c = core.C
        if isinstance(k, slice):
            if k.step is not None: raise Unsupported(f"path[{k!r}]")
            if k.start not in (None, 0): raise Unsupported(f"path[{k!r}]")
            if k.stop is None: return self
            if isinstance(k.stop, int) and k.stop < 0:
                if c.branch(self.nsteps() + k.stop <= 0, "nothing is left"): return LPath.empty(self.tree)
                return self.drop() if k.stop == -1 else self.prefix(z3.simplify(self.nsteps() + k.stop))
            return self.prefix(raw(k.stop))
        n = self.nsteps()
        k = raw(k)
        if c.branch(k < 0, "negative index"): k = z3.simplify(n + k)
        if not c.branch(And(0 <= k, k < n), "index in range"): raise core.real(IndexError("list index out of range"))
        if proves(k == n - 1): return Label(self.last())
        if z3.is_int_value(z3.simplify(k)) or not z3.is_const(k):
            return Label(self.prefix(k + 1).last())
        return LabelAt(self, k)
    def other(self, o):
        if isinstance(o, Label): return LPath(self.tree, T_, norow(), (o.t,))
        if isinstance(o, list) and not o: return LPath.empty(self.tree)
        return super().other(o)
    def _is(self, o): return isinstance(o, (LPath, Label)) or isinstance(o, (list, str)) and not o
    def __eq__(self, o): return SymBool(self.eq(self.other(o))) if self._is(o) else False
    def __ne__(self, o): return SymBool(Not(self.eq(self.other(o)))) if self._is(o) else True
    def __contains__(self, o): raise Unsupported("label in path")
    def __iter__(self): raise Unsupported("iteration over a path")
    def __add__(self, o):
        if isinstance(o, list) and all(isinstance(x, Label) for x in o): return LPath(self.tree, self.root, self.row, self.steps + tuple(x.t for x in o))
        raise Unsupported(f"path + {o!r}")
    def __radd__(self, o):
        if isinstance(o, list) and not o: return self
        raise Unsupported("list + path")
    def vc_enumerate(self, *a):
        if a: raise Unsupported("enumerate from")
        return Enum(self)
    def vc_fstr(self, vals): raise Unsupported("path in a text")
    def vc_str(self): return self
    def vc_list(self): return self
    def startswith(self, o): raise core.real(AttributeError("'PathValue' object has no attribute 'startswith'"))

    def lt(self, o):
        """labels compare as strings, a proper prefix comes first; below(r, b): the node at b's level and under b's parent that r lies in"""
        a, b = StrPath.common(self.ok(), o.ok())
        t = a.tree
        if a.is_row() and b.is_row():
            same = t.child_of(a.row, t.root(b.row), t.par(b.row))
            under, u = t.under(a.row, b.row)
            return If(same, t.pos(a.row) < t.pos(b.row), If(under, And(u != b.row, t.pos(u) < t.pos(b.row)), t.lexf(a.row, b.row)))
        same = And(Not(And(a.root, not a.steps)), Not(And(b.root, not b.steps)), StrPath._eq(a.drop(), b.drop()))
        x = core.C.fresh("lexless", z3.BoolSort())
        core.C.loose.append(same)
        return If(same, a.last() < b.last(), x)

    def db_lookup(self, ops, arg):
        if ops and ops[0] == "depth":
            n, op = self.nsteps(), ops[1] if len(ops) == 2 else "exact"
            if op == "in": return Or([n == raw(x) for x in arg]) if len(arg) else F_
            v = raw(arg)
            r = {"exact": lambda: n == v, "gt": lambda: n > v, "gte": lambda: n >= v, "lt": lambda: n < v, "lte": lambda: n <= v}.get(op)
            if r is None: raise Unsupported(f"path__depth__{op}")
            return r()
        op = ops[0] if ops else "exact"
        if op == "descendants": return StrPath._sw(self, self.other(arg).lift(self.tree))
        if op == "ancestors": return StrPath._sw(self.other(arg).lift(self.tree), self)
        if op in ("startswith", "range"): raise Unsupported(f"path__{op}")
        return super().db_lookup(ops, arg)


class LTree(Tree):
    """pos holds labels"""
    def __init__(self, *a):
        super().__init__(*a)
        self.uk = self.k
    def under(self, r, b):
        """(r lies below the parent of b, the node of b's group that r lies in)"""
        f = z3.Function(f"under{self.uk}", sort("Row"), sort("Row"), sort("Row"))
        return Or(self.root(b), And(r != self.par(b), self.inside(self.par(b), r))), f(r, b)
    def under_fact(self, st):
        def fact(r, b):
            cond, u = self.under(r, b)
            return Implies(And(st.live(r), st.live(b), cond), And(st.live(u), self.inside(u, r), self.child_of(u, self.root(b), self.par(b)),
                           self.D(u) == self.D(b), Or(u == b, self.pos(u) != self.pos(b)), Implies(self.inside(b, r), u == b), Implies(self.D(r) == self.D(b), u == r), self.D(r) >= self.D(b), Implies(u == b, self.inside(b, r))))
        return fact
    def up(self, t): return LTree(t.par, t.pos, t.D, t.inside, self, t.changed)
    def attach(self, *a): return self.up(super().attach(*a))
    def insert(self, *a): return self.up(super().insert(*a))
    def same(self):
        """nothing is known to have changed"""
        t = LTree(self.par, self.pos, self.D, self.inside, self, lambda r: F_)
        t.uk, t.lexf = self.uk, self.lexf
        return t
    def append(self, live, start, s):
        """the character s is appended to the labels of start and its later siblings"""
        t, f = self, app_fn(s)
        proot, prow, lo = t.root(start), t.par(start), t.pos(start)
        sh = lambda r: And(live(r), t.child_of(r, proot, prow), lo <= t.pos(r))
        return LTree(t.par, lambda r: If(sh(r), f(t.pos(r)), t.pos(r)), t.D, t.inside, t, lambda r: t.in_right(live, start, r))
    def in_right(self, live, start, r):
        cond, u = self.under(r, start)
        return And(live(r), cond, self.pos(u) >= self.pos(start))


# ------------------------------------------------------------------------------------------ labels of the rows of a queryset
class LabelSet:
    """{f(r) for the rows r of a queryset}"""
    def __init__(self, qs, st, fn): self.qs, self.st, self.fn = qs, st, fn
    def __contains__(self, v): raise Unsupported("label in labels")
    def __iter__(self): raise Unsupported("iteration over labels")


class LabelList:
    """[f(r) for the rows r of a queryset, in its order]"""
    __hash__ = None
    def __init__(self, qs, st, fn): self.qs, self.st, self.fn = qs, st, fn
    def vc_sorted(self, *a, **k):
        if a or k: raise Unsupported("sorted with arguments")
        return SortedLabels(self)
    def vc_set(self): return LabelSet(self.qs, self.st, self.fn)
    def __iter__(self): raise Unsupported("iteration over labels")
    def __eq__(self, o):
        if not (isinstance(o, SortedLabels) and o.l is self): raise Unsupported("comparison of lists")
        c, qs, st = core.C, self.qs, self.st
        b = c.fresh("insorted", z3.BoolSort())
        c.forall("already sorted", ["Row", "Row"], lambda x, y: Implies(And(b, qs.holds(st, x), qs.holds(st, y), x != y, qs.before(st, x, y)), self.fn(x) <= self.fn(y)))
        u, v = c.term("Row", c.fresh("unsorted", "Row")), c.term("Row", c.fresh("unsorted", "Row"))
        c.assume(Implies(Not(b), And(qs.holds(st, u), qs.holds(st, v), u != v, Not(qs.before(st, v, u)), self.fn(v) < self.fn(u))))
        return SymBool(b)
    def __ne__(self, o): return SymBool(Not(self.__eq__(o).t))


class SortedLabels:
    __hash__ = None
    def __init__(self, l): self.l = l
    def __eq__(self, o): return o == self if isinstance(o, LabelList) else NotImplemented
    def __ne__(self, o): return o != self if isinstance(o, LabelList) else NotImplemented
    def __iter__(self): raise Unsupported("iteration over labels")


# ------------------------------------------------------------------------------------------------------- SQL on ltree
def flat(e):
    """a path expression as the list of its parts"""
    n = type(e).__name__
    if isinstance(e, mpath.Concat):
        out = []
        for a in e.args: out += flat(a)
        return out
    if isinstance(e, table.Value): return [("lit", e.value)]
    if n == "Subpath":
        f = e.args[0]
        if not (isinstance(f, table.F) and f.name == "path" or f == "path"): raise Unsupported("subpath of an expression")
        return [("sub", raw(e.args[1]), raw(e.args[2]) if len(e.args) > 2 else None)]
    if n == "Text2LTree":
        i = e.args[0]
        if isinstance(i, mpath.Concat) and len(i.args) == 2 and type(i.args[0]).__name__ == "Ltree2Text" and isinstance(i.args[1], table.Value):
            s = i.args[1].value
            inner = flat(i.args[0].args[0])
            if len(inner) == 1 and inner[0][0] == "sub" and inner[0][2] is not None and proves(inner[0][2] == 1) and isinstance(s, str) and len(s) == 1 and s in CHARS:
                return [("app", inner[0][1], s)]
    if isinstance(e, table.F) and e.name == "path": return [("sub", z3.IntVal(0), None)]
    raise Unsupported("path expression")


class LT(Back):
    name = "lt"
    fields = ("path",)
    mirror_fields = ("path",)
    object_fields = fields
    tree_props = ("C03",)
    signals = True

    def make_models(self, nodecls):
        super().make_models(nodecls)
        be = self
        if not hasattr(self.mod, "vc_real_generate_label"): self.mod.vc_real_generate_label = self.mod.generate_label
        self.mod.generate_label = lambda *a, **k: be.label_contract(*a, **k)
        self.mod.PathValue = lambda v: be.path_of(v)

    def path_of(self, v):
        """PathValue(v)"""
        if isinstance(v, LPath): return v
        if isinstance(v, Label): return LPath(self.W.state.tree, T_, norow(), (v.t,))
        if isinstance(v, list) and all(isinstance(x, Label) for x in v): return LPath(self.W.state.tree, T_, norow(), tuple(x.t for x in v))
        if isinstance(v, str) and not v: return LPath.empty(self.W.state.tree)
        raise Unsupported(f"PathValue({v!r})")

    def label_contract(self, skip, before=None, after=None):
        """the contract of generate_label (C11): before and after are neighbours in skip"""
        c = self.c
        b = None if not before else before.t if isinstance(before, Label) else text(before)
        a = None if not after else after.t if isinstance(after, Label) else text(after)
        gap = lambda x: And(T_ if a is None else a < x, T_ if b is None else x < b)
        if isinstance(skip, LabelSet):
            h, st, fn = skip.qs.holds, skip.st, skip.fn
            obligation_forall("generate_label: no used label lies between its neighbours", ["Row"], lambda r: Implies(h(st, r), Not(gap(fn(r)))))
        elif not (isinstance(skip, set) and not skip): raise Unsupported("used labels")
        if b is not None:
            none = b <= (ZERO if a is None else a)
            if a is not None: none = Or(none, b == app_fn("0")(a))
            if c.branch(none, "no label fits in between"): raise self.mod.InvalidLabelConstraints
        l = c.fresh("label", Real)
        c.assume(l >= ZERO, gap(l))
        if isinstance(skip, LabelSet): c.forall("the label is not used", ["Row"], lambda r: Implies(h(st, r), fn(r) != l))
        return Label(l)

    def rows_comp(self, kind, qs, cond, elt, has_if):
        """comprehension over the paths of rows"""
        c = core.C
        if has_if or kind == "gen": raise Unsupported("comprehension over rows")
        if qs._cache is None: qs._cache = self.W.state
        st = qs._cache
        if getattr(st, "torn", None) is not None: self.settle(); raise Unsupported("read between two updates")
        r = c.fresh("each", "Row")
        n, ask0, h = len(c.pc), c.ask, qs.holds(st, r)
        ask = lambda g, timeout=4000, extra_terms=None: ask0(Implies(h, g), timeout, {"Row": [r]})
        def branch(g, why=""):
            if ask(g): return True
            if ask(Not(g)): return False
            raise Unsupported("comprehension over rows with cases")
        c.ask, c.branch = ask, branch
        try: v = elt(qs._row_value(r))
        finally: del c.ask, c.branch
        if len(c.pc) != n or not isinstance(v, Label): raise Unsupported("comprehension over rows")
        fn = lambda x, t=v.t, r=r: z3.substitute(t, (r, x))
        return (LabelSet if kind == "set" else LabelList)(qs, st, fn)

    def declare(self, c):
        R, I, B = sort("Row"), z3.IntSort(), z3.BoolSort()
        pos, D = z3.Function("label0_", R, Real), z3.Function("D0", R, I)
        ins = z3.Function("inside0", R, R, B)
        self.tree0 = LTree(lambda r: self.par0(r), lambda r: pos(r), lambda r: D(r), lambda a, b: ins(a, b))
        self.kid0 = z3.Function("kid0", R, R)
        self.W.events, self.W.reading = [], True
        return {"path": (lambda r: None)}

    def enter(self, c):
        super().enter(c)
        self.c.forall("the group a node lies in", ["Row", "Row"], self.tree0.under_fact(self.S0))
        for ch in "0A": self.append_facts(self.tree0, self.S0, ch)

    def append_facts(self, t, st, ch):
        f = app_fn(ch)
        self.c.assume(f(ZERO) > ZERO)
        self.c.forall("appending makes a label greater", ["Row"], lambda r: Implies(st.live(r), And(t.pos(r) < f(t.pos(r)), f(t.pos(r)) < f(f(t.pos(r))))))
        self.c.forall("appending keeps labels distinct", ["Row", "Row"], lambda a, b: Implies(And(st.live(a), st.live(b)), And((f(t.pos(a)) == f(t.pos(b))) == (t.pos(a) == t.pos(b)), Implies(ch == "0", (f(t.pos(a)) < f(t.pos(b))) == (t.pos(a) < t.pos(b))))))

    def init_state(self, st):
        st.set_tree(self.tree0)
        return st
    def ghost0(self): return (self.tree0,)
    def derive(self, s, t): return [("Row", self.par0(t))] if s == "Row" else []

    def wf(self, S, par, tree):
        t = tree
        pre = S is self.S0
        out = [
            ("every label is a non-empty string of digits and capital letters", ["Row"], lambda r: Implies(S.live(r), And(t.pos(r) >= ZERO, t.D(r) >= 1))),
            ("the parent's path exists", ["Row"], lambda r: Implies(And(S.live(r), t.D(r) > 1), And(S.live(t.par(r)), t.par(r) == par(r), t.D(t.par(r)) == t.D(r) - 1))),
            ("paths are distinct", ["Row", "Row"], lambda a, b: Implies(And(S.live(a), S.live(b), a != b, t.child_of(a, t.root(b), t.par(b))), t.pos(a) != t.pos(b))),
        ]
        if pre:
            out += [
                ("inside", ["Row", "Row"], lambda a, r: Implies(And(S.live(a), S.live(r)), And(t.inside(a, r) == Or(a == r, And(t.D(r) > 1, t.inside(a, t.par(r)))), Implies(t.inside(a, r), And(t.D(a) <= t.D(r), Implies(t.D(a) == t.D(r), a == r)))))),
            ]
        return out

    def finish(self): self.settle()
    def ghost_insert(self, n, P, rootlevel): return (self.W.state.tree,)
    def ghost_move(self, n, P, rootlevel): return (self.W.state.tree,)
    def ghost_delete(self, P): return (self.W.state.tree,)
    def wf_extra(self, name, n): return {"Row": [n]}
    wf_extra_move = wf_extra

    # ---- reading the tree off the fields
    def isroot(self, S, r): return S.tree.D(r) == 1
    def before(self, S, a, b): return LPath.of(S.tree, a).lt(LPath.of(S.tree, b))
    def comparable(self, S, a, b): return And(a != b, self.same_parent(S, S.tree.par, a, b))
    def inside(self, S, n, r): return S.tree.inside(n, r)
    def parent_is(self, S, r, p, rootlevel):
        t = S.tree
        if p is None: return t.D(r) == 1
        return If(rootlevel, t.D(r) == 1, And(t.D(r) > 1, t.par(r) == p))

    # ---- queries
    def depth0_of(self, r): return self.tree0.D(r)
    def lemmas(self, P):
        S, T = self.S0, self.tree0
        w = z3.Function("lem_under", sort("Row"), sort("Row"), sort("Row"))
        cond = lambda r, b: Or(T.root(b), And(r != T.par(b), T.inside(T.par(b), r)))
        good = lambda r, b, u: And(S.live(u), T.inside(u, r), T.child_of(u, T.root(b), T.par(b)))
        P.forall((P.prop,), "lemma (induction over the depth): below a node's parent there is a child of it that is an ancestor", ["Row", "Row"],
                 lambda r, b: Implies(And(S.live(r), S.live(b), cond(r, b), Implies(And(T.D(r) > 1, cond(T.par(r), b)), good(T.par(r), b, w(r, b)))),
                                      Or(good(r, b, r), good(r, b, w(r, b)))), extra={"+Row": lambda sk: [w(*sk)]})
        P.forall((P.prop,), "lemma (induction over the depth): of two ancestors of a node, the higher one is an ancestor of the other", ["Row", "Row", "Row"],
                 lambda a, b, n: Implies(Implies(T.D(n) > 1, And(self.chain(a, b, T.par(n)), self.chain(b, a, T.par(n)))), self.chain(a, b, n)))
    def chain(self, a, b, n):
        S, T = self.S0, self.tree0
        return Implies(And(S.live(a), S.live(b), S.live(n), T.inside(a, n), T.inside(b, n), T.D(a) <= T.D(b)), T.inside(a, b))
    def chain_facts(self, a, b): return [self.chain(a, b, n) for n in self.c.terms["Row"].values()]
    def dfs_facts(self, a, b, s, t):
        S, T = self.S0, self.tree0
        lt = lambda x, y: self.before(S, x, y)
        lv = And(S.live(a), S.live(b), S.live(s), S.live(t))
        return [Implies(And(S.live(a), S.live(b), a != b, T.inside(a, b)), lt(a, b)),
                Implies(And(lv, T.child_of(s, T.root(t), T.par(t)), T.pos(s) < T.pos(t), T.inside(s, a), T.inside(t, b)), lt(a, b))]

    # ---- objects
    def field_defaults(self): return {"path": ""}
    def obj_attrs(self, o): return {f: o.__dict__.get(f) for f in self.fields}
    def make_stale(self, o): pass
    def path_value(self, st, r):
        if getattr(st, "torn", None) is not None and self.W.reading:
            self.settle()
            raise Unsupported("read between two updates")
        return LPath.of(st.tree, r)

    # ---- table changes
    def base_of(self, p, t):
        """(base, label) of a path with one new label"""
        if len(p.steps) == 1: return p
        if p.steps: raise Unsupported("path of several new labels")
        return LPath(t, t.root(p.row), t.par(p.row), (t.pos(p.row),))

    def insert_tree(self, st, row, vals):
        p, t = vals["path"], st.tree
        if not isinstance(p, LPath): raise Unsupported("a node without a path")
        self.settle()
        s = self.base_of(p.lift(t), t)
        obligation("the new path's parent exists", Or(s.root, st.live(s.row)))
        obligation_forall("the new path is free", ["Row"], lambda r: Implies(st.live(r), Not(And(t.child_of(r, s.root, s.row), t.pos(r) == s.steps[0]))))
        return t.insert(row, s.root, s.row, s.steps[0])

    def update_hook(self, qs, st, kw):
        if "path" not in kw: return None
        if len(kw) != 1: raise Unsupported("update of path and other columns")
        self.W.reading = False
        try: return self.path_update(qs, st, kw["path"])
        finally: self.W.reading = True

    def cond_arg(self, qs, keys):
        out = []
        def walk(q):
            if q.neg or q.op == "or": return
            for k in q.kids:
                if isinstance(k, table.Q): walk(k)
                elif k[0] in keys: out.append(k[1])
        for q in qs._conds: walk(q)
        return out

    def path_update(self, qs, st, e):
        c, t = self.c, st.tree
        parts = flat(e)
        n = c.fresh("updated", "Int")
        c.assume(n >= 0)
        torn = getattr(st, "torn", None)
        hold = lambda r: qs.holds(st, r)
        if torn is not None:
            # the rows already rewritten do not change again: they differ in a condition that the rewriting left alone
            kept = [q for q in qs._conds]
            def depth_only(r):
                cs = []
                for q in kept:
                    for k in q.kids:
                        if isinstance(k, tuple) and k[0].startswith("path__depth") and not q.neg and q.op == "and": cs.append(table.lookup(st, r, k[0], k[1], qs))
                return And(cs) if cs else T_
            done = torn["done"]
            if torn["kind"] == "append": obligation_forall("no row is rewritten twice", ["Row"], lambda r: Implies(And(done(r), depth_only(r)), Not(st.live(r))))
            elif torn.get("saved"): hold = lambda r, h=hold: And(h(r), r != torn["m"])
        if len(parts) == 2 and parts[0][0] == "lit" and parts[1][0] == "sub" and parts[1][2] is None: return self.move_update(qs, st, torn, parts[0][1], parts[1][1], hold, n)
        i = [k for k, p in enumerate(parts) if p[0] == "app"]
        if len(i) != 1: raise Unsupported("update of path")
        i = i[0]
        _, k, s = parts[i]
        headless = i == 0
        if i > 1 or i == 1 and not (parts[0][0] == "sub" and parts[0][2] is not None and proves(And(parts[0][1] == 0, parts[0][2] == k))): raise Unsupported("update of path")
        if headless and not proves(k == 0): raise Unsupported("update of path")
        tail = parts[i + 1:]
        if len(tail) > 1 or tail and not (tail[0][0] == "sub" and tail[0][2] is None and proves(tail[0][1] == k + 1)): raise Unsupported("update of path")
        starts = self.cond_arg(qs, ("path__gte",))
        if len(starts) != 1 or not isinstance(starts[0], LPath): raise Unsupported("update of path without a first row")
        start = starts[0]
        sl = start.lift(t)
        if not sl.is_row(): raise Unsupported("update from a path that is no row's")
        row = sl.row
        obligation("the label that is extended is that of the first node and its later siblings", k + 1 == t.D(row))
        obligation_forall("only branches of the node and its later siblings are rewritten", ["Row"], lambda r: Implies(hold(r), t.in_right(st.live, row, r)), lambda r: [])
        if tail: obligation_forall("there are labels after the extended one", ["Row"], lambda r: Implies(hold(r), t.D(r) > k + 1))
        else: obligation_forall("there is no label after the extended one", ["Row"], lambda r: Implies(hold(r), t.D(r) == k + 1))
        if torn is not None:
            if torn["kind"] != "append" or torn["s"] != s: raise Unsupported("two updates of path")
            obligation("both updates start at the same node", torn["row"] == row)
            done = lambda r, d=torn["done"], h=hold: Or(d(r), h(r))
        else: done = hold
        st1 = st.with_tree(t.same())
        st1.torn = {"kind": "append", "row": row, "s": s, "done": self.frozen(done), "start": start, "tree": t}
        x = c.fresh("cov", "Row")
        if c.ask(Implies(t.in_right(st.live, row, x), done(x)), 8000, {"Row": [x]}): st1 = self.commit(st1)
        return st1, n

    def frozen(self, f):
        m = {}
        def g(r):
            if r.get_id() not in m:
                old, self.W.reading = self.W.reading, False
                try: m[r.get_id()] = (f(r), r)
                finally: self.W.reading = old
            return m[r.get_id()][0]
        return g

    def move_update(self, qs, st, torn, new, k, hold, n):
        c, t = self.c, st.tree
        olds = self.cond_arg(qs, ("path__descendants",))
        if len(olds) != 1 or not isinstance(olds[0], LPath) or not isinstance(new, LPath): raise Unsupported("update of path without a prefix")
        old = olds[0]
        ol = old.lift(t)
        if not ol.is_row(): raise Unsupported("update below a path that is no row's")
        m = ol.row
        obligation("a rewritten path is the new prefix followed by the rest of the old path", k == t.D(m))
        obligation_forall("the paths that are rewritten are those of one branch", ["Row"], lambda r: Implies(hold(r), And(st.live(r), t.inside(m, r))))
        obligation_forall("something follows the old prefix", ["Row"], lambda r: Implies(hold(r), t.D(r) > k))
        if torn is not None:
            if torn["kind"] != "move" or torn.get("swept"): raise Unsupported("two updates of path")
            obligation("the branch of the moved node is rewritten with its new path", And(torn["m"] == m, torn["new"].lift(t).eq(new.lift(t))))
        st1 = st.with_tree(t.same())
        st1.torn = {"kind": "move", "m": m, "new": new, "old": old, "done": self.frozen(hold), "swept": True, "saved": torn is not None, "tree": t}
        if torn is not None: st1 = self.commit(st1)
        return st1, n

    def save_state(self, o, r, st, vals):
        """save() of a row: its path may change"""
        if "path" not in vals: return st
        p, t = vals.pop("path"), st.tree
        if not isinstance(p, LPath): raise Unsupported("save() without a path")
        torn = getattr(st, "torn", None)
        cur = LPath.of(t, r)
        if torn is None:
            if proves(p.lift(t).eq(cur)): return st
            st1 = st.with_tree(t.same())
            st1.torn = {"kind": "move", "m": r, "new": p, "old": None, "done": lambda x: x == r, "saved": True, "tree": t}
            return st1
        if torn["kind"] != "move" or torn.get("saved"): raise Unsupported("save between two updates of path")
        obligation("the moved node is saved with the path its branch was given", And(torn["m"] == r, torn["new"].lift(t).eq(p.lift(t))))
        st1 = st.with_tree(t.same())
        st1.torn = dict(torn, saved=True)
        return self.commit(st1)

    def commit(self, st):
        """the updates so far make one change of the tree"""
        c, torn = self.c, st.torn
        t, live = st.tree, st.live
        self.W.reading = False
        try:
            done = torn["done"]
            if torn["kind"] == "append":
                row, s = torn["row"], torn["s"]
                obligation_forall("every node of a shifted branch is rewritten", ["Row"], lambda r: Implies(t.in_right(live, row, r), done(r)))
                new = t.append(live, row, s)
                self.W.events.append(("append", torn["start"], s, torn["tree"]))
            else:
                m = torn["m"]
                if not torn.get("swept"): obligation_forall("the descendants of the moved node are rewritten", ["Row"], lambda r: Not(And(live(r), t.inside(m, r), r != m)))
                else: obligation_forall("all descendants of the moved node are rewritten", ["Row"], lambda r: Implies(And(live(r), t.inside(m, r), r != m), done(r)))
                if not torn.get("saved"): obligation("the moved node itself is rewritten", F_)
                p = self.base_of(torn["new"].lift(t), t)
                v = p.steps[0]
                obligation("the branch is not moved into itself", Or(p.root, And(live(p.row), Not(t.inside(m, p.row)))))
                obligation_forall("the new path is free", ["Row"], lambda r: Implies(And(live(r), r != m), Not(And(t.child_of(r, p.root, p.row), t.pos(r) == v))))
                new = t.attach(m, p.root, p.row, v)
                self.W.events.append(("move", LPath.of(torn["tree"], m), torn["new"], torn["tree"]))
            st1 = st.with_tree(new)
            st1.torn = None
            return st1
        finally: self.W.reading = True

    def settle(self):
        if getattr(self.W.state, "torn", None) is not None: self.W.state = self.commit(self.W.state)

    # ---- signals
    def mirror_save(self, o, r): pass
    def on_delete(self, gone, st): pass
    def on_signal(self, sig, sender, kw): pass
    def check_signals(self, P):
        if getattr(self, "topsel", None) is not None:
            import delete
            return delete.deleted_signal(self, P)
        ev, sg = self.W.events, self.W.signals
        P.goal(("C16",), "signals: every bulk change of paths is announced, and nothing else", BoolVal(len(ev) == len(sg)))
        for e, s in zip(ev, sg):
            want = self.mod.subtree_moved_right if e[0] == "append" else self.mod.subtree_moved
            P.goal(("C16",), "signals: the signal is that of the change", BoolVal(s[0] is want))
            P.goal(("C16",), "signals: it is sent by the tree model", BoolVal(s[1] is self.Base or s[1] is self.model and self.cfg.get("model") == "proxy"))
            if s[0] is not want: continue
            kw = s[2]
            def is_path(x, p): return isinstance(x, LPath) and x.tree.k <= p.tree.k and LPath.eq(x.lift(p.tree), p)
            if e[0] == "append":
                x = kw.get("path")
                same = x is e[1] or isinstance(x, LPath) and x.tree.k <= e[3].k and x.lift(e[3]).eq(e[1].lift(e[3]))
                P.goal(("C16",), "signals: subtree_moved_right names the first path and the suffix", And(same, BoolVal(kw.get("suffix") == e[2])))
            else:
                x, y = kw.get("old_path"), kw.get("new_path")
                P.goal(("C16",), "signals: subtree_moved names the old path", is_path(x, e[1]) if isinstance(x, LPath) else F_)
                P.goal(("C16",), "signals: subtree_moved names the new path", F_ if not isinstance(y, LPath) else T_ if y is e[2] else is_path(y, e[2]))

    def overflow(self, P, e, op, node, target): P.goal(("C12",), "PathOverflow is never raised", F_)

    def object_cache(self, P, what, o):
        q = o.__dict__.get("_cached_parent_obj")
        if q is not None:
            P.goal(("C18",), f"the parent cached on {what} is its parent", And(Not(self.isroot(self.W.state, o._row)), q._row == self.par1(o._row)))
