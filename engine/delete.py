"""Contracts of delete(): the nodes selected and everything below them go, the others stay as they are.

Ghosts: selected(r); topsel(r), the highest selected node among r and its ancestors, if there is one; covered(r): there is one.
That topsel exists is proved by induction over the depth (scene "delete_lemmas")."""
import z3
import core, table, vc, collect
from mp import StrPath, obligation, obligation_forall, T_, F_
from common import *
from core import SymInt, sort, Unsupported, PathEnd, raw


def top_fact(be, a, r):
    S, top, sel = be.S0, be.topsel, be.selected
    return Implies(And(S.live(a), S.live(r), sel(a), be.inside(S, a, r)),
                   And(sel(top(r)), be.inside(S, top(r), r), be.inside(S, top(r), a), top(top(r)) == top(r), top(a) == top(r)))


def start(be, op, node, sel):
    """sel: the given selection (delete_qs)"""
    c, S = be.c, be.S0
    be.derivers, be.counters, be.signal_goals = [], [], []
    base = (lambda s, t: []) if be.name == "ns" else be.derive      # nested sets: parents and endpoints are named where they are needed
    c.derive = lambda s, t: base(s, t) + ([("Row", x) for f in be.derivers for x in f(t)] if s == "Row" else [])
    if op == "delete":
        n = node._row
        be.selected = lambda r: r == n
        be.topsel = lambda r: n
    else:
        be.selected = lambda r: And(S.live(r), sel(r), S.sub(r) if be.model._is_sub else T_)
        top = z3.Function("topsel", sort("Row"), sort("Row"))
        be.topsel = lambda r: top(r)
        be.derivers.append(lambda t: [top(t)])
        if op == "delete_qs": c.forall("the highest selected node above", ["Row", "Row"], lambda a, r: top_fact(be, a, r))
    be.kept = lambda x: And(be.selected(x), be.topsel(x) == x)
    be.covered = lambda r: And(be.selected(be.topsel(r)), be.inside(S, be.topsel(r), r))
    be.gone = memo(lambda r: And(S.live(r), be.covered(r)))
    be.rows_deleted = False
    if be.name == "mp":
        c.forall("lemma: an ancestor has children", ["Row", "Row"], lambda a, r: Implies(And(S.live(a), S.live(r), a != r, be.inside(S, a, r)), be.cc0(a) >= 1))
        be.removed_kids = z3.Function("removedkids", sort("Row"), z3.IntSort())
        K = be.removed_kids
        kw = z3.Function("removedkid", sort("Row"), sort("Row"))
        be.derivers.append(lambda t: [kw(t)])
        c.forall("number of children that go", ["Row"], lambda r: And(Implies(S.live(r), And(K(r) >= 0, K(r) <= be.cc0(r))), Implies(And(S.live(r), K(r) >= 1), And(be.gone(kw(r)), Not(be.isroot(S, kw(r))), be.par0(kw(r)) == r)), Implies(And(be.gone(r), Not(be.isroot(S, r))), K(be.par0(r)) >= 1)))


def memo(f):
    m = {}
    def g(r):
        if r.get_id() not in m: m[r.get_id()] = (f(r), r)
        return m[r.get_id()][0]
    return g


def deleted_rows(be, qs, st):
    """DELETE of a queryset inside a delete() under contract: it must be what the ghost says"""
    if getattr(be, "topsel", None) is None: raise Unsupported("delete inside another operation")
    if be.name == "al":
        # the foreign key of the parent cascades (ORM)
        h = lambda r: qs.holds(st, r)
        obligation_forall("the rows that are deleted are the selected ones; the foreign key of the parent takes everything below along", ["Row"], lambda r: And(Implies(h(r), be.covered(r)), Implies(be.kept(r), h(r))))
    else:
        obligation_forall("exactly the selected nodes and everything below them is deleted", ["Row"], lambda r: Implies(st.live(r), qs.holds(st, r) == be.gone(r)))
        if be.name == "mp": pass
    be.rows_deleted = True
    return be.gone


def contiguous(be, a, m, r):
    """in path order, everything between a node and a node below it is below it too (proved in "delete_lemmas")"""
    S, T = be.S0, be.tree0
    return Implies(And(S.live(a), S.live(m), S.live(r), T.inside(a, r), Not(be.before(S, m, a)), Not(be.before(S, r, m))), T.inside(a, m))


def path_lemmas(be, P):
    S, T = be.S0, be.tree0
    R = sort("Row")
    w, s, t = (z3.Function("lem_" + k, R, R, R) for k in ("under", "forks", "forkt"))
    A = (P.prop,)
    base = lambda r, b: Or(T.root(b), And(r != T.par(b), T.inside(T.par(b), r)))
    good = lambda r, b, u: And(S.live(u), T.inside(u, r), T.child_of(u, T.root(b), T.par(b)))
    P.forall(A, "lemma (induction over the depth): below a node's parent there is a child of it that is an ancestor", ["Row", "Row"],
             lambda r, b: Implies(And(S.live(r), S.live(b), base(r, b), Implies(And(T.D(r) > 1, base(T.par(r), b)), good(T.par(r), b, w(r, b)))), Or(good(r, b, r), good(r, b, w(r, b)))), extra={"+Row": lambda sk: [w(*sk)]})
    fork = lambda a, b, x, y: Or(T.inside(a, b), T.inside(b, a), And(S.live(x), S.live(y), x != y, T.child_of(x, T.root(y), T.par(y)), T.inside(x, a), T.inside(y, b)))
    def step(a, b):
        p = T.par(b)
        return Implies(And(S.live(a), S.live(b), Implies(base(a, b), good(a, b, w(a, b))), Implies(T.D(b) > 1, fork(a, p, s(a, p), t(a, p)))), Or(fork(a, b, s(a, p), t(a, p)), fork(a, b, w(a, b), b)))
    P.forall(A, "lemma (induction over the depth): two nodes, neither below the other, lie below different siblings", ["Row", "Row"], step, extra={"+Row": lambda sk: [w(*sk), s(sk[0], T.par(sk[1])), t(sk[0], T.par(sk[1]))]})
    def order(a, m, r):
        x, y = s(a, m), t(a, m)
        from mp import prefixes
        return Implies(And(Implies(And(S.live(a), S.live(m)), fork(a, m, x, y)), And(prefixes(T, S, x, a, r)), And(be.dfs_facts(a, m, x, y) + be.dfs_facts(r, m, x, y) + be.dfs_facts(m, a, y, x))), contiguous(be, a, m, r))
    P.forall(A, "lemma: in path order, what stands between a node and one below it is below it", ["Row", "Row", "Row"], order, extra={"+Row": lambda sk: [s(sk[0], sk[1]), t(sk[0], sk[1])]})


def lemmas(be, P):
    """induction over the depth: step"""
    S, top = be.S0, be.topsel
    if be.name == "ns":
        rel = lambda a, r: Implies(And(S.live(a), S.live(r)), be.inside(S, a, r) == Or(a == r, And(Not(be.isroot(S, r)), be.inside(S, a, be.par0(r)))))
        P.forall((P.prop,), "lemma: the interval relation is the ancestor relation", ["Row", "Row"], rel)
        be.c.forall("interval relation", ["Row", "Row"], rel)
    def step(a, r):
        p = be.par0(r)
        up = And(Not(be.isroot(S, r)), be.covered(p))
        return Implies(And(S.live(a), S.live(r), top(r) == If(up, top(p), r), Implies(Not(be.isroot(S, r)), And(top_fact(be, a, p), top_fact(be, top(p), p), top_fact(be, r, p)))), top_fact(be, a, r))
    P.forall((P.prop,), "lemma (induction over the depth): there is a highest selected node above a node below a selected one", ["Row", "Row"], step)
    if be.name in ("mp", "lt"): path_lemmas(be, P)
    if be.name == "mp":
        lem = lambda a, r: Implies(And(S.live(a), S.live(r), a != r, be.inside(S, a, r)), be.cc0(a) >= 1)
        P.forall((P.prop,), "lemma (induction over the depth): an ancestor has children", ["Row", "Row"], lambda a, r: Implies(Implies(Not(be.isroot(S, r)), lem(a, be.par0(r))), lem(a, r)))


def check(P, be):
    c, S0, S1 = be.c, be.S0, be.W.state
    gone = be.gone
    par1 = lambda r: be.par0(r)
    be.par1 = par1
    # the terms the argument is about: the parent, the highest selected nodes above a row and above its parent
    def near(sks):
        rs = [t for t in sks if t.sort() == sort("Row")]
        tops = [be.top0(r) for r in rs] if be.name == "ns" else []
        return [t for r in rs for t in (be.par0(r), be.topsel(r), be.topsel(be.par0(r)))] + tops + [be.topsel(t) for t in tops]
    N = {"+Row": near}
    P.forall(("C07",), "exactly the selected nodes and everything below them is deleted", ["Row"], lambda r: S1.live(r) == And(S0.live(r), Not(gone(r))))
    P.forall(("C07",), "the others keep their data", ["Row"], lambda r: Implies(And(S1.live(r), S0.live(r)), And([eqv(S1.get(f, r), S0.get(f, r)) for f in be.user])))
    P.forall(("C07",), "the others keep their parent", ["Row"], lambda r: Implies(S1.live(r), And(be.parent_is(S1, r, be.par0(r), be.isroot(S0, r)), Or(be.isroot(S0, r), S1.live(be.par0(r))))), N)
    P.forall(("C07",), "the others keep their relative order", ["Row", "Row"], lambda a, b: Implies(And(S1.live(a), S1.live(b), be.comparable(S0, a, b)), be.before(S1, a, b) == be.before(S0, a, b)))
    for name, sorts, fn in be.wf(S1, par1, *be.ghost_delete(P)):
        ex = N
        if name == "no endpoint is unused":
            wx = be.wf_extra(name, c.fresh("no", "Row"))
            ex = {**wx, "+Row": lambda sks, f=wx.get("+Row"): (f(sks) if f else []) + near(sks)}
        P.forall(be.tree_props + ("C07",), "invariant after the call: " + name, sorts, fn, ex)
    if be.order:
        for name, sorts, fn in be.sorted_wf(S1, par1): P.forall(("C06",), name + " after the call", sorts, fn)


# ------------------------------------------------------------------------------------------------------------ MP, LT
def mp_ghost(be, P):
    """(tree, number of children): the children that go are counted by the code"""
    S0, S1, K = be.S0, be.W.state, be.removed_kids
    for coll in be.counters:
        hk, cnt, of = coll.counting()
        P.forall(be.tree_props + ("C07",), "counting lemma: what is counted for a node are exactly its children that go", ["Row", "Row"],
                 lambda p, x: Implies(And(S0.live(p), Not(be.gone(p))), of(x, p) == And(be.gone(x), Not(be.isroot(S0, x)), be.par0(x) == p)))
        be.c.forall("the count of a node", ["Row"], lambda p: Implies(And(S0.live(p), Not(be.gone(p))), K(p) == If(hk(p), cnt(p), 0)))
    return S1.tree, lambda r: be.cc0(r) - K(r)


def deleted_signal(be, P):
    """nodes_deleted names exactly the rows that went"""
    S0 = be.S0
    sg = [s for s in be.W.signals if s[0] is be.mod.nodes_deleted]
    P.goal(("C16",), "signals: nothing but nodes_deleted is sent", BoolVal(len(sg) == len(be.W.signals)))
    P.goal(("C16",), "signals: nodes_deleted is sent at most once", BoolVal(len(sg) <= 1))
    if not sg:
        P.forall(("C16",), "signals: nodes_deleted is sent when something was deleted", ["Row"], lambda r: Not(be.gone(r)))
        return
    P.goal(("C16",), "signals: it is sent by the tree model", BoolVal(sg[0][1] is be.Base or sg[0][1] is be.model and be.cfg.get("model") == "proxy"))
    kw = sg[0][2]
    t = be.tree0
    def named(r):
        out = []
        pks, paths = kw.get("pks_to_remove"), kw.get("paths_to_remove")
        for coll, is_pk in ((pks, True), (paths, False)):
            if isinstance(coll, (list, set)) and not coll or coll is None: continue
            if not isinstance(coll, collect.Coll): raise Unsupported("signal arguments")
            if coll.nothing: continue
            if is_pk: out.append(coll.contains(r))
            else: out.append(below(coll, r))
        return Or(out) if out else F_
    def below(coll, r):
        k = be.topsel(r)
        # a witness is enough in one direction, any element counts in the other
        return And(coll.has(k, StrPath.of(t, k) if be.name == "mp" else be.path_value(S0, k)), t.inside(k, r))
    P.forall(("C16",), "signals: nodes_deleted names every row that went", ["Row"], lambda r: Implies(be.gone(r), named(r)))
    for key in ("pks_to_remove", "paths_to_remove"):
        coll = kw.get(key)
        if isinstance(coll, collect.Coll) and not coll.nothing:
            for g, e in coll.alts:
                def ok(x, g=g, e=e):
                    k = e(x)
                    row = k.t if isinstance(k, table.SymPk) else k.row if isinstance(k, StrPath) and not k.steps else None
                    return F_ if row is None else Implies(And(coll.member(x), g(x)), be.gone(row))
                P.forall(("C16",), "signals: nodes_deleted names only rows that went", ["Row"], ok)


# ---------------------------------------------------------------------------------------------------------------- NS
class Closing(vc.Plain):
    """for each removed range, from the last one back: the numbers after it go down by its length

    invariant, when the ranges from row z's on have been closed: the endpoints that are left are in their old order; those before z's
    range have their old value, those after it have at least the value at which that range began; every number up to the right end of
    a tree is the endpoint of a row that is left, or lies in a range that is still open."""
    def __init__(self, key, it, loc, assigned):
        c, W = core.C, table.W
        be = self.be = W.spec
        S0, g0 = be.S0, be.S0.get
        coll = it.coll.settled()
        self.S, self.havoc = W.state, {k: collect.Poison() for k in assigned if k != "."}
        if "." in assigned: raise Unsupported("a loop that changes objects")
        if not it.down: raise Unsupported("gaps closed from the first one on")
        if len(coll.alts) != 1 or not be.rows_deleted: raise Unsupported("a loop over ranges")
        x = c.fresh("ini", "Row")
        guard, entry = coll.alts[0]
        e = entry(x)
        if not (isinstance(e, tuple) and len(e) == 3): raise Unsupported("a loop over ranges")
        if not c.ask(And((And(coll.member(x), guard(x)) == be.kept(x)), Implies(be.kept(x), And(raw(e[0]) == g0("tree_id", x), raw(e[1]) == g0("lft", x), raw(e[2]) == g0("rgt", x)))), 8000, {"Row": [x]}):
            raise Unsupported("a loop over ranges")
        self.entry = entry
        self.later = lambda a, b: Or(g0("tree_id", a) > g0("tree_id", b), And(g0("tree_id", a) == g0("tree_id", b), g0("lft", a) > g0("lft", b)))
        if it.order is not None: obligation_forall("loop: the gaps are closed from the last one back", ["Row", "Row"], lambda a, b: Implies(And(be.kept(a), be.kept(b), it.order(a, b)), self.later(b, a)))
        self.live = self.S.live
        # the invariant holds before the first range
        self.inv("at the start: ", self.S, None, obligation_forall)
        self.phase = "first" if c.branch(c.fresh("firstrange", z3.BoolSort()), "loop: the first range") else "later" if c.branch(c.fresh("laterrange", z3.BoolSort()), "loop: any later range") else "exit"
        if self.phase == "first": return
        W.writes.append(("loop", W.atomic > 0))
        if W.atomic == 0: W.segments += 2
        R, I = sort("Row"), z3.IntSort()
        lf, rg = z3.Function("lftC", R, I), z3.Function("rgtC", R, I)
        self.at = z3.Function("atC", R, I, R)
        W.state = self.S.with_update(lambda r: T_, {"lft": lambda r: lf(r), "rgt": lambda r: rg(r)})
        W.mirror = mirror_of(be, W.state)
        if self.phase == "later":
            self.z = c.term("Row", c.fresh("closed", "Row"))
            c.assume(be.kept(self.z))
            self.inv("", W.state, self.z, lambda name, sorts, fn, *a: c.forall(name, sorts, fn), self.at)
        else:
            # everything is closed (or there was nothing to close)
            self.inv("", W.state, "all", lambda name, sorts, fn, *a: c.forall(name, sorts, fn), self.at)
            be.density1 = self.at

    def inv(self, pre, S, z, tell, at=None):
        """z: None - nothing closed yet; row - ranges from its own on; "all" """
        be = self.be
        g0, g, live = be.S0.get, S.get, self.live
        ends = ("lft", "rgt")
        start = "the gaps are closed: "
        is_row = z is not None and not isinstance(z, str)
        if z is None: open_ = lambda y: be.kept(y)
        elif is_row: open_ = lambda y: And(be.kept(y), self.later(z, y))
        else: open_ = lambda y: F_
        tell(pre + start + "other columns", ["Row"], lambda r: Implies(live(r), And([eqv(g(f, r), be.S0.get(f, r)) for f in ("tree_id", "depth") + be.user])))
        tell(pre + start + "left end of a tree", ["Row"], lambda r: Implies(And(live(r), g0("lft", r) == 1), g("lft", r) == 1))
        tell(pre + start + "order", ["Row", "Row"], lambda r, s: Implies(And(live(r), live(s), g0("tree_id", r) == g0("tree_id", s)), And([Implies(g0(e, r) < g0(f, s), g(e, r) < g(f, s)) for e in ends for f in ends])))
        if is_row:
            tell(pre + start + "values before and after", ["Row"], lambda r: Implies(live(r), And([And(
                Implies(Or(g0("tree_id", r) < g0("tree_id", z), And(g0("tree_id", r) == g0("tree_id", z), g0(e, r) < g0("lft", z))), g(e, r) == g0(e, r)),
                Implies(And(g0("tree_id", r) == g0("tree_id", z), g0(e, r) >= g0("lft", z)), g(e, r) >= g0("lft", z))) for e in ends])))
        elif z is None:
            tell(pre + start + "values", ["Row"], lambda r: Implies(live(r), And([g(e, r) == g0(e, r) for e in ends])))
        if at is None: return
        # no number is unused
        hole = z3.Function("openrange", sort("Row"), z3.IntSort(), sort("Row"))
        self.hole = hole
        def dens(t, k):
            w, y = at(t, k), hole(t, k)
            own = And(live(w), g0("tree_id", w) == g0("tree_id", t), Or(g("lft", w) == k, g("rgt", w) == k))
            inn = And(open_(y), g0("tree_id", y) == g0("tree_id", t), g0("lft", y) <= k, k <= g0("rgt", y))
            return Implies(And(live(t), g0("lft", t) == 1, 1 <= k, k <= g("rgt", t)), Or(own, inn) if not isinstance(z, str) else own)
        self.dens = dens
        if not self.be.c.replaying() or True: self.dens_fact = dens

    def elements(self):
        c, W, be = core.C, table.W, self.be
        if self.phase == "exit":
            return
        S, g0 = W.state, be.S0.get
        x = c.term("Row", c.fresh("range", "Row"))
        c.assume(be.kept(x))
        if self.phase == "later":
            z = self.z
            c.assume(self.later(z, x))
            c.forall("next range", ["Row"], lambda y: Implies(And(be.kept(y), self.later(z, y), y != x), self.later(x, y)))
        else: c.forall("last range", ["Row"], lambda y: Implies(And(be.kept(y), y != x), self.later(x, y)))
        sg = len(be.signal_goals)
        yield self.entry(x)
        S1 = W.state
        names = be.fields + be.user
        obligation_forall("loop: no row comes or goes", ["Row"], lambda r: S1.live(r) == S.live(r))
        for goal in be.signal_goals[sg:]: obligation("signal arguments", goal)
        be.signal_goals = be.signal_goals[:sg]
        self.inv("kept: ", S1, x, obligation_forall)
        m = W.mirror
        obligation_forall("loop: the mirror follows", ["Row"], lambda r: And(m.live(r) == S1.live(r), Implies(S1.live(r), And([eqv(m.get(f, r), S1.get(f, r)) for f in be.mirror_fields]))))
        # no number is unused: the owner of number k after the step
        t, k = c.term("Row", c.fresh("tree", "Row")), c.fresh("number", "Int")
        gap = g0("rgt", x) - g0("lft", x) + 1
        live, g = self.live, S1.get
        olds = []
        for kk in (k, k + gap):
            if self.phase == "later":
                w, y = self.at(t, kk), self.hole(t, kk)
                c.assume(self.dens(t, kk))
            else:
                w = be.at0(t, kk)
                y = be.topsel(w)
                c.assume(be.density_pre(t, kk))
            c.term("Row", w); c.term("Row", y)
            olds.append((w, y))
        own = [And(live(w), g("tree_id", w) == g0("tree_id", t), Or(g("lft", w) == k, g("rgt", w) == k)) for w, y in olds]
        inn = [And(be.kept(y), self.later(x, y), g0("tree_id", y) == g0("tree_id", t), g0("lft", y) <= k, k <= g0("rgt", y)) for w, y in olds]
        obligation("kept: the gaps are closed: no number is unused", Implies(And(live(t), g0("lft", t) == 1, 1 <= k, k <= g("rgt", t)), Or(own + inn)))
        raise PathEnd


def mirror_of(be, st):
    return table.State(lambda r: st.live(r), {k: (lambda r, k=k: st.get(k, r)) for k in be.fields})


def ns_ghost(be, P):
    S1, S0 = be.W.state, be.S0
    at1 = getattr(be, "density1", None)
    if at1 is None:
        def at(t, k):
            w = be.at0(t, k)
            be.c.assume(be.density_pre(t, k))
            return [w]
        be.density_at = lambda t, k: [be.at0(t, k)]
    else:
        cl = be.closing
        def at(t, k):
            be.c.assume(cl.dens(t, k))
            return [at1(t, k)]
        be.density_at = lambda t, k: [at1(t, k)]
    return (lambda r: be.top0(r)), at
