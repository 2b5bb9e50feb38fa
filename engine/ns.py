"""Contracts of treebeard.ns_tree."""
import z3
import core, table, common
from common import *
from core import SymInt, sort


class NS(Back):
    name = "ns"
    fields = ("lft", "rgt", "tree_id", "depth")
    mirror_fields = fields
    object_fields = fields
    tree_props = ("C02",)
    signals = True

    def declare(self, c):
        R, I = sort("Row"), z3.IntSort()
        self.top0 = z3.Function("top0", R, R)
        self.at0 = z3.Function("at0", R, I, R)
        self.at_keys = []
        return {f: z3.Function(f + "0", R, I) for f in self.fields}

    def ghost0(self): return (lambda r: self.top0(r), None)
    def derive(self, s, t):
        if s != "Row": return []
        return [("Row", self.par0(t)), ("Row", self.top0(t)), ("Row", self.at0(self.top0(t), self.S0.get("lft", t) + 1))]

    # ---- the data invariant
    def wf(self, S, par, top, at):
        g = lambda f, r: S.get(f, r)
        T = lambda a, b: g("tree_id", a) == g("tree_id", b)
        inn = lambda a, b: And(g("lft", a) < g("lft", b), g("rgt", b) < g("rgt", a))     # b strictly inside a
        def bounds(r): return Implies(S.live(r), And(g("depth", r) >= 1, g("lft", r) >= 1, g("rgt", r) > g("lft", r), g("tree_id", r) >= 1))
        def nest(a, b): return Implies(And(S.live(a), S.live(b), a != b, T(a, b)), Or(g("rgt", a) < g("lft", b), g("rgt", b) < g("lft", a), inn(a, b), inn(b, a)))
        def root(r): return Implies(S.live(r), (g("lft", r) == 1) == (g("depth", r) == 1))
        def parent(r): return Implies(And(S.live(r), g("depth", r) > 1), And(S.live(par(r)), T(r, par(r)), inn(par(r), r), g("depth", r) == g("depth", par(r)) + 1))
        def closest(a, r): return Implies(And(S.live(a), S.live(r), T(a, r), inn(a, r)), And(g("depth", r) > g("depth", a), Or(a == par(r), inn(a, par(r)))))
        def one(r): return Implies(S.live(r), And(S.live(top(r)), T(r, top(r)), g("lft", top(r)) == 1, Or(top(r) == r, inn(top(r), r))))
        if at is None:
            def dens(t):
                # only two keys per term are ever needed before the call: the endpoint after lft ...
                k = g("lft", t) + 1
                return Implies(S.live(t), self.good(S, top(t), k, self.at0(top(t), k)))
            dsorts = ["Row"]
        else:
            def dens(t, k): return Implies(And(S.live(t), g("lft", t) == 1, 1 <= k, k <= g("rgt", t)), Or([self.good(S, t, k, w) for w in at(t, k)]))
            dsorts = ["Row", "Int"]
        return [("bounds", ["Row"], bounds), ("intervals nested or disjoint", ["Row", "Row"], nest), ("roots start at 1", ["Row"], root),
                ("parent", ["Row"], parent), ("closest enclosing interval is the parent", ["Row", "Row"], closest),
                ("one root per tree", ["Row"], one), ("no endpoint is unused", dsorts, dens)]

    def good(self, S, t, k, w):
        g = lambda f, r: S.get(f, r)
        return And(S.live(w), g("tree_id", w) == g("tree_id", t), Or(g("lft", w) == k, g("rgt", w) == k))

    def density_pre(self, t, k):
        """instance of the pre-state's density"""
        S, g = self.S0, self.S0.get
        return Implies(And(S.live(t), g("lft", t) == 1, 1 <= k, k <= g("rgt", t)), self.good(S, t, k, self.at0(t, k)))

    # ---- ghosts after the call
    def ghost_insert(self, n, P, rootlevel):
        top1 = lambda r: If(r == n, n if P is None else If(rootlevel, n, self.top0(P)), self.top0(r))
        def at1(t, k):
            ws = [n]
            for kk in (k, k - 2):
                w = self.at0(t, kk)
                self.c.assume(self.density_pre(t, kk))
                ws.append(w)
            return ws
        return top1, at1

    def ghost_move(self, n, P, rootlevel):
        S0, g = self.S0, self.S0.get
        top1 = lambda r: If(self.inside(S0, n, r), If(rootlevel, n, self.top0(P)), self.top0(r))
        gap = g("rgt", n) - g("lft", n) + 1
        S1 = self.W.state
        def at1(t, k):
            ws = []
            tn = self.top0(n)
            for tt, kk in [(t, k), (t, k - gap), (t, k + gap), (tn, g("lft", n) + k - S1.get("lft", n)), (tn, k), (tn, k - gap), (tn, k + gap)]:
                w = self.at0(tt, kk)
                self.c.assume(self.density_pre(tt, kk))
                ws.append(w)
            return ws
        return top1, at1

    def wf_extra(self, name, n):
        if name == "no endpoint is unused" and getattr(self, "density_at", None): return {"+Row": lambda sks: self.density_at(*sks)}
        if name == "no endpoint is unused":
            return {"+Row": lambda sks: [n] + [self.at0(sks[0], k) for k in (sks[1], sks[1] - 2)]}
        return {"Row": [n]}

    def wf_extra_move(self, name, n):
        if name == "no endpoint is unused":
            S0, S1 = self.S0, self.W.state
            gap = S0.get("rgt", n) - S0.get("lft", n) + 1
            def f(sks):
                t, k = sks
                tn = self.top0(n)
                return [n] + [self.at0(tt, kk) for tt, kk in [(t, k), (t, k - gap), (t, k + gap), (tn, S0.get("lft", n) + k - S1.get("lft", n)), (tn, k), (tn, k - gap), (tn, k + gap)]]
            return {"+Row": f}
        return {"Row": [n]}

    def ghost_delete(self, P):
        import delete
        return delete.ns_ghost(self, P)
    def sorted_loop(self, *a):
        import delete
        self.closing = delete.Closing(*a)
        return self.closing

    # ---- reading the tree off the fields
    def isroot(self, S, r): return S.get("depth", r) == 1
    def before(self, S, a, b):
        g = S.get
        return Or(g("tree_id", a) < g("tree_id", b), And(g("tree_id", a) == g("tree_id", b), g("lft", a) < g("lft", b)))
    def inside(self, S, n, r):
        g = S.get
        return And(g("tree_id", n) == g("tree_id", r), g("lft", n) <= g("lft", r), g("rgt", r) <= g("rgt", n))
    def parent_is(self, S, r, p, rootlevel):
        """read off the stored fields: r is a root, or p is the enclosing node one level up"""
        g = S.get
        if p is None: return And(g("depth", r) == 1, g("lft", r) == 1)
        return If(rootlevel, And(g("depth", r) == 1, g("lft", r) == 1),
                  And(S.live(p), g("tree_id", r) == g("tree_id", p), g("lft", p) < g("lft", r), g("rgt", r) < g("rgt", p), g("depth", r) == g("depth", p) + 1))

    def object_cache(self, P, what, o):
        q = o.__dict__.get("_cached_parent_obj")
        if q is not None:
            P.goal(("C18",), f"the parent cached on {what} is its parent", And(Not(self.isroot(self.W.state, o._row)), q._row == self.par1(o._row)))

    # ---- queries
    def depth0_of(self, r): return self.S0.get("depth", r)
    def kid_terms(self, n): return [self.at0(self.top0(n), self.S0.get("lft", n) + 1)]
    def lemmas(self, P):
        S = self.S0
        P.forall((P.prop,), "lemma: the interval relation is the ancestor relation", ["Row", "Row"], lambda a, r: Implies(And(S.live(a), S.live(r)),
            self.inside(S, a, r) == Or(a == r, And(Not(self.isroot(S, r)), self.inside(S, a, self.par0(r))))))
    def count_ghost(self, P, what, n, block):
        if what != "descendants" or block[2] is not None: return None
        S, g, c = self.S0, self.S0.get, self.c
        k = c.fresh("endpoint", "Int")
        w = self.at0(self.top0(n), k)
        c.term("Row", w)
        c.assume(self.density_pre(self.top0(n), k))
        strict = lambda r: And(r != n, self.inside(S, n, r))
        P.goal(("C08",), "counting lemma: every number inside the interval is an endpoint of a descendant", Implies(And(g("lft", n) < k, k < g("rgt", n)), And(S.live(w), strict(w), Or(g("lft", w) == k, g("rgt", w) == k))))
        P.forall(("C08",), "counting lemma: endpoints are distinct", ["Row", "Row"], lambda a, b: Implies(And(S.live(a), S.live(b), strict(a), strict(b)),
            And(g("lft", a) != g("rgt", b), Implies(a != b, And(g("lft", a) != g("lft", b), g("rgt", a) != g("rgt", b))))))
        P.forall(("C08",), "counting lemma: endpoints of descendants are inside", ["Row"], lambda a: Implies(And(S.live(a), strict(a)), And(g("lft", n) < g("lft", a), g("rgt", a) < g("rgt", n))))
        # two endpoints each, one for every number from lft+1 to rgt-1
        return self.size0(n)
    def query_object(self, o):
        super().query_object(o)
        # number of descendants; the premises of the counting lemma are obligations of get_descendant_count (count_ghost)
        self.size0 = z3.Function("size0", sort("Row"), z3.IntSort())
        self.c.assume(2 * self.size0(o._row) == self.S0.get("rgt", o._row) - self.S0.get("lft", o._row) - 1)

    # ---- documented meaning of the signals, applied to the mirror
    def on_signal(self, sig, sender, kw):
        m = self.mod
        M = self.W.mirror
        g = lambda f, r: M.get(f, r)
        v = {k: table.unwrap(x) for k, x in kw.items() if k not in ("using", "removed_ranges")}
        if not hasattr(self, "signal_goals"): self.signal_goals = []
        self.signal_goals.append(BoolVal(sender is self.Base or sender is self.model and self.cfg.get("model") == "proxy"))
        if sig is m.gap_altered:
            def up(f): return lambda r: If(And(g("tree_id", r) == v["tree_id"], g(f, r) >= v["start_index"]), g(f, r) + v["offset"], g(f, r))
            self.W.mirror = M.with_update(lambda r: BoolVal(True), {"lft": up("lft"), "rgt": up("rgt")})
        elif sig is m.tree_ids_incremented:
            self.W.mirror = M.with_update(lambda r: g("tree_id", r) >= v["min_tree_id"], {"tree_id": lambda r: g("tree_id", r) + 1})
        elif sig is m.subtree_moved:
            self.W.mirror = M.with_update(lambda r: And(g("tree_id", r) == v["tree_id"], g("lft", r) >= v["lft"], g("rgt", r) <= v["rgt"]),
                {"tree_id": lambda r: v["target_tree_id"], "lft": lambda r: g("lft", r) + v["index_offset"], "rgt": lambda r: g("rgt", r) + v["index_offset"],
                 "depth": lambda r: g("depth", r) + v["depth_offset"]})
        elif sig is m.nodes_deleted:
            rs = kw["removed_ranges"]
            import collect
            if isinstance(rs, collect.Coll): cov = self.ranges(rs, v)
            else: cov = lambda r: Or([And(g("tree_id", r) == core.raw(t), g("lft", r) >= core.raw(l), g("rgt", r) <= core.raw(h)) for t, l, h in rs])
            self.W.mirror = M.with_delete(cov)
        else: raise core.Unsupported("unknown signal")

    def ranges(self, rs, v):
        """the rows in one of the removed ranges of a signal"""
        c, S0, g0 = self.c, self.S0, self.S0.get
        if rs.nothing: return lambda r: BoolVal(False)
        def at(x, r):
            out = []
            for g, e in rs.settled().alts:
                t, l, h = e(x)
                out.append(And(rs.member(x), g(x), g0("tree_id", r) == core.raw(t), g0("lft", r) >= core.raw(l), g0("rgt", r) <= core.raw(h)))
            return Or(out)
        x, r = c.fresh("x", "Row"), c.fresh("r", "Row")
        self.signal_goals.append(Implies(And(S0.live(r), at(x, r)), self.gone(r)))
        self.signal_goals.append(Implies(self.gone(r), at(self.topsel(r), r)))
        for t in (x, r, self.topsel(r)): c.term("Row", t)
        return self.gone

    def field_defaults(self): return {}

    def stale_cache(self, o):
        """give the object a cached parent whose tree fields are out of date"""
        if not self.cfg.get("stale"): return
        c = self.c
        q = self.Base._fetched(self.par0(o._row), self.S0)
        c.assume(Not(self.isroot(self.S0, o._row)))
        for f in ("lft", "rgt"): q.__dict__[f] = SymInt(c.fresh("stale_" + f, "Int"))
        o.__dict__["_cached_parent_obj"] = q
