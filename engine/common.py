"""What the contracts of all four tree implementations have in common.

A scene is: a symbolic table that satisfies the implementation's data invariant, the node objects handed to the operation, and
the operation.  The post-conditions are stated over the table before and after, with the tree given by a ghost parent function
`par` and a ghost order `before`."""
import z3
import core, table
from core import SymInt, SymBool, Unsupported, Result, prove, raw, sort

SIB = ("first-sibling", "left", "right", "last-sibling", "sorted-sibling")
CHILD = ("first-child", "last-child", "sorted-child")
And, Or, Not, Implies, If, BoolVal = z3.And, z3.Or, z3.Not, z3.Implies, z3.If, z3.BoolVal


class Back:
    """one tree implementation; `cfg`: dict(model=plain|mti|mti-base|proxy, order=(...), same=bool, stale=bool, ...)"""
    fields = ()
    user = ("data", "k1", "k2", "k3")
    max_depth_extra = 0

    def __init__(self, cfg):
        self.cfg = cfg
        self.counts = []
        self.order = list(cfg.get("order", ()))

    # ---- world
    def enter(self, c):
        self.c = c
        self.W = table.W = table.World(self)
        c.derive = self.derive
        self.live0 = z3.Function("live0", sort("Row"), z3.BoolSort())
        self.par0 = z3.Function("par0", sort("Row"), sort("Row"))
        fs = self.declare(c)
        fs["data"] = z3.Function("data0", sort("Row"), sort("Data"))
        for k in ("k1", "k2", "k3"): fs[k] = z3.Function(k + "0", sort("Row"), z3.IntSort())
        subf = z3.Function("sub0", sort("Row"), z3.BoolSort())
        mti = self.cfg.get("model", "plain").startswith("mti")
        self.S0 = table.State(lambda r: self.live0(r), {k: (lambda r, f=f: f(r)) for k, f in fs.items()}, (lambda r: subf(r)) if mti else None)
        self.init_state(self.S0)
        self.W.state = self.S0
        self.W.mirror = table.State(lambda r: self.S0.live(r), {k: (lambda r, k=k: self.S0.get(k, r)) for k in self.fields})
        for name, sorts, fn in self.wf(self.S0, self.par0, *self.ghost0()): c.forall("pre " + name, sorts, fn)
        if self.order:
            for name, sorts, fn in self.sorted_wf(self.S0, self.par0): c.forall("pre " + name, sorts, fn)
        self.tracked = []
        self.calls = []

    def ghost0(self): return ()
    def codec_props(self, name): return ()
    def init_state(self, st): return st
    def derive(self, s, t): return []

    # ---- models
    def make_models(self, nodecls):
        order = self.order
        class Base(nodecls):
            node_order_by = order
        Base.objects = None
        del Base.objects
        class Sub(Base):
            _is_sub = True
        class Proxy(Base):
            _proxy_for = Base
        self.Base, self.Sub, self.Proxy = Base, Sub, Proxy
        m = self.cfg.get("model", "plain")
        self.model = {"plain": Base, "proxy": Proxy, "mti": Sub, "mti-base": Sub, "mti-both": Sub}[m]
        # the class of the objects handed in: nodes fetched through the tree are instances of the base tree model
        self.objcls = {"plain": Base, "proxy": Proxy, "mti": Sub, "mti-base": Base, "mti-both": Base}[m]
        return self.model

    # ---- hooks of the symbolic table
    def field(self, cls, name):
        for k in cls.__mro__:
            f = k.__dict__.get(name)
            if isinstance(f, table.Field):
                g = type(f)(max_length=f.max_length, default=f.default)
                g.__dict__.update(f.__dict__)
                g.name, g.model = name, self.Base
                self.tune_field(g)
                return g
        return None
    def tune_field(self, g): pass
    def defaults(self):
        c = self.c
        d = {"data": c.fresh("newdata", "Data")}
        for k in ("k1", "k2", "k3"): d[k] = SymInt(c.fresh("new" + k, z3.IntSort()))
        d.update(self.field_defaults())
        return d
    def field_defaults(self): return {}
    def scene_assumptions(self, op, node, target): pass
    def stale_cache(self, o): pass
    def make_stale(self, o):
        for f in self.fields: o.__dict__[f] = SymInt(self.c.fresh("stale_" + f, "Int"))
    def load(self, o, st):
        for f in self.fields + self.user: o.__dict__[f] = table.wrap(st.get(f, o._row))
    def values_of(self, o):
        return {f: table.unwrap(o.__dict__[f]) for f in self.fields + self.user if f in o.__dict__}
    def on_update(self, qs, st, kw): pass
    def update_hook(self, qs, st, kw): return None
    def saving(self, o, r, st, vals): return vals
    def save_state(self, o, r, st, vals): return st
    def finish(self): pass
    def on_insert(self, o, r, st): self.mirror_save(o, r)
    def on_save(self, o, r, st): self.mirror_save(o, r)
    def mirror_save(self, o, r):
        v = {f: x for f, x in self.values_of(o).items() if f in self.fields}
        m = self.W.mirror
        self.W.mirror = m.with_insert(r, v)
    topsel = None
    def deleted_rows(self, qs, st):
        import delete
        return delete.deleted_rows(self, qs, st)
    def on_delete(self, gone, st):
        m = self.W.mirror
        self.W.mirror = m.with_delete(gone)
    def on_signal(self, sig, sender, kw): pass

    # ---- objects
    def fetch(self, name, cls=None, cond=None):
        c = self.c
        r = c.term("Row", c.fresh(name, "Row"))
        c.assume(self.S0.live(r))
        if cls is None: cls = self.objcls
        if cls._is_sub: c.assume(self.S0.sub(r))
        o = cls._fetched(r, self.S0)
        self.tracked.append((name, o))
        return o

    def obj_attrs(self, o): return {f: o.__dict__.get(f) for f in self.fields}

    def sk(self, n="s"): return self.c.fresh("sk_" + n, "Row")

    # ---- queries (query.py)
    def query_facts(self): pass
    def query_object(self, o):
        if self.cfg.get("cached"):
            if not self.c.branch(self.isroot(self.S0, o._row), "is a root"):
                o.__dict__["_cached_parent_obj"] = self.Base._fetched(self.c.term("Row", self.par0(o._row)), self.S0)
    def kid_terms(self, n): return []
    def listed(self, r): return self.Base._fetched(r, self.S0)
    def dfs_facts(self, a, b, s, t): return []
    def count_ghost(self, P, what, n, block): return None
    def lemmas(self, P): pass

    def comparable(self, S, a, b): return BoolVal(True)     # pairs whose order the fields determine

    # ---- order of siblings by node_order_by
    def key_less(self, st, a, b, order=None):
        out, eqs = [], []
        for f in (self.order if order is None else order):
            neg = f.startswith("-"); f = f.lstrip("-")
            x, y = st.get(f, a), st.get(f, b)
            out.append(And(eqs + [(x > y) if neg else (x < y)]))
            eqs = eqs + [x == y]
        return Or(out)

    def sibs(self, st, par, a, b):
        return And(st.live(a), st.live(b), a != b, self.same_parent(st, par, a, b))
    def same_parent(self, st, par, a, b):
        return And(self.isroot(st, a) == self.isroot(st, b), Or(self.isroot(st, a), par(a) == par(b)))

    def sorted_wf(self, st, par):
        return [("sorted siblings", ["Row", "Row"], lambda a, b: Implies(And(self.sibs(st, par, a, b), self.before(st, a, b)), Not(self.key_less(st, b, a))))]


def eqv(a, b):
    """equality of two column values"""
    if hasattr(a, "same_value"): return a.same_value(b)
    if isinstance(a, table.FK) or isinstance(b, table.FK):
        a, b = table.fk(a), table.fk(b)
        return And(a.null == b.null, Or(a.null, a.row == b.row))
    if isinstance(b, SymInt): b = b.t
    if isinstance(a, SymInt): a = a.t
    return raw(a) == raw(b)


class Prover:
    """collects the obligations at the end of a path; only those of the wanted property are discharged"""
    def __init__(self, be, prop, prefix, timeout=20000):
        self.be, self.prop, self.prefix, self.results, self.timeout = be, prop, prefix, [], timeout
        self.extra = {}

    def want(self, props): return self.prop in props

    def goal(self, props, name, g, extra=None):
        if not self.want(props): return
        ex = {k: list(v) for k, v in self.extra.items()}
        for k, v in (extra or {}).items(): ex.setdefault(k, []).extend(v)
        self.results.append(prove(self.be.c, f"{self.prefix}: {name}", g, ex, self.timeout))

    def forall(self, props, name, sorts, fn, extra=None):
        if not self.want(props): return
        sks = [self.be.c.fresh("sk", s) for s in sorts]
        ex = {}
        for s, t in zip(sorts, sks): ex.setdefault(s, []).append(t)
        for k, v in (extra or {}).items(): ex.setdefault(k, []).extend(v(sks) if callable(v) else v)
        self.goal(props, name, fn(*sks), ex)


def frame_unchanged(P, be, props, what, fields=None, st=None):
    """the table is as before"""
    st = be.W.state if st is None else st
    def fn(r):
        return And(st.live(r) == be.S0.live(r), Implies(st.live(r), And([eqv(st.get(f, r), be.S0.get(f, r)) for f in (fields or be.fields + be.user)])))
    P.forall(props, what, ["Row"], fn)


def check_insert(P, be, new, P_row, rootlevel, pos, target, sorted_):
    """post-conditions of add_root/add_child/add_sibling.  P_row: parent row term (or None), rootlevel: Bool term,
    pos: 'last' | 'first' | 'left' | 'right' | 'sorted', target: sibling row for left/right"""
    c, S0, S1 = be.c, be.S0, be.W.state
    n = new._row
    P.goal(be.tree_props + ("C04", "C06", "C18"), "the new node is stored", And(S1.live(n), Not(S0.live(n))))
    par1 = lambda r: If(r == n, P_row, be.par0(r)) if P_row is not None else be.par0(r)
    be.par1 = par1
    P.forall(("C04", "C06"), "no node disappears, appears or changes its data", ["Row"],
             lambda r: And(S1.live(r) == Or(S0.live(r), r == n), Implies(S0.live(r), And([eqv(S1.get(f, r), S0.get(f, r)) for f in be.user]))))
    P.forall(("C04", "C06"), "every other node keeps its parent", ["Row"], lambda r: Implies(S0.live(r), be.parent_is(S1, r, be.par0(r), be.isroot(S0, r))), extra={"Row": [n]})
    P.goal(("C04", "C06"), "the new node has the requested parent", be.parent_is(S1, n, P_row, rootlevel))
    P.forall(("C04", "C06"), "other nodes keep their relative order", ["Row", "Row"],
             lambda a, b: Implies(And(S0.live(a), S0.live(b), be.comparable(S0, a, b)), be.before(S1, a, b) == be.before(S0, a, b)))
    sib1 = lambda r: And(S0.live(r), r != n, be.isroot(S0, r) == rootlevel, Or(rootlevel, be.par0(r) == P_row) if P_row is not None else BoolVal(True))
    position(P, be, ("C04",) if not sorted_ else ("C06",), S0, S1, n, sib1, pos, target)
    for name, sorts, fn in be.wf(S1, par1, *be.ghost_insert(n, P_row, rootlevel)):
        P.forall(be.tree_props + be.codec_props(name), "invariant after the call: " + name, sorts, fn, extra=be.wf_extra(name, n))
    if be.order:
        for name, sorts, fn in be.sorted_wf(S1, par1): P.forall(("C06",), name + " after the call", sorts, fn, extra={"Row": [n]})


def position(P, be, props, S0, S1, n, sib, pos, target):
    bf = lambda a, b: be.before(S1, a, b)
    if pos == "last": P.forall(props, "it is the last of its siblings", ["Row"], lambda s: Implies(sib(s), bf(s, n)))
    elif pos == "first": P.forall(props, "it is the first of its siblings", ["Row"], lambda s: Implies(sib(s), bf(n, s)))
    elif pos == "left":
        P.goal(props, "it stands before the reference node", bf(n, target))
        P.forall(props, "nothing stands between it and the reference node", ["Row"], lambda s: Implies(And(sib(s), s != target), Not(And(bf(n, s), bf(s, target)))))
    elif pos == "right":
        P.goal(props, "it stands after the reference node", bf(target, n))
        P.forall(props, "nothing stands between it and the reference node", ["Row"], lambda s: Implies(And(sib(s), s != target), Not(And(bf(target, s), bf(s, n)))))


def check_move(P, be, node, target, pos, t_row, parent_row, rootlevel):
    """post-conditions of a move that returned; t_row is the row of the target"""
    c, S0, S1 = be.c, be.S0, be.W.state
    n = node._row
    inside = lambda r: be.inside(S0, n, r)
    par1 = lambda r: If(r == n, parent_row, be.par0(r))
    be.par1 = par1
    root1 = lambda r: If(r == n, rootlevel, be.isroot(S0, r))
    P.forall(("C05", "C06"), "no node disappears, appears or changes its data", ["Row"],
             lambda r: And(S1.live(r) == S0.live(r), Implies(S0.live(r), And([eqv(S1.get(f, r), S0.get(f, r)) for f in be.user]))))
    P.forall(("C05", "C06"), "every other node keeps its parent", ["Row"], lambda r: Implies(And(S0.live(r), r != n), be.parent_is(S1, r, be.par0(r), be.isroot(S0, r))))
    P.goal(("C05", "C06"), "the moved node has the requested parent", be.parent_is(S1, n, parent_row, rootlevel))
    P.forall(("C05", "C06"), "nodes outside the branch keep their relative order", ["Row", "Row"],
             lambda a, b: Implies(And(S0.live(a), S0.live(b), be.comparable(S0, a, b), Not(inside(a)), Not(inside(b))), be.before(S1, a, b) == be.before(S0, a, b)))
    P.forall(("C05", "C06"), "nodes of the branch keep their relative order", ["Row", "Row"],
             lambda a, b: Implies(And(S0.live(a), S0.live(b), be.comparable(S0, a, b), inside(a), inside(b)), be.before(S1, a, b) == be.before(S0, a, b)))
    sib = lambda r: And(S0.live(r), r != n, root1(r) == rootlevel, Or(rootlevel, be.par0(r) == parent_row))
    bf1, bf0 = (lambda a, b: be.before(S1, a, b)), (lambda a, b: be.before(S0, a, b))
    props = ("C05",)
    if pos in ("last-child", "last-sibling"): P.forall(props, "it is the last of its siblings", ["Row"], lambda s: Implies(sib(s), bf1(s, n)))
    elif pos in ("first-child", "first-sibling"): P.forall(props, "it is the first of its siblings", ["Row"], lambda s: Implies(sib(s), bf1(n, s)))
    elif pos in ("left", "right"):
        P.forall(props, "next to itself it stays where it was", ["Row"], lambda s: Implies(And(n == t_row, sib(s)), bf1(s, n) == bf0(s, n)))
        x, y = (n, t_row) if pos == "left" else (t_row, n)
        P.goal(props, "it stands on the requested side of the reference node", Implies(n != t_row, bf1(x, y)))
        P.forall(props, "nothing stands between it and the reference node", ["Row"], lambda s: Implies(And(n != t_row, sib(s), s != t_row), Not(And(bf1(x, s), bf1(s, y)))))
    for name, sorts, fn in be.wf(S1, par1, *be.ghost_move(n, parent_row, rootlevel)):
        P.forall(be.tree_props + be.codec_props(name), "invariant after the call: " + name, sorts, fn, extra=be.wf_extra_move(name, n))
    if be.order:
        for name, sorts, fn in be.sorted_wf(S1, par1): P.forall(("C06",), name + " after the call", sorts, fn, extra={"Row": [n]})


def check_common(P, be):
    """mirror, atomicity: for every path that returns"""
    S1, W = be.W.state, be.W
    if hasattr(be, "check_signals"): be.check_signals(P)
    elif be.signals:
        P.forall(("C16",), "the mirror equals the table", ["Row"],
                 lambda r: And(W.mirror.live(r) == S1.live(r), Implies(S1.live(r), And([eqv(W.mirror.get(f, r), S1.get(f, r)) for f in be.mirror_fields]))))
        for i, g in enumerate(getattr(be, "signal_goals", [])):
            P.goal(("C16",), "signal arguments", g)
    P.goal(("C20",), "all writes happen inside one transaction", BoolVal(W.segments <= 1 and W.atomic == 0))


def check_object(P, be, what, o, extra=()):
    S1 = be.W.state
    r = o._row
    P.goal(("C18",), f"{what} reflects the table", And([eqv(S1.get(f, r), o.__dict__[f]) if f in o.__dict__ else BoolVal(False) for f in be.object_fields]))
    be.object_cache(P, what, o)


def check_refused(P, be, e, before):
    frame_unchanged(P, be, ("C12", "C10") if type(e).__name__ == "PathOverflow" else ("C12",), f"nothing changes when {type(e).__name__} is raised")
    for what, o, attrs in before:
        for f, v in attrs.items():
            w = o.__dict__.get(f)
            P.goal(("C12",), f"{what}.{f} is untouched when {type(e).__name__} is raised", BoolVal(True) if w is v else (eqv(v, w) if v is not None and w is not None else BoolVal(False)))
