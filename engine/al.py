"""Contracts of treebeard.al_tree."""
import z3
import core, table, common
from common import *
from core import SymInt, SymBool, sort, C, PathEnd
from table import FK, SymPk, fk


class Parent(table.Field):
    """the foreign key to the parent: the column value lives in the instance's __dict__, the related object is cached"""
    def __get__(self, o, owner=None):
        if o is None: return self
        v = o.__dict__.get("parent")
        if v is None or core.C.branch(v.null, "has no parent"): return None
        q = o.__dict__.get("_parent_obj")
        if q is None:
            q = o.__dict__["_parent_obj"] = table.W.spec.Base._fetched(v.row, table.W.state)
            core.C.term("Row", v.row)
        return q
    def __set__(self, o, v):
        o.__dict__["parent"] = fk(v)
        o.__dict__["_parent_obj"] = v


class ParentId:
    def __get__(self, o, owner=None):
        if o is None: return self
        v = o.__dict__.get("parent")
        if v is None or core.C.branch(v.null, "has no parent"): return None
        return SymPk(v.row)
    def __set__(self, o, v):
        o.__dict__["parent"] = fk(v)
        o.__dict__.pop("_parent_obj", None)


class NodeList:
    """what get_tree(node) returns by its contract: the node and its descendants in depth-first order"""
    def __init__(self, be, row, skip=False): self.be, self.row, self.skip = be, row, skip
    def __getitem__(self, k):
        if isinstance(k, slice) and k.start == 1 and k.stop is None and k.step is None and not self.skip: return NodeList(self.be, self.row, True)
        raise core.Unsupported("element of a node list")
    def vc_comp(self, kind, cond, elt, has_if):
        if has_if: raise core.Unsupported("filtered node list")
        x = table.W.spec.Base._fetched(z3.Const("?x", sort("Row")), table.W.state)
        e = elt(x)
        if isinstance(e, SymPk) and e.t.eq(x._row): return PkList(self)
        raise core.Unsupported("comprehension over a node list")
    def has(self, r):
        d = self.be.D0(self.row, r)
        return d if self.skip else Or(r == self.row, d)
    def __iter__(self): raise core.Unsupported("iteration over a node list")
class PkList:
    def __init__(self, l): self.l = l
    def __contains__(self, pk):
        if not isinstance(pk, SymPk): return False
        return core.C.branch(self.l.has(pk.t), "is in the branch")


class AL(Back):
    name = "al"
    fields = ("parent", "sib_order")
    mirror_fields = ()
    object_fields = ("parent", "sib_order")
    tree_props = ("C03",)
    signals = False

    def __init__(self, cfg):
        super().__init__(cfg)
        if self.order: self.object_fields = ("parent",)

    def make_models(self, nodecls):
        super().make_models(nodecls)
        self.Base.parent = Parent(); self.Base.parent.__set_name__(self.Base, "parent")
        self.Base.parent_id = ParentId()
        if not self.order: self.Base.node_order_by = None
        mgr = self.mod.AL_NodeManager
        be = self
        recursion_contract(self)
        if "get_tree" not in be.__dict__.get("_real", {}):
            real = mgr.__dict__["get_tree"]
            if getattr(real, "_vc", None): real = real._vc
            def get_tree(manager, parent=None, max_depth=None):
                w = table.W.spec
                if not getattr(w, "contract_tree", True): return real(manager, parent, max_depth)
                if parent is None or max_depth is not None: raise core.Unsupported("get_tree without a contract")
                if table.W.state is not w.S0: raise core.Unsupported("get_tree after a change")
                return NodeList(w, parent._row)
            get_tree._vc = real
            mgr.get_tree = get_tree

    def declare(self, c):
        R, I = sort("Row"), z3.IntSort()
        self.depth0 = z3.Function("depth0", R, I)
        self.D0 = z3.Function("D0", R, R, z3.BoolSort())
        null = z3.Function("parent_null0", R, z3.BoolSort())
        return {"parent": (lambda r: FK(null(r), self.par0(r))), "sib_order": z3.Function("sib_order0", R, I)}

    def ghost0(self): return (lambda r: self.depth0(r), lambda a, r: self.D0(a, r))
    def derive(self, s, t): return [("Row", self.par0(t))] if s == "Row" else []

    def isroot(self, S, r): return S.get("parent", r).null
    def before(self, S, a, b):
        if self.order: return Or(self.key_less(S, a, b), And(Not(self.key_less(S, b, a)), table.PKLESS(a, b)))
        return S.get("sib_order", a) < S.get("sib_order", b)
    def comparable(self, S, a, b): return self.same_parent(S, lambda r: S.get("parent", r).row, a, b)
    def inside(self, S, n, r): return Or(r == n, self.D0(n, r))
    def parent_is(self, S, r, p, rootlevel):
        v = S.get("parent", r)
        if p is None: return v.null
        return If(rootlevel, v.null, And(Not(v.null), v.row == p))

    def wf(self, S, par, depth, D):
        out = [
            ("parent", ["Row"], lambda r: Implies(S.live(r), And(depth(r) >= 1, Implies(Not(self.isroot(S, r)), And(S.live(par(r)), S.get("parent", r).row == par(r)))))),
            ("no node is its own ancestor", ["Row"], lambda r: Implies(S.live(r), And(self.isroot(S, r) == (depth(r) == 1), Implies(Not(self.isroot(S, r)), depth(r) == depth(par(r)) + 1)))),
        ]
        if D is not None:
            out.append(("descendants", ["Row", "Row"], lambda a, r: Implies(S.live(r), And(D(a, r) == And(Not(self.isroot(S, r)), Or(par(r) == a, D(a, par(r)))), Implies(D(a, r), And(S.live(a), depth(a) < depth(r)))))))
        if not self.order:
            out.append(("sibling order positive", ["Row"], lambda r: Implies(S.live(r), S.get("sib_order", r) >= 1)))
            out.append(("sibling order distinct", ["Row", "Row"], lambda a, b: Implies(self.sibs(S, par, a, b), S.get("sib_order", a) != S.get("sib_order", b))))
        return out

    def ghost_insert(self, n, P, rootlevel):
        d1 = lambda r: If(r == n, z3.IntVal(1) if P is None else If(rootlevel, 1, self.depth0(P) + 1), self.depth0(r))
        self.depth1 = d1
        return d1, None
    def ghost_move(self, n, P, rootlevel):
        d1 = lambda r: If(self.inside(self.S0, n, r), self.depth0(r) - self.depth0(n) + If(rootlevel, 0, self.depth0(P)) + 1, self.depth0(r))
        self.depth1 = d1
        return d1, None
    def ghost_delete(self, P): return (lambda r: self.depth0(r)), None
    def wf_extra(self, name, n): return {"Row": [n]}
    wf_extra_move = wf_extra

    def object_cache(self, P, what, o):
        if "_cached_depth" in o.__dict__:
            P.goal(("C18",), f"the depth cached on {what} is its depth", core.raw(o.__dict__["_cached_depth"]) == self.depth1(o._row))
        q = o.__dict__.get("_parent_obj")
        if q is not None:
            v = self.W.state.get("parent", o._row)
            P.goal(("C18",), f"the parent cached on {what} is its parent", And(Not(v.null), q._row == v.row))

    def load(self, o, st):
        super().load(o, st)
        o.__dict__.pop("_parent_obj", None)
    def field_defaults(self): return {"parent": None}
    def scene_assumptions(self, op, node, target):
        if self.cfg.get("cached"):
            for o in (node, target):
                if o is not None: o.__dict__["_cached_depth"] = SymInt(self.depth0(o._row))
    def make_stale(self, o):
        o.__dict__["sib_order"] = SymInt(self.c.fresh("stale_sib_order", "Int"))


# ------------------------------------------------------------------------------------------------------------- queries
import vc, query
from mp import obligation, obligation_forall
from query import Block


class Chain:
    """the list of the ancestors-or-self of `low`, from the root down (or from `low` up); only those strictly below `above` if one is given"""
    def __init__(self, be, low, above=None, up=False): self.be, self.low, self.above, self.up, self.put = be, low, above, up, []
    def holds(self, r):
        be = self.be
        h = And(be.S0.live(r), be.inside(be.S0, r, self.low))
        return h if self.above is None else And(h, be.depth0(r) > be.depth0(self.above))
    def insert(self, i, o):
        if self.above is None: raise Unsupported("insertion into a finished list")
        self.put.append((i, o))
    def append(self, o): self.insert("end", o)
    def done(self):
        if self.above is not None or self.put: raise Unsupported("an unfinished list of ancestors")
    def reverse(self): self.done(); self.up = not self.up
    def vc_reversed(self): self.done(); return Chain(self.be, self.low, None, not self.up)
    def vc_len(self): self.done(); return SymInt(self.be.depth0(self.low))
    def vc_list(self): self.done(); return Chain(self.be, self.low, None, self.up)
    def __bool__(self):
        if self.above is not None: raise Unsupported("truth of an unfinished list")
        return True
    def __getitem__(self, k):
        if isinstance(k, slice) and k.start is None and k.stop is None and k.step == -1: return self.vc_reversed()
        if self.above is not None or not isinstance(k, int): raise Unsupported("element of a list of ancestors")
        be, c = self.be, core.C
        if k == (-1 if self.up else 0):
            w = c.term("Row", c.fresh("topmost", "Row"))
            c.assume(self.holds(w), be.isroot(be.S0, w))
        elif k == (0 if self.up else -1): w = self.low
        else: raise Unsupported("element of a list of ancestors")
        return be.model._fetched(w, be.S0)
    def __iter__(self): raise Unsupported("iteration over a list of ancestors")
    def vc_contract(self, P, be, sp, A, inset, order):
        if order != "depth" or self.put or self.above is not None: raise Unsupported("list of ancestors")
        P.goal(A, "from the root down", BoolVal(True) if not self.up else self.be.isroot(self.be.S0, self.low))
        P.forall(A, "exactly the right nodes, from the root down", ["Row"], lambda r: self.holds(r) == And(sp.S.live(r), inset(r)))


class WhileUp(vc.Plain):
    """while x: ...; x = parent of x      (x runs over the ancestors-or-self of the node it starts from)

    invariant: a number that is counted along has grown by the number of nodes passed; a list that is filled holds the nodes passed,
    from the root down."""
    def __init__(self, key, loc, assigned):
        c, be = core.C, table.W.spec
        self.be, self.loc0 = be, dict(loc)
        self.var = [k for k in assigned if isinstance(loc.get(k), table.Model)][0]
        self.ints = [k for k in assigned if isinstance(loc.get(k), (int, SymInt)) and not isinstance(loc.get(k), bool)]
        self.lists = [k for k in assigned if isinstance(loc.get(k), list)]
        other = [k for k in assigned if k in loc and k not in self.ints + self.lists + [self.var]]
        if other or any(loc[k] for k in self.lists) or "." in assigned: raise Unsupported("loop without a contract")
        self.x0 = loc[self.var]._row
        c.term("Row", self.x0)
        obligation("loop: it starts at a stored node", be.S0.live(self.x0))
        self.some = c.branch(c.fresh("iteration", z3.BoolSort()), "loop: an arbitrary iteration")
        if self.some:
            x = self.x = c.term("Row", c.fresh("passed", "Row"))
            c.assume(be.S0.live(x), be.inside(be.S0, x, self.x0))
            self.obj = type(loc[self.var])._fetched(x, be.S0)
            done = be.depth0(self.x0) - be.depth0(x)
        else: self.obj, done = None, be.depth0(self.x0)
        self.havoc = {self.var: self.obj}
        self.havoc.update({k: SymInt(core.raw(loc[k]) + done) for k in self.ints})
        self.ckey = ("chain", key)
        self.up = bool(vc.CANDIDATE.get(self.ckey, 0))
        self.havoc.update({k: Chain(be, self.x0, self.x if self.some else None, self.up) for k in self.lists})
    def elements(self):
        import sys
        fr = sys._getframe(1)
        c, be = core.C, self.be
        self.left = False
        lists = {k: fr.f_locals[k] for k in self.lists}
        yield None
        if not self.some: raise Unsupported("loop without a contract")
        loc = fr.f_locals
        v = loc.get(self.var)
        if v is None:
            obligation("loop: it stops at a root", be.isroot(be.S0, self.x)); done = be.depth0(self.x0)
        elif isinstance(v, table.Model) and v._row is not None:
            obligation("loop: it goes on with the parent", And(Not(be.isroot(be.S0, self.x)), v._row == be.par0(self.x))); done = be.depth0(self.x0) - be.depth0(v._row)
        else: raise Unsupported("loop without a contract")
        for k in self.ints: obligation(f"loop: {k} counts the nodes passed", core.raw(loc[k]) == core.raw(self.loc0[k]) + done)
        for k in self.lists:
            l = lists[k]
            if loc[k] is not l or len(l.put) != 1 or l.put[0][0] not in (0, "end") or not isinstance(l.put[0][1], table.Model): raise Unsupported("loop without a contract")
            if (l.put[0][0] == "end") != self.up:
                if len(self.lists) > 1 or self.up: raise Unsupported("loop without a contract")
                vc.CANDIDATE[self.ckey] = 1
                raise core.Restart
            obligation(f"loop: the node passed is put in the list", l.put[0][1]._row == self.x)
        if be.W.writes: raise Unsupported("loop with writes")
        raise PathEnd
    def leave(self):
        if self.some:
            obligation("loop: it goes on while there is a node", BoolVal(False))
            raise PathEnd
    def end(self, loc): pass


class RecurseLoop(vc.Plain):
    """for node in qs: results.append(node); recurse(node)       the block of the children, one after the other"""
    def __init__(self, key, qs, loc, assigned):
        self.be, self.qs = table.W.spec, qs
        if qs._cache is None: qs._cache = table.W.state
        self.st = qs._cache
    def elements(self):
        c, be = core.C, self.be
        if be.rec_loops or be.rec_list: raise Unsupported("several loops")
        if c.branch(c.fresh("iteration", z3.BoolSort()), "loop: an arbitrary iteration"):
            x = c.term("Row", c.fresh("visited", "Row"))
            c.assume(self.qs.holds(self.st, x))
            obj = self.qs._row_value(x)
            be.rec_depth_goal = None
            yield obj
            ev = be.rec_list
            ok = len(ev) == 2 and ev[0] is obj and isinstance(ev[1], Block) and ev[1].row is not None
            if not ok: obligation("loop: the node and then its descendants are appended", BoolVal(False)); raise PathEnd
            obligation("loop: the node and then its descendants are appended", ev[1].row == x)
            be.same_limit("loop: the depth limit is handed on", ev[1].limit, be.rec_limit)
            if "_cached_depth" in obj.__dict__: obligation("the depth cached on a listed node is its depth", core.raw(obj.__dict__["_cached_depth"]) == be.depth0(x))
            raise PathEnd
        be.rec_loops.append(self.qs)


def al_loops(key, it, loc, assigned):
    w = table.W.spec if table.W is not None else None
    if not isinstance(w, AL): return None
    if it == "while" and any(isinstance(loc.get(k), table.Model) for k in assigned) and getattr(w, "S_query", False) : return WhileUp(key, loc, assigned)
    if getattr(w, "rec_list", None) is not None and isinstance(it, table.QuerySet) and not it._none: return RecurseLoop(key, it, loc, assigned)
    return None
vc.FINDERS.append(al_loops)


def recursion_contract(be):
    """_get_tree_recursively by its contract; its body is verified by the query `recurse`"""
    mgr = be.mod.AL_NodeManager
    real = mgr.__dict__["_get_tree_recursively"]
    if getattr(real, "_vc", None): real = real._vc
    def _get_tree_recursively(manager, results, parent, depth, max_depth):
        w = table.W.spec
        if getattr(w, "rec_enter", False):
            w.rec_enter = False
            return real(manager, results, parent, depth, max_depth)
        S, c = w.S0, core.C
        if not isinstance(results, list): raise Unsupported("results is no list")
        if parent is None: obligation("recursion: the depth handed on is that of the roots", core.raw(depth) == 1)
        else:
            r = parent._row
            obligation("recursion: the depth handed on is that of the children", core.raw(depth) == w.depth0(r) + 1)
            nhc = parent.node_has_children
            nhc = nhc.t if isinstance(nhc, SymBool) else BoolVal(bool(nhc))
            obligation_forall("recursion: a node said to have no children has none", ["Row"], lambda x: Implies(Not(nhc), Not(And(S.live(x), Not(w.isroot(S, x)), w.par0(x) == r))))
        results.append(Block(None if parent is None else parent._row, max_depth))
    _get_tree_recursively._vc = real
    mgr._get_tree_recursively = _get_tree_recursively


class ALQ:
    """what query.py asks of an adjacency list"""
    def depth0_of(self, r): return self.depth0(r)
    def query_object(self, o):
        if self.cfg.get("cached"): o.__dict__["_cached_depth"] = SymInt(self.depth0(o._row))
    def listed(self, r):
        """a node of a list that get_tree returned: its depth is cached (verified with `recurse`)"""
        o = self.Base._fetched(r, self.S0)
        o.__dict__["_cached_depth"] = SymInt(self.depth0(r))
        return o
    def same_limit(self, name, a, b):
        if (a is None) != (b is None): obligation(name, BoolVal(False))
        elif a is not None: obligation(name, core.raw(a) == core.raw(b))
    def query_facts(self):
        self.contract_tree = self.task_q in ("is_descendant_of",)
        self.rec_list, self.rec_enter = None, False
    def lemmas(self, P): pass
    def run_recurse(self, P, sp, maxd):
        """the body of _get_tree_recursively: appends the children, each followed by its own descendants"""
        c, S = self.c, self.S0
        roots = self.cfg.get("roots")
        mgr = self.model.objects
        self.rec_list, self.rec_loops, self.rec_limit, self.rec_enter = [], [], maxd, True
        if roots: parent, n, depth = None, None, SymInt(z3.IntVal(1))
        else:
            parent = self.fetch("node")
            n = parent._row
            h = c.fresh("node_has_children", z3.BoolSort())
            parent.node_has_children = SymBool(h)
            c.forall("said to have no children", ["Row"], lambda x: Implies(Not(h), Not(sp.child(n, x))))
            depth = SymInt(self.depth0(n) + 1)
        mgr._get_tree_recursively(self.rec_list, parent, depth, maxd)
        kids = (lambda r: And(S.live(r), sp.root(r))) if roots else (lambda r: sp.child(n, r))
        deep = BoolVal(False) if maxd is None else core.raw(depth) > core.raw(maxd)
        if self.rec_list and not self.rec_loops: raise Unsupported("recursion without a contract")
        if not self.rec_loops:
            P.forall((P.prop,), "nothing is appended only when there is nothing to append", ["Row"], lambda r: Implies(Not(deep), Not(kids(r))))
            return
        P.goal((P.prop,), "nothing is appended beyond the depth limit", Not(deep))
        query.qset(P, self, sp, (P.prop,), self.rec_loops[0], kids, "sib")


for _k, _v in list(ALQ.__dict__.items()):
    if not _k.startswith("__"): setattr(AL, _k, _v)
