"""Contracts of the traversal queries (C08), the predicates and get_depth (C09).

The tree of a table is given by the ghost parent function; `inside` is its reflexive ancestor relation.  A queryset result is compared
by its denotation (which rows satisfy it, which row comes before which), an object result by its row, a count by the rows counted."""
import z3
import core, table, vc
from common import *
from core import SymInt, SymBool, sort, Unsupported, PathEnd, raw, prove

NODE_Q = ["get_children", "get_siblings", "get_ancestors", "get_parent", "get_parent_update", "get_root", "get_first_child", "get_last_child",
          "get_first_sibling", "get_last_sibling", "get_next_sibling", "get_prev_sibling", "get_children_count"]
DEPTH_Q = ["get_tree", "get_descendants", "get_descendants_self", "get_descendant_count"]
ROOT_Q = ["get_root_nodes", "get_first_root_node", "get_last_root_node", "get_tree_all"]
FORM_Q = ["form_edit", "form_new"]
PRED = ["is_root", "is_leaf", "get_depth", "is_child_of", "is_descendant_of", "is_sibling_of"]


class Spec:
    """the tree of the state before the call"""
    def __init__(self, be):
        self.be, self.S = be, be.S0
    def root(self, r): return self.be.isroot(self.S, r)
    def inside(self, a, r): return self.be.inside(self.S, a, r)
    def anc(self, a, r): return And(a != r, self.inside(a, r))
    def child(self, a, r): return And(self.S.live(r), Not(self.root(r)), self.be.par0(r) == a)
    def sib(self, a, r): return And(self.S.live(r), self.root(a) == self.root(r), Or(self.root(a), self.be.par0(a) == self.be.par0(r)))
    def depth(self, r): return self.be.depth0_of(r)
    def before(self, a, b):
        """order of siblings"""
        be = self.be
        if be.order and be.name == "al": return be.key_less(self.S, a, b)      # equal keys: any order
        return be.before(self.S, a, b)
    def rows(self): return list(self.be.c.terms.get("Row", {}).values())


def scene(be, task, prop, timeout):
    q, cfg = task["q"], task.get("cfg", {})
    prefix = f"{task['be']}.{q} {','.join(f'{k}={v}' for k, v in sorted(cfg.items()))}"

    def run(c):
        be.counts = []
        be.enter(c)
        be.prefix = prefix
        be.S_query, be.task_q = True, q
        P = Prover(be, prop, prefix, timeout)
        sp = Spec(be)
        if q == "lemmas":
            listing_lemmas(P) if prop == "C17" else be.lemmas(P)
            return P.results + [mark(c, prefix, "returned")]
        be.query_facts()
        mgr = be.model.objects
        node = other = None
        maxd = {"none": None, "any": "any"}.get(cfg.get("max_depth", "none"))
        if maxd == "any":
            m = c.fresh("max_depth", "Int"); c.assume(m >= 0)
            maxd = SymInt(m)
        if q not in ROOT_Q + ["recurse", "form_new"] and not cfg.get("roots"):
            node = be.fetch("node")
            be.query_object(node)
        if q in ("is_child_of", "is_descendant_of", "is_sibling_of"):
            other = node if cfg.get("same") else be.fetch("other")
            be.query_object(other)
        try:
            if q == "recurse":
                be.run_recurse(P, sp, maxd)
                return P.results + [mark(c, prefix, "returned")]
            if q in ("is_root", "is_leaf", "get_depth"): res = getattr(node, q)()
            elif other is not None: res = getattr(node, q)(other)
            elif q in ROOT_Q: res = mgr.get_tree(max_depth=maxd) if q == "get_tree_all" else getattr(mgr, q)()
            elif q == "get_tree": res = mgr.get_tree(node, max_depth=maxd)
            elif q == "get_descendants": res = mgr.get_descendants(node, max_depth=maxd)
            elif q == "get_descendants_self": res = mgr.get_descendants(node, include_self=True, max_depth=maxd)
            elif q == "get_descendant_count": res = mgr.get_descendant_count(node, max_depth=maxd)
            elif q == "annotated": res = annotated(P, be, sp, mgr, node, cfg, maxd)
            elif q in FORM_Q: res = form(be, node)
            elif q == "get_parent_update": res = mgr.get_parent(node, update=True)
            else: res = getattr(mgr, q)(node)
        except (TypeError, AttributeError, IndexError, KeyError, AssertionError, UnboundLocalError, ValueError, table.Model.DoesNotExist, table.Model.MultipleObjectsReturned) as e:
            if core.own(e): raise Unsupported(f"{type(e).__name__}: {e}")
            tb = e.__traceback__
            while tb.tb_next: tb = tb.tb_next
            r = prove(c, f"{prefix}: no {type(e).__name__} is raised", BoolVal(False), None, timeout)
            r.detail = f"{e} ({tb.tb_frame.f_code.co_filename}:{tb.tb_lineno}) " + r.detail
            return [r, mark(c, prefix, "raised")]
        if c.in_stay is not None:
            vc.CANDIDATE[c.in_stay] = 1
            raise core.Restart
        judge(P, be, sp, q, node, other, maxd, res)
        P.goal((prop,), "nothing is written", BoolVal(not be.W.writes))
        return P.results + [mark(c, prefix, "returned")]

    return be, run


def mark(c, prefix, how):
    return core.Result(f"{prefix}: path {how}", "path-" + str(c.check([], 5000)), 0, "")


def judge(P, be, sp, q, node, other, maxd, res):
    c = be.c
    n = node._row if node is not None else None
    m = None if maxd is None else raw(maxd)
    A = ("C08", "C17") if q == "recurse" else ("C08",)
    if q in ("annotated", "annotated_qs"):
        be.ann_loop.finish(P, res) if getattr(be, "ann_loop", None) is not None else P.goal(("C17",), "an empty list for nothing", BoolVal(isinstance(res, list) and not res and be.ann_none))
        return
    if q in FORM_Q:
        judge_form(P, be, sp, n, res)
        return
    if q in PRED:
        A = ("C09",)
        if q == "get_depth":
            P.goal(A, "the depth is one plus the number of ancestors", raw(res) == sp.depth(n) if isinstance(res, (int, SymInt)) else BoolVal(False))
            return
        b = res.t if isinstance(res, SymBool) else BoolVal(bool(res))
        if q == "is_leaf":
            P.forall(A, "a leaf has no child", ["Row"], lambda r: Implies(b, Not(sp.child(n, r))))
            P.goal(A, "a node that is no leaf has a child", Or(b, Or([sp.child(n, x) for x in sp.rows() + be.kid_terms(n)])))
            return
        want = {"is_root": lambda: sp.root(n), "is_child_of": lambda: sp.child(other._row, n), "is_descendant_of": lambda: sp.anc(other._row, n),
                "is_sibling_of": lambda: sp.sib(other._row, n)}[q]()
        P.goal(A, f"{q} is answered according to the tree", b == want)
        return
    cut = lambda r: BoolVal(True) if m is None else sp.depth(r) <= m + (sp.depth(n) if n is not None else 0)
    live = sp.S.live
    if q == "get_children": qset(P, be, sp, A, res, lambda r: sp.child(n, r), "sib")
    elif q == "get_siblings": qset(P, be, sp, A, res, lambda r: sp.sib(n, r), "sib")
    elif q == "get_root_nodes": qset(P, be, sp, A, res, lambda r: And(live(r), sp.root(r)), "sib")
    elif q == "get_ancestors": qset(P, be, sp, A, res, lambda r: And(live(r), sp.anc(r, n)), "depth")
    elif q in ("get_tree", "get_descendants_self"): qset(P, be, sp, A, res, lambda r: And(live(r), sp.inside(n, r), cut(r)), "dfs", (node, True, maxd))
    elif q == "get_descendants": qset(P, be, sp, A, res, lambda r: And(live(r), sp.anc(n, r), cut(r)), "dfs", (node, False, maxd))
    elif q == "get_tree_all": qset(P, be, sp, A, res, lambda r: And(live(r), cut(r)), "dfs", (None, True, maxd))
    elif q == "get_children_count": count(P, be, sp, A, res, lambda r: sp.child(n, r), "children", n, None)
    elif q == "get_descendant_count": count(P, be, sp, A, res, lambda r: And(live(r), sp.anc(n, r), cut(r)), "descendants", n, (node, False, maxd))
    elif q in ("get_parent", "get_parent_update"): single(P, A, res, lambda r: And(Not(sp.root(n)), r == be.par0(n)), sp.root(n))
    elif q == "get_root": single(P, A, res, lambda r: And(live(r), sp.root(r), sp.inside(r, n)), BoolVal(False))
    elif q in ("get_first_child", "get_last_child"): end(P, be, sp, A, res, lambda r: sp.child(n, r), "first" in q)
    elif q in ("get_first_sibling", "get_last_sibling"): end(P, be, sp, A, res, lambda r: sp.sib(n, r), "first" in q)
    elif q in ("get_first_root_node", "get_last_root_node"): end(P, be, sp, A, res, lambda r: And(live(r), sp.root(r)), "first" in q)
    elif q in ("get_next_sibling", "get_prev_sibling"): neighbour(P, be, sp, A, res, n, "next" in q)
    else: raise KeyError(q)


def form(be, node):
    """an unbound move form"""
    import importlib, types
    mod = importlib.import_module("treebeard.forms")
    F = type(mod.MoveNodeForm)("Form", (mod.MoveNodeForm,), {"_meta": types.SimpleNamespace(model=be.model)})
    return F(instance=node)


def judge_form(P, be, sp, n, f):
    """the choices are the nodes outside the branch; the initial values describe the place where the node is"""
    A = ("C19",)
    live, bf = sp.S.live, sp.before
    qs = f.fields["treebeard_ref_node"].offered
    if isinstance(qs, table.QuerySet):
        st = qs._cache if qs._cache is not None else be.W.state
        offered = lambda r: qs.holds(st, r)
    elif isinstance(qs, list):
        if any(not isinstance(x, Filtered) or not x.pairs for x in qs if not (isinstance(x, tuple) and x[0] in ("", None))): raise Unsupported("the choices are a list of something else")
        offered = lambda r: Or([x.has(be, r) for x in qs if isinstance(x, Filtered)] + [BoolVal(False)])
        P.goal(A, "no node is offered twice", BoolVal(sum(isinstance(x, Filtered) for x in qs) <= 1))
    else: raise Unsupported("the choices are not a queryset")
    P.forall(A, "the reference choices are the nodes outside the branch", ["Row"], lambda r: offered(r) == And(live(r), Not(sp.inside(n, r)) if n is not None else BoolVal(True)),
             extra={"Row": [n] if n is not None else []})
    acc = f.fields["treebeard_ref_node"].queryset
    if not isinstance(acc, table.QuerySet): raise Unsupported("a form field without a queryset")
    P.forall(A, "a node that is offered is a valid choice", ["Row"], lambda r: Implies(offered(r), acc.holds(be.W.state, r)), extra={"Row": [n] if n is not None else []})
    if n is None: return
    ini = f.initial
    if not isinstance(ini, dict) or not {"treebeard_position", "treebeard_ref_node"} <= set(ini): raise Unsupported("initial values")
    pos, ref = ini["treebeard_position"], ini["treebeard_ref_node"]
    x = None if ref is None else row_of(ref)
    P.goal(A, "the position is one of those offered", BoolVal(pos in (("sorted-child", "sorted-sibling") if be.order else ("first-child", "left", "right"))))
    under = sp.root(n) if x is None else And(Not(sp.root(n)), be.par0(n) == x)
    beside = None if x is None else And(sp.sib(n, x), x != n)
    name = "the initial place is where the node is"
    if pos in ("sorted-child", "first-child"): P.goal(A, name, under)
    elif beside is None: P.goal(A, name, BoolVal(False))
    else: P.goal(A, name, beside)
    if pos == "first-child": P.forall(A, name + ": no sibling comes before it", ["Row"], lambda s: Implies(And(sp.sib(n, s), s != n), Not(bf(s, n))))
    if pos in ("left", "right") and x is not None:
        a, b = (n, x) if pos == "left" else (x, n)
        P.goal(A, name + ": on the right side", Not(bf(b, a)))
        P.forall(A, name + ": next to it", ["Row"], lambda s: Implies(And(sp.sib(n, s), s != n, s != x), Not(And(bf(a, s), bf(s, b)))))


def annotated(P, be, sp, mgr, node, cfg, maxd):
    """get_annotated_list: what get_annotated_list_qs is given is the branch down to the absolute depth limit (0 and None: no limit)"""
    c, seen = be.c, []
    be.ann_loop, be.ann_none = None, False
    real = mgr.get_annotated_list_qs
    def qs_(qs):
        seen.append(qs)
        L = Listing(be, qs)
        m = None if maxd is None else raw(maxd)
        want = lambda r: And(sp.S.live(r), BoolVal(True) if node is None else sp.inside(node._row, r), BoolVal(True) if m is None else Or(m == 0, sp.depth(r) <= m))
        if getattr(qs, "_none", False): be.ann_none = True; P.forall(("C17",), "nothing is annotated only when nothing is to be", ["Row"], lambda r: Not(want(r)))
        else: P.forall(("C17",), "exactly the branch down to the depth limit is annotated", ["Row"], lambda r: L.holds(r) == want(r))
        if isinstance(qs, table.QuerySet) and not qs._none:
            sks = [c.fresh("skd", "Row") for _ in range(4)]
            a, b, s, t = sks
            c.assume(*be.dfs_facts(a, b, s, t))
            held = And(L.holds(a), L.holds(b))
            P.goal(("C17",), "a node comes before its descendants", Implies(And(held, sp.anc(a, b)), qs.before(sp.S, a, b)), {"Row": [a, b]})
            P.goal(("C17",), "branches follow one another in sibling order", Implies(And(held, sp.S.live(s), sp.S.live(t), s != t, sp.sib(s, t), sp.before(s, t), sp.inside(s, a), sp.inside(t, b)), qs.before(sp.S, a, b)), {"Row": sks})
        return real(qs)
    mgr.__dict__["get_annotated_list_qs"] = qs_
    try: res = mgr.get_annotated_list(node, max_depth=maxd)
    finally: mgr.__dict__.pop("get_annotated_list_qs", None)
    if len(seen) != 1: raise Unsupported("annotated list built in another way")
    return res


def row_of(res):
    if res is None: return None
    if isinstance(res, table.Model) and res._row is not None: return res._row
    raise Unsupported(f"result {res!r}")


def single(P, A, res, want, none):
    w = row_of(res)
    if w is None: P.goal(A, "there is no such node", none)
    else: P.goal(A, "it is that node", want(w))


def end(P, be, sp, A, res, inset, first):
    w = row_of(res)
    if w is None:
        P.forall(A, "None is returned only when there is no such node", ["Row"], lambda r: Not(inset(r)))
        return
    P.goal(A, "the node returned is one of them", And(sp.S.live(w), inset(w)))
    P.forall(A, f"none of them comes {'before' if first else 'after'} it", ["Row"], lambda s: Implies(And(inset(s), s != w), Not(sp.before(s, w) if first else sp.before(w, s))), extra={"Row": [w]})


def neighbour(P, be, sp, A, res, n, nxt):
    w = row_of(res)
    lt = sp.before if nxt else (lambda a, b: sp.before(b, a))
    sib = lambda s: And(sp.sib(n, s), s != n)
    if w is None:
        P.forall(A, "None is returned only at the end of the siblings", ["Row"], lambda s: Implies(sib(s), Not(lt(n, s))))
        return
    P.goal(A, "the node returned is another sibling on that side", And(sib(w), Not(lt(w, n))))
    P.forall(A, "no sibling stands in between", ["Row"], lambda s: Implies(And(sib(s), s != w), Not(And(lt(n, s), lt(s, w)))), extra={"Row": [w]})


def S_live(sp, r): return sp.S.live(r)


def qset(P, be, sp, A, res, inset, order, block=None):
    c = be.c
    if hasattr(res, "vc_contract"): return res.vc_contract(P, be, sp, A, inset, order)
    if isinstance(res, list) and not res and order != "dfs":
        P.forall(A, "there is no such node", ["Row"], lambda r: Not(And(S_live(sp, r), inset(r))))
        return
    if isinstance(res, list): return nodelist(P, be, sp, A, res, inset, order, block)
    if not isinstance(res, table.QuerySet): raise Unsupported(f"result {res!r}")
    S = sp.S
    P.forall(A, "exactly the right nodes", ["Row"], lambda r: res.holds(S, r) == And(S.live(r), inset(r)))
    if res._none: return
    held = lambda *rs: And([res.holds(S, r) for r in rs])
    if order == "sib":
        P.forall(A, "in sibling order", ["Row", "Row"], lambda a, b: Implies(And(held(a, b), a != b, sp.before(a, b)), res.before(S, a, b)))
    elif order == "depth":
        def chain(a, b): return And(be.chain_facts(a, b) + be.dfs_facts(a, b, a, b)) if hasattr(be, "chain_facts") else z3.BoolVal(True)
        P.forall(A, "from the root down", ["Row", "Row"], lambda a, b: Implies(chain(a, b), Implies(And(held(a, b), sp.depth(a) < sp.depth(b)), res.before(S, a, b))))
    else:
        sks = [c.fresh("skd", "Row") for _ in range(4)]
        a, b, s, t = sks
        c.assume(*be.dfs_facts(a, b, s, t))
        P.goal(A, "a node comes before its descendants", Implies(And(held(a, b), sp.anc(a, b)), res.before(S, a, b)), {"Row": [a, b]})
        P.goal(A, "branches follow one another in sibling order", Implies(And(held(a, b), S.live(s), S.live(t), s != t, sp.sib(s, t), sp.before(s, t), sp.inside(s, a), sp.inside(t, b)), res.before(S, a, b)), {"Row": sks})


def count(P, be, sp, A, res, inset, what, n, block):
    if isinstance(res, (int, float)) and not isinstance(res, bool) and res == 0:
        P.forall(A, f"there are no {what}", ["Row"], lambda r: Not(inset(r)))
        return
    t = raw(res)
    for k, qs, st in be.counts:
        if k.eq(t):
            if hasattr(qs, "vc_counted"): return qs.vc_counted(P, be, sp, A, inset, block)
            P.forall(A, f"what is counted are the {what}", ["Row"], lambda r: qs.holds(sp.S, r) == And(sp.S.live(r), inset(r)))
            return
    g = be.count_ghost(P, what, n, block)
    if g is None: raise Unsupported("a count without a contract")
    P.goal(A, f"the number of {what}", t == g)


# ---------------------------------------------------------------------------------------- lists (adjacency list trees)
class Block:
    """what _get_tree_recursively appends: the descendants of a node (all nodes without one) in depth-first order, down to a depth"""
    def __init__(self, row, limit): self.row, self.limit = row, limit
    def vc_block_len(self, l):
        """len(list) where the list ends with this block"""
        if l[-1] is not self or not all(isinstance(x, table.Model) for x in l[:-1]): raise Unsupported("len of a node list")
        c = core.C
        n = c.fresh("blocklen", "Int")
        c.assume(n >= 0)
        table.W.spec.counts.append((n, self, table.W.state))
        return SymInt(n + (len(l) - 1)) if len(l) > 1 else SymInt(n)
    def __eq__(self, o):
        """`node in list` asks every element whether it is the node: a block says whether the node is one of its nodes"""
        if isinstance(o, table.Model): return core.C.branch(self.has(table.W.spec, o._row), "is one of the nodes")
        return self is o
    __hash__ = object.__hash__
    def vc_block_comp(self, l, kind, cond, elt, has_if):
        """[x for x in nodes if cond(x)] over known nodes and blocks"""
        if kind == "set":
            r = core.C.fresh("listed", "Row")
            e = elt(table.W.spec.listed(r))
            if has_if or not (isinstance(e, table.SymPk) and e.t.eq(r)): raise Unsupported("comprehension over a node list")
            return KeySet(l)
        if kind != "list": raise Unsupported("comprehension over a node list")
        out = []
        for x in l:
            if isinstance(x, table.Model):
                if cond(x): out.append(elt(x))
                if out and out[-1] is not x and has_if is False: raise Unsupported("comprehension over a node list")
                continue
            c, be = core.C, table.W.spec
            r = c.fresh("listed", "Row")
            o = be.listed(r)
            e = elt(o)
            if e is not o and not (isinstance(e, tuple) and e and isinstance(e[0], table.SymPk) and e[0].t.eq(r)): raise Unsupported("comprehension over a node list")
            k = c.merged(lambda: cond(be.listed(r))) if has_if else BoolVal(True)
            out.append(Filtered(x, lambda q, k=k, r=r: z3.substitute(k, (r, q)), e is not o))
        return out
    def has(self, be, r):
        h = be.S0.live(r)
        if self.row is not None: h = And(h, r != self.row, be.inside(be.S0, self.row, r))
        return h if self.limit is None else And(h, be.depth0_of(r) <= raw(self.limit))
    def vc_counted(self, P, be, sp, A, inset, block):
        nodelist(P, be, sp, A, [self], inset, "dfs", block)


class KeySet:
    """{x.pk for x in nodes}"""
    def __init__(self, l): self.l = list(l)
    def __contains__(self, k):
        if not isinstance(k, table.SymPk): return False
        return core.C.branch(Or([x._row == k.t if isinstance(x, table.Model) else x.has(table.W.spec, k.t) for x in self.l]), "its key is in the set")


class Filtered:
    """the nodes of a block that satisfy a condition, in the same order"""
    def __init__(self, blk, cond, pairs=False): self.blk, self.cond, self.row, self.limit, self.pairs = blk, cond, None, None, pairs
    __eq__, __hash__ = Block.__eq__, object.__hash__
    def has(self, be, r): return And(self.blk.has(be, r), self.cond(r))
    vc_block_comp = Block.vc_block_comp


# ------------------------------------------------------------------------------------------------- annotated lists (C17)
class Listing:
    """what is annotated: a queryset, or a list of known nodes and blocks; rows in depth-first order"""
    def __init__(self, be, it): self.be, self.it = be, it
    def holds(self, r):
        be = self.be
        if isinstance(self.it, table.QuerySet): return self.it.holds(be.S0, r)
        return Or([r == x._row if isinstance(x, table.Model) else x.has(be, r) for x in self.it] or [BoolVal(False)])
    def obj(self, r):
        if isinstance(self.it, table.QuerySet): return self.it._row_value(r)
        return self.be.listed(r)


class Info(dict): pass
class Annotated(list):
    """the list built so far"""
    def __bool__(self): return True
    def vc_len(self): raise Unsupported("length of the annotated list")


class AnnotateLoop(vc.Plain):
    """for node in listing: ...  builds [(node, info), ...]

    invariant after a node x: every tuple but the last is final; the last one is (x, info) with the level and the open flag of x and
    an empty close list; two numbers hold the depths of the first node and of x.  Which variable plays which part is inferred."""
    ROLES = ("first depth", "last depth", "last node", "first node")

    def __init__(self, key, it, loc, assigned):
        import itertools
        c, be = core.C, table.W.spec
        self.be, self.key = be, key
        self.L = Listing(be, it)
        self.rname = [k for k in assigned if isinstance(loc.get(k), list)][0]
        self.iname = [k for k in assigned if isinstance(loc.get(k), dict)][0]
        self.vars = [k for k in assigned if k in loc and loc[k] is None]
        self.flags = [k for k in assigned if isinstance(loc.get(k), bool)]
        other = [k for k in assigned if k in loc and k not in self.vars + self.flags + [self.rname, self.iname]]
        if other: raise Unsupported("loop without a contract")
        ways = list(itertools.product(self.ROLES, repeat=len(self.vars)))
        k = vc.CANDIDATE.get(("ann", key), 0)
        if k >= len(ways): raise Unsupported("loop without a contract: no inductive one found")
        self.role = dict(zip(self.vars, ways[k]))
        self.flag0 = {f: loc[f] for f in self.flags}
        self.start = dict(loc)
        be.ann_loop = self
        L, sp = self.L, Spec(be)
        self.sp = sp
        how = c.choose(4, "loop: none, first, another, last")
        self.how = ("empty", "first", "next", "done")[how]
        self.havoc = {}
        if self.how in ("empty", "first"): return
        f = self.f = c.term("Row", c.fresh("firstnode", "Row"))
        p = self.p = c.term("Row", c.fresh("prevnode", "Row"))
        c.assume(L.holds(f), L.holds(p), be.depth0_of(f) <= be.depth0_of(p))
        self.result = Annotated()
        self.info = Info(open=SymBool(c.fresh("prevopen", z3.BoolSort())), close=[], level=SymInt(be.depth0_of(p) - be.depth0_of(f)))
        self.before = dict(self.info)
        val = {"first depth": SymInt(be.depth0_of(f)), "last depth": SymInt(be.depth0_of(p)), "last node": None, "first node": None}
        if "last node" in self.role.values(): val["last node"] = L.obj(p)
        if "first node" in self.role.values(): val["first node"] = L.obj(f)
        self.havoc = {k: val[r] for k, r in self.role.items()}
        self.havoc.update({k: False for k in self.flags})
        self.havoc[self.rname], self.havoc[self.iname] = self.result, self.info

    def retry(self):
        vc.CANDIDATE[("ann", self.key)] = vc.CANDIDATE.get(("ann", self.key), 0) + 1
        raise core.Restart

    def elements(self):
        import sys
        fr = sys._getframe(1)
        c, be, L = core.C, self.be, self.L
        D = be.depth0_of
        if self.how == "empty":
            c.forall("nothing listed", ["Row"], lambda r: Not(L.holds(r)))
            return
        if self.how == "done": return
        x = c.term("Row", c.fresh("listednode", "Row"))
        c.assume(L.holds(x))
        if self.how == "first": self.f = x
        else: c.assume(D(self.f) <= D(x))
        obj = L.obj(x)
        yield obj
        loc = fr.f_locals
        res, info = loc.get(self.rname), loc.get(self.iname)
        from mp import obligation
        want_open = BoolVal(True) if self.how == "first" else D(x) > D(self.p)
        ok = isinstance(res, list) and (self.how == "first" or res is self.result) and len(res) == 1 and isinstance(res[0], tuple) and len(res[0]) == 2 and res[0][0] is obj
        obligation("exactly the pair of the node is appended", BoolVal(ok))
        if not ok: raise PathEnd
        got = res[0][1]
        if got is not info: raise Unsupported("loop without a contract")
        ok = isinstance(got, dict) and set(got) == {"open", "close", "level"}
        obligation("the flags are open, close and level", BoolVal(ok))
        if not ok: raise PathEnd
        o = got["open"]
        obligation("open exactly on the first node of its group", (o.t if isinstance(o, SymBool) else BoolVal(bool(o))) == want_open)
        obligation("the level is relative to the first node", raw(got["level"]) == D(x) - D(self.f))
        obligation("nothing is closed yet", raw(vc.b_len(got["close"])) == 0)
        if self.how == "next":
            b = self.info
            obligation("the flags of the previous node stay", BoolVal(set(b) == set(self.before) and b["open"] is self.before["open"] and b["level"] is self.before["level"]))
            obligation("every group that ends after the previous node is closed there", raw(vc.b_len(b["close"])) == If(D(self.p) > D(x), D(self.p) - D(x), 0))
        # the invariant
        for k, r in self.role.items():
            v = loc.get(k)
            good = {"first depth": lambda: isinstance(v, (int, SymInt)) and not isinstance(v, bool) and c.ask(raw(v) == D(self.f), 8000),
                    "last depth": lambda: isinstance(v, (int, SymInt)) and not isinstance(v, bool) and c.ask(raw(v) == D(x), 8000),
                    "last node": lambda: v is obj, "first node": lambda: isinstance(v, table.Model) and v._row is not None and c.ask(v._row == self.f, 8000)}[r]()
            if not good: self.retry()
        for k in self.flags:
            if loc.get(k) is not False: raise Unsupported("loop without a contract")
        if be.W.writes: raise Unsupported("loop with writes")
        raise PathEnd

    def finish(self, P, res):
        """after the loop"""
        D = self.be.depth0_of
        if self.how == "empty":
            P.goal(("C17",), "nothing is annotated only when nothing is listed", BoolVal(isinstance(res, list) and len(res) == 0))
            return
        ok = res is self.result and len(res) == 0
        P.goal(("C17",), "the list built is returned", BoolVal(ok))
        b = self.info
        P.goal(("C17",), "the flags of the last node stay", BoolVal(set(b) == set(self.before) and b["open"] is self.before["open"] and b["level"] is self.before["level"]))
        P.goal(("C17",), "after the last node every open group is closed", raw(vc.b_len(b["close"])) == D(self.p) - D(self.f) + 1)


def ann_loops(key, it, loc, assigned):
    w = table.W.spec if table.W is not None else None
    if w is None or not getattr(w, "S_query", False) or getattr(w, "task_q", "") not in ("annotated", "annotated_qs"): return None
    rows = isinstance(it, table.QuerySet) and not it._none or isinstance(it, list) and any(hasattr(x, "vc_block_comp") or isinstance(x, table.Model) for x in it)
    if not rows: return None
    ls = [k for k in assigned if isinstance(loc.get(k), list) and not loc[k]]
    ds = [k for k in assigned if isinstance(loc.get(k), dict) and not loc[k]]
    if len(ls) == 1 and len(ds) == 1: return AnnotateLoop(key, it, loc, assigned)
    return None
vc.FINDERS.append(ann_loops)


def listing_lemmas(P):
    """in a depth-first listing of a branch (or of everything) down to some depth, with x and y adjacent:
    y is the first of its group exactly when it is deeper than x, and the groups that end after x are those of its ancestors-or-self
    that are deeper than y; hence there are max(0, depth(x) - depth(y)) of them (an ancestor-or-self for every depth).
    The axioms are what makes a set of rows a depth-ordered forest; they are instantiated for the nodes each lemma is about"""
    import itertools
    c, Row, B, I = P.be.c, sort("Row"), z3.BoolSort(), z3.IntSort()
    F = lambda n, *ss: z3.Function("lem_" + n, *ss)
    live, root, D, par, inside, lt = F("live", Row, B), F("root", Row, B), F("depth", Row, I), F("par", Row, Row), F("inside", Row, Row, B), F("dfs", Row, Row, B)
    towards, base = F("towards", Row, Row, Row), F("rootof", Row, Row)          # the child of a that r lies below; the root above r
    top, m, whole = c.fresh("listtop", "Row"), c.fresh("listdepth", "Int"), c.fresh("wholetree", B)
    listed = lambda r: And(live(r), Or(whole, inside(top, r)), D(r) <= m)
    sibs = lambda a, b: And(a != b, live(a), live(b), root(a) == root(b), Or(root(a), par(a) == par(b)))
    def one(r): return Implies(live(r), And(
        root(r) == (D(r) == 1), D(r) >= 1, Implies(Not(root(r)), And(live(par(r)), D(r) == D(par(r)) + 1, inside(par(r), r))),
        live(base(r)), root(base(r)), inside(base(r), r), D(base(r)) == 1, Not(lt(r, r))))
    def two(a, r): return Implies(And(live(a), live(r)), And(
        inside(a, r) == Or(a == r, And(Not(root(r)), inside(a, par(r)))), Implies(inside(a, r), And(D(a) <= D(r), Implies(D(a) == D(r), a == r))),
        Implies(And(a != r, inside(a, r)), And(lt(a, r), live(towards(a, r)), Not(root(towards(a, r))), par(towards(a, r)) == a, inside(towards(a, r), r), D(towards(a, r)) == D(a) + 1)),
        Implies(a != r, Or(lt(a, r), lt(r, a)))))
    def three(a, b, r): return Implies(And(live(a), live(b), live(r)), And(
        Implies(And(inside(a, b), inside(b, r)), inside(a, r)), Implies(And(inside(a, r), inside(b, r)), Or(inside(a, b), inside(b, a))),
        Implies(And(lt(a, b), lt(b, r)), lt(a, r))))
    def four(a, b, x, y): return Implies(And(sibs(a, b), lt(a, b), inside(a, x), inside(b, y), live(x), live(y)), lt(x, y))
    meet = F("meet", Row, Row, Row)                                             # where two unrelated nodes part: the branch of the first
    def part(a, b): return Implies(And(live(a), live(b), Not(inside(a, b)), Not(inside(b, a))), And(sibs(meet(a, b), meet(b, a)), inside(meet(a, b), a), inside(meet(b, a), b)))
    x, y, s, a = [c.fresh("lem" + k, "Row") for k in ("x", "y", "s", "a")]
    base_ok = Implies(Not(whole), And(live(top), D(top) <= m))
    def lemma(name, T, hyp, goal, fours=(), parts=()):
        T = list(T)
        for u, v in parts: T += [meet(u, v), meet(v, u)]
        ax = [one(r) for r in T] + [two(*t) for t in itertools.product(T, repeat=2)] + [three(*t) for t in itertools.product(T, repeat=3)]
        ax += [four(*t) for t in fours] + [part(*t) for t in parts]
        for u, v in parts:
            ax += [four(meet(u, v), meet(v, u), p, q) for p in T for q in T] + [four(meet(v, u), meet(u, v), p, q) for p in T for q in T]
        P.goal(("C17",), "lemma: " + name, Implies(And(ax + hyp(T) + [base_ok]), goal))
    adjacent = lambda *hs: lambda T: [listed(x), listed(y), lt(x, y)] + [Not(And(listed(z), lt(x, z), lt(z, y))) for z in T] + list(hs)
    py, pa = par(y), par(a)
    w = towards(py, x)
    lemma("the first node listed is the top of the branch, or a root", [x, top, base(x)], lambda T: [listed(x)] + [Not(And(listed(z), lt(z, x))) for z in T], Or(And(Not(whole), x == top), And(whole, root(x))))
    lemma("nothing listed is less deep than the first node", [x, y, top], lambda T: [listed(y), Or(And(Not(whole), x == top), And(whole, root(x), listed(x)))], D(x) <= D(y))
    lemma("a node deeper than the one before it is its child", [x, y, py, top], adjacent(D(y) > D(x)), And(Not(root(y)), py == x), parts=[(py, x)])
    lemma("a node deeper than the one before it is the first of its group", [x, y, s], adjacent(Not(root(y)), py == x, sibs(s, y), listed(s)), lt(y, s))
    lemma("a node that is not deeper than the one before it: the node before it is inside an earlier sibling of its group", [x, y, py, w, top], adjacent(D(y) <= D(x), Not(root(y))),
          And(listed(w), sibs(w, y), lt(w, y), inside(w, x)), parts=[(py, x)], fours=[(y, w, y, x)])
    lemma("a root that follows another node is not the first root", [x, y, base(x), top], adjacent(root(y)), And(listed(base(x)), sibs(base(x), y), lt(base(x), y), inside(base(x), x)), fours=[(y, base(x), y, x)])
    lemma("a group of an ancestor-or-self that is deeper than the next node has ended", [x, y, a, s, pa], adjacent(listed(a), inside(a, x), D(a) > D(y), sibs(a, s), lt(a, s), listed(s)), BoolVal(False),
          parts=[(a, y)], fours=[(a, s, x, s)])
    earlier = Or(And(Not(root(y)), py == x), And(Not(root(y)), sibs(w, y), inside(w, x)), And(root(y), sibs(base(x), y), inside(base(x), x)))
    lemma("a group of an ancestor-or-self that is not deeper than the next node goes on with it or below", [x, y, a, w, py, base(x)], adjacent(listed(a), inside(a, x), D(a) <= D(y), earlier), Or(inside(a, y), And(sibs(a, y), lt(a, y))))
    f = c.fresh("lemf", "Row")
    lemma("one listed ancestor-or-self for every depth down from the first node's: at least", [x, a, pa, f, top], lambda T: [listed(f), listed(x), listed(a), inside(a, x), D(a) > D(f), Or(And(Not(whole), f == top), And(whole, root(f)))],
          And(Not(root(a)), listed(pa), inside(pa, x), D(pa) == D(a) - 1))
    lemma("one listed ancestor-or-self for every depth down from the first node's: at most", [x, a, s], lambda T: [live(a), live(x), live(s), inside(a, x), inside(s, x), D(a) == D(s)], a == s)


def nodelist(P, be, sp, A, res, inset, order, block):
    """a Python list: known nodes and blocks"""
    if order != "dfs" or block is None: raise Unsupported("list result")
    node, with_self, maxd = block
    want = []
    if node is not None and with_self: want.append(node._row)
    ok = len(res) == len(want) + 1 and all(isinstance(x, table.Model) for x in res[:-1]) and isinstance(res[-1], Block)
    if not ok:
        # nothing but the block may be missing, and only if there is nothing in it
        if len(res) == len(want) and all(isinstance(x, table.Model) for x in res):
            for x, w in zip(res, want): P.goal(A, "the given node comes first", x._row == w)
            P.forall(A, "exactly the right nodes", ["Row"], lambda r: Implies(And(sp.S.live(r), inset(r)), Or([r == w for w in want])))
            return
        raise Unsupported("list result")
    for x, w in zip(res, want): P.goal(A, "the given node comes first", x._row == w)
    blk = res[-1]
    if node is None: P.goal(A, "then the whole tree", BoolVal(blk.row is None))
    else: P.goal(A, "then its descendants", blk.row == node._row if blk.row is not None else BoolVal(False))
    lim = None if maxd is None else raw(maxd) + (sp.depth(node._row) if node is not None else 0)
    if (lim is None) != (blk.limit is None): P.goal(A, "down to the given depth", BoolVal(False) if lim is not None or blk.limit is not None else BoolVal(True))
    elif lim is not None: P.goal(A, "down to the given depth", raw(blk.limit) == lim)
