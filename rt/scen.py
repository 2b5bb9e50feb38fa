"""Executes one scenario on the real library and checks the run-time form of the contracts."""
import random, warnings
from contextlib import contextmanager
from django.db import connection, transaction, models as dm
from django.db.models.signals import post_save, post_delete
from treebeard.exceptions import InvalidMoveToDescendant, InvalidPosition, MissingNodeOrderBy, NodeAlreadySaved, PathOverflow
from forest import Forest, from_shape
from backends import backends, Bad

warnings.simplefilter("ignore")
NEW = 10**9          # id given to the node created by a scenario
BE = {}
ADD_POS = ["first-sibling", "left", "right", "last-sibling"]
MOVE_POS = ADD_POS + ["first-child", "last-child"]
STRUCT = {"mp": "C01", "ns": "C02", "al": "C03", "lt": "C03"}


def init(engine):
    BE.clear()
    for b in backends(engine):
        BE[b.name] = b
    Mirror.connect()


class Fault(Exception):
    pass


# ---------------------------------------------------------------------------------------------------------------- mirror
class Mirror:
    """an external copy of the tree fields that only listens to signals (documented meaning)"""
    on = None

    @classmethod
    def connect(cls):
        from treebeard import mp_tree, ns_tree
        def guard(fn):
            def h(sender, **kw):
                m = cls.on
                if m is not None and (sender is m.be.base or issubclass(sender, m.be.base)):
                    getattr(m, fn)(sender=sender, **kw)
            return h
        cls.keep = []
        def c(sig, fn):
            h = guard(fn); cls.keep.append(h); sig.connect(h)
        c(post_save, "saved"); c(post_delete, "deleted")
        c(mp_tree.path_updated, "mp_path"); c(mp_tree.nodes_deleted, "mp_del")
        c(ns_tree.gap_altered, "ns_gap"); c(ns_tree.tree_ids_incremented, "ns_ids")
        c(ns_tree.subtree_moved, "ns_moved"); c(ns_tree.nodes_deleted, "ns_del")
        try:
            from treebeard import ltree
        except Exception:
            ltree = None
        if ltree is not None and connection.vendor == "postgresql":
            c(ltree.subtree_moved_right, "lt_right"); c(ltree.subtree_moved, "lt_moved"); c(ltree.nodes_deleted, "lt_del")

    def __init__(self, be):
        self.be, self.t, self.bad = be, self.snap(be), []

    @staticmethod
    def snap(be):
        fs = {"mp": ("path", "depth"), "ns": ("lft", "rgt", "tree_id", "depth"), "lt": ("path",), "al": ()}[be.kind]
        return {n: {k: (tuple(r[k]) if be.kind == "lt" else r[k]) for k in fs} for n, r in be.rows().items()}

    def saved(self, sender, instance, raw=False, **kw):
        if raw or sender is not self.be.base and not sender._meta.proxy:
            return
        fs = {"mp": ("path", "depth"), "ns": ("lft", "rgt", "tree_id", "depth"), "lt": ("path",), "al": ()}[self.be.kind]
        self.t[self.be.unpk(instance.pk)] = {k: (tuple(getattr(instance, k)) if self.be.kind == "lt" else getattr(instance, k)) for k in fs}

    def deleted(self, sender, instance, **kw):
        self.t.pop(self.be.unpk(instance.pk), None)

    def mp_path(self, sender, old_path, new_path, **kw):
        s = self.be.base.steplen
        for r in self.t.values():
            if r["path"].startswith(old_path):
                r["path"] = new_path + r["path"][len(old_path):]
                r["depth"] += (len(new_path) - len(old_path)) // s
    def mp_del(self, pks_to_remove, paths_to_remove, **kw):
        pks = {self.be.unpk(p) for p in pks_to_remove}
        for n in [n for n, r in self.t.items() if n in pks or any(r["path"].startswith(p) for p in paths_to_remove)]:
            del self.t[n]
    def ns_gap(self, tree_id, start_index, offset, **kw):
        for r in self.t.values():
            if r["tree_id"] == tree_id:
                for k in ("lft", "rgt"):
                    if r[k] >= start_index:
                        r[k] += offset
    def ns_ids(self, min_tree_id, **kw):
        for r in self.t.values():
            if r["tree_id"] >= min_tree_id:
                r["tree_id"] += 1
    def ns_moved(self, tree_id, lft, rgt, target_tree_id, index_offset, depth_offset, **kw):
        for r in self.t.values():
            if r["tree_id"] == tree_id and r["lft"] >= lft and r["rgt"] <= rgt:
                r["tree_id"] = target_tree_id; r["lft"] += index_offset; r["rgt"] += index_offset; r["depth"] += depth_offset
    def ns_del(self, removed_ranges, **kw):
        for n in [n for n, r in self.t.items() if any(r["tree_id"] == t and a <= r["lft"] <= b for t, a, b in removed_ranges)]:
            del self.t[n]
    def lt_right(self, path, suffix="A", **kw):
        path = tuple(path); d = len(path)
        for r in self.t.values():
            p = r["path"]
            if len(p) >= d and p[:d - 1] == path[:-1] and p[d - 1] >= path[-1]:
                r["path"] = p[:d - 1] + (p[d - 1] + suffix,) + p[d:]
    def lt_moved(self, old_path, new_path, **kw):
        o, nw = tuple(old_path), tuple(new_path)
        for r in self.t.values():
            if r["path"][:len(o)] == o:
                r["path"] = nw + r["path"][len(o):]
    def lt_del(self, paths_to_remove, **kw):
        ps = [tuple(p.split(".")) if isinstance(p, str) else tuple(p) for p in paths_to_remove]
        for n in [n for n, r in self.t.items() if any(r["path"][:len(p)] == p for p in ps)]:
            del self.t[n]


def make(be, sc):
    rnd = random.Random(sc["seed"])
    keys = (lambda: (rnd.randrange(4), rnd.randrange(3))) if be.sorted else None
    f = from_shape(tup(sc["shape"]), sc["ids"], keys)
    be.load(f, sc["layout"], rnd)
    return f, rnd


def tup(x):
    return tuple(tup(y) for y in x)


def attrs(be, obj):
    fs = be.fields
    return {k: (tuple(getattr(obj, k)) if be.kind == "lt" else getattr(obj, k)) for k in fs}


def norm(be, row):
    return {k: (tuple(row[k]) if be.kind == "lt" else row[k]) for k in be.fields}


def room_exhausted(be, before_rows, f0, op):
    """PathOverflow is acceptable only if the destination group already uses the last position, or the depth limit is hit"""
    if be.kind != "mp":
        return False
    t = op.get("target")
    kind, pos = op["kind"], op.get("pos")
    if kind == "delete":
        return False
    if kind == "add_root":
        par = None
    elif kind == "add_child" or (pos or "").endswith("child"):
        par = t
    else:
        par = f0.par[t]
    g = f0.kids[par]
    s = be.base.steplen
    if any(be.dec(before_rows[k]["path"][-s:]) >= be.maxpos for k in g):
        return True
    d = (f0.depth(par) if par is not None else 0) + 1
    extra = 0
    if kind == "move":
        n = op["node"]
        extra = max(f0.depth(k) for k in f0.subtree(n)) - f0.depth(n)
    return (d + extra) * s > be.base._meta.get_field("path").max_length


def create_args(be, f, op, cls):
    kw = {"desc": str(NEW)}
    if be.sorted:
        kw["val1"], kw["val2"] = f.val[NEW]
    if be.name == "mp_uuid":
        kw["key"] = f"k{NEW}"
    if op.get("via") == "instance":
        return {"instance": cls(**kw)}
    return {"create_kwargs": kw}


def call(be, op, f, objs):
    """performs the operation through the manager (or the deprecated node API); returns the library's result"""
    cls = be.model
    mgr = cls.objects
    kind = op["kind"]
    if kind == "delete":
        from django.db.models import Q
        sel = [be.mkpk(n) for n in op["sel"]]
        if op.get("how") == "instance":
            return be.fetch(op["sel"][0]).delete()
        if op.get("how") == "descend":
            return mgr.get_descendants(be.fetch(op["sel"][0])).delete()
        m = be.base if be.inherited and not all(type(be.fetch(n)) is cls for n in op["sel"]) else cls
        return m.objects.filter(pk__in=sel).delete()
    dep = op.get("api") == "dep"
    if kind == "add_root":
        a = create_args(be, f, op, cls)
        if dep:
            return cls.add_root(**(a.get("create_kwargs") or a))
        return mgr.add_root(**a)
    t = objs["t"]
    if kind == "add_child":
        a = create_args(be, f, op, cls)
        if dep:
            return t.add_child(**(a.get("create_kwargs") or a))
        return mgr.add_child(t, **a)
    if kind == "add_sibling":
        a = create_args(be, f, op, cls)
        if dep:
            return t.add_sibling(op["pos"], **(a.get("create_kwargs") or a))
        return mgr.add_sibling(t, op["pos"], **a)
    if kind == "move":
        if dep:
            return objs["n"].move(t, op["pos"])
        return mgr.move(objs["n"], t, op["pos"])
    raise AssertionError(kind)


def expected(be, f0, op):
    """(forest or None if rejected, exception class or None)"""
    f = f0.copy()
    kind, pos = op["kind"], op.get("pos")
    if kind in ("add_sibling", "move"):
        valid = ["first-sibling", "left", "right", "last-sibling", "sorted-sibling"]
        vs = ["sorted-sibling"]
        if kind == "move":
            valid = valid + ["first-child", "last-child", "sorted-child"]
            vs = vs + ["sorted-child"]
        if pos is None:
            pos = "sorted-sibling" if be.sorted else "last-sibling"
        if pos not in valid or (be.sorted and pos not in vs):
            return None, InvalidPosition
        if pos in vs and not be.sorted:
            return None, MissingNodeOrderBy
    if kind == "add_root":
        f.insert(NEW, None, f.sorted_idx(f.kids[None], f.key(NEW)) if be.sorted else len(f.kids[None]))
    elif kind == "add_child":
        g = f.kids[op["target"]]
        f.insert(NEW, op["target"], f.sorted_idx(g, f.key(NEW)) if be.sorted else len(g))
    elif kind == "add_sibling":
        f.add_sibling(NEW, op["target"], pos)
    elif kind == "move":
        if f.move(op["node"], op["target"], pos) is None:
            return None, InvalidMoveToDescendant
    elif kind == "delete":
        f.delete(f.kids[op["sel"][0]] if op.get("how") == "descend" else op["sel"])
    return f, None


def run_op(be, sc, want=None):
    """one operation on one forest; returns [(property, label, message)]"""
    out = []
    op = sc["op"]
    f0, rnd = make(be, sc)
    if be.sorted:
        f0.val[NEW] = tuple(op.get("key") or (1, 1))
    before = be.rows()
    objs = {}
    tcls = be.base if op.get("tcls") == "base" else None
    if op.get("target") is not None:
        objs["t"] = be.fetch(op["target"], tcls)
    if op["kind"] == "move":
        objs["n"] = objs["t"] if op["node"] == op["target"] and op.get("same", True) else be.fetch(op["node"], tcls)
    for k in op.get("warm", ()):       # caches filled before the call
        for o in objs.values():
            be.model.objects.get_parent(o); o.get_depth()
    mem0 = {k: attrs(be, o) for k, o in objs.items()}
    exp, exc = expected(be, f0, op)
    Mirror.on = Mirror(be) if be.kind != "al" else None
    res = err = None
    try:
        if op.get("outer"):
            with transaction.atomic():
                res = call(be, op, f0, objs)
        else:
            res = call(be, op, f0, objs)
    except Exception as e:
        err = e
    mirror, Mirror.on = Mirror.on, None
    place = {"add_root": "C04", "add_child": "C04", "add_sibling": "C04", "move": "C05", "delete": "C07"}[op["kind"]]
    if be.sorted and place != "C07":
        place = "C06"
    after = be.rows()
    def rej(want_exc):
        if {n: norm(be, r) for n, r in after.items()} != {n: norm(be, r) for n, r in before.items()}:
            out.append(("C12", "rejected_call_changed_table", f"{type(err).__name__} but the table changed"))
        for k, o in objs.items():
            if attrs(be, o) != mem0[k]:
                out.append(("C12", "rejected_call_changed_object", f"{type(err).__name__} but {'target' if k == 't' else 'node'} object changed: {mem0[k]} -> {attrs(be, o)}"))
    if exc is not None:
        if err is None or type(err) is not exc:
            out.append(("C12", "documented_error", f"expected {exc.__name__}, got {err!r}"))
        if err is not None:
            rej(exc)
        return out
    if err is not None:
        if isinstance(err, PathOverflow) and room_exhausted(be, before, f0, op):
            rej(PathOverflow)
            return out
        p = "C10" if isinstance(err, PathOverflow) else place
        out.append((p, "call_returns", f"unexpected {type(err).__name__}: {err}"))
        if p != place:
            out.append((place, "call_returns", f"unexpected {type(err).__name__}: {err}"))
        if isinstance(err, (InvalidMoveToDescendant, InvalidPosition, MissingNodeOrderBy, NodeAlreadySaved, ValueError)):
            out.append(("C12", "valid_call_rejected", f"unexpected {type(err).__name__}: {err}"))
        return out
    newid = None
    if op["kind"].startswith("add"):
        newid = be.unpk(res.pk)
        relabel(exp, NEW, newid)
    got, bad = be.read()
    if bad:
        out.append((STRUCT[be.kind], "consistent_table", "; ".join(bad[:4])))
        if be.kind == "mp" and any("longer" in b or "whole steps" in b for b in bad):
            out.append(("C10", "no_malformed_path", "; ".join(bad[:4])))
    m = compare(be, got, exp, newid if newid is not None else op.get("node"))
    if m:
        out.append((place, "placement", m))
    if op["kind"] == "delete":
        cnt = len(before) - len(after)
        labels = {be.base._meta.label, be.model._meta.label}
        if res[0] < cnt or (cnt and res[1].get(be.base._meta.label, 0) != cnt and res[1].get(be.model._meta.label, 0) != cnt):
            out.append(("C07", "returned_count", f"returned {res} for {cnt} rows"))
    # objects
    if op["kind"] != "delete" and not bad:
        chk = []
        if newid is not None:
            chk.append(("new", newid, res))
            if op["kind"] == "add_child":
                chk.append(("target", op["target"], objs["t"]))
        else:
            chk.append(("node", op["node"], objs["n"]))
            chk.append(("target", op["target"], objs["t"]))
        for what, n, o in chk:
            if n not in after:
                continue
            if attrs(be, o) != norm(be, after[n]):
                out.append(("C18", "object_fields", f"{what} object has {attrs(be, o)}, table has {norm(be, after[n])}"))
            try:
                p = be.model.objects.get_parent(o)
                p = be.unpk(p.pk) if p is not None else None
                if p != exp.par[n]:
                    out.append(("C18", "object_parent", f"get_parent({what}) = {p}, tree says {exp.par[n]}"))
                if o.get_depth() != exp.depth(n):
                    out.append(("C18", "object_depth", f"{what}.get_depth() = {o.get_depth()}, tree says {exp.depth(n)}"))
            except Exception as e:
                out.append(("C18", "object_usable", f"{what} object: {e!r}"))
    if mirror is not None and not bad:
        want_ = {n: norm(be, r) for n, r in after.items()}
        for r in want_.values():
            r.pop("numchild", None)
        if mirror.t != want_:
            d = [(n, mirror.t.get(n), want_.get(n)) for n in set(mirror.t) | set(want_) if mirror.t.get(n) != want_.get(n)]
            out.append(("C16", "mirror", f"mirror differs from table (node, mirror, table): {d[:3]}"))
    return out


def relabel(f, a, b):
    if a == b:
        return
    f.kids[b] = f.kids.pop(a)
    p = f.par[b] = f.par.pop(a)
    g = f.kids[p]
    g[g.index(a)] = b
    if a in f.val:
        f.val[b] = f.val[a]


def compare(be, got, exp, moved):
    """None if the forest read back is the expected one (ties of sorted trees may be broken either way)"""
    if got.par != exp.par:
        d = {n: (got.par.get(n, "gone"), exp.par.get(n, "gone")) for n in set(got.par) | set(exp.par) if got.par.get(n, "gone") != exp.par.get(n, "gone")}
        return f"parents differ (node: got, expected) {d}"
    if not be.sorted:
        if got.tup() != exp.tup():
            return f"order differs: got {got.tup()} expected {exp.tup()}"
        return None
    for p, g in got.kids.items():
        ks = [exp.key(n) for n in g]
        if ks != sorted(ks):
            return f"children of {p} out of order: {[(n, exp.val[n]) for n in g]}"
        if be.kind != "al" and [n for n in g if n != moved] != [n for n in exp.kids[p] if n != moved]:
            return f"other children of {p} reordered: {g} expected {exp.kids[p]}"
    return None


# ------------------------------------------------------------------------------------------------------- static queries
def idl(be, qs):
    return [be.unpk(o.pk) for o in qs]


def run_queries(be, sc):
    f, rnd = make(be, sc)
    out = []
    mgr = be.model.objects
    def eq(prop, label, got, want, ctx):
        if got != want:
            out.append((prop, label, f"{ctx}: got {got} expected {want}"))
    def one(o):
        return None if o is None else be.unpk(o.pk)
    def safe(prop, label, fn, want, ctx):
        try:
            got = fn()
        except Exception as e:
            got = f"{type(e).__name__}: {e}"
        eq(prop, label, got, want, ctx)
    def same_order(got, want):
        return got
    ids = f.ids()
    sib = (lambda g: g)
    if be.sorted and be.kind == "al":      # ties are unordered there: compare only trees without ties
        for g in f.kids.values():
            ks = [f.key(n) for n in g]
            if len(set(ks)) != len(ks):
                return out
    objs = {n: be.fetch(n) for n in ids}
    only = sc.get("only")
    big = len(ids) > 5
    pick = (lambda l, k: rnd.sample(l, k) if len(l) > k else l)
    def safe(prop, label, fn, want, ctx, safe=safe):
        if only in (None, prop): safe(prop, label, fn, want, ctx)
    def inst(n):
        return be.fetch(n)
    for md in (pick([None, 0, 1, 2, 3], 2) if big else (None, 0, 1, 2, 3)):
        safe("C08", "get_tree", lambda: idl(be, mgr.get_tree(max_depth=md) if md is not None else mgr.get_tree()), list(f.pre(None, md)) if md is not None else ids, f"get_tree(max_depth={md})")
    safe("C08", "get_root_nodes", lambda: idl(be, mgr.get_root_nodes()), f.kids[None], "get_root_nodes")
    roots = f.kids[None]
    safe("C08", "get_first_root_node", lambda: one(mgr.get_first_root_node()), roots[0] if roots else None, "first root")
    safe("C08", "get_last_root_node", lambda: one(mgr.get_last_root_node()), roots[-1] if roots else None, "last root")
    safe("C08", "get_descendants_group_count", lambda: [(be.unpk(o.pk), o.descendants_count) for o in mgr.get_descendants_group_count()], [(n, len(f.subtree(n)) - 1) for n in roots], "group count of the roots")
    for n in (pick(ids, 4) if big and only != "C17" else ids if only != "C17" else []):
        o = inst(n)
        g = f.kids[f.par[n]]
        i = g.index(n)
        ch = f.kids[n]
        for md in (pick([None, 0, 1, 2], 2) if big else (None, 0, 1, 2)):
            kw = {} if md is None else {"max_depth": md}
            sub = list(f.pre(n, md))
            safe("C08", "get_tree(parent)", lambda: idl(be, mgr.get_tree(inst(n), **kw)), [n] + sub, f"get_tree({n},{md})")
            safe("C08", "get_descendants", lambda: idl(be, mgr.get_descendants(o, **kw)), sub, f"get_descendants({n},{md})")
            safe("C08", "get_descendants_self", lambda: idl(be, mgr.get_descendants(o, include_self=True, **kw)), [n] + sub, f"get_descendants({n},self,{md})")
            safe("C08", "get_descendant_count", lambda: mgr.get_descendant_count(o, **kw), len(sub), f"get_descendant_count({n},{md})")
        safe("C08", "get_children", lambda: idl(be, mgr.get_children(o)), ch, f"get_children({n})")
        safe("C08", "get_children_count", lambda: mgr.get_children_count(o), len(ch), f"get_children_count({n})")
        safe("C08", "get_siblings", lambda: idl(be, mgr.get_siblings(o)), g, f"get_siblings({n})")
        safe("C08", "get_ancestors", lambda: idl(be, mgr.get_ancestors(o)), f.ancestors(n), f"get_ancestors({n})")
        safe("C08", "get_parent", lambda: one(mgr.get_parent(o)), f.par[n], f"get_parent({n})")
        safe("C08", "get_parent_update", lambda: one(mgr.get_parent(o, update=True)), f.par[n], f"get_parent({n},update)")
        safe("C08", "get_root", lambda: one(mgr.get_root(o)), (f.ancestors(n) + [n])[0], f"get_root({n})")
        safe("C08", "get_first_child", lambda: one(mgr.get_first_child(o)), ch[0] if ch else None, f"get_first_child({n})")
        safe("C08", "get_last_child", lambda: one(mgr.get_last_child(o)), ch[-1] if ch else None, f"get_last_child({n})")
        safe("C08", "get_first_sibling", lambda: one(mgr.get_first_sibling(o)), g[0], f"get_first_sibling({n})")
        safe("C08", "get_last_sibling", lambda: one(mgr.get_last_sibling(o)), g[-1], f"get_last_sibling({n})")
        safe("C08", "get_prev_sibling", lambda: one(mgr.get_prev_sibling(o)), g[i - 1] if i else None, f"get_prev_sibling({n})")
        safe("C08", "get_next_sibling", lambda: one(mgr.get_next_sibling(o)), g[i + 1] if i + 1 < len(g) else None, f"get_next_sibling({n})")
        safe("C08", "get_descendants_group_count(parent)", lambda: [(be.unpk(x.pk), x.descendants_count) for x in mgr.get_descendants_group_count(inst(n))], [(k, len(f.subtree(k)) - 1) for k in ch], f"group count below {n}")
        safe("C09", "is_root", lambda: bool(o.is_root()), f.par[n] is None, f"is_root({n})")
        safe("C09", "is_leaf", lambda: bool(o.is_leaf()), not ch, f"is_leaf({n})")
        safe("C09", "get_depth", lambda: o.get_depth(), f.depth(n), f"get_depth({n})")
        for m in ids:
            p = objs[m]
            safe("C09", "is_child_of", lambda: bool(o.is_child_of(p)), f.par[n] == m, f"{n}.is_child_of({m})")
            safe("C09", "is_descendant_of", lambda: bool(o.is_descendant_of(p)), f.is_desc(n, m), f"{n}.is_descendant_of({m})")
            safe("C09", "is_sibling_of", lambda: bool(o.is_sibling_of(p)), f.par[n] == f.par[m], f"{n}.is_sibling_of({m})")
    # annotated lists
    def annot(start, md, seq):
        d0 = (f.depth(start) if start is not None else 1)
        res, n_ = [], len(seq)
        for i, n in enumerate(seq):
            d = f.depth(n)
            nd = f.depth(seq[i + 1]) if i + 1 < n_ else d0 - 1
            res.append((n, d - d0, i == 0 or d > f.depth(seq[i - 1]), max(0, d - nd)))
        return res
    def got_annot(l):
        return [(be.unpk(o.pk), i["level"], bool(i["open"]), len(list(i["close"]))) for o, i in l]
    for md in (None, 1, 2):
        safe("C17", "get_annotated_list", lambda: got_annot(mgr.get_annotated_list(max_depth=md)), annot(None, md, [n for n in ids if md is None or f.depth(n) <= md]), f"get_annotated_list(max_depth={md})")
    for n in (ids if only != "C08" and only != "C09" else []):
        safe("C17", "get_annotated_list(parent)", lambda: got_annot(mgr.get_annotated_list(inst(n))), annot(n, None, f.subtree(n)), f"get_annotated_list({n})")
    return out


# ----------------------------------------------------------------------------------------------------------- atomicity
def run_fault(be, sc):
    """fail the k-th write of an operation, for every k: afterwards the table must be unchanged (or the call complete)"""
    out = []
    k = 0
    while k < 60:
        k += 1
        f0, rnd = make(be, sc)
        op = sc["op"]
        if be.sorted:
            f0.val[NEW] = tuple(op.get("key") or (1, 1))
        objs = {}
        if op.get("target") is not None:
            objs["t"] = be.fetch(op["target"])
        if op["kind"] == "move":
            objs["n"] = be.fetch(op["node"])
        before = be.rows()
        cnt = [0]
        tables = {be.base._meta.db_table, be.model._meta.db_table}
        def wrapper(execute, sql, params, many, context):
            s = sql.lstrip().upper()
            if s.startswith(("INSERT", "UPDATE", "DELETE")):
                cnt[0] += 1
                if cnt[0] == k:
                    raise Fault(f"write {k}: {sql[:60]}")
            return execute(sql, params, many, context)
        err = None
        try:
            with connection.execute_wrapper(wrapper):
                if sc.get("outer"):
                    with transaction.atomic():
                        try:
                            with_err = None
                            call(be, op, f0, objs)
                        except Fault as e:
                            err = e
                        mid = be.rows()
                else:
                    call(be, op, f0, objs)
        except Exception as e:
            err = e
        after = be.rows()
        if cnt[0] < k:
            break
        if err is None:
            out.append(("C20", "fault_swallowed", f"fault at write {k} was swallowed"))
        if after != before:
            d = {n: (before.get(n), after.get(n)) for n in set(before) | set(after) if before.get(n) != after.get(n)}
            out.append(("C20", "all_or_nothing", f"{op['kind']}: failing write {k} left a partial change {dict(list(d.items())[:2])}"))
            break
    return out
