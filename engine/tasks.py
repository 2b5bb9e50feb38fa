"""Which scenes (function x position x configuration) carry the obligations of each property."""
import os

SIB = ["first-sibling", "left", "right", "last-sibling"]
MOVE = SIB + ["first-child", "last-child"]
READY = tuple(os.environ.get("VERIF_BACKENDS", "mp,ns,al,lt").split(","))
SORTED = [["k1"], ["-k1"], ["k1", "-k2"]]


def T(be, op, pos=None, **cfg):
    t = {"be": be, "op": op}
    if pos is not None: t["pos"] = pos
    if cfg: t["cfg"] = cfg
    return t


def inserts(be, **cfg):
    return [T(be, "add_root", **cfg), T(be, "add_child", **cfg)] + [T(be, "add_sibling", p, **cfg) for p in SIB]

def moves(be, **cfg): return [T(be, "move", p, **cfg) for p in MOVE]

def sorted_(be, order, **cfg):
    c = dict(cfg, order=order)
    return [T(be, "add_root", **c), T(be, "add_child", **c), T(be, "add_sibling", "sorted-sibling", **c),
            T(be, "move", "sorted-sibling", **c), T(be, "move", "sorted-child", **c)]

def refused(be):
    out = []
    for op in ("add_sibling", "move"):
        out += [T(be, op, "bogus"), T(be, op, "sorted-sibling"), T(be, op, "left", order=["k1"]), T(be, op, "last-sibling", order=["k1"])]
    return out + [T(be, "move", "sorted-child"), T(be, "move", "last-child", order=["k1"]), T(be, "add_sibling", "first-child")]


def tree(be, tier):
    out = inserts(be) + moves(be)
    out += [T(be, "add_child", stale_target=True)]
    out += [T(be, "move", "left", same=True), T(be, "move", "right", same=True), T(be, "move", "last-sibling", same=True), T(be, "move", "first-child", same=True)]
    out += [T(be, "add_sibling", "right", model="mti"), T(be, "add_child", model="mti"), T(be, "move", "left", model="mti-both")]
    out += [T(be, "add_root", kwargs=True)]
    if be == "al": out += [dict(t, cfg=dict(t.get("cfg", {}), cached=True)) for t in inserts("al") + moves("al")]
    if be == "ns": out += [T(be, "add_sibling", "last-sibling", stale=True), T(be, "move", "last-sibling", stale=True)]
    if tier == "thorough":
        for m in ("mti", "mti-base", "mti-both", "proxy"): out += inserts(be, model=m) + moves(be, model=m)
        for o in SORTED: out += sorted_(be, o)
    return dedup(out)


def Q(be, q, **cfg):
    t = {"be": be, "op": "query", "q": q}
    if cfg: t["cfg"] = cfg
    return t


def queries(be, prop, tier):
    """every traversal query (C08), every predicate and get_depth (C09)"""
    import query
    out = [Q(be, "lemmas")]
    variants = [{}, {"model": "mti"}] + ([{"order": ["k1"]}, {"cached": True}] if be == "al" else [])
    if tier == "thorough": variants += [{"model": "mti-both"}, {"model": "proxy"}, {"order": ["k1", "-k2"]}]
    for v in variants:
        if prop == "C09":
            out += [Q(be, q, **v) for q in query.PRED]
            if not v: out += [Q(be, q, same=True) for q in query.PRED if q.endswith("_of")]
            continue
        out += [Q(be, q, **v) for q in query.NODE_Q + ["get_root_nodes", "get_first_root_node", "get_last_root_node"]]
        out += [Q(be, q, max_depth=m, **v) for q in query.DEPTH_Q + ["get_tree_all"] for m in ("none", "any")]
        if be == "al": out += [Q(be, "recurse", max_depth=m, roots=r, **v) for m in ("none", "any") for r in (True, False)]
    return out


def deletes(be, tier, lemmas=True):
    out = [T(be, "delete"), T(be, "delete_qs"), T(be, "delete_qs", model="mti")] + ([T(be, "delete_lemmas")] if lemmas else [])
    if tier == "thorough":
        for m in ("mti", "mti-both", "proxy"): out += [T(be, "delete", model=m), T(be, "delete_qs", model=m)]
        out += [T(be, "delete_qs", order=["k1"])]
    return out


def annotated(be):
    rec = [Q("al", "recurse", max_depth=m, roots=r) for m in ("none", "any") for r in (True, False)] if be == "al" else []
    return ([Q("ns", "lemmas")] if be == "ns" else []) + rec + [Q(be, "annotated", max_depth=m, **r) for m in ("none", "any") for r in ({}, {"roots": True}, {"model": "mti"})]


def dedup(ts):
    out = []
    for t in ts:
        if t not in out: out.append(t)
    return out


def tasks(prop, tier):
    B = []
    def add(be, ts):
        B.extend(ts)
    backs = [b for b in {"C01": ["mp"], "C02": ["ns"], "C03": ["al", "lt"], "C16": ["mp", "ns", "lt"], "C10": ["mp"]}.get(prop, ["mp", "ns", "al", "lt"]) if b in READY]
    for be in backs:
        if prop in ("C01", "C02", "C03"): add(be, tree(be, tier) + deletes(be, tier))
        elif prop == "C07": add(be, deletes(be, tier))
        elif prop == "C04": add(be, [t for t in tree(be, tier) if t["op"].startswith("add") and "order" not in t.get("cfg", {})])
        elif prop == "C05": add(be, [t for t in tree(be, tier) if t["op"] == "move" and "order" not in t.get("cfg", {})])
        elif prop == "C06":
            for o in SORTED: add(be, sorted_(be, o))
            add(be, [T(be, "delete_qs", order=["k1"])])
            if tier == "thorough":
                for m in ("mti", "mti-both"): add(be, sorted_(be, ["k1"], model=m))
        elif prop in ("C08", "C09"): add(be, queries(be, prop, tier))
        elif prop == "C10": add(be, inserts(be) + moves(be) + sorted_(be, ["k1"]))
        elif prop == "C12": add(be, refused(be) + tree(be, "quick") + sorted_(be, ["k1"]))
        elif prop == "C16": add(be, tree(be, tier) + sorted_(be, ["k1"]) + deletes(be, tier))
        elif prop == "C17": add(be, annotated(be))
        elif prop == "C18": add(be, tree(be, tier) + sorted_(be, ["k1"]))
        elif prop == "C19": add(be, [Q(be, q, **v) for q in ("form_edit", "form_new") for v in ({}, {"model": "mti"}, {"order": ["k1"]})])
        elif prop == "C20": add(be, tree(be, tier) + sorted_(be, ["k1"]) + deletes(be, tier, False))
    return dedup(B)


def extra(prop):
    if prop == "C10":
        import codec
        return [codec.run]
    if prop == "C11":
        import labels
        return [labels.run]
    if prop == "C21":
        import deleg
        return [deleg.run]
    if prop in ("C13", "C14") and "mp" in READY:
        import texts
        return [texts.run]
    if prop == "C19":
        import formsave
        return [formsave.run]
    if prop in ("C07", "C08", "C17") and ("mp" in READY or "lt" in READY):
        import strorder
        return [strorder.run]
    """obligation generators that are not scenes: fn(prop, tier, secs) -> records"""
    return []


TRUST = [
    "the meaning given to Django's ORM in engine/table.py (querysets, F/Q/Case expressions, update/delete/save/get/first/last, transaction.atomic)",
    "z3 (SMT solver), CPython executing the functions under contract, the syntax rewriting of engine/loader.py",
    "integer columns are mathematical integers (no column overflow)",
    "objects handed in are instances of the node classes with the row's stored values unless the scene says stale; user code in save() or signal handlers does not touch the tree",
]

def assumptions(prop):
    if prop == "C11": return [TRUST[1], "itertools.product yields the combinations in lexicographic order; str comparison is lexicographic on characters"]
    if prop == "C21": return TRUST[1:2] + ["a deprecated method that only hands opaque values on behaves for all values as for opaque ones (parametricity)"]
    if prop in ("C13", "C14"):
        return TRUST[:3] + ["paths are compared character by character in the order of the alphabet (column collation)", "SELECT COUNT(pk) without GROUP BY yields one row, the number of rows that match",
                            "steps of 4 and 1 characters (thorough: 1 to 4); any alphabet; rows that are not well formed may or may not be counted as children"]
    if prop == "C19": return TRUST + FORM_TRUST
    return TRUST + (DELETE_TRUST if prop in ("C07", "C01", "C02", "C03", "C16", "C20") else [])


DELETE_TRUST = [
    "deleting a row of an adjacency list takes the rows below it along (cascade of the foreign key of the parent, ORM)",
    "delete(): collections.Counter, sorted, functools.reduce have their documented meaning; the number of children that go is the number the loop counted (cardinality of a finite set)",
]
FORM_TRUST = [
    "django.forms: fields are copied from the class, ModelForm.__init__ sets instance and initial, ModelForm.save raises ValueError if there are errors and else writes the instance if commit",
    "MoveNodeForm.save tells fields apart only by comparing their names with the tree fields; the manager's methods meet the contracts that C04, C05, C06, C12 and C18 prove",
]
EXTRA_FUNCTIONS = {
    "C10": ["treebeard/numconv.py:int2str", "treebeard/numconv.py:str2int"] + [f"treebeard/mp_tree.py:{f}" for f in ("_int2str", "_str2int", "_get_path", "_inc_path", "_get_basepath", "_get_lastpos_in_path", "_get_parent_path_from_path", "_get_children_path_interval")],
    "C11": ["treebeard/ltree/__init__.py:generate_label"],
    "C13": ["treebeard/mp_tree.py:find_problems", "treebeard/mp_tree.py:get_parent", "treebeard/mp_tree.py:_get_basepath", "treebeard/mp_tree.py:_get_children_path_interval"],
    "C14": ["treebeard/mp_tree.py:fix_tree (without fix_paths)", "treebeard/mp_tree.py:_fix_numchild"],
    "C19": ["treebeard/forms.py:MoveNodeForm.__init__", "treebeard/forms.py:MoveNodeForm._get_initial", "treebeard/forms.py:MoveNodeForm._set_ref_model_queryset", "treebeard/forms.py:MoveNodeForm.save"],
    "C21": ["treebeard/models.py: every deprecated method", "treebeard/deprecation.py"],
}


def functions(prop):
    files = dict(ns="ns_tree.py", mp="mp_tree.py", al="al_tree.py", lt="ltree/__init__.py")
    out = set()
    for t in tasks(prop, "quick"):
        f = f"treebeard/{files[t['be']]}:"
        if t["op"] == "query" and t["q"].startswith("form_"): pass
        elif t["op"] == "query": out.add(f + t["q"])
        elif t["op"] == "delete_lemmas": pass
        elif t["op"].startswith("delete"):
            if t["be"] != "al": out.add(f + f"{t['be'].upper()}_NodeQuerySet.delete")
            if t["be"] == "ns": out.update([f + "NS_NodeManager._close_gap", f + "NS_NodeManager._alter_gap"])
            out.add("treebeard/models.py:Node.delete")
        else: out.add(f + t["op"])
    return EXTRA_FUNCTIONS.get(prop, []) + sorted(out)


if __name__ == "__main__":
    import sys, json
    print(json.dumps(tasks(sys.argv[1], sys.argv[2])))
