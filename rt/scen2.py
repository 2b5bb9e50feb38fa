"""Further scenario kinds: histories, find_problems, fix_tree, dump/load, forms, deprecated API, codec, labels, argument checks."""
import inspect, random, warnings
from django.db import connection, transaction
from django.db.models import QuerySet
from treebeard.exceptions import InvalidMoveToDescendant, InvalidPosition, MissingNodeOrderBy, NodeAlreadySaved, PathOverflow
from forest import Forest, from_shape
from backends import Bad
import scen
from scen import make, attrs, norm, call, expected, compare, relabel, room_exhausted, NEW, tup, idl, STRUCT, Mirror


# ------------------------------------------------------------------------------------------------- histories with reuse
def run_history(be, sc):
    """several operations in a row that keep using the objects earlier operations were given or returned (no reloading).
    Objects that took part in the operation are fresh by C18; all others are refetched before use."""
    out = []
    f, rnd = make(be, sc)
    fresh = {}
    place = {"add_root": "C04", "add_child": "C04", "add_sibling": "C04", "move": "C05", "delete": "C07"}
    nextid = NEW
    for step, op in enumerate(sc["ops"]):
        op = dict(op)
        ids = f.ids()
        if op["kind"] != "add_root" and not ids:
            continue
        for k in ("node", "target"):
            if k in op:
                op[k] = ids[op[k] % len(ids)]
        if "sel" in op:
            op["sel"] = sorted({ids[i % len(ids)] for i in op["sel"]})
        if be.sorted:
            f.val[NEW] = tuple(op.get("key") or (1, 1))
        objs = {}
        if op.get("target") is not None:
            objs["t"] = fresh.get(op["target"]) or be.fetch(op["target"])
        if op["kind"] == "move":
            objs["n"] = objs["t"] if op["node"] == op["target"] else (fresh.get(op["node"]) or be.fetch(op["node"]))
        before = be.rows()
        exp, exc = expected(be, f, op)
        hist = f"step {step} {op}"
        P = "C06" if be.sorted and op["kind"] != "delete" else place[op["kind"]]
        if be.name == "mp_uuid":
            return out
        try:
            res = call(be, op, f, objs)
        except Exception as e:
            if exc is not None and type(e) is exc or isinstance(e, PathOverflow) and room_exhausted(be, before, f, op):
                if be.rows() != before:
                    out.append(("C12", "rejected_call_changed_table", f"{hist}: {type(e).__name__} but the table changed"))
                continue
            used = any(n in fresh for n in (op.get("target"), op.get("node")))
            out.append(("C18" if used else P, "object_reuse" if used else "call_returns", f"{hist}: {e!r}"))
            return out
        if exc is not None:
            out.append(("C12", "documented_error", f"{hist}: expected {exc.__name__}"))
            return out
        newid = None
        if op["kind"].startswith("add"):
            newid = be.unpk(res.pk)
            relabel(exp, NEW, newid)
        got, bad = be.read()
        used = any(n in fresh for n in (op.get("target"), op.get("node")))
        m = compare(be, got, exp, newid if newid is not None else op.get("node"))
        if bad:
            out.append(("C18" if used else STRUCT[be.kind], "consistent_after_reuse", f"{hist}: {'; '.join(bad[:3])}"))
            if used:
                out.append((STRUCT[be.kind], "consistent_table", f"{hist}: {'; '.join(bad[:3])}"))
            return out
        if m:
            out.append(("C18" if used else P, "placement_after_reuse", f"{hist}: {m}"))
            return out
        f = got if not be.sorted else got
        if be.sorted:
            f.val = {n: exp.val[n] for n in f.par}
        fresh = {}
        if newid is not None:
            fresh[newid] = res
            if op["kind"] == "add_child":
                fresh[op["target"]] = objs["t"]
        elif op["kind"] == "move":
            fresh[op["node"]], fresh[op["target"]] = objs["n"], objs["t"]
    return out


# ------------------------------------------------------------------------------------------------------------------ C13
def run_problems(be, sc):
    rnd = random.Random(sc["seed"])
    return (mp_problems if be.kind == "mp" else ns_problems)(be, sc, rnd)


def mp_problems(be, sc, rnd):
    out, s = [], be.base.steplen
    f, _ = make(be, sc)
    rows = be.rows()
    def put(n, **kw):
        be.plainqs().filter(pk=be.mkpk(n)).update(**kw)
    for _ in range(sc["damage"]):
        n = rnd.choice(list(rows))
        p = rows[n]["path"]
        k = rnd.randrange(5)
        new = None
        if k == 0:
            i = rnd.randrange(len(p)); new = p[:i] + rnd.choice("!~") + p[i + 1:]
        elif k == 1:
            new = p[:-1] if s > 1 else None
        elif k == 2:
            new = p[:-s] + be.enc(1) + be.enc(2) + p[-s:]
        elif k == 3:
            put(n, depth=rnd.randrange(1, 5))
        else:
            put(n, numchild=rnd.randrange(0, 4))
        if new and len(new) <= be.base._meta.get_field("path").max_length and new not in {r["path"] for r in be.rows().values()}:
            put(n, path=new)
        rows = be.rows()
    paths = {r["path"]: n for n, r in rows.items()}
    def spec(rs):
        L = [set(), set(), set(), set(), set()]
        for n, r in rs.items():
            p = r["path"]
            if any(c not in be.base.alphabet for c in p): L[0].add(n)
            elif len(p) % s: L[1].add(n)
            elif len(p) > s and p[:-s] not in paths: L[2].add(n)
            elif r["depth"] != len(p) // s: L[3].add(n)
            else:
                # a malformed row below may or may not count as a child
                kids = [q for q in paths if len(q) == len(p) + s and q.startswith(p)]
                odd = [q for q in paths if q.startswith(p) and q != p and (any(c not in be.base.alphabet for c in q) or len(q) % s)]
                if len(kids) != r["numchild"]:
                    (L[4] if not odd else L[4]).add(n)
                if odd: unsure.add(n)
        return L
    unsure = set()
    def cmp(got, rs, what):
        want = spec(rs)
        names = ["evil_chars", "bad_steplen", "orphans", "wrong_depth", "wrong_numchild"]
        for nm, g, w in zip(names, got, want):
            g = [be.unpk(x) for x in g]
            if len(set(g)) != len(g):
                out.append(("C13", nm, f"{what}: duplicates in {g}"))
            if nm == "wrong_numchild":
                g, w = set(g) - unsure, w - unsure
            if set(g) != w:
                out.append(("C13", nm, f"{what}: {nm} = {sorted(g)} expected {sorted(w)}; table {[(n, r['path'], r['depth'], r['numchild']) for n, r in rows.items()]}"))
    try:
        cmp(be.model.objects.find_problems(), rows, "find_problems()")
        for n in rows:
            cmp(be.model.objects.find_problems(parent=be.fetch(n)), {m: r for m, r in rows.items() if r["path"].startswith(rows[n]["path"])}, f"find_problems(parent={n})")
    except Exception as e:
        out.append(("C13", "returns", f"{e!r}; table {[(n, r['path'], r['depth'], r['numchild']) for n, r in rows.items()]}"))
    return out


def ns_problems(be, sc, rnd):
    out = []
    f, _ = make(be, sc)
    rows = be.rows()
    for _ in range(sc["damage"]):
        n = rnd.choice(list(rows))
        k = rnd.randrange(5)
        r = rows[n]
        upd = [{"depth": rnd.randrange(1, 5)}, {"lft": r["rgt"], "rgt": r["lft"]}, {"rgt": r["rgt"] + rnd.choice((1, 2, 3))},
               {"tree_id": rnd.choice([x["tree_id"] for x in rows.values()])}, {"lft": max(0, r["lft"] + rnd.choice((-2, -1, 1, 2)))}][k]
        be.plainqs().filter(pk=be.mkpk(n)).update(**upd)
        rows = be.rows()
    rev = {n for n, r in rows.items() if r["rgt"] <= r["lft"]}
    ok = {n: r for n, r in rows.items() if n not in rev}
    def crossing(rs):
        l = list(rs.items())
        for i, (a, ra) in enumerate(l):
            for b, rb in l[i + 1:]:
                if ra["tree_id"] == rb["tree_id"] and not (ra["rgt"] < rb["lft"] or rb["rgt"] < ra["lft"] or
                        (ra["lft"] < rb["lft"] and rb["rgt"] < ra["rgt"]) or (rb["lft"] < ra["lft"] and ra["rgt"] < rb["rgt"])):
                    return True
        return False
    def level(n, rs):
        r = rs[n]
        return 1 + sum(1 for m, q in rs.items() if q["tree_id"] == r["tree_id"] and q["lft"] < r["lft"] and q["rgt"] > r["rgt"])
    ctx = [(n, r["tree_id"], r["lft"], r["rgt"], r["depth"]) for n, r in rows.items()]
    def chk(got, rs, what, base=0):
        g = [[be.unpk(x) for x in l] for l in got]
        okk = {n: r for n, r in rs.items() if r["rgt"] > r["lft"]}
        if sorted(g[0]) != sorted(n for n, r in rs.items() if r["rgt"] <= r["lft"]):
            out.append(("C13", "reversed", f"{what}: {g}; {ctx}"))
        cr = crossing(okk)
        if bool(g[1]) != cr:
            out.append(("C13", "overlapping", f"{what}: {g} crossing={cr}; {ctx}"))
        if not cr:
            dup, first = [], {}
            for n in sorted(okk, key=lambda n: (okk[n]["tree_id"], okk[n]["lft"])):
                if level(n, okk) == 1:
                    if okk[n]["tree_id"] in first: dup.append(n)
                    first.setdefault(okk[n]["tree_id"], n)
            if sorted(g[2]) != sorted(dup):
                out.append(("C13", "duplicate_roots", f"{what}: {g} expected {dup}; {ctx}"))
            wd = [n for n in okk if n not in dup and okk[n]["depth"] != level(n, okk) + base]
            if sorted(g[3]) != sorted(wd):
                out.append(("C13", "wrong_depth", f"{what}: {g} expected {wd}; {ctx}"))
    try:
        chk(be.model.objects.find_problems(), rows, "find_problems()")
        if not rev and not crossing(ok):
            for n in rows:
                r = rows[n]
                sub = {m: q for m, q in rows.items() if q["tree_id"] == r["tree_id"] and q["lft"] >= r["lft"] and q["rgt"] <= r["rgt"]}
                if (r["lft"] == 1) != (level(n, ok) == 1):
                    continue
                chk(be.model.objects.find_problems(parent=be.fetch(n)), sub, f"find_problems(parent={n})", level(n, ok) - 1)
    except Exception as e:
        out.append(("C13", "returns", f"{e!r}; {ctx}"))
    return out


# ------------------------------------------------------------------------------------------------------------------ C14
def run_fix(be, sc):
    out, rnd = [], random.Random(sc["seed"])
    f, _ = make(be, sc)
    s = be.base.steplen
    for n in f.ids():
        if rnd.random() < .5:
            be.plainqs().filter(pk=be.mkpk(n)).update(**rnd.choice([{"depth": rnd.randrange(1, 6)}, {"numchild": rnd.randrange(0, 4)}, {"depth": rnd.randrange(1, 6), "numchild": 0}]))
    if be.sorted:
        for n in f.ids():
            if rnd.random() < .6:
                f.val[n] = (rnd.randrange(4), rnd.randrange(3))
                be.plainqs().filter(pk=be.mkpk(n)).update(val1=f.val[n][0], val2=f.val[n][1])
    rows = be.rows()
    fp, par = sc["fix_paths"], sc.get("parent")
    P = None
    if par is not None:
        n = f.ids()[par % len(f.ids())]
        be.plainqs().filter(pk=be.mkpk(n)).update(depth=f.depth(n), numchild=len(f.kids[n]))
        rows = be.rows()
        P = be.fetch(n)
        scope = set(f.subtree(n))
    else:
        scope = set(f.ids())
    ctx = f"fix_tree(fix_paths={fp}, parent={P and be.unpk(P.pk)}) on {[(n, r['path'], r['depth'], r['numchild'], r.get('val1'), r.get('val2')) for n, r in rows.items()]}"
    mir = Mirror(be)
    Mirror.on = mir
    try:
        be.model.objects.fix_tree(fix_paths=fp, parent=P)
    except Exception as e:
        Mirror.on = None
        if isinstance(e, PathOverflow) and any(be.dec(rows[k]["path"][-s:]) + len(g) > be.maxpos for g in f.kids.values() for k in g):
            if {n: r["path"] for n, r in be.rows().items()} != {n: r["path"] for n, r in rows.items()}:
                out.append(("C14", "overflow_changes", ctx))
            return out
        out.append(("C14", "returns", f"{ctx}: {e!r}"))
        return out
    Mirror.on = None
    after = be.rows()
    got, bad = be.read()
    for n in scope:
        if after[n]["depth"] != f.depth(n) or after[n]["numchild"] != len(f.kids[n]):
            out.append(("C14", "depth_numchild", f"{ctx}: node {n} has depth {after[n]['depth']} numchild {after[n]['numchild']}"))
            break
    for n in set(f.ids()) - scope:
        if after[n] != rows[n]:
            out.append(("C14", "outside_touched", f"{ctx}: node {n} {rows[n]} -> {after[n]}"))
            break
    if not fp:
        for n in f.ids():
            if after[n]["path"] != rows[n]["path"]:
                out.append(("C14", "path_changed", f"{ctx}: node {n}"))
                break
    else:
        if got.par != f.par:
            out.append(("C14", "parents", f"{ctx}: {got.par}"))
        else:
            for p, g in f.kids.items():
                if (p is None and P is not None) or (p is not None and p not in scope):
                    continue
                now = sorted(g, key=lambda n: after[n]["path"])
                pos = [be.dec(after[n]["path"][-s:]) for n in now]
                if pos != list(range(1, len(g) + 1)):
                    out.append(("C14", "renumber", f"{ctx}: children of {p} at {pos}"))
                if be.sorted:
                    ks = [f.key(n) for n in now]
                    if ks != sorted(ks):
                        out.append(("C14", "sorted_order", f"{ctx}: children of {p} {list(zip(now, ks))}"))
                elif now != g:
                    out.append(("C14", "order_kept", f"{ctx}: children of {p} {now} expected {g}"))
            if {n: r["path"] for n, r in mir.t.items()} != {n: r["path"] for n, r in after.items()}:
                out.append(("C16", "fix_tree_mirror", ctx))
    if not out and not be.sorted:
        be.model.objects.fix_tree(fix_paths=fp, parent=P and be.fetch(be.unpk(P.pk)))
        if be.rows() != after:
            out.append(("C14", "idempotent", ctx))
    if not out and be.sorted and fp:
        be.model.objects.fix_tree(fix_paths=fp, parent=P and be.fetch(be.unpk(P.pk)))
        a2 = be.rows()
        groups = [[f.key(n) for n in g] for g in f.kids.values()]
        if all(len(set(k)) == len(k) for k in groups) and a2 != after:
            out.append(("C14", "idempotent", ctx))
    return out


# ------------------------------------------------------------------------------------------------------------------ C15
def shape_of(data):
    return tuple((d["data"]["desc"], shape_of(d.get("children", []))) for d in data)


def run_bulk(be, sc):
    """dump a forest (or branch), load it elsewhere: sc = parent (index or None), keep_ids, bulk_create, base shape"""
    out, rnd = [], random.Random(sc["seed"])
    f, _ = make(be, sc)
    mgr = be.model.objects
    ids = f.ids()
    kw = {}
    src = None if sc.get("src") is None or not ids else ids[sc["src"] % len(ids)]
    try:
        data = mgr.dump_bulk(parent=be.fetch(src) if src is not None else None, keep_ids=sc["keep_ids"])
    except Exception as e:
        return [("C15", "dump_returns", repr(e))]
    def fshape(ns, g=f):
        return tuple((str(n), fshape(g.kids[n], g)) for n in ns)
    want = fshape(f.kids[None] if src is None else [src])
    if shape_of(data) != want:
        return [("C15", "dump_shape", f"dump {shape_of(data)} expected {want}")]
    # the destination: a second forest (ids 500..) in a cleared table
    g = from_shape(tup(sc["dest"]), range(500, 600), (lambda: (rnd.randrange(4), rnd.randrange(3))) if be.sorted else None)
    be.load(g, sc["layout"], rnd)
    dids = g.ids()
    par = None if sc.get("parent") is None or not dids else dids[sc["parent"] % len(dids)]
    if sc.get("bulk_create"):
        kw["bulk_create"] = True
    before = be.rows()
    def cnt(n):
        return len(f.subtree(n))
    newn = sum(cnt(n) for n in (f.kids[None] if src is None else [src]))
    try:
        added = mgr.load_bulk(data, parent=be.fetch(par) if par is not None else None, keep_ids=sc["keep_ids"], **kw)
    except Exception as e:
        if isinstance(e, PathOverflow) and be.kind == "mp":
            if be.rows() != before:
                return [("C20", "load_bulk_overflow", "partial load left behind")]
            fits = True
            s, ml = be.base.steplen, be.base._meta.get_field("path").max_length
            top = f.kids[None] if src is None else [src]
            dd = g.depth(par) if par is not None else 0
            d0 = (f.depth(src) - 1) if src is not None else 0
            if top and (dd + max(f.depth(k) for n in top for k in f.subtree(n)) - d0) * s > ml: fits = False
            exist = [be.dec(before[k]["path"][-s:]) for k in g.kids[par]]
            if max(exist, default=0) + len(top) > be.maxpos: fits = False
            if any(len(v) > be.maxpos for v in f.kids.values()): fits = False
            if fits:
                out.append(("C15", "load_returns", f"unexpected {e!r}"))
            return out
        return [("C15", "load_returns", f"load_bulk(parent={par}, keep_ids={sc['keep_ids']}, {kw}): {e!r}")]
    after = be.rows()
    got, bad = be.read()
    ctx = f"load_bulk of {want} below {par}, keep_ids={sc['keep_ids']}, {kw}"
    if bad:
        out.append(("C15", "consistent", f"{ctx}: {'; '.join(bad[:3])}"))
        out.append((STRUCT[be.kind], "load_bulk_consistent", f"{ctx}: {'; '.join(bad[:3])}"))
        if be.kind == "mp" and any("longer" in b or "whole" in b or "same path" in b for b in bad):
            out.append(("C10", "load_bulk_overflow", f"{ctx}: {'; '.join(bad[:3])}"))
        return out
    new = [n for n in after if n not in before]
    addl = [be.unpk(a) for a in added]
    if sorted(addl) != sorted(new) or len(new) != newn:
        out.append(("C15", "returned_keys", f"{ctx}: returned {addl}, new rows {new}"))
    byd = {n: after[n]["desc"] for n in after}
    if be.sorted:
        val = {**{n: (after[n]["val1"], after[n]["val2"]) for n in after}}
        got.val = val
    newset = set(new)
    tops = [n for n in got.kids[par] if n in newset]
    if be.kind == "lt" and not be.sorted:
        pass
    def gshape(ns):
        return tuple((byd[n], gshape(got.kids[n])) for n in ns)
    def canon(t):
        return tuple(sorted((d, canon(c)) for d, c in t))
    gs = gshape(tops)
    if (canon(gs) if be.sorted else gs) != (canon(want) if be.sorted else want):
        out.append(("C15", "shape", f"{ctx}: loaded {gs}"))
    if be.sorted:
        for n in new:
            o = int(byd[n])
            if got.val[n] != f.val[o]:
                out.append(("C15", "field_values", f"{ctx}: node {n} {got.val[n]} expected {f.val[o]}"))
        for p in got.kids:
            ks = [got.key(n) for n in got.kids[p]]
            if ks != sorted(ks):
                out.append(("C06", "load_bulk_sorted", f"{ctx}: children of {p}: {ks}"))
    elif tops and [n for n in got.kids[par]][-len(tops):] != tops:
        out.append(("C15", "appended_last", f"{ctx}: {got.kids[par]}"))
    if sc["keep_ids"] and any(str(n) != byd[n] for n in new):
        out.append(("C15", "keep_ids", f"{ctx}: {[(n, byd[n]) for n in new]}"))
    rest = {p: [n for n in v if n not in newset] for p, v in got.kids.items() if p not in newset}
    if {p: v for p, v in rest.items()} != {p: list(v) for p, v in g.kids.items()}:
        if not be.sorted or {p: sorted(v) for p, v in rest.items()} != {p: sorted(v) for p, v in g.kids.items()}:
            out.append(("C15", "existing_nodes", f"{ctx}: {rest} expected {g.kids}"))
    return out


# ------------------------------------------------------------------------------------------------------------------ C19
def form_invalid(be, form, ctx):
    """saving an invalid form raises and writes nothing"""
    before = be.rows()
    if form.is_valid():
        return [("C19", "invalid_accepted", ctx)]
    try:
        form.save()
        return [("C19", "invalid_saved", f"invalid form ({form.errors.as_text()}): {ctx}")]
    except Exception as e:
        return [] if be.rows() == before else [("C19", "invalid_changes_table", f"invalid form, {e!r}: {ctx}")]


def run_form(be, sc):
    from treebeard.forms import movenodeform_factory
    out = []
    f, rnd = make(be, sc)
    Form = movenodeform_factory(be.model)
    mgr = be.model.objects
    node, ref, pos = sc.get("node"), sc.get("ref"), sc["pos"]
    def data(n):
        d = {"desc": "form" if n is None else str(n), "treebeard_position": pos, "treebeard_ref_node": "" if ref is None else str(be.mkpk(ref)), "extra": "x"}
        if be.sorted:
            k = tuple(sc.get("key") or (1, 1)) if n is None or sc.get("key") else f.val[n]
            if sc.get("dkey"): k = tuple(a + b for a, b in zip(k, sc["dkey"]))
            d["val1"], d["val2"] = k
            if n is None: f.val[NEW] = k
            else: f.val[n] = k
        if be.name == "mp_uuid":
            d["key"] = f"k{NEW if n is None else n}"
        return d
    ctx = f"node={node} ref={ref} pos={pos} key={sc.get('key')}{sc.get('dkey') or ''} on {f.tup()}"
    if node is None:
        exp = f.copy()
        d = data(None)
        ini = {"treebeard_position": pos, "treebeard_ref_node": None if ref is None else be.fetch(ref), **{k: v for k, v in d.items() if k in ("val1", "val2")}} if sc.get("initial") else None
        if sc.get("invalid"): d["treebeard_position" if sc["invalid"] == "pos" else "treebeard_ref_node"] = "bogus"
        form = Form(d, initial=ini)
        if sc.get("invalid"): return form_invalid(be, form, ctx)
        if be.sorted:
            exp.val = dict(f.val)
        if ref is None:
            g, p = exp.kids[None], None
            i = exp.sorted_idx(g, exp.key(NEW)) if be.sorted else len(g)
        else:
            p = ref if pos.endswith("child") else exp.par[ref]
            g = exp.kids[p]
            i = exp.sorted_idx(g, exp.key(NEW)) if be.sorted else {"first-child": lambda: 0, "left": lambda: g.index(ref), "right": lambda: g.index(ref) + 1}[pos]()
        exp.insert(NEW, p, i)
    else:
        inst = be.fetch(node)
        form0 = Form(instance=be.fetch(node))
        # choices
        ch = [str(getattr(v, "value", v)) for v, _ in form0.fields["treebeard_ref_node"].choices]
        want = {str(be.mkpk(n)) for n in f.ids() if n not in f.subtree(node)}
        if set(ch) - {""} != want or len([c for c in ch if c]) != len(want):
            out.append(("C19", "ref_choices", f"{ctx}: offered {ch} expected {sorted(want)}"))
        if sc.get("unchanged"):
            ini = form0.initial
            rn = ini.get("treebeard_ref_node")
            d = data(node)
            d.update({"treebeard_position": ini["treebeard_position"], "treebeard_ref_node": "" if rn is None else str(rn.pk), "desc": "changed"})
            before = be.rows()
            form = Form(d, instance=inst)
            try:
                if not form.is_valid():
                    return out + [("C19", "unchanged_valid", f"{ctx}: {form.errors.as_text()}")]
                form.save()
            except Exception as e:
                return out + [("C19", "unchanged_save", f"{ctx}: {e!r}")]
            a = be.rows()
            if {n: norm(be, r) for n, r in a.items()} != {n: norm(be, r) for n, r in before.items()} or a[node]["desc"] != "changed":
                out.append(("C19", "unchanged_leaves_tree", ctx))
            return out
        exp = f.copy()
        d = data(node)
        if sc.get("invalid"):
            d["treebeard_position" if sc["invalid"] == "pos" else "treebeard_ref_node"] = "bogus"
            return out + form_invalid(be, Form(d, instance=inst), ctx)
        form = Form(d, instance=inst)
        exp.val = dict(f.val)
        if ref is not None and (ref == node or f.is_desc(ref, node)):
            if form.is_valid():
                out.append(("C19", "descendant_reference_accepted", ctx)) if be.kind != "al" else None
            return out
        if ref is None:
            exp.unlink(node)
            g = exp.kids[None]
            i = exp.sorted_idx(g, exp.key(node)) if be.sorted else 0
            g.insert(i, node); exp.par[node] = None
        else:
            exp.move(node, ref, pos)
    try:
        if not form.is_valid():
            return out + [("C19", "valid_rejected", f"{ctx}: {form.errors.as_text()}")]
        ch = form.changed_data
        o = form.save()
    except Exception as e:
        if isinstance(e, PathOverflow) and be.kind == "mp":
            return out
        return out + [("C19", "save_raises", f"{ctx}: {e!r}")]
    if node is not None and not (set(ch) & {"treebeard_ref_node", "treebeard_position", "val1", "val2"}):
        exp = f          # nothing about the tree was changed in the form
    got, bad = be.read()
    nid = be.unpk(o.pk)
    if node is None:
        relabel(exp, NEW, nid)
    if bad:
        out.append(("C19", "consistent", f"{ctx}: {'; '.join(bad[:3])}"))
        return out
    m = compare(be, got, exp, nid)
    if m:
        out.append(("C19", "placement", f"{ctx}: {m}"))
    r = be.rows()[nid]
    if norm(be, r) != attrs(be, o):
        out.append(("C19", "returned_instance", f"{ctx}: {attrs(be, o)} vs {norm(be, r)}"))
    return out


# ------------------------------------------------------------------------------------------------------------------ C21
DEP_CLASS = ["get_root_nodes", "get_first_root_node", "get_last_root_node", "get_tree", "get_descendants_group_count",
             "get_annotated_list", "dump_bulk", "find_problems"]
DEP_INST = ["get_children", "get_children_count", "get_siblings", "get_descendants", "get_descendant_count", "get_first_child",
            "get_last_child", "get_first_sibling", "get_last_sibling", "get_prev_sibling", "get_next_sibling", "get_root",
            "get_parent", "get_ancestors"]


def canon(be, v):
    from django.db.models import Model
    if isinstance(v, Model):
        return (type(v).__name__, be.unpk(v.pk))
    if isinstance(v, QuerySet):
        return ("qs", v.model.__name__, [canon(be, x) for x in v])
    if isinstance(v, (list, tuple)):
        return [canon(be, x) for x in v]
    if isinstance(v, dict):
        return {k: canon(be, x) for k, x in v.items()}
    return v


def outcome(be, fn):
    from treebeard.deprecation import RemovedInTreebeard8Warning
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            r = ("ok", canon(be, fn()))
        except Exception as e:
            r = ("err", type(e).__name__, str(e))
    return r, sum(1 for x in w if issubclass(x.category, RemovedInTreebeard8Warning)), [x.category.__name__ for x in w]


def run_dep(be, sc):
    out = []
    def two(label, dep, new, state=False, nwarn=1):
        res = []
        for fn in (new, dep):
            f, _ = make(be, sc)
            r = outcome(be, lambda: fn(f))
            rows = be.rows() if state else None
            if rows is not None:       # primary keys differ between the runs
                got, bad = be.read()
                rows = (sorted((tuple(sorted(norm(be, x).items())) for x in rows.values()), key=repr), len(bad)) if be.kind != "al" else \
                    (sorted(((x["desc"], rows[be.unpk(x["parent_id"])]["desc"] if x["parent_id"] is not None else None, x.get("sib_order")) for x in rows.values()), key=repr), len(bad))
            res.append((r, rows))
        (n, ns), (d, ds) = res
        if state and n[0][0] == "ok" and d[0][0] == "ok" and isinstance(n[0][1], tuple):
            n = (("ok", n[0][1][0]),) + n[1:]
            d = (("ok", d[0][1][0]),) + d[1:]
        if n[0] != d[0] or ns != ds:
            out.append(("C21", label, f"manager {n[0]}, deprecated {d[0]}" + (f"; tables {ns} / {ds}" if ns != ds else "")))
        if d[1] != n[1] + nwarn:
            out.append(("C21", label + ":warning", f"{d[2]} vs {n[2]}"))
    m = be.model
    ids = from_shape(tup(sc["shape"]), sc["ids"]).ids()
    for name in DEP_CLASS:
        if name == "find_problems" and be.kind in ("al", "lt"):
            continue
        two(name, lambda f: getattr(m, name)(), lambda f: getattr(m.objects, name)())
        if name in ("get_tree", "get_descendants_group_count", "get_annotated_list", "dump_bulk", "find_problems"):
            for n in ids:
                two(f"{name}({n})", lambda f: getattr(m, name)(be.fetch(n)), lambda f: getattr(m.objects, name)(be.fetch(n)))
                two(f"{name}(parent={n})", lambda f: getattr(m, name)(parent=be.fetch(n)), lambda f: getattr(m.objects, name)(parent=be.fetch(n)))
    two("get_annotated_list_qs", lambda f: m.get_annotated_list_qs(m.objects.get_tree()), lambda f: m.objects.get_annotated_list_qs(m.objects.get_tree()))
    for name in DEP_INST:
        for n in ids:
            two(f"{name}({n})", lambda f: getattr(be.fetch(n), name)(), lambda f: type(be.fetch(n)).objects.__getattribute__(name)(be.fetch(n)))
    for n in ids:
        for kw in ({"max_depth": 1}, {"include_self": True}, {"include_self": True, "max_depth": 2}):
            two(f"get_descendants({n},{kw})", lambda f: be.fetch(n).get_descendants(**kw), lambda f: type(be.fetch(n)).objects.get_descendants(be.fetch(n), **kw))
    if be.kind == "mp":
        two("fix_tree", lambda f: m.fix_tree(), lambda f: m.objects.fix_tree(), True)
        two("fix_tree(fix_paths)", lambda f: m.fix_tree(fix_paths=True), lambda f: m.objects.fix_tree(fix_paths=True), True)
    def kw():
        d = {"desc": str(NEW)}
        if be.sorted: d.update(val1=1, val2=1)
        if be.name == "mp_uuid": d["key"] = f"k{NEW}"
        return d
    two("add_root", lambda f: m.add_root(**kw()), lambda f: m.objects.add_root(kw()), True)
    two("add_root(instance)", lambda f: m.add_root(instance=m(**kw())), lambda f: m.objects.add_root(instance=m(**kw())), True, None or 1)
    two("add_root()", lambda f: m.add_root(), lambda f: m.objects.add_root({}), True)
    data = [{"data": {**{k: v for k, v in kw().items() if k != "key"}}, "children": [{"data": {k: v for k, v in kw().items() if k != "key"}}]}]
    import copy
    if be.name != "mp_uuid" and not be.inherited:
        two("load_bulk", lambda f: len(m.load_bulk(copy.deepcopy(data))), lambda f: len(m.objects.load_bulk(copy.deepcopy(data))), True)
    mp = None
    if be.kind == "mp":
        from treebeard import mp_tree as mp
        two("MP_AddRootHandler", lambda f: mp.MP_AddRootHandler(m, **kw()).process(), lambda f: m.objects.add_root(kw()), True)
        two("MP_AddRootHandler(instance)", lambda f: mp.MP_AddRootHandler(m, instance=m(**kw())).process(), lambda f: m.objects.add_root(instance=m(**kw())), True)
    def M(o): return type(o).objects
    for n in ids:
        two(f"add_child({n})", lambda f: be.fetch(n).add_child(**kw()), lambda f: (lambda o: M(o).add_child(o, kw()))(be.fetch(n)), True)
        two(f"add_child({n},instance)", lambda f: be.fetch(n).add_child(instance=m(**kw())), lambda f: (lambda o: M(o).add_child(o, instance=m(**kw())))(be.fetch(n)), True)
        two(f"delete({n})", lambda f: be.fetch(n).delete(), lambda f: (lambda o: M(o).filter(pk=o.pk).delete())(be.fetch(n)), True, 0)
        if mp:
            two(f"MP_AddChildHandler({n})", lambda f: mp.MP_AddChildHandler(be.fetch(n), kw()).process(), lambda f: (lambda o: M(o).add_child(o, kw()))(be.fetch(n)), True)
        for pos in scen.ADD_POS + ["sorted-sibling", None, "bogus"]:
            two(f"add_sibling({n},{pos})", lambda f: be.fetch(n).add_sibling(pos, **kw()), lambda f: (lambda o: M(o).add_sibling(o, pos, kw()))(be.fetch(n)), True)
            if mp:
                two(f"MP_AddSiblingHandler({n},{pos})", lambda f: mp.MP_AddSiblingHandler(be.fetch(n), pos, kw()).process(), lambda f: (lambda o: M(o).add_sibling(o, pos, kw()))(be.fetch(n)), True)
        for k in ids:
            for pos in scen.MOVE_POS[:3] + ["first-child", "last-child", "sorted-sibling", "sorted-child", None]:
                two(f"move({n},{k},{pos})", lambda f: be.fetch(n).move(be.fetch(k), pos), lambda f: (lambda o: M(o).move(o, be.fetch(k), pos))(be.fetch(n)), True)
                if mp:
                    two(f"MP_MoveHandler({n},{k},{pos})", lambda f: mp.MP_MoveHandler(be.fetch(n), be.fetch(k), pos).process(), lambda f: (lambda o: M(o).move(o, be.fetch(k), pos))(be.fetch(n)), True)
    return out


REC = {}

def msig(mgr, m):
    """the documented signature (the decorated methods of the implementations have none)"""
    from treebeard.models import NodeManager
    return inspect.signature(getattr(NodeManager, m) if hasattr(NodeManager, m) and m.startswith("add_") else getattr(mgr, m))

def recording(be, name):
    """a proxy of the model whose manager only records the calls it gets: what an application sees that overrides the manager's methods"""
    k = (be.name, name)
    if k in REC: return REC[k]
    base = be.model
    mgr = type(base.objects)
    ns = {"log": [], "boom": None}
    def rec(m):
        sig = msig(mgr, m)
        def f(self, *a, **kw):
            b = sig.bind(self, *a, **kw); b.apply_defaults()
            d = dict(b.arguments); d.pop("self", None)
            type(self).log.append((m, d, self.model))
            if type(self).boom: raise type(self).boom
            return (name, m)
        f.__name__ = m
        return f
    for m in DEP_CLASS + DEP_INST + ["add_root", "add_child", "add_sibling", "move", "load_bulk", "fix_tree", "get_annotated_list_qs"]:
        if hasattr(mgr, m) and callable(getattr(mgr, m)): ns[m] = rec(m)
    M = type("Rec" + name, (mgr,), ns)
    meta = type("Meta", (), {"proxy": True, "app_label": f"dyn{random.random()}"})
    REC[k] = type("Rec" + name, (base,), {"objects": M(), "Meta": meta, "__module__": "dyn"})
    return REC[k]


class Op_:
    """an opaque argument"""
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n


def run_deleg(be, sc):
    """the deprecated method is the manager method: same manager, same arguments, same result or exception, one warning"""
    from treebeard.deprecation import RemovedInTreebeard8Warning
    out = []
    A, B = recording(be, "A"), recording(be, "B")
    mgr = type(be.model.objects)
    def t(label, want_m, want, fn, want_cls=A):
        for boom in (None, KeyError("boom")):
            for K in (A, B):
                type(K.objects).log.clear(); type(K.objects).boom = boom
            w = []
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                try: r = ("ok", fn())
                except Exception as e: r = ("err", e)
            for K in (A, B): type(K.objects).boom = None
            log = type(A.objects).log + type(B.objects).log
            if len(log) != 1 or log[0][0] != want_m or log[0][2] is not want_cls:
                out.append(("C21", label + ":manager", f"called {[(l[0], l[2].__name__) for l in log]} instead of {want_cls.__name__}.objects.{want_m} once; outcome {r}")); continue
            got = dict(log[0][1])
            if want.get("instance") is not None and not want.get("create_kwargs") and not got.get("create_kwargs"): got["create_kwargs"] = want.get("create_kwargs")
            if set(got) != set(want) or any(got[k] is not want[k] and got[k] != want[k] for k in want):
                out.append(("C21", label + ":arguments", f"manager method got {got} instead of {want}"))
            if boom is None and r != ("ok", (want_cls.__name__[3:], want_m)): out.append(("C21", label + ":result", f"{r}"))
            if boom is not None and r[1] is not boom: out.append(("C21", label + ":exception", f"{r}"))
            if sum(issubclass(x.category, RemovedInTreebeard8Warning) for x in w) != 1: out.append(("C21", label + ":warning", f"{[str(x.message) for x in w]}"))
    a, b, par, q = A(), B(), Op_("parent"), Op_("queryset")
    for m in DEP_CLASS + ["fix_tree", "load_bulk", "get_annotated_list_qs"]:
        if not hasattr(mgr, m) or not hasattr(be.model, m): continue
        sig = msig(mgr, m)
        ps = [p for p in list(sig.parameters)[1:]]
        for k in range(len(ps) + 1):
            req = [p for p in ps if sig.parameters[p].default is inspect.Parameter.empty]
            if ps[:k][: len(req)] != req and k < len(req): continue
            vals = {p: Op_(p) for p in ps[:k]}
            want = {p: vals.get(p, sig.parameters[p].default) for p in ps}
            if not any(sig.parameters[p].kind is inspect.Parameter.KEYWORD_ONLY for p in ps[:k]):
                t(f"{m}({k} args)", m, want, lambda: getattr(A, m)(*vals.values()))
            t(f"{m}({k} kwargs)", m, want, lambda: getattr(A, m)(**vals))
    for m in DEP_INST:
        sig = msig(mgr, m)
        ps = list(sig.parameters)[2:]
        first = list(sig.parameters)[1]
        for k in range(len(ps) + 1):
            vals = {p: Op_(p) for p in ps[:k]}
            want = {first: a, **{p: vals.get(p, sig.parameters[p].default) for p in ps}}
            t(f"{m}({k} args)", m, want, lambda: getattr(a, m)(*vals.values()))
            t(f"{m}({k} kwargs)", m, want, lambda: getattr(a, m)(**vals))
    I = Op_("instance")
    creates = [({"x": Op_("x")}, None), ({"x": Op_("x"), "y": 3}, None), ({}, None), ({}, I)]
    def ck(kw, i): return dict(kw, **({"instance": i} if i is not None else {}))
    for kw, i in creates:
        lab = "instance" if i is not None else ",".join(kw)
        w = {"create_kwargs": dict(kw) if i is None else None, "instance": i}
        t(f"add_root({lab})", "add_root", w, lambda: A.add_root(**ck(kw, i)))
        t(f"add_child({lab})", "add_child", dict(w, target=a), lambda: a.add_child(**ck(kw, i)))
        for pos in (None, "left", Op_("pos")):
            t(f"add_sibling({pos},{lab})", "add_sibling", dict(w, target=a, pos=pos), lambda: a.add_sibling(pos, **ck(kw, i)))
            t(f"add_sibling(pos={pos},{lab})", "add_sibling", dict(w, target=a, pos=pos), lambda: a.add_sibling(pos=pos, **ck(kw, i)))
        t(f"add_sibling({lab})", "add_sibling", dict(w, target=a, pos=None), lambda: a.add_sibling(**ck(kw, i)))
        if be.kind == "mp":
            from treebeard import mp_tree as mp
            t(f"MP_AddRootHandler({lab})", "add_root", w, lambda: mp.MP_AddRootHandler(A, **ck(kw, i)).process())
            t(f"MP_AddChildHandler({lab})", "add_child", dict(w, target=a), lambda: mp.MP_AddChildHandler(a, ck(kw, i)).process())
            for pos in (None, "left"):
                t(f"MP_AddSiblingHandler({pos},{lab})", "add_sibling", dict(w, target=a, pos=pos), lambda: mp.MP_AddSiblingHandler(a, pos, ck(kw, i)).process())
    for tgt in (a, b, A(), be.model(), None):
        for pos in (None, "left", Op_("pos")):
            w = {"node": a, "target": tgt, "pos": pos}
            t(f"move({type(tgt).__name__},{pos})", "move", w, lambda: a.move(tgt, pos))
            t(f"move({type(tgt).__name__},pos={pos})", "move", w, lambda: a.move(target=tgt, pos=pos))
            if be.kind == "mp":
                from treebeard import mp_tree as mp
                t(f"MP_MoveHandler({type(tgt).__name__},{pos})", "move", w, lambda: mp.MP_MoveHandler(a, tgt, pos).process())
        t(f"move({type(tgt).__name__})", "move", {"node": a, "target": tgt, "pos": None}, lambda: a.move(tgt))
    return out


# ------------------------------------------------------------------------------------------------------------------ C12
def run_args(be, sc):
    """argument validation"""
    out = []
    f, _ = make(be, sc)
    m = be.model
    before = be.rows()
    ids = f.ids()
    def kw():
        d = {"desc": "a"}
        if be.sorted: d.update(val1=1, val2=1)
        if be.name == "mp_uuid": d["key"] = f"k{NEW}"
        return d
    def t(label, exc, fn, objs=()):
        m0 = [attrs(be, o) for o in objs]
        try:
            fn()
            got = None
        except Exception as e:
            got = type(e)
        if got is not exc:
            out.append(("C12", label, f"expected {exc.__name__}, got {got}"))
        if {k: norm(be, r) for k, r in be.rows().items()} != {k: norm(be, r) for k, r in before.items()}:
            out.append(("C12", label + ":table", "the table changed"))
            make(be, sc)
        if [attrs(be, o) for o in objs] != m0:
            out.append(("C12", label + ":objects", f"{m0} -> {[attrs(be, o) for o in objs]}"))
    t("root_both", ValueError, lambda: m.objects.add_root(kw(), instance=m(**kw())))
    t("root_neither", ValueError, lambda: m.objects.add_root())
    for n in ids:
        o = be.fetch(n)
        t("root_saved", NodeAlreadySaved, lambda: m.objects.add_root(instance=be.fetch(n)))
        t("child_saved", NodeAlreadySaved, lambda: m.objects.add_child(o, instance=be.fetch(n)), [o])
        t("child_self", NodeAlreadySaved, lambda: m.objects.add_child(o, instance=o), [o])
        t("child_both", ValueError, lambda: m.objects.add_child(o, kw(), instance=m(**kw())), [o])
        t("child_neither", ValueError, lambda: m.objects.add_child(o), [o])
        p = "sorted-sibling" if be.sorted else "right"
        t("sib_saved", NodeAlreadySaved, lambda: m.objects.add_sibling(o, p, instance=be.fetch(n)), [o])
        t("sib_both", ValueError, lambda: m.objects.add_sibling(o, p, kw(), instance=m(**kw())), [o])
        t("sib_neither", ValueError, lambda: m.objects.add_sibling(o, p), [o])
        for bad in ("", "first", "first-child", "last-child", "sorted-child", "LEFT", 3):
            t(f"sib_pos_{bad}", InvalidPosition, lambda: m.objects.add_sibling(o, bad, kw()), [o])
        for bad in ("", "child", "LEFT", 0, "sorted"):
            t(f"move_pos_{bad}", InvalidPosition, lambda: m.objects.move(be.fetch(n), o, bad), [o])
    return out


# ------------------------------------------------------------------------------------------------------------ C10 / C11
def run_codec(sc):
    """path steps over an arbitrary alphabet and step length, on the real class methods"""
    out = []
    from tb.models import MPPlain
    from treebeard.numconv import NumConv
    a, s = sc["alphabet"], sc["steplen"]
    class K(MPPlain):
        alphabet = a
        steplen = s
        class Meta:
            proxy = True
            app_label = f"dyn{random.random()}"
    r = len(a)
    prev = None
    for v in sc["values"]:
        for w in (v, v + 1):
            t = K._int2str(w)
            if any(c not in a for c in t) or K._str2int(t) != w:
                out.append(("C10", "roundtrip", f"alphabet {a!r}: int2str({w})={t!r} -> {K._str2int(t)}"))
        if v >= r ** s:
            continue
        p = K._get_path(sc["base"], sc["depth"], v)
        pre = sc["base"][: (sc["depth"] - 1) * s] if sc["base"] else ""
        if len(p) != len(pre) + s or not p.startswith(pre) or K._str2int(p[-s:]) != v:
            out.append(("C10", "get_path", f"alphabet {a!r}, steplen {s}: _get_path({sc['base']!r},{sc['depth']},{v}) = {p!r}"))
        if prev is not None and ([a.index(c) for c in prev[1][-s:]] < [a.index(c) for c in p[-s:]]) != (prev[0] < v):
            out.append(("C10", "order", f"alphabet {a!r}: {prev} {v, p}"))
        prev = (v, p)
        o = K(path=p, depth=len(p) // s)
        try:
            q = o._inc_path()
            if v + 1 >= r ** s:
                out.append(("C10", "inc_overflow", f"_inc_path({p!r}) = {q!r}"))
            elif len(q) != len(p) or q[:-s] != p[:-s] or K._str2int(q[-s:]) != v + 1:
                out.append(("C10", "inc_path", f"_inc_path({p!r}) = {q!r}"))
        except PathOverflow:
            if v + 1 < r ** s:
                out.append(("C10", "inc_spurious_overflow", f"_inc_path({p!r}) overflowed"))
        if o._get_lastpos_in_path() != v:
            out.append(("C10", "lastpos", f"{p!r}: {o._get_lastpos_in_path()}"))
        if K._get_parent_path_from_path(p) != pre or K._get_basepath(p, len(p) // s - 1) != pre:
            out.append(("C10", "parent_path", f"{p!r}: {K._get_parent_path_from_path(p)!r}, {K._get_basepath(p, len(p) // s - 1)!r} expected {pre!r}"))
    return out


def run_label(sc):
    """generate_label on explicit neighbours"""
    import signal
    from treebeard.ltree import generate_label, InvalidLabelConstraints
    out = []
    before, after, skip = sc.get("before"), sc.get("after"), set(sc["skip"])
    skip |= {x for x in (before, after) if x}
    ctx = f"generate_label(skip={sorted(skip)}, before={before!r}, after={after!r})"
    class TO(Exception): ...
    def h(*a): raise TO()
    old = signal.signal(signal.SIGALRM, h); signal.setitimer(signal.ITIMER_REAL, 5)
    try:
        l = generate_label(skip=set(skip), before=before, after=after)
    except InvalidLabelConstraints:
        l = None
    except TO:
        return [("C11", "terminates", ctx + " did not return within 5 s")]
    except Exception as e:
        return [("C11", "returns", f"{ctx}: {e!r}")]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, old)
    exists = not (before is not None and ((after is None and set(before) == {"0"} and len(before) == 1) or (after is not None and (after >= before or before == after + "0"))))
    if l is None:
        if exists and not (before and not after):
            out.append(("C11", "spurious_refusal", ctx))
        elif exists and before and not after:
            out.append(("C11", "spurious_refusal_first", ctx))
        return out
    if not l or any(c not in "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ" for c in l) or l in skip or (before and l >= before) or (after and l <= after):
        out.append(("C11", "label", f"{ctx} = {l!r}"))
    return out


KINDS = {"op": scen.run_op, "queries": scen.run_queries, "fault": scen.run_fault, "history": run_history, "problems": run_problems,
         "fix": run_fix, "bulk": run_bulk, "form": run_form, "dep": run_dep, "deleg": run_deleg, "args": run_args}


def run(sc):
    k = sc["check"]
    if k == "codec":
        return run_codec(sc)
    if k == "label":
        return run_label(sc)
    be = scen.BE[sc["be"]]
    try:
        return KINDS[k](be, sc)
    except Bad:
        return []
