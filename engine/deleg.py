"""C21: contracts of the deprecated methods.

Every deprecated function is run once per shape of its argument list on opaque values (constants of an uninterpreted sort that
support no operation: code that looks at one is reported as outside reach).  The manager methods are replaced by their contract
seen from a caller: an uninterpreted function of the manager's class and the arguments, which may raise.  Postcondition: the
result (or the exception) is that of the manager method of the same name of the node's class on the same arguments, the method
is called exactly once, and exactly one deprecation warning is issued."""
import importlib, inspect, time, warnings
import z3
import core, table, ops
from core import Unsupported

CLASS = ["get_root_nodes", "get_first_root_node", "get_last_root_node", "get_tree", "get_descendants_group_count", "get_annotated_list",
         "get_annotated_list_qs", "dump_bulk", "load_bulk", "find_problems", "fix_tree"]
INST = ["get_children", "get_children_count", "get_siblings", "get_descendants", "get_descendant_count", "get_first_child", "get_last_child",
        "get_first_sibling", "get_last_sibling", "get_prev_sibling", "get_next_sibling", "get_root", "get_parent", "get_ancestors"]
VAL = None


def val(): return core.sort("Value")


def refuse(self, *a, **k): raise Unsupported("the code looks into an argument it should hand on")


class Opaque:
    """an argument about which nothing is known"""
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __len__ = __iter__ = __getitem__ = __setitem__ = __contains__ = __call__ = refuse
    __int__ = __index__ = __str__ = __hash__ = __add__ = __enter__ = refuse
    def __getattr__(self, n): raise Unsupported(f"the code looks into an argument it should hand on (.{n})")
    def __repr__(self): return str(self.t)


def term(v, consts):
    """values as terms: equal exactly when they are the same value"""
    if isinstance(v, Opaque): return v.t
    if isinstance(v, dict):
        out = z3.Const("nodict", val())
        f = z3.Function("entry", val(), z3.StringSort(), val(), val())
        for k in sorted(v): out = f(out, z3.StringVal(k), term(v[k], consts))
        return out
    key = repr(v) if v is None or isinstance(v, (str, int, bool)) else ("obj", id(v))
    if key not in consts: consts[key] = (z3.Const(f"val_{len(consts)}", val()), v)
    return consts[key][0]


def signature(mgr, base, m):
    f = getattr(base if m.startswith("add_") else mgr, m)
    return inspect.signature(f)


class Boom(Exception): ...


def run(prop, tier, secs):
    out = []
    models = importlib.import_module("treebeard.models")
    dep = importlib.import_module("treebeard.deprecation")
    for bename in ("mp", "ns", "al", "lt"):
        try: be = ops.backend(bename, {})
        except (KeyError, ImportError, AttributeError): continue
        out += backend(bename, be, models, dep)
    return out


def backend(bename, be, models, dep):
    recs = []
    base = be.model
    mgr = type(base.objects)
    log, mode = [], [None]
    def rec(m):
        sig = signature(mgr, models.NodeManager, m)
        def f(self, *a, **kw):
            b = sig.bind(self, *a, **kw); b.apply_defaults()
            args = dict(list(b.arguments.items())[1:])
            log.append((self.model, m, args))
            if mode[0] is not None: raise mode[0]
            return Opaque(z3.Const(f"result_{len(log)}", val()))
        return f
    ns = {}
    names = CLASS + INST + ["add_root", "add_child", "add_sibling", "move"]
    for m in names:
        if callable(getattr(mgr, m, None)): ns[m] = rec(m)
    def cls(n):
        M = type("Rec" + n, (mgr,), dict(ns))
        return type(base)("Rec" + n, (base,), {"objects": M(), "_proxy_for": base})
    A, B = cls("A"), cls("B")
    def obj(k):
        o = k.__new__(k)
        o._state = table.State_(False); o._row = z3.Const(f"row{k.__name__}{len(log)}", core.sort("Row"))
        return o

    def case(label, m, want, fn, K=A):
        """want: the arguments of the manager method"""
        t0 = time.time()
        obs = []
        stats = {"solver_s": 0.0, "queries": 0}
        status = "done"
        for boom in (None, Boom("raised by the manager method")):
            ctx = core.Ctx([], stats); core.C = ctx
            log.clear(); mode[0] = boom
            ret = exc = None
            try:
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    try: ret = fn()
                    except Boom as e: exc = e
                    except Unsupported: raise
                    except Exception as e: exc = e
            except Unsupported as e:
                status = f"unsupported: {e}"; break
            finally: mode[0] = None
            how = "returns" if boom is None else "raises"
            pre = f"{bename}.{label}"
            consts = {}
            def goal(name, g): obs.append(core.prove(ctx, f"{pre}: {name} [{how}]", g))
            one = len(log) == 1 and log[0][1] == m
            goal(f"calls the manager's {m} exactly once", z3.BoolVal(one))
            if obs[-1].status == "refuted": obs[-1].detail = f"calls {[(k.__name__, n) for k, n, _ in log]}; {exc!r}"; continue
            k, _, got = log[0]
            got, wnt = dict(got), dict(want)
            if wnt.get("instance") is not None and not wnt.get("create_kwargs") and not got.get("create_kwargs"): got["create_kwargs"] = wnt.get("create_kwargs")
            goal("on the manager of the node's own class", z3.BoolVal(k is K))
            eqs = [term(got[a], consts) == term(wnt[a], consts) for a in wnt] if set(got) == set(wnt) else [z3.BoolVal(False)]
            ctx.assume(*distinct(consts))
            goal("with the same arguments", z3.And(eqs))
            for o in obs[-2:]:
                if o.status == "refuted": o.detail = f"{k.__name__}.objects.{m}({got}) instead of {K.__name__}.objects.{m}({wnt})"
            if boom is None: goal("returns its result", z3.BoolVal(exc is None) if not isinstance(ret, Opaque) else z3.And(z3.BoolVal(exc is None), ret.t == z3.Const("result_1", val())))
            else: goal("lets its exception through", z3.BoolVal(exc is boom))
            if boom is None and not isinstance(ret, Opaque): goal("returns its result", z3.BoolVal(False))
            goal("warns once", z3.BoolVal(sum(issubclass(x.category, dep.RemovedInTreebeard8Warning) for x in w) == 1))
        recs.append({"task": f"{bename} {label}", "obligations": [o.as_dict() for o in obs], "paths": 2, "possible": 2, "returned": 1, "status": status, "solver_s": stats["solver_s"]})

    def distinct(consts):
        ts = [t for t, _ in consts.values()]
        return [z3.Distinct(*ts)] if len(ts) > 1 else []

    X = lambda n: Opaque(z3.Const(f"arg_{n}", val()))
    def shapes(sig, skip):
        ps = list(sig.parameters)[skip:]
        req = [p for p in ps if sig.parameters[p].default is inspect.Parameter.empty]
        kwonly = [p for p in ps if sig.parameters[p].kind is inspect.Parameter.KEYWORD_ONLY]
        for n in range(len(req), len(ps) + 1):
            vals = {p: X(p) for p in ps[:n]}
            want = {p: vals.get(p, sig.parameters[p].default) for p in ps}
            if not set(ps[:n]) & set(kwonly): yield f"{n} positional", tuple(vals.values()), {}, want
            if n: yield ",".join(vals), (), vals, want
    for m in CLASS:
        if m not in ns or not hasattr(base, m): continue
        for lab, a, kw, want in shapes(signature(mgr, models.NodeManager, m), 1):
            case(f"{m}({lab})", m, want, lambda: getattr(A, m)(*a, **kw))
    for m in INST:
        if m not in ns or not hasattr(base, m): continue
        sig = signature(mgr, models.NodeManager, m)
        first = list(sig.parameters)[1]
        for lab, a, kw, want in shapes(sig, 2):
            o = obj(A)
            case(f"node.{m}({lab})", m, dict(want, **{first: o}), lambda: getattr(o, m)(*a, **kw))
    inst = X("instance")
    for kw, i in (({}, None), ({"x": X("x")}, None), ({"x": X("x"), "y": X("y")}, None), ({}, inst)):
        lab = ",".join(list(kw) + (["instance"] if i else [])) if i is None else "instance"
        given = lambda: dict(kw, **({"instance": i} if i is not None else {}))
        w = {"create_kwargs": dict(kw) if i is None else None, "instance": i}
        o = obj(A)
        case(f"add_root({lab})", "add_root", w, lambda: A.add_root(**given()))
        case(f"node.add_child({lab})", "add_child", dict(w, target=o), lambda: o.add_child(**given()))
        p = X("pos")
        for plab, pa, pk, pw in (("pos", (p,), {}, p), ("pos=pos", (), {"pos": p}, p), ("", (), {}, None)):
            case(f"node.add_sibling({plab};{lab})", "add_sibling", dict(w, target=o, pos=pw), lambda: o.add_sibling(*pa, **pk, **given()))
        if bename == "mp":
            mod = be.mod
            case(f"MP_AddRootHandler({lab})", "add_root", w, lambda: mod.MP_AddRootHandler(A, **given()).process())
            case(f"MP_AddChildHandler({lab})", "add_child", dict(w, target=o), lambda: mod.MP_AddChildHandler(o, given()).process())
            case(f"MP_AddSiblingHandler({lab})", "add_sibling", dict(w, target=o, pos=p), lambda: mod.MP_AddSiblingHandler(o, p, given()).process())
    p = X("pos")
    for tlab, tgt in (("same class", obj(A)), ("another class", obj(B)), ("base class", obj(base)), ("anything", X("target"))):
        o = obj(A)
        for plab, pa, pk, pw in (("pos", (p,), {}, p), ("pos=pos", (), {"pos": p}, p), ("", (), {}, None)):
            w = {"node": o, "target": tgt, "pos": pw}
            case(f"node.move(target of {tlab},{plab})", "move", w, lambda: o.move(tgt, *pa, **pk))
            if bename == "mp": case(f"MP_MoveHandler(target of {tlab},{plab})", "move", w, lambda: be.mod.MP_MoveHandler(o, tgt, *pa, **pk).process())
    return recs
