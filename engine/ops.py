"""The operations under contract: sets up a scene, calls the real function, states what must hold afterwards."""
import importlib, time, warnings
import z3
import core, table, loader, vc
from common import *
from core import explore, Unsupported, Budget, PathEnd

warnings.simplefilter("ignore")
loader.install()
EXC = importlib.import_module("treebeard.exceptions")
UTIL = importlib.import_module("treebeard.utils")


def backend(name, cfg):
    if name == "ns":
        import ns
        be = ns.NS(cfg)
        be.mod = importlib.import_module("treebeard.ns_tree")
        be.make_models(be.mod.NS_Node)
        return be
    if name == "mp":
        import mp
        be = mp.MP(cfg)
        be.mod = importlib.import_module("treebeard.mp_tree")
        be.make_models(be.mod.MP_Node)
        return be
    if name == "al":
        import al
        be = al.AL(cfg)
        be.mod = importlib.import_module("treebeard.al_tree")
        be.make_models(be.mod.AL_Node)
        return be
    if name == "lt":
        import lt
        be = lt.LT(cfg)
        be.mod = importlib.import_module("treebeard.ltree")
        be.make_models(be.mod.LT_Node)
        return be
    raise KeyError(name)


def create_args(be):
    """the two ways to hand in a new node"""
    if be.cfg.get("kwargs"):
        return {"create_kwargs": {"k1": SymInt(be.c.fresh("given_k1", "Int"))}}, None
    inst = be.model()
    return {"instance": inst}, inst


def valid_pos(be, pos, op):
    """(effective position, expected exception name or None)"""
    allowed = SIB if op == "add_sibling" else SIB + CHILD
    srt = ("sorted-sibling",) if op == "add_sibling" else ("sorted-sibling", "sorted-child")
    if pos is None: pos = "sorted-sibling" if be.order else "last-sibling"
    if pos not in allowed: return pos, "InvalidPosition"
    if be.order and pos not in srt: return pos, "InvalidPosition"
    if not be.order and pos in srt: return pos, "MissingNodeOrderBy"
    return pos, None


def scene(task, prop, timeout):
    """returns run(ctx)"""
    be = backend(task["be"], task.get("cfg", {}))
    if task["op"] == "query":
        import query
        return query.scene(be, task, prop, timeout)
    op, pos = task["op"], task.get("pos")
    prefix = f"{task['be']}.{op}({pos or ''}) {cfg_text(task.get('cfg', {}))}"

    def run(c):
        be.counts = []
        if hasattr(be, "signal_goals"): del be.signal_goals
        be.enter(c)
        be.prefix = prefix
        P = Prover(be, prop, prefix, timeout)
        mgr = be.model.objects
        raised = None
        new = inst = node = target = None
        if op == "add_root":
            args, inst = create_args(be)
            snap = []
            call = lambda: mgr.add_root(**args)
        elif op == "add_child":
            target = be.fetch("target")
            if be.cfg.get("stale_target"): be.make_stale(target)
            be.stale_cache(target)
            args, inst = create_args(be)
            call = lambda: mgr.add_child(target, **args)
        elif op == "add_sibling":
            target = be.fetch("target")
            be.stale_cache(target)
            args, inst = create_args(be)
            call = lambda: mgr.add_sibling(target, pos, **args)
        elif op == "move":
            node = be.fetch("node")
            target = node if be.cfg.get("same") else be.fetch("target", be.objcls if be.cfg.get("model") != "mti-both" else be.Sub)
            be.stale_cache(target)
            call = lambda: mgr.move(node, target, pos)
        elif op == "delete":
            node = be.fetch("node")
            call = lambda: node.delete()
        elif op == "delete_qs":
            sel = z3.Function("selected", sort("Row"), z3.BoolSort())
            qs = be.model.objects.all()
            qs._extra_conds.append(lambda st, r: sel(r))
            call = lambda: qs.delete()
        elif op == "delete_lemmas": pass
        else: raise KeyError(op)
        be.scene_assumptions(op, node, target)
        be.topsel = be.density1 = be.density_at = None
        if op.startswith("delete"):
            import delete
            delete.start(be, op, node, z3.Function("selected", sort("Row"), z3.BoolSort()))
            if op == "delete_lemmas":
                delete.lemmas(be, P)
                return P.results + [path_mark(c, prefix, "returned")]
        before = [(w, o, be.obj_attrs(o)) for w, o in (("the node", node), ("the target", target)) if o is not None]
        try:
            ret = call()
        except (EXC.InvalidPosition, EXC.InvalidMoveToDescendant, EXC.PathOverflow, EXC.MissingNodeOrderBy, EXC.NodeAlreadySaved, ValueError) as e:
            if core.own(e): raise Unsupported(f"{type(e).__name__}: {e}")
            raised = e
        except table.Model.DoesNotExist as e:
            raised = e
        except (TypeError, AttributeError, IndexError, KeyError, AssertionError, UnboundLocalError) as e:
            if core.own(e): raise Unsupported(f"{type(e).__name__}: {e}")
            raised = e
        if raised is None: be.finish()
        if c.in_stay is not None:       # the loop body left the loop on a row that its contract skips
            vc.CANDIDATE[c.in_stay] = 1
            raise core.Restart
        eff, exc = valid_pos(be, pos, op) if op in ("add_sibling", "move") else (None, None)
        P.eff = eff
        refuse = z3.BoolVal(False)
        S0 = be.S0
        if op == "move" and exc is None:
            ins = be.inside(S0, node._row, target._row)
            refuse = ins if eff in CHILD else And(ins, node._row != target._row)
        if raised is not None:
            name = type(raised).__name__
            if isinstance(raised, (EXC.InvalidPosition, EXC.MissingNodeOrderBy)):
                P.goal(("C12",), f"{name} is raised only for such a position", BoolVal(exc == name))
                check_refused(P, be, raised, before)
            elif isinstance(raised, EXC.InvalidMoveToDescendant):
                P.goal(("C12", "C05"), f"{name} is raised only for a move into its own branch", refuse)
                check_refused(P, be, raised, before)
            elif isinstance(raised, EXC.PathOverflow):
                be.overflow(P, raised, op, node, target)
                check_refused(P, be, raised, before)
            else:
                tb = raised.__traceback__
                while tb.tb_next: tb = tb.tb_next
                P.results.append(core.prove(c, f"{prefix}: no {name} is raised", BoolVal(False), None, timeout))
                if str(raised): P.results[-1].detail = f"{name}: {raised} ({tb.tb_frame.f_code.co_filename}:{tb.tb_lineno}) " + P.results[-1].detail
            P.returned = False
            check_after_raise(P, be)
            return P.results + [path_mark(c, prefix, "raised " + name)]
        # ---- normal return
        if exc is not None:
            P.goal(("C12",), f"{exc} is raised", BoolVal(False))
            return P.results + [path_mark(c, prefix, "returned")]
        P.goal(("C12", "C05"), "a move into its own branch is refused", Not(refuse))
        c.assume(Not(refuse))
        if op.startswith("add"):
            new = ret
            if inst is not None: P.goal(("C18",), "the given instance is returned", BoolVal(new is inst))
            if new is None or new._row is None:
                P.goal(be.tree_props + ("C04", "C18"), "a saved node is returned", BoolVal(False))
                return P.results + [path_mark(c, prefix, "returned")]
            if op == "add_root":
                Prow, rootlevel, where = None, BoolVal(True), "last"
            elif op == "add_child":
                Prow, rootlevel, where = target._row, BoolVal(False), "last"
            else:
                Prow, rootlevel = be.par0(target._row), be.isroot(S0, target._row)
                where = {"first-sibling": "first", "left": "left", "right": "right", "last-sibling": "last", "sorted-sibling": "sorted"}[eff]
            if be.order: where = "sorted"
            check_insert(P, be, new, Prow, rootlevel, where, target._row if target is not None else None, bool(be.order))
            check_common(P, be)
            check_object(P, be, "the returned node", new)
            if op == "add_child" and not be.cfg.get("stale_target"): check_object(P, be, "the parent object", target)
        elif op == "move":
            child = eff in CHILD
            Prow = target._row if child else be.par0(target._row)
            rootlevel = BoolVal(False) if child else be.isroot(S0, target._row)
            check_move(P, be, node, target, eff, target._row, Prow, rootlevel)
            check_common(P, be)
            check_object(P, be, "the moved node", node)
            check_object(P, be, "the target node", target)
        elif op.startswith("delete"):
            delete.check(P, be)
            check_common(P, be)
        return P.results + [path_mark(c, prefix, "returned")]

    return be, run


def check_after_raise(P, be):
    P.goal(("C20",), "all writes happen inside one transaction", BoolVal(be.W.segments <= 1 and be.W.atomic == 0))


def path_mark(c, prefix, how):
    """is the path possible at all?  (guards against contradictory assumptions)"""
    r = c.check([], 5000)
    return core.Result(f"{prefix}: path {how}", "path-" + str(r), 0, "")


def cfg_text(cfg): return ",".join(f"{k}={'/'.join(v) if isinstance(v, (list, tuple)) else v}" for k, v in sorted(cfg.items()) if v)


def run_task(task, prop, secs=120, timeout=20000):
    stats = {"solver_s": 0.0, "queries": 0}
    t0 = time.time()
    out = {"task": task, "obligations": [], "paths": 0}
    import collect, vc
    collect.STORE.clear(); vc.CANDIDATE.clear()
    try:
        be, run = scene(task, prop, timeout)
        res = explore(run, stats, deadline=time.time() + secs)
        out["obligations"] = [r.as_dict() for r in res if not r.status.startswith("path-")]
        marks = [r for r in res if r.status.startswith("path-")]
        out["paths"] = len(marks)
        out["marks_"] = [r.as_dict() for r in marks]
        out["possible"] = sum(r.status == "path-sat" for r in marks)
        out["returned"] = sum(r.status == "path-sat" and r.name.endswith("returned") for r in marks)
        out["status"] = "done"
    except Unsupported as e:
        out["status"] = f"unsupported: {e}"
    except Budget as e:
        out["status"] = f"budget: {e}"
    except RecursionError as e:
        out["status"] = "unsupported: recursion"
    out["stats"] = stats
    out["wall"] = time.time() - t0
    return out


if __name__ == "__main__":
    import sys, json
    task = json.loads(sys.argv[1]); prop = sys.argv[2]
    o = run_task(task, prop)
    print({k: v for k, v in o.items() if k not in ("obligations", "marks_")})
    agg = {}
    for r in o["obligations"]:
        a = agg.setdefault(r["name"], {}); a[r["status"]] = a.get(r["status"], 0) + 1
    for k, v in agg.items(): print(v, k)
    for r in o["obligations"]:
        if r["status"] != "discharged": print(r["status"], r["name"], "\n   PATH", r["path"][:600], "\n   ", r["detail"][:800]); break
