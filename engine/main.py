"""main.py PROP TIER SECS OUT: discharge the obligations of one property from /repo's current source; writes JSON."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main(prop, tier, secs, out):
    t0 = time.time()
    d = {"property": prop, "tier": tier, "scenes": [], "obligations": 0, "discharged": 0, "refuted": [], "unknown": [], "unsupported": [], "vacuous": [], "functions": [], "error": None}
    try:
        import pool, tasks
        ts = tasks.tasks(prop, tier)
        recs = pool.explore(ts, prop, secs) if ts else []
        for fn in tasks.extra(prop): recs += fn(prop, tier, max(10, secs - (time.time() - t0)))
        solver = 0.0
        for r in recs:
            label = r["task"] if isinstance(r["task"], str) else json.dumps(r["task"])
            n = len(r["obligations"]); k = sum(o["status"] == "discharged" for o in r["obligations"])
            solver += r.get("solver_s", 0)
            whole = r["status"] == "done"
            if whole and r.get("expect_paths", True) and not r.get("possible"):
                d["vacuous"].append(label); whole = False
            d["scenes"].append({"scene": label, "status": r["status"], "paths": r["paths"], "returned": r.get("returned"), "obligations": n, "discharged": k, "solver_s": round(r.get("solver_s", 0), 2)})
            if not whole: d["unsupported"].append({"scene": label, "why": r["status"], "tb": r.get("tb", "")[-800:]})
            d["obligations"] += n; d["discharged"] += k if whole else 0
            for o in r["obligations"]:
                if o["status"] == "refuted": d["refuted"].append(dict(o, scene=r["task"]))
                elif o["status"] != "discharged": d["unknown"].append(dict(o, scene=r["task"]))
        d["solver_s"] = solver
        d["functions"] = tasks.functions(prop)
        d["samples"] = [o["name"] for r in recs for o in r["obligations"]][:12]
        d["assumptions"] = tasks.assumptions(prop)
    except Exception:
        d["error"] = traceback.format_exc()[-3000:]
    d["wall_s"] = time.time() - t0
    json.dump(d, open(out, "w"), default=str)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2], float(sys.argv[3]), sys.argv[4])
