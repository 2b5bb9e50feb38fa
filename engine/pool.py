"""Explores the paths of many scenes on all cores."""
import multiprocessing, os, sys, time, traceback
sys.setrecursionlimit(20000)


def sequential(task):
    """scenes whose loop contracts are inferred on one path and used on the next: all paths in one process, depth first"""
    return task["op"].startswith("delete")


def whole_scene(task, prop, timeout, secs):
    import core, ops, vc, collect
    vc.CANDIDATE.clear(); collect.STORE.clear()
    t0 = time.time()
    r = ops.run_task(task, prop, secs, timeout)
    r["marks"] = r.pop("marks_", [])
    r["alts"] = []
    r["wall"] = time.time() - t0
    return r


def one_path(task, prop, decisions, cand, timeout):
    if sequential(task):
        try: return whole_scene(task, prop, timeout, STUCK_WHOLE - 10)
        except Exception as e: return {"status": f"unsupported: the engine failed ({type(e).__name__}: {e})", "alts": [], "tb": traceback.format_exc()[-3000:]}
    return _one_path(task, prop, decisions, cand, timeout)


def _one_path(task, prop, decisions, cand, timeout):
    import core, ops, vc, table
    key = repr((task, prop))
    if key not in CACHE:
        CACHE.clear()
        try: CACHE[key] = ops.scene(task, prop, timeout)
        except core.Unsupported as e: return {"status": f"unsupported: {e}", "alts": []}
    be, run = CACHE[key]
    vc.CANDIDATE.clear(); vc.CANDIDATE.update(cand)
    stats = {"solver_s": 0.0, "queries": 0, "max_decisions": 120}
    ctx = core.Ctx(decisions, stats)
    core.C = ctx
    out = {"status": "done", "obligations": [], "marks": [], "stats": stats}
    t0 = time.time()
    try:
        res = run(ctx)
        out["obligations"] = [r.as_dict() for r in res + ctx.checks if not r.status.startswith("path-")]
        out["marks"] = [r.as_dict() for r in res if r.status.startswith("path-")]
    except core.PathEnd: out["obligations"] = [r.as_dict() for r in ctx.checks]
    except core.Restart: out["status"] = "restart"; out["cand"] = dict(vc.CANDIDATE)
    except core.Unsupported as e: out["status"] = f"unsupported: {e}"
    except core.Budget as e: out["status"] = f"budget: {e}"
    except RecursionError: out["status"] = "unsupported: recursion"
    except Exception as e:
        out["status"] = f"unsupported: the engine failed ({type(e).__name__}: {e})"; out["tb"] = traceback.format_exc()[-3000:]
    out["alts"] = ctx.alternatives
    out["wall"] = time.time() - t0
    return out


CACHE = {}
STUCK, STUCK_WHOLE = 90, 250


def worker(conn, others):
    for o in others: o.close()
    while True:
        try: args = conn.recv()
        except EOFError: return
        try: r = one_path(*args)
        except BaseException as e: r = {"status": f"unsupported: the engine failed ({type(e).__name__}: {e})", "alts": [], "tb": traceback.format_exc()[-2000:]}
        conn.send(r)


class Worker:
    """one process; a job that does not come back is tried once more in a fresh process"""
    all = []
    def __init__(self, ctx):
        self.ctx, self.job = ctx, None
        self.spawn()
        Worker.all.append(self)
    def spawn(self):
        self.conn, child = self.ctx.Pipe()
        self.p = self.ctx.Process(target=worker, args=(child, [self.conn] + [w.conn for w in Worker.all if w is not self]), daemon=True)
        self.p.start()
        child.close()
    def start(self, job, args):
        self.job, self.args, self.since, self.tries = job, args, time.time(), 1
        self.conn.send(args)
    def retry(self):
        self.p.kill(); self.p.join(); self.conn.close()
        self.spawn()
        if self.tries > 1: return False
        self.tries += 1; self.since = time.time()
        self.conn.send(self.args)
        return True


def explore(tasks, prop, secs, workers=8, timeout=20000, log=None):
    """tasks: list of scenes.  Returns one record per scene."""
    import ops       # loads the library once, before forking
    from multiprocessing.connection import wait
    Worker.all.clear()
    ctx = multiprocessing.get_context("fork")
    ws = [Worker(ctx) for _ in range(workers)]
    recs = [{"task": t, "obligations": [], "marks": [], "paths": 0, "cand": {}, "gen": 0, "open": 1, "status": "running", "solver_s": 0.0, "queries": 0, "wall": 0.0} for t in tasks]
    pending = [(i, 0, []) for i in sorted(range(len(tasks)), key=lambda i: not sequential(tasks[i]))]
    end = time.time() + secs
    while True:
        for w in ws:
            while w.job is None and pending:
                i, gen, dec = pending.pop(0)
                if gen != recs[i]["gen"] or recs[i]["status"] != "running": continue
                w.start((i, gen), (tasks[i], prop, dec, recs[i]["cand"], timeout))
        busy = [w for w in ws if w.job is not None]
        if not busy: break
        left = end - time.time()
        if left <= 0: break
        ready = wait([w.conn for w in busy], min(left, 5))
        for w in busy:
            if w.conn not in ready:
                if time.time() - w.since > (STUCK_WHOLE if sequential(w.args[0]) else STUCK) or not w.p.is_alive():
                    i, gen = w.job
                    if not w.retry():
                        w.job = None
                        if gen == recs[i]["gen"]: recs[i]["status"] = "budget: a path does not finish"
                continue
            try: r = w.conn.recv()
            except (EOFError, OSError):
                r = None
                if w.retry(): continue
                r = {"status": "budget: a path does not finish", "alts": []}
            i, gen = w.job
            w.job = None
            rec = recs[i]
            if gen != rec["gen"] or rec["status"] != "running": continue
            if r["status"] == "restart":
                rec["gen"] += 1
                rec["cand"].update(r["cand"])
                if rec["gen"] > 30: rec["status"] = "unsupported: no inductive loop contract found"; continue
                rec.update(obligations=[], marks=[], paths=0, open=1)
                pending.append((i, rec["gen"], []))
                continue
            if r["status"] != "done":
                rec["status"] = r["status"]
                if "tb" in r: rec["tb"] = r["tb"]
                continue
            rec["obligations"] += r["obligations"]; rec["marks"] += r["marks"]; rec["paths"] += r.get("paths", 1)
            rec["solver_s"] += r["stats"]["solver_s"]; rec["queries"] += r["stats"]["queries"]; rec["wall"] += r["wall"]
            rec["open"] += len(r["alts"]) - 1
            if rec["paths"] > 600: rec["status"] = "budget: paths"; continue
            for a in r["alts"]: pending.insert(0, (i, gen, a))
            if rec["open"] == 0:
                rec["status"] = "done"
                if log: log(rec)
    for rec in recs:
        if rec["status"] == "running": rec["status"] = "budget: time"
        rec["returned"] = sum(m["status"] == "path-sat" and m["name"].endswith("returned") for m in rec["marks"])
        rec["possible"] = sum(m["status"] == "path-sat" for m in rec["marks"])
    for w in ws: w.p.kill()
    return recs


if __name__ == "__main__":
    import json
    tasks, prop = json.loads(sys.argv[1]), sys.argv[2]
    t0 = time.time()
    recs = explore(tasks, prop, float(sys.argv[3]) if len(sys.argv) > 3 else 600)
    for rec in recs:
        agg = {}
        for o in rec["obligations"]:
            agg[o["status"]] = agg.get(o["status"], 0) + 1
        print(rec["task"], rec["status"], f"paths={rec['paths']} returned={rec['returned']} {agg} solver={rec['solver_s']:.0f}s wall={rec['wall']:.0f}s")
        if "tb" in rec: print(rec["tb"])
        seen = set()
        for o in rec["obligations"]:
            if o["status"] != "discharged" and o["name"] not in seen:
                seen.add(o["name"]); print("   ", o["status"], o["name"], "\n      PATH", o["path"][:700], "\n      ", o["detail"][:700])
    print("total", time.time() - t0)
