"""Run-time side: generate scenarios for a property, run them against the library, report failures as JSON lines.

main.py run PROP --engine sqlite|psql --seed N --secs S [--stop] [--seeds ...]
main.py replay FILE
"""
import argparse, json, os, random, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def worker(args, wid, nw, host, dbname, q):
    import boot
    boot.setup(args.engine, host, dbname)
    import scen, scen2, gen
    scen.init(args.engine)
    gens = gen.scenarios(args.prop, args.engine, random.Random(f"{args.seed}"))
    # the exhaustive part is split between the workers by index; each continues with its own random part
    t0, n, distinct, fails, errs = time.time(), 0, set(), {}, []
    samples, kinds = [], {}
    weights = len(gens)
    i = 0
    while gens and time.time() - t0 < args.secs:
        g = gens[i % len(gens)]
        i += 1
        try:
            sc = next(g)
            for _ in range(nw - 1):
                nxt = next(g)
                if _ + 1 == wid: sc = nxt
        except StopIteration:
            gens.remove(g)
            continue
        try:
            res = scen2.run(sc)
        except Exception as e:
            import traceback
            errs.append((sc, traceback.format_exc()[-1500:]))
            if len(errs) > 3: break
            continue
        n += 1
        distinct.add(json.dumps(sc, sort_keys=True, default=str))
        kinds[sc["check"] + ":" + sc.get("be", "")] = kinds.get(sc["check"] + ":" + sc.get("be", ""), 0) + 1
        if len(samples) < 2: samples.append(sc)
        for p, label, msg in res:
            if p == args.prop or args.all:
                k = (p, label, sc.get("be", ""), sc["check"], (sc.get("op") or {}).get("kind"), (sc.get("op") or {}).get("pos")) if args.fine else (p, label, sc.get("be", ""))
                size = len(json.dumps(sc, default=str))
                c = fails.get(k)
                if c is None or size < c[0]:
                    fails[k] = (size, sc, msg, (c[3] if c else 0) + 1)
                else:
                    fails[k] = c[:3] + (c[3] + 1,)
                if args.stop and len(fails) > 40: break
    q.put({"n": n, "distinct": len(distinct), "fails": [[list(k), v[1], v[2], v[3]] for k, v in fails.items()], "errs": errs, "samples": samples, "kinds": kinds})


def run(args):
    import multiprocessing as mp
    host = None
    if args.engine == "psql":
        import boot
        pg = boot.Postgres()
        host = pg.pg
        for w in range(args.workers):
            pg.createdb(f"tb{w}")
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    ps = [ctx.Process(target=worker, args=(args, w, args.workers, host, f"tb{w}", q)) for w in range(args.workers)]
    for p in ps: p.start()
    outs = []
    t0 = time.time()
    while len(outs) < len(ps) and time.time() - t0 < args.secs + 60:
        try:
            outs.append(q.get(timeout=2))
        except Exception:
            if not any(p.is_alive() for p in ps) and q.empty(): break
    for p in ps:
        p.join(2)
        if p.is_alive(): p.kill()
    tot = {"engine": args.engine, "n": sum(o["n"] for o in outs), "distinct": sum(o["distinct"] for o in outs), "workers_done": len(outs),
           "errs": sum((o["errs"] for o in outs), [])[:3], "samples": sum((o["samples"] for o in outs), [])[:3], "kinds": {}, "fails": []}
    for o in outs:
        for k, v in o["kinds"].items(): tot["kinds"][k] = tot["kinds"].get(k, 0) + v
    best = {}
    for o in outs:
        for k, sc, msg, c in o["fails"]:
            k = tuple(k)
            b = best.get(k)
            if b is None or len(json.dumps(sc, default=str)) < len(json.dumps(b[0], default=str)):
                best[k] = (sc, msg, (b[2] if b else 0) + c)
            else:
                best[k] = b[:2] + (b[2] + c,)
    tot["fails"] = [{"property": k[0], "label": k[1], "be": k[2], "scenario": v[0], "message": v[1], "count": v[2]} for k, v in best.items()]
    print(json.dumps(tot, default=str))


def replay(path, host=None):
    d = json.load(open(path))
    sc = d["scenario"]
    import boot
    engine = "psql" if sc.get("be", "").startswith("lt") or sc["check"] == "label" else "sqlite"
    if engine == "psql":
        pg = boot.Postgres(); pg.createdb("tb"); host = pg.pg
    boot.setup(engine, host, "tb")
    import scen, scen2
    scen.init(engine)
    res = [r for r in scen2.run(sc)]
    print(json.dumps(res, default=str, indent=1))
    return 1 if any(r[0] == d["property"] for r in res) else 0


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd"); ap.add_argument("prop")
    ap.add_argument("--engine", default="sqlite"); ap.add_argument("--seed", default="1"); ap.add_argument("--secs", type=float, default=10)
    ap.add_argument("--workers", type=int, default=8); ap.add_argument("--all", action="store_true"); ap.add_argument("--stop", action="store_true"); ap.add_argument("--fine", action="store_true")
    a = ap.parse_args()
    if a.cmd == "replay": sys.exit(replay(a.prop))
    run(a)
