#!/usr/bin/env python3
"""check.py PROP: decides one property on /repo's current source.

1. engine/ discharges the proof obligations generated from the current source (contract-based deductive verification).
2. rt/ replays: searches the real code (real Django, real database) for a failing input; this is the bounded part, used to confirm a
   failed obligation and as the labelled stand-in for what the verifier cannot reach.
exit 0: held on everything explored; exit 1 with a VIOLATION line otherwise."""
import json, os, subprocess, sys, tempfile, time, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
VT = "python3-vt"
DJ = "/opt/venv/bin/python"
PSQL_ONLY = {"C11"}
SQLITE_ONLY = {"C01", "C02", "C10", "C13", "C14"}
ENGINE_SECS = {"quick": 300, "thorough": 480}
RT_SECS = {"quick": {"sqlite": 12, "psql": 12}, "thorough": {"sqlite": 100, "psql": 80}}


def sh(cmd, timeout):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, cwd=HERE)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"


def engine(prop, secs):
    fd, out = tempfile.mkstemp(suffix=".json"); os.close(fd)
    try:
        rc, so, se = sh([VT, os.path.join(HERE, "engine", "main.py"), prop, TIER, str(secs), out], secs + 60)
        try: return json.load(open(out))
        except Exception: return {"error": f"engine rc={rc} {se[-1500:]}", "obligations": 0, "discharged": 0, "refuted": [], "unknown": [], "unsupported": [], "scenes": [], "vacuous": []}
    finally:
        os.unlink(out)


def rt(prop, eng, secs, seed):
    rc, so, se = sh([DJ, os.path.join(HERE, "rt", "main.py"), "run", prop, "--engine", eng, "--seed", str(seed), "--secs", str(secs)], secs + 120)
    try: return json.loads(so.strip().splitlines()[-1])
    except Exception: return {"engine": eng, "n": 0, "distinct": 0, "fails": [], "errs": [f"rc={rc} {se[-1500:]}"], "kinds": {}, "samples": []}


def replay_ok(path):
    rc, so, se = sh([DJ, os.path.join(HERE, "rt", "main.py"), "replay", path], 180)
    return rc == 1


def engines(prop):
    if prop in PSQL_ONLY: return ["psql"]
    if prop in SQLITE_ONLY: return ["sqlite"]
    return ["sqlite", "psql"]


def known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        if l.startswith("known: property=" + prop + " "): out.append(l.split(" ", 2)[2].strip())
    return out


def main(prop):
    t0 = time.time()
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    e = engine(prop, ENGINE_SECS[TIER])
    runs, confirmed, unconfirmed = [], [], []

    def search(secs_of, seed):
        for eng in engines(prop):
            r = rt(prop, eng, secs_of[eng], seed)
            runs.append(r)
            for f in sorted(r["fails"], key=lambda f: len(json.dumps(f["scenario"]))):
                rec = {"property": prop, "scenario": f["scenario"], "label": f["label"], "message": f["message"], "backend": f["be"], "found_by": f"rt {eng} seed {seed}"}
                h = hashlib.sha1(json.dumps(rec["scenario"], sort_keys=True).encode()).hexdigest()[:10]
                path = os.path.join(rdir, f"{prop}-{h}.json")
                json.dump(rec, open(path, "w"), indent=1)
                if replay_ok(path): confirmed.append((path, rec)); break
                unconfirmed.append(rec)
                os.unlink(path)
            if confirmed: return

    search(RT_SECS[TIER], SEED)
    if e["refuted"] and not confirmed:
        search({"sqlite": 45, "psql": 45}, SEED + 1000)
    viol = []
    if confirmed:
        path, rec = confirmed[0]
        if e["refuted"]:
            rec["failed_obligations"] = [{k: o[k] for k in ("name", "path", "detail")} for o in e["refuted"][:10]]
            json.dump(rec, open(path, "w"), indent=1)
        viol.append({"replay": path, "label": rec["label"], "message": rec["message"], "obligations": [o["name"] for o in e["refuted"]][:10]})
        print(f"{prop}: {rec['label']}: {rec['message']}"[:1500])
        for o in e["refuted"][:5]: print("failed obligation:", o["name"])
        print(f"VIOLATION property={prop} replay={path}")
    elif e["refuted"]:
        path = os.path.join(rdir, f"{prop}-obligation.json")
        json.dump({"property": prop, "failed_obligations": e["refuted"][:20]}, open(path, "w"), indent=1)
        viol.append({"replay": path, "obligations": [o["name"] for o in e["refuted"]][:10]})
        for o in e["refuted"][:5]: print("failed obligation:", o["name"])
        print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
    for k in known(prop): print(f"KNOWN-FINDING: property={prop} {k}")
    n_rt = sum(r["n"] for r in runs)
    whole = e["obligations"] > 0 and e["discharged"] == e["obligations"] and not e["unsupported"] and not e.get("error")
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": LEVEL(prop),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(viol),
        "assumptions": e.get("assumptions", []),
        "coverage": {
            "obligations": e["obligations"], "discharged": e["discharged"],
            "checker_cmd": f"{VT} engine/main.py {prop} {TIER} {ENGINE_SECS[TIER]} OUT.json (z3 5.3.2 as back end)",
            "trusted_base": e.get("assumptions", []),
            "functions_under_contract": e.get("functions", []),
            "all_discharged": whole, "explanation": "obligations discharged by the verifier, plus the bounded runs described below", "solver_s": round(e.get("solver_s", 0), 1), "engine_wall_s": round(e.get("wall_s", 0), 1),
            "scenes": e["scenes"], "refuted": [o["name"] for o in e["refuted"]], "unknown": [o["name"] for o in e["unknown"]],
            "not_verified": e["unsupported"], "vacuous": e["vacuous"], "engine_error": e.get("error"),
            "sample_obligations": e.get("samples", []),
            "bounded_runs": [{k: r.get(k) for k in ("engine", "n", "distinct", "kinds", "errs")} for r in runs],
            "bounded_note": "the run-time search is bounded (small trees, random histories); it confirms failed obligations and stands in, labelled bounded, for functions outside the verifier's reach; never counted as proved",
            "violation_details": viol,
            "evaluations": n_rt, "distinct_nontrivial": sum(r["distinct"] for r in runs),
            "rule": "each evaluation is one scenario (tree shape, layout, operation or history, property check) run on the real library and compared with an independent forest; counted distinct by its full description",
            "samples": [s for r in runs for s in r.get("samples", [])][:3],
            "unconfirmed_alarms": unconfirmed[:3],
        },
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1, default=str)
    print(f"{prop}: obligations {e['discharged']}/{e['obligations']} discharged, refuted {len(e['refuted'])}, unknown {len(e['unknown'])}, outside reach {len(e['unsupported'])}; "
          f"bounded runs {n_rt}; {time.time() - t0:.0f}s")
    if n_rt == 0 and e["obligations"] == 0:
        print("nothing was checked"); return 2
    return 1 if viol else 0


def LEVEL(prop):
    for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]:
        if c["property"] == prop: return c["level"]
    return "other"


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
