"""Lemmas about the order of paths that mp.py and lt.py use (`dfs_facts`), proved here for sequences of any length over any totally ordered
alphabet (characters of a materialized path, labels of an ltree), compared at the first difference:
  1. a proper prefix comes before what it is a prefix of;
  2. if s and t have the same length and s < t, everything that begins with s comes before everything that begins with t;
  3. numerals of the same length are ordered like their values (induction over the length, for any radix)."""
import time
import z3
import core, labels
And, Or, Not, Implies, BoolVal = z3.And, z3.Or, z3.Not, z3.Implies, z3.BoolVal


def run(prop, tier, secs):
    t0, obs, stats = time.time(), [], {"solver_s": 0.0, "queries": 0}
    possible = []
    def lemma(name, hyps, goal):
        possible.append(str(core.C.check(hyps, 10000)) != "unsat")
        core.C.assume(*hyps)
        obs.append(core.prove(core.C, f"order of paths: {name}", goal))
    def ctx():
        core.C = c = core.Ctx([], stats)
        return c

    def strings(c):
        s = labels.Strings(c, None)
        def prefix(a, b):
            c.forall("prefix", ["Idx"], lambda i: Implies(And(0 <= i, i < s.ln(a)), s.ch(a, i) == s.ch(b, i)))
            return s.ln(a) <= s.ln(b)
        return s, prefix
    c = ctx(); s, prefix = strings(c)
    a, b = s.new("a"), s.new("b")
    lemma("a proper prefix comes first", [prefix(a, b), a != b], And(s.lt(a, b), Not(s.lt(b, a))))
    c = ctx(); s, prefix = strings(c)
    x, y, a, b = [s.new(n) for n in "stab"]
    lemma("what follows the first difference does not matter", [s.ln(x) == s.ln(y), s.lt(x, y), prefix(x, a), prefix(y, b)], And(s.lt(a, b), Not(s.lt(b, a))))
    # numerals: value(c.x) = c*P + value(x) with 0 <= value(x) < P = radix^len(x); x <lex y for equal lengths means: first characters differ and decide, or they agree and the rest decides
    c = ctx()
    k, d, P, x, y = [z3.Int(n) for n in ("c", "d", "P", "x", "y")]
    lex = z3.Function("rest_before", z3.IntSort(), z3.IntSort(), z3.BoolSort())
    rng = [0 <= x, x < P, 0 <= y, y < P, P >= 1, k >= 0, d >= 0]
    u, v = z3.Ints("c_times_P d_times_P")
    # the products by name: equal factors, equal products; and the monotonicity proved first (for d = k + 1 + e)
    mono = [Implies(k == d, u == v), Implies(k < d, u + P <= v), Implies(d < k, v + P <= u)]
    e = z3.Int("e")
    c.assume(P >= 1, e >= 0, (k + 1 + e) * P == k * P + P + e * P)
    obs.append(core.prove(c, "order of paths: multiplication by a positive number is monotone", e * P >= 0))
    obs.append(core.prove(c, "order of paths: multiplication by a positive number is monotone (step)", Implies(e * P >= 0, (k + 1 + e) * P >= k * P + P)))
    c = ctx()
    lemma("numerals of equal length are ordered like their values (induction step)", rng + mono + [lex(x, y) == (x < y)], Or(k < d, And(k == d, lex(x, y))) == (u + x < v + y))
    c = ctx()
    lemma("numerals of length 0", [P == 1, x == 0, y == 0], BoolVal(True) == Not(x < y))
    return [{"task": "order of paths (lemmas)", "obligations": [o.as_dict() for o in obs], "paths": 1, "possible": int(all(possible)), "returned": 1, "status": "done", "solver_s": stats["solver_s"], "seconds": time.time() - t0}]


if __name__ == "__main__":
    for r in run("C08", "quick", 60):
        print(r["possible"], r["seconds"])
        for o in r["obligations"]: print(o["status"], o["name"], o["detail"][:200])
