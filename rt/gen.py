"""Scenario generators per property: exhaustive over small forests, then random over larger ones."""
import itertools, random
from forest import shapes
import scen
from scen import ADD_POS, MOVE_POS

MPS = ["mp", "mp_one", "mp_tri", "mp_big"]
MPS_INH = ["mp_inh", "mp_proxy", "mp_uuid", "mp_zero"]
SORTED = ["mp_sorted", "mp_sorted_one", "ns_sorted", "al_sorted"]
NSS, ALS = ["ns", "ns_inh", "ns_proxy", "ns_zero"], ["al", "al_inh", "al_proxy", "al_zero"]
LTS = ["lt", "lt_proxy", "lt_zero"]
LAY = {"mp": ["dense", "holes", "carry", "high", "high1"], "ns": ["dense", "holes"], "al": ["dense", "holes"],
       "lt": ["dense", "tight", "pool", "holes", "tight", "tail", "noprefix"]}


def fam(name):
    return name.split("_")[0]


def base(be, shape, lay, seed, **kw):
    n = count(shape)
    return {"be": be, "shape": shape, "ids": list(range(1, n + 1)), "layout": {"mode": lay}, "seed": seed, **kw}


def count(sh):
    return sum(1 + count(s) for s in sh)


def ops_for(be, n, kinds, rnd):
    srt = "sorted" in be
    ids = range(1, n + 1)
    keys = [(a, b) for a in (-1, 0, 1, 2, 3, 4) for b in (0, 1)] if srt else [None]
    def K():
        return {"key": rnd.choice(keys)} if srt else {}
    ap = ["sorted-sibling", None] if srt else ADD_POS + [None]
    mp_ = ["sorted-sibling", "sorted-child", None] if srt else MOVE_POS + [None]
    if "add" in kinds:
        yield {"kind": "add_root", **K()}
        yield {"kind": "add_root", "via": "instance", **K()}
        for t in ids:
            yield {"kind": "add_child", "target": t, **K()}
            for p in ap:
                yield {"kind": "add_sibling", "target": t, "pos": p, "via": rnd.choice(("instance", None)), **K()}
    if "move" in kinds:
        for a in ids:
            for t in ids:
                for p in mp_:
                    yield {"kind": "move", "node": a, "target": t, "pos": p, "same": rnd.random() < .5}
    if "delete" in kinds:
        for k in range(1, min(n, 3) + 1):
            for s in itertools.combinations(ids, k):
                if k > 1 and rnd.random() < .4: continue
                yield {"kind": "delete", "sel": list(s)}
        if n:
            yield {"kind": "delete", "sel": [rnd.randrange(1, n + 1)], "how": "instance"}
        if n and fam(be) != "al":
            yield {"kind": "delete", "sel": [rnd.randrange(1, n + 1)], "how": "descend"}
    if "bad" in kinds:
        for t in ids:
            for p in (["left", "first-sibling", "bogus"] if srt else ["sorted-sibling", "bogus", ""]):
                yield {"kind": "add_sibling", "target": t, "pos": p, **K()}
                yield {"kind": "move", "node": t, "target": rnd.randrange(1, n + 1), "pos": p}
            yield {"kind": "move", "node": t, "target": rnd.randrange(1, n + 1), "pos": "first-child" if srt else "sorted-child"}
        for a in ids:
            for t in ids:
                for p in (["sorted-child", "sorted-sibling"] if srt else MOVE_POS):
                    yield {"kind": "move", "node": a, "target": t, "pos": p}


def mix(*gens):
    """round robin"""
    gens = list(gens)
    while gens:
        for g in list(gens):
            try: yield next(g)
            except StopIteration: gens.remove(g)


def op_scenarios(bes, kinds, rnd, check="op", warm=False, maxn=4):
    """endless: small forests exhaustively (shuffled per size), alternating with random ones (small and larger)"""
    return mix(op_exhaustive(bes, kinds, rnd, check, warm, maxn), op_random(bes, kinds, rnd, check, warm))


def op_exhaustive(bes, kinds, rnd, check, warm, maxn):
    for n in range(0, maxn + 1):
        block = []
        for be in bes:
            for sh in shapes(n):
                for lay in LAY[fam(be)]:
                    for op in ops_for(be, n, kinds, rnd):
                        sc = base(be, sh, lay, rnd.randrange(10**6), op=op, check=check)
                        block.append(sc)
        rnd.shuffle(block)
        if n >= 4:
            block = block[:6000]
        for sc in block:
            yield decorate(sc, rnd, warm)


def op_random(bes, kinds, rnd, check, warm):
    ks = sorted(kinds)
    while True:
        be = rnd.choice(bes)
        n = rnd.randrange(2, 6) if rnd.random() < .4 else rnd.randrange(5, 11)
        sh = rshape(n, rnd)
        ops = list(ops_for(be, n, {rnd.choice(ks)}, rnd))
        for op in rnd.sample(ops, min(3, len(ops))):
            yield decorate(base(be, sh, rnd.choice(LAY[fam(be)]), rnd.randrange(10**6), op=op, check=check), rnd, warm)


def decorate(sc, rnd, warm):
    if rnd.random() < .3:
        rnd.shuffle(sc["ids"])
    if warm and rnd.random() < .5:
        sc["op"]["warm"] = [1]
    if rnd.random() < .2:
        sc["op"]["outer"] = True
        if sc["check"] == "fault": sc["outer"] = True
    if rnd.random() < .2 and ("_inh" in sc["be"] or "_proxy" in sc["be"]):
        sc["op"]["tcls"] = "base"
    return sc


def rshape(n, rnd):
    mode = rnd.random()
    def pick(i):
        if mode < .35: return rnd.choice([None] + list(range(i)))            # anything
        if mode < .6: return rnd.choice(list(range(max(0, i - 2), i)))       # deep
        if mode < .8: return rnd.choice(list(range(max(0, i - 4), i)) + [0])  # one tree
        return rnd.choice([None, None, 0, i - 1])                            # wide
    par = [None] + [pick(i) for i in range(1, n)]
    def rec(p):
        return tuple(rec(i) for i in range(n) if par[i] == p)
    return rec(None)


def simple(check, bes, rnd, maxn=4, extra=lambda rnd, n, be: {}, per=1, big=11):
    def shuf(sc):
        if rnd.random() < .5: rnd.shuffle(sc["ids"])
        return sc
    def exhaustive():
        for n in range(0, maxn + 1):
            for sh in shapes(n):
                for be in bes:
                    for lay in LAY[fam(be)]:
                        for _ in range(per):
                            yield shuf(base(be, sh, lay, rnd.randrange(10**6), check=check, **extra(rnd, n, be)))
    def rand():
        while True:
            n = rnd.randrange(3, big)
            be = rnd.choice(bes)
            yield shuf(base(be, rshape(n, rnd), rnd.choice(LAY[fam(be)]), rnd.randrange(10**6), check=check, **extra(rnd, n, be)))
    return mix(exhaustive(), rand())


def histories(bes, rnd):
    while True:
        be = rnd.choice(bes)
        srt = "sorted" in be
        n = rnd.randrange(0, 6)
        ops, last = [], 0
        for _ in range(rnd.randrange(2, 7)):
            k = rnd.choice(["add_root", "add_child", "add_child", "add_child", "add_sibling", "move", "move", "delete"])
            op = {"kind": k}
            if k == "delete": op["sel"] = [rnd.randrange(20)]
            elif k != "add_root":
                op["target"] = last if rnd.random() < .6 else rnd.randrange(20)
                last = op["target"]
            if k == "move":
                op["node"] = rnd.randrange(20)
                op["pos"] = rnd.choice(["sorted-sibling", "sorted-child"] if srt else MOVE_POS)
            if k == "add_sibling":
                op["pos"] = "sorted-sibling" if srt else rnd.choice(ADD_POS)
            if srt: op["key"] = (rnd.randrange(-1, 5), rnd.randrange(3))
            ops.append(op)
        yield base(be, rshape(n, rnd) if n else (), rnd.choice(LAY[fam(be)]), rnd.randrange(10**6), check="history", ops=ops)


def codecs(rnd):
    abc = ["01", "0123456789", "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ", "abc", "zyx", "ab!é", "0123456789abcdef"]
    while True:
        a, s = rnd.choice(abc), rnd.randrange(1, 6)
        r, m = len(a), len(a) ** s
        vs = sorted({rnd.choice([0, 1, r - 1, r, r + 1, m - 1, m - 2, m, m // 2, rnd.randrange(m)]) for _ in range(8)})
        d = rnd.randrange(1, 4)
        b = "".join(rnd.choice(a) for _ in range(s * (d - 1 + rnd.randrange(0, 2))))
        yield {"check": "codec", "alphabet": a, "steplen": s, "values": vs, "base": b, "depth": d}


def labels(rnd):
    C = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
    small = ["".join(t) for k in (1, 2, 3) for t in itertools.product("01AZ", repeat=k)]
    for b in [None] + small:
        for a in [None] + small:
            if a and b and a >= b: continue
            yield {"check": "label", "before": b, "after": a, "skip": []}
    while True:
        n = rnd.randrange(0, 30)
        sk = sorted({"".join(rnd.choice(C if rnd.random() < .5 else "0AZ") for _ in range(rnd.randrange(1, 4))) for _ in range(n)})
        i = rnd.randrange(0, len(sk) + 1)
        yield {"check": "label", "after": sk[i - 1] if i else None, "before": sk[i] if i < len(sk) else None, "skip": sk}


def bulk_extra(rnd, n, be):
    d = rnd.randrange(0, 4)
    return {"src": rnd.choice([None, None, rnd.randrange(10)]), "keep_ids": rnd.random() < .5, "parent": rnd.choice([None, rnd.randrange(4)]),
            "dest": rshape(d, rnd) if d else (), "bulk_create": fam(be) == "mp" and rnd.random() < .6 and "inh" not in be}


def forms(bes, rnd):
    while True:
        be = rnd.choice(bes)
        srt = "sorted" in be
        n = rnd.randrange(0, 6)
        un = rnd.random() < .25
        P = ["sorted-child", "sorted-sibling"] if srt else ["first-child", "left", "right"]
        node = rnd.choice([None] + list(range(1, n + 1)))
        ref = rnd.choice([None] + list(range(1, n + 1)))
        yield base(be, rshape(n, rnd) if n else (), rnd.choice(LAY[fam(be)][:2]), rnd.randrange(10**6), check="form", node=node, ref=ref,
                   pos=rnd.choice(P), unchanged=node is not None and un, initial=node is None and rnd.random() < .5,
                   invalid=rnd.choice(["pos", "ref"]) if not un and rnd.random() < .15 else None,
                   **({"key": (rnd.randrange(-1, 4), rnd.randrange(3))} if srt and not un and rnd.random() < .6 else {"dkey": rnd.choice([(0, 1), (0, -1), (1, 0), (-1, 0)])} if srt and not un and node is not None and rnd.random() < .5 else {}))


def scenarios(prop, engine, rnd):
    lt = engine == "psql"
    uns = LTS if lt else MPS + MPS_INH + NSS + ALS
    uns_core = ["lt"] if lt else ["mp", "mp_one", "mp_tri", "ns", "al"]
    srt = ["lt_sorted"] if lt else SORTED + ["mp_sorted_inh", "ns_sorted_inh", "al_zero_sorted"]
    zero = [b for b in uns if b.endswith("_zero")]
    every = uns + srt
    mpa = [b for b in every if fam(b) == "mp"]
    nsa = [b for b in every if fam(b) == "ns"]
    ala = [b for b in every if fam(b) in ("al", "lt")]
    A = {"add", "move", "delete"}
    if prop == "C01": return [op_scenarios(mpa, A, rnd, warm=True), histories(mpa[:4], rnd), simple("bulk", ["mp", "mp_one", "mp_sorted"], rnd, extra=bulk_extra)]
    if prop == "C02": return [op_scenarios(nsa, A, rnd, warm=True), histories(["ns", "ns_sorted"], rnd), simple("bulk", ["ns", "ns_sorted"], rnd, extra=bulk_extra)]
    if prop == "C03": return [op_scenarios(ala, A, rnd, warm=True), histories(["lt", "lt_sorted"] if lt else ["al", "al_sorted"], rnd), simple("bulk", ["lt"] if lt else ["al"], rnd, extra=bulk_extra)]
    if prop == "C04": return [op_scenarios(uns, {"add"}, rnd, warm=True)]
    if prop == "C05": return [op_scenarios(uns, {"move"}, rnd, warm=True)]
    if prop == "C06": return [op_scenarios(srt, {"add", "move"}, rnd, warm=True)]
    if prop == "C07": return [op_scenarios(uns_core + srt[:3] + (["mp_inh", "ns_inh", "al_inh", "mp_uuid"] if not lt else []) + zero, {"delete"}, rnd)]
    if prop in ("C08", "C09", "C17"): return [simple("queries", uns_core + srt[:4] + (["mp_inh", "mp_proxy", "ns_proxy", "al_proxy"] if not lt else ["lt_proxy"]) + zero, rnd, extra=lambda r, n, b: {"only": prop})]
    if prop == "C10": return [codecs(rnd), op_scenarios(["mp_one", "mp_tri", "mp_sorted_one"], {"add", "move"}, rnd), simple("bulk", ["mp_one", "mp_tri"], rnd, extra=bulk_extra)] if not lt else []
    if prop == "C11": return [labels(rnd)] if lt else []
    if prop == "C12": return [op_scenarios(uns_core + zero + srt[:3], {"bad"}, rnd, warm=True), simple("args", every, rnd), op_scenarios(uns_core + srt[:3], {"add", "move"}, rnd)]
    if prop == "C13": return [simple("problems", ["mp", "mp_one", "mp_tri", "ns", "mp_zero", "ns_zero"], rnd, extra=lambda r, n, b: {"damage": 0 if n == 0 else r.choice((0, 1, 1, 2, 4))}, per=3)] if not lt else []
    if prop == "C14": return [simple("fix", ["mp", "mp_one", "mp_tri", "mp_sorted", "mp_sorted_one", "mp_zero"], rnd, extra=lambda r, n, b: {"fix_paths": r.random() < .7, "parent": r.choice((None, None, r.randrange(9))) if n else None}, per=2)] if not lt else []
    if prop == "C15": return [simple("bulk", uns_core + zero + srt[:3], rnd, extra=bulk_extra, per=2)]
    if prop == "C16": return [op_scenarios([b for b in uns_core + srt[:3] if fam(b) != "al"], A, rnd), simple("fix", ["mp", "mp_sorted"], rnd, extra=lambda r, n, b: {"fix_paths": True})][: 1 if lt else 2]
    if prop == "C18": return [op_scenarios(uns_core + srt[:4], {"add", "move"}, rnd, warm=True), histories(uns_core + srt[:4], rnd)]
    if prop == "C19": return [forms(uns_core + srt[:4] + [b for b in uns if b in ("al_inh", "ns_inh", "mp_inh", "al_proxy", "mp_proxy")] + zero, rnd)]
    if prop == "C20": return [op_scenarios([b for b in uns_core + srt if b != "mp_tri"], A, rnd, check="fault", maxn=3)]
    if prop == "C21": return [iter([base(b, (), "plain", 0, check="deleg") for b in uns_core for _ in range(8)]), simple("dep", uns_core + srt[:3] + (["mp_inh", "ns_proxy"] if not lt else []) + zero, rnd, maxn=3, big=5)]
    return []
