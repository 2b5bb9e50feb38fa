"""Raw access to the tables of each tree implementation: load a forest, read one back, check the representation."""
import random
from django.db import models as dm, connection
from forest import Forest


class Bad(Exception):
    pass


class Backend:
    kind = None
    shift = 0                                      # the primary key of node n is n - shift
    def __init__(self, name, model, base=None, sorted=False, inherited=None):
        self.name, self.model, self.sorted = name, model, sorted
        self.base = base or model                  # table owner
        self.inherited = inherited                 # child model for multi-table inheritance
        self.pk = self.base._meta.pk.attname

    def plainqs(self):
        return dm.QuerySet(self.base)

    def clear(self):
        if not hasattr(self, "deps"):
            from django.apps import apps
            ms = [m for m in apps.get_app_config("tb").get_models(include_auto_created=True) if not m._meta.proxy]
            self.deps = [m._meta.db_table for m in ms if m is not self.base and any(f.is_relation and f.related_model and f.concrete and f.related_model._meta.concrete_model is self.base for f in m._meta.local_fields)]
        with connection.cursor() as c:
            for t in self.deps + [self.base._meta.db_table]:
                c.execute(f'DELETE FROM "{t}"')

    def common(self, f, n):
        kw = {"pk": self.mkpk(n), "desc": str(n)}
        if self.sorted:
            kw["val1"], kw["val2"] = f.val[n]
        return kw

    def mkpk(self, n):
        return n - self.shift

    def load(self, f, layout, rnd):
        self.clear()
        rows = [self.base(**self.common(f, n), **kw) for n, kw in self.encode(f, layout, rnd).items()]
        order = {n: i for i, n in enumerate(f.ids())}
        rows.sort(key=lambda o: order[self.unpk(o.pk)])
        self.plainqs().bulk_create(rows)
        if self.inherited:
            ptr = self.inherited._meta.pk
            cur = connection.cursor()
            for i, n in enumerate(f.ids()):
                if layout.get("allsub") or i % 2 == 0:
                    cur.execute(f'INSERT INTO {self.inherited._meta.db_table} ("{ptr.column}","extra") VALUES (%s,%s)', [self.mkpk(n), "x"])
        if connection.vendor == "postgresql":
            pass
    def unpk(self, pk):
        return pk + self.shift

    def zero(self):
        """the same backend where the first node has primary key 0"""
        self.shift = 1
        return self

    def rows(self):
        fs = [self.pk] + list(self.fields) + (["val1", "val2"] if self.sorted else []) + ["desc"]
        return {self.unpk(r[self.pk]): r for r in self.plainqs().order_by().values(*fs)}

    def fetch(self, n, cls=None):
        cls = cls or self.model
        if self.inherited and cls is self.inherited and not dm.QuerySet(cls).filter(pk=self.mkpk(n)).exists():
            cls = self.base
        return dm.QuerySet(cls).get(pk=self.mkpk(n))


def build(par, order, bad):
    """forest from parent map and per-node sort key"""
    f = Forest()
    f.par = dict(par)
    for n in par:
        f.kids.setdefault(n, [])
    for n, p in par.items():
        if p is not None and p not in par:
            bad.append(f"node {n}: parent missing")
            p = f.par[n] = None
        f.kids.setdefault(p, []).append(n)
    for g in f.kids.values():
        g.sort(key=lambda n: order[n])
    return f


class MPB(Backend):
    kind = "mp"
    fields = ("path", "depth", "numchild")

    @property
    def maxpos(self):
        return len(self.base.alphabet) ** self.base.steplen - 1

    def enc(self, v):
        a, s = self.base.alphabet, ""
        for _ in range(self.base.steplen):
            s = a[v % len(a)] + s
            v //= len(a)
        if v:
            raise Bad("position does not fit")
        return s

    def dec(self, s):
        v = 0
        for c in s:
            v = v * len(self.base.alphabet) + self.base.alphabet.index(c)
        return v

    def mkpk(self, n):
        return f"k{n}" if self.name == "mp_uuid" else super().mkpk(n)
    def unpk(self, pk):
        return int(pk[1:]) if self.name == "mp_uuid" else super().unpk(pk)

    def positions(self, k, layout, rnd):
        mode = layout.get("mode", "dense")
        r = len(self.base.alphabet)
        if mode == "explicit":
            raise NotImplementedError
        if k > self.maxpos:
            raise Bad("too many siblings")
        if mode == "holes":
            out, p = [], 0
            for _ in range(k):
                p += rnd.choice((1, 1, 2, 3))
                out.append(p)
        elif mode == "carry":          # straddle the first carry of the alphabet
            start = max(1, r - 1 - rnd.randrange(0, k + 1))
            out = list(range(start, start + k))
        elif mode == "high":           # run up to the last position
            out = list(range(self.maxpos - k + 1, self.maxpos + 1))
            if k > 1 and rnd.random() < .3:
                out = [max(1, out[0] - 2)] + out[1:]
        elif mode == "high1":          # one or two free slots at the end
            d = rnd.choice((1, 2))
            out = list(range(self.maxpos - k + 1 - d, self.maxpos + 1 - d))
        else:
            out = list(range(1, k + 1))
        if out and (out[-1] > self.maxpos or out[0] < 1):
            out = list(range(1, k + 1))
        return out

    def encode(self, f, layout, rnd):
        out = {}
        def rec(parent, ppath, depth):
            g = f.kids[parent]
            for n, v in zip(g, self.positions(len(g), layout, rnd)):
                path = ppath + self.enc(v)
                out[n] = {"path": path, "depth": depth, "numchild": len(f.kids[n])}
                rec(n, path, depth + 1)
        if max([f.depth(n) for n in f.par], default=0) * self.base.steplen > self.base._meta.get_field("path").max_length:
            raise Bad("too deep")
        rec(None, "", 1)
        return out

    def read(self):
        bad, rows, s = [], self.rows(), self.base.steplen
        bypath = {}
        for n, r in rows.items():
            p = r["path"]
            if not p or len(p) % s:
                bad.append(f"node {n}: path {p!r} is not whole steps")
            if any(c not in self.base.alphabet for c in p):
                bad.append(f"node {n}: foreign characters in {p!r}")
            if p in bypath:
                bad.append(f"nodes {n},{bypath[p]}: same path {p!r}")
            if len(p) > self.base._meta.get_field("path").max_length:
                bad.append(f"node {n}: path {p!r} longer than the column")
            bypath[p] = n
        par = {n: (bypath.get(r["path"][:-s], f"?{r['path'][:-s]}") if len(r["path"]) > s else None) for n, r in rows.items()}
        idx = {c: i for i, c in enumerate(self.base.alphabet)}
        f = build(par, {n: [idx.get(c, -1) for c in r["path"]] for n, r in rows.items()}, bad)
        for n, r in rows.items():
            if r["depth"] * s != len(r["path"]):
                bad.append(f"node {n}: depth {r['depth']} but path {r['path']!r}")
            if r["numchild"] != len(f.kids[n]):
                bad.append(f"node {n}: numchild {r['numchild']} but {len(f.kids[n])} children")
            if len(r["path"]) >= s and r["path"][-s:] == self.base.alphabet[0] * s:
                bad.append(f"node {n}: step zero")
        return f, bad


class NSB(Backend):
    kind = "ns"
    fields = ("lft", "rgt", "tree_id", "depth")

    def encode(self, f, layout, rnd):
        out = {}
        t = 0
        for root in f.kids[None]:
            t += rnd.choice((1, 1, 2)) if layout.get("mode") == "holes" else 1
            c = [0]
            def rec(n, d):
                c[0] += 1
                l = c[0]
                for k in f.kids[n]:
                    rec(k, d + 1)
                c[0] += 1
                out[n] = {"lft": l, "rgt": c[0], "tree_id": t, "depth": d}
            rec(root, 1)
        return out

    def read(self):
        bad, rows = [], self.rows()
        trees = {}
        par = {}
        for n, r in rows.items():
            trees.setdefault(r["tree_id"], []).append(n)
        for t, ns in trees.items():
            ends = sorted(rows[n][k] for n in ns for k in ("lft", "rgt"))
            if ends != list(range(1, 2 * len(ns) + 1)):
                bad.append(f"tree {t}: endpoints {ends}")
            stack = []
            for n in sorted(ns, key=lambda n: rows[n]["lft"]):
                r = rows[n]
                if r["lft"] >= r["rgt"]:
                    bad.append(f"node {n}: lft {r['lft']} rgt {r['rgt']}")
                while stack and rows[stack[-1]]["rgt"] < r["lft"]:
                    stack.pop()
                if stack and rows[stack[-1]]["rgt"] < r["rgt"]:
                    bad.append(f"nodes {stack[-1]},{n}: intervals overlap")
                par[n] = stack[-1] if stack else None
                stack.append(n)
                if r["depth"] != len(stack):
                    bad.append(f"node {n}: depth {r['depth']} at level {len(stack)}")
            if sum(1 for n in ns if par[n] is None) != 1:
                bad.append(f"tree {t}: {sum(1 for n in ns if par[n] is None)} roots")
        f = build(par, {n: (r["tree_id"], r["lft"]) for n, r in rows.items()}, bad)
        return f, bad


class ALB(Backend):
    kind = "al"

    @property
    def fields(self):
        return ("parent_id",) if self.sorted else ("parent_id", "sib_order")

    def encode(self, f, layout, rnd):
        out = {}
        for parent, g in f.kids.items():
            v = 0
            for n in g:
                v += rnd.choice((1, 1, 2, 3)) if layout.get("mode") == "holes" else 1
                out[n] = {"parent_id": None if parent is None else self.mkpk(parent)}
                if not self.sorted:
                    out[n]["sib_order"] = v
        return out

    def read(self):
        bad, rows = [], self.rows()
        for r in rows.values():
            r["parent_id"] = None if r["parent_id"] is None else self.unpk(r["parent_id"])
        par = {n: r["parent_id"] for n, r in rows.items()}
        if self.sorted:
            order = {n: (r["val1"], -r["val2"]) for n, r in rows.items()}
        else:
            order = {n: r["sib_order"] for n, r in rows.items()}
            seen = {}
            for n, r in rows.items():
                k = (r["parent_id"], r["sib_order"])
                if k in seen:
                    bad.append(f"nodes {seen[k]},{n}: same order value {k}")
                if r["sib_order"] < 1:
                    bad.append(f"node {n}: order value {r['sib_order']}")
                seen[k] = n
        for n in par:
            p, k = par[n], 0
            while p is not None and k <= len(par):
                p, k = par.get(p), k + 1
            if k > len(par):
                bad.append(f"node {n}: cycle")
                par = {**par, n: None}
        return build(par, order, bad), bad


class LTB(Backend):
    kind = "lt"
    fields = ("path",)
    POOL = ["0", "00", "000", "01", "0A", "1", "5Z", "9", "A", "A0", "A00", "A0A", "A1", "AA", "AAA", "AB", "AZ", "B", "B0", "BA", "C", "M", "Y", "Z", "Z0", "ZA", "ZZ", "ZZ0", "ZZZ"]

    def encode(self, f, layout, rnd):
        out = {}
        mode = layout.get("mode")
        def rec(parent, pp):
            g = f.kids[parent]
            if mode == "pool":
                labels = sorted(rnd.sample(self.POOL, len(g)))
            elif mode == "holes":
                labels = sorted(rnd.sample("ABCDEFGHIJ", len(g)))
            elif mode == "tail":
                labels = list("KLMNOPQRSTUVWXYZ")[-len(g):] if g else []
            elif mode == "tight":      # neighbours without a gap, runs of prefixes
                pool = ["0", "00", "000", "A", "A0", "A00", "A01", "AA", "Z", "Z0"]
                labels = sorted(rnd.sample(pool + ["Z00" + "0" * k for k in range(len(g) - len(pool))], len(g)))
            elif mode == "noprefix":
                labels = sorted(rnd.sample(["0A", "1", "2", "B", "CZ", "D0", "E", "ZZ"] + [f"F{i:02}" for i in range(len(g) - 8)], len(g)))
            else:
                labels = list("ABCDEFGHIJKLMNOP")[:len(g)]
            for n, l in zip(g, labels):
                out[n] = {"path": ".".join(pp + [l])}
                rec(n, pp + [l])
        rec(None, [])
        return out

    def read(self):
        import re
        bad, rows = [], {n: dict(r, path=tuple(r["path"])) for n, r in self.rows().items()}
        by = {}
        for n, r in rows.items():
            if r["path"] in by:
                bad.append(f"nodes {n},{by[r['path']]}: same path {r['path']}")
            by[r["path"]] = n
            if not r["path"] or any(not re.fullmatch("[0-9A-Z]+", l) for l in r["path"]):
                bad.append(f"node {n}: labels {r['path']}")
        par = {n: (by.get(r["path"][:-1], f"?{r['path'][:-1]}") if len(r["path"]) > 1 else None) for n, r in rows.items()}
        return build(par, {n: r["path"] for n, r in rows.items()}, bad), bad


def backends(engine):
    from tb import models as m
    if engine == "psql":
        return [LTB("lt", m.LTPlain), LTB("lt_sorted", m.LTSorted, sorted=True),
                LTB("lt_inh", m.LTInh, base=m.LTPlain, inherited=m.LTInh), LTB("lt_proxy", m.LTProxy, base=m.LTPlain),
                LTB("lt_zero", m.LTPlain).zero()]
    return [MPB("mp", m.MPPlain), MPB("mp_one", m.MPOne), MPB("mp_tri", m.MPTri), MPB("mp_sorted", m.MPSorted, sorted=True),
            MPB("mp_sorted_one", m.MPSortedOne, sorted=True), MPB("mp_uuid", m.MPUuid), MPB("mp_big", m.MPBig),
            MPB("mp_inh", m.MPInh, base=m.MPPlain, inherited=m.MPInh), MPB("mp_proxy", m.MPProxy, base=m.MPPlain),
            MPB("mp_sorted_inh", m.MPSortedInh, base=m.MPSorted, inherited=m.MPSortedInh, sorted=True),
            NSB("ns", m.NSPlain), NSB("ns_sorted", m.NSSorted, sorted=True),
            NSB("ns_inh", m.NSInh, base=m.NSPlain, inherited=m.NSInh), NSB("ns_proxy", m.NSProxy, base=m.NSPlain),
            NSB("ns_sorted_inh", m.NSSortedInh, base=m.NSSorted, inherited=m.NSSortedInh, sorted=True),
            ALB("al", m.ALPlain), ALB("al_sorted", m.ALSorted, sorted=True),
            ALB("al_inh", m.ALInh, base=m.ALPlain, inherited=m.ALInh), ALB("al_proxy", m.ALProxy, base=m.ALPlain),
            MPB("mp_zero", m.MPPlain).zero(), NSB("ns_zero", m.NSPlain).zero(), ALB("al_zero", m.ALPlain).zero(), ALB("al_zero_sorted", m.ALSorted, sorted=True).zero()]
