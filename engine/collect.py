"""Contracts of the loops of delete().

A gathering loop goes through rows (or through what an earlier loop gathered) and adds something to containers.  Its contract is
inferred: the body is run on an arbitrary first row; what it adds there, as a function of the row, is the template.  The invariant is: every
row visited so far that contributes (is selected and lies below no other selected row, or simply: was visited) has added its template,
the other rows nothing, and variables that outlive an iteration hold the template of the last contributing row.  That the body keeps the
invariant is an obligation for an arbitrary later row.  After the loop the containers denote {template(x) | x contributes}."""
import builtins
import z3
import core, table, vc
import mp
from mp import StrPath, obligation, obligation_forall, T_, F_
from common import *
from core import SymInt, SymBool, sort, Unsupported, PathEnd, Restart, raw

STORE = {}


class Poison:
    """a variable that the next iteration assigns before it reads it"""
    __hash__ = None
    def _no(self, *a, **k): raise Unsupported("a variable is carried from one iteration to the next")
    __bool__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __sub__ = __getitem__ = __iter__ = __contains__ = __len__ = __call__ = _no
    def __getattr__(self, n): self._no()


# ------------------------------------------------------------------------------------- values as functions of a row
def consts(e, out):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[x.decl().name()] = x
        todo += x.children()
    return out


def made_since(snap, names):
    """which of the constants were made after the snapshot"""
    out = []
    for n in names:
        base, _, k = n.rpartition("!")
        if base and k.isdigit(): base, k = base, int(k)
        else: base, k = n, 0
        if k >= snap.get(base, 0) and base in core.C.counter: out.append(n)
    return out


def terms_of(v, out):
    if isinstance(v, z3.ExprRef): out.append(v)
    elif isinstance(v, (SymInt, SymBool, table.SymPk)): out.append(v.t)
    elif isinstance(v, (tuple, list)):
        for x in v: terms_of(x, out)
    elif isinstance(v, dict):
        for x in v.values(): terms_of(x, out)
    elif isinstance(v, QAny): pass
    elif isinstance(v, table.Q):
        for k in v.kids: terms_of(k if isinstance(k, table.Q) else k[1], out)
    elif isinstance(v, StrPath): out += [v.root, v.row, *v.steps]
    elif isinstance(v, table.Model):
        if v._row is not None: out.append(v._row)
    return out


def sub(v, r, x):
    """v with row x for row r"""
    s = lambda t: z3.substitute(t, (r, x))
    if v is None or isinstance(v, (bool, int, str, float)): return v
    if isinstance(v, z3.ExprRef): return s(v)
    if isinstance(v, (SymInt, SymBool, table.SymPk)): return type(v)(s(v.t))
    if isinstance(v, (tuple, list)): return type(v)([sub(y, r, x) for y in v])
    if isinstance(v, dict): return {k: sub(y, r, x) for k, y in v.items()}
    if isinstance(v, QAny): return v
    if isinstance(v, table.Q):
        q = table.Q(_neg=v.neg, _op=v.op)
        q.kids = [sub(k, r, x) if isinstance(k, table.Q) else (k[0], sub(k[1], r, x)) for k in v.kids]
        return q
    if isinstance(v, StrPath):
        if v.ov is not None: raise Unsupported("a value gathered by a loop")
        return type(v)(tree_now(v.tree), z3.simplify(s(v.root)), s(v.row), [s(t) for t in v.steps])
    if isinstance(v, table.Model):
        if v._row is None or not v._row.eq(r): raise Unsupported("an object gathered by a loop")
        if v.__dict__.get("vc_from") != "S0": raise Unsupported("an object gathered by a loop")
        return fetched(type(v), x)
    raise Unsupported(f"{type(v).__name__} gathered by a loop")


def tree_now(t):
    """the tree of this path that plays the part of t (templates are kept from one path to the next)"""
    now = table.W.state.tree
    while now is not None and now.k != t.k: now = now.prev
    if now is None: raise Unsupported("a path of a later state")
    return now


def fetched(cls, x):
    o = cls._fetched(x, table.W.spec.S0)
    o.__dict__["vc_from"] = "S0"
    return o


def alike(a, b):
    """condition under which two values are the same, None if they cannot be"""
    if a is b: return T_
    if isinstance(a, (SymInt, int)) and isinstance(b, (SymInt, int)) and not isinstance(a, bool) and not isinstance(b, bool): return raw(a) == raw(b)
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)): return raw(a) == raw(b)
    if isinstance(a, (str, type(None))) and isinstance(b, (str, type(None))): return T_ if a == b else None
    if isinstance(a, table.SymPk) and isinstance(b, table.SymPk): return a.t == b.t
    if isinstance(a, StrPath) and isinstance(b, StrPath): return a.eq(b)
    if isinstance(a, table.Model) and isinstance(b, table.Model): return a._row == b._row if type(a) is type(b) and a._row is not None and b._row is not None else None
    if isinstance(a, (tuple, list)) and type(a) is type(b) and len(a) == len(b): return both(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b): return both(alike(a[k], b[k]) for k in a)
    if type(a) is table.Q and type(b) is table.Q and a.op == b.op and a.neg == b.neg and len(a.kids) == len(b.kids):
        return both(alike(x, y) if isinstance(x, table.Q) or isinstance(y, table.Q) else (alike(x[1], y[1]) if x[0] == y[0] else None) for x, y in zip(a.kids, b.kids))
    return None

def both(gs):
    gs = list(gs)
    return None if any(g is None for g in gs) else And(gs)


# ----------------------------------------------------------------------------------------------- gathered containers
class Count:
    """a count that was read from a counter and is increased"""
    __hash__ = None
    def __init__(self, coll, key, n=0): self.coll, self.key, self.n = coll, key, n
    def __add__(self, o):
        if isinstance(o, int): return Count(self.coll, self.key, self.n + o)
        raise Unsupported("arithmetic on a count")
    __radd__ = __add__
    def _no(self, *a): raise Unsupported("use of a count inside the loop")
    __bool__ = __eq__ = __lt__ = __gt__ = __sub__ = _no


class Coll:
    """a container; alts: [(guard(x), entry(x))], member(x): x has contributed.  An entry of a dict is a pair."""
    __hash__ = None
    def __init__(self, kind, alts=(), member=None):
        self.kind, self.alts, self.member, self.added = kind, list(alts), member, []
        self.nothing = member is None or not self.alts
        self.tag = None
    # ---- the loop body adds something
    def append(self, v):
        if self.kind != "list": raise core.real(AttributeError("append"))
        self.added.append(v)
    def add(self, v):
        if self.kind != "set": raise core.real(AttributeError("add"))
        self.added.append(v)
    def extend(self, vs):
        if self.kind != "list" or not isinstance(vs, (builtins.list, builtins.tuple)): raise Unsupported("extend")
        for v in vs: self.added.append(v)
    def __iadd__(self, vs):
        self.extend(vs)
        return self
    def __setitem__(self, k, v):
        if self.kind == "dict" and not isinstance(v, Count): self.added.append((k, v))
        elif self.kind in ("dict", "counter") and isinstance(v, Count) and v.coll is self and v.key is k and v.n == 1: self.added.append(("count", k))
        else: raise Unsupported("assignment to an element")
        if self.kind == "dict" and isinstance(v, Count): self.kind = "counter"
    def update(self, o):
        if self.kind == "counter" and isinstance(o, (builtins.list, builtins.tuple)): self.added += [("count", k) for k in o]
        elif self.kind == "set" and isinstance(o, (builtins.list, builtins.tuple, builtins.set)): self.added += builtins.list(o)
        else: raise Unsupported("update of a container")
    def setdefault(self, k, v=None):
        if self.kind == "dict" and k not in self: self.added.append((k, v))
        elif self.kind != "dict": raise Unsupported("setdefault")
    # ---- reading
    def settled(self):
        if self.added: raise Unsupported("a container is read while it is filled")
        return self
    def key(self, e): return e[1] if self.kind == "counter" else e[0] if self.kind == "dict" else e
    def has(self, x, v):
        """x has contributed the key v"""
        out = []
        for g, e in self.alts:
            k = alike(self.key(e(x)), v)
            if k is not None: out.append(And(self.member(x), g(x), k))
        return Or(out) if out else F_
    def __contains__(self, v):
        self.settled()
        if self.nothing: return False
        c = core.C
        if isinstance(v, str) and v == "" and all(isinstance(self.key(e(c.fresh("any", "Row"))), StrPath) for _, e in self.alts): v = StrPath.empty(table.W.state.tree)
        b, w = c.fresh("isin", z3.BoolSort()), c.term("Row", c.fresh("which", "Row"))
        c.assume(Implies(b, self.has(w, v)))
        c.forall("not in the container", ["Row"], lambda x: Implies(Not(b), Not(self.has(x, v))))
        d = c.branch(b, "is in the container")
        if not d: c.drop("Row", w)
        c.__dict__.setdefault("members", []).append((self, v, d))
        return d
    def get(self, k, d=None):
        if self.kind in ("dict", "counter") and isinstance(d, int) and d == 0 and (self.kind == "counter" or all(e(core.C.fresh("any", "Row"))[0] == "count" for _, e in self.alts)): return Count(self, k)
        raise Unsupported("get from a container")
    def __getitem__(self, k):
        if self.kind == "counter" and self.member is not None and not self.filling: return SymInt(self.count(k))
        if self.kind == "counter": return Count(self, k)
        if self.kind == "list" and isinstance(k, int) and k == -1: return self.last_one()
        if self.kind == "list" and isinstance(k, slice) and k.start is None and k.stop is None and k.step == -1: return self.vc_reversed()
        raise Unsupported("element of a container")
    filling, order = False, None
    def vc_reversed(self):
        if self.kind != "list" or self.order is None: raise Unsupported("the order of a container")
        return Sorted(self.settled(), True, self.order)
    def last_one(self):
        """the element that was added last (of a list filled in the order of a query)"""
        c = core.C
        self.settled()
        if self.nothing: raise core.real(IndexError("list index out of range"))
        if self.order is None: raise Unsupported("the order of a container")
        any_ = lambda x: And(self.member(x), Or([g(x) for g, _ in self.alts]))
        L = self.lastrow
        if L is None:
            if not bool(self): raise core.real(IndexError("list index out of range"))
            L = self.lastrow = c.term("Row", c.fresh("lastone", "Row"))
            c.assume(any_(L))
            c.forall("the last element", ["Row"], lambda x: Implies(And(any_(x), x != L), And(Not(self.order(L, x)), self.order(x, L))))
        for i, (g, e) in enumerate(self.alts):
            if i == len(self.alts) - 1 or c.branch(g(L), "last element"): return e(L)
    lastrow = None
    def __bool__(self):
        self.settled()
        if self.nothing: return False
        c = core.C
        b, w = c.fresh("some", z3.BoolSort()), c.term("Row", c.fresh("one", "Row"))
        any_ = lambda x: And(self.member(x), Or([g(x) for g, _ in self.alts]))
        c.assume(Implies(b, any_(w)))
        c.forall("nothing gathered", ["Row"], lambda x: Implies(Not(b), Not(any_(x))))
        return c.branch(b, "something was gathered")
    def vc_len(self):
        raise Unsupported("length of a container")
    def items(self):
        if self.kind not in ("dict", "counter"): raise core.real(AttributeError("items"))
        return Part(self, lambda e: e)
    def keys(self): return Part(self, self.key)
    def values(self):
        if self.kind != "dict": raise Unsupported("values of a container")
        return Part(self, lambda e: e[1])
    def __iter__(self): raise Unsupported("iteration over a container")
    def entries(self):
        """what a loop over the container sees: [(guard, value)]"""
        self.settled()
        return [(g, (lambda x, e=e: self.key(e(x)))) for g, e in self.alts]
    def mapped(self, kind, f, entries=None):
        """the container of f(v) for the values v of this one"""
        alts = []
        for g, e in entries if entries is not None else self.entries():
            c = core.C
            x = c.term("Row", c.fresh("element", "Row"))
            c.assume(self.member(x), g(x))
            v = plain_call(lambda: f(e(x)), x)
            c.drop("Row", x)
            alts.append((g, lambda y, v=v, x=x: sub(v, x, y)))
        return Coll(kind, alts, self.member)
    def vc_comp(self, kind, cond, elt, has_if): return comp(self, self.entries(), kind, cond, elt, has_if)
    def vc_comp2(self, kind, cond, elt, has_if): return comp(self, self.entries(), kind, cond, elt, has_if)
    def vc_list(self): return Coll("list", self.entries(), self.member)
    def vc_set(self): return Coll("set", self.entries(), self.member)
    def vc_sorted(self, *a, **k): return self.vc_list().ordered(*a, **k)
    def ordered(self, key=None, reverse=False):
        if key is not None or not isinstance(reverse, bool): raise Unsupported("sorted with a key")
        if self.nothing: return []
        return Sorted(self, reverse)
    def vc_reduce(self, fn, *a):
        import operator
        self.settled()
        if fn is not operator.or_:
            p, q = table.Q(pk=1), table.Q(pk=2)
            u = fn(p, q)
            if not (type(u) is table.Q and u.op == "or" and not u.neg and len(u.kids) == 2 and u.kids[0] is p and u.kids[1] is q): raise Unsupported("reduce")
        if len(a) > 1 or a and not isinstance(a[0], table.Q): raise Unsupported("reduce")
        if not a and not self: raise core.real(TypeError("reduce() of empty iterable with no initial value"))
        q = any_of(self)
        return q if not a else a[0] | q
    def contains(self, v):
        """is the row v one of the keys?  (SQL IN)"""
        self.settled()
        if self.nothing: return F_
        out = []
        for g, e in self.alts:
            x = z3.Const("?x", sort("Row"))
            k = self.key(e(x))
            if not (isinstance(k, table.SymPk) and k.t.eq(x)): raise Unsupported("IN a gathered container")
            out.append(And(self.member(v), g(v)))
        return Or(out)
    # ---- counters
    def counting(self):
        """(has a key(row), count(row)) of a counter whose keys are paths of rows"""
        if not hasattr(self, "_counting"):
            c, be = core.C, table.W.spec
            k = c.counter.get("#counter", 0); c.counter["#counter"] = k + 1
            R = sort("Row")
            hk, cnt, wk = z3.Function(f"haskey{k}", R, z3.BoolSort()), z3.Function(f"counted{k}", R, z3.IntSort()), z3.Function(f"keyof{k}", R, R)
            def at(x, p): return Or([And(self.member(x), g(x), self.row_key(e, x) == p) for g, e in self.alts])
            c.forall("counter: keys", ["Row"], lambda x: And([Implies(And(self.member(x), g(x)), hk(self.row_key(e, x))) for g, e in self.alts]))
            c.forall("counter: what a key counts", ["Row"], lambda p: And(Implies(hk(p), at(wk(p), p)), (cnt(p) >= 1) == hk(p), cnt(p) >= 0))
            self._counting = hk, cnt, at
            be.derivers.append(lambda t: [wk(t)])
        return self._counting
    def row_key(self, e, x):
        k = self.key(e(x))
        if not (isinstance(k, StrPath) and not k.steps): raise Unsupported("key of a counter")
        return k.row
    def count(self, k):
        if not (isinstance(k, StrPath) and not k.steps): raise Unsupported("key of a counter")
        hk, cnt, _ = self.counting()
        return cnt(k.row)


class Part:
    """items(), keys() or values() of a container"""
    __hash__ = None
    def __init__(self, coll, f): self.coll, self.f = coll, f
    def entries(self):
        self.coll.settled()
        return [(g, (lambda x, e=e: self.f(e(x)))) for g, e in self.coll.alts]
    def __iter__(self): raise Unsupported("iteration over a container")
    def __bool__(self): return bool(self.coll)
    def __contains__(self, v):
        if self.f == self.coll.key: return v in self.coll
        raise Unsupported("in a container")
    def vc_comp(self, kind, cond, elt, has_if): return comp(self.coll, self.entries(), kind, cond, elt, has_if)
    vc_comp2 = vc_comp
    def vc_list(self): return Coll("list", self.entries(), self.coll.member)
    def vc_set(self): return Coll("set", self.entries(), self.coll.member)
    def vc_sorted(self, *a, **k): return self.vc_list().ordered(*a, **k)


class Sorted:
    """sorted(container)"""
    __hash__ = None
    def __init__(self, coll, down, order=None): self.coll, self.down, self.order = coll, down, order
    def vc_reversed(self): return Sorted(self.coll, not self.down, self.order)
    def __getitem__(self, k):
        if isinstance(k, slice) and k.start is None and k.stop is None and k.step == -1: return self.vc_reversed()
        raise Unsupported("element of a sorted list")
    def __bool__(self): return bool(self.coll)
    def __iter__(self): raise Unsupported("iteration over a container")


def comp(coll, entries, kind, cond, elt, has_if):
    if coll.nothing: return builtins.set() if kind == "set" else []
    es = entries
    if has_if:
        es = []
        for g, e in entries:
            c = core.C
            x = c.term("Row", c.fresh("element", "Row"))
            t = c.merged(lambda: cond(e(x)))
            c.drop("Row", x)
            es.append((lambda y, g=g, t=t, x=x: And(g(y), z3.substitute(t, (x, y))), e))
    return coll.mapped("set" if kind == "set" else "list", elt, es)


def plain_call(f, x):
    """the value of f() as a function of row x: no cases, no effects"""
    c = core.C
    snap, n, w = dict(c.counter), len(c.trace), (table.W.state, len(table.W.writes), len(table.W.signals))
    v = f()
    if len(c.trace) != n or w != (table.W.state, len(table.W.writes), len(table.W.signals)): raise Unsupported("comprehension with cases or effects")
    check_template(v, snap, x)
    return v


def check_template(v, snap, r):
    names = {}
    for t in terms_of(v, []): consts(t, names)
    names.pop(r.decl().name(), None)
    new = made_since(snap, names)
    if new: raise Unsupported("what a loop gathers depends on more than the row (%s)" % " ".join(new))


class QAny(table.Q):
    """some gathered condition holds"""
    def __init__(self, coll):
        super().__init__()
        self.coll, self.kids, self.memo = coll, [("any", coll)], {}
    def cond(self, st, r, qs=None):
        if id(st) not in self.memo:
            c, be = core.C, table.W.spec
            k = c.counter.get("#any", 0); c.counter["#any"] = k + 1
            R = sort("Row")
            f, w = z3.Function(f"anyof{k}", R, z3.BoolSort()), z3.Function(f"whichof{k}", R, R)
            self.memo[id(st)] = (f, st)
            at = lambda x, y: Or([And(self.coll.member(x), g(x), e(x).cond(st, y, qs)) for g, e in self.coll.alts])
            c.forall("one of the gathered conditions", ["Row"], lambda y: Implies(f(y), at(w(y), y)))
            c.forall("any of the gathered conditions", ["Row", "Row"], lambda x, y: Implies(at(x, y), f(y)))
            be.derivers.append(lambda t: [w(t)])
            c.done_size.clear()
            for t in list(c.terms.get("Row", {}).values()): c.terms["Row"].setdefault(w(t).get_id(), w(t))
        return self.memo[id(st)][0](r)


def any_of(coll):
    if coll.nothing: return table.Q(pk__in=[])
    for _, e in coll.alts:
        if not isinstance(e(core.C.fresh("any", "Row")), table.Q): raise Unsupported("conditions")
    return QAny(coll)


# ------------------------------------------------------------------------------------------------- the gathering loop
KINDS = {builtins.list: "list", builtins.set: "set", builtins.dict: "dict"}

def kind_of(v):
    import collections
    if isinstance(v, collections.Counter): return "counter" if not v else None
    if isinstance(v, collections.defaultdict): return "counter" if not v and v.default_factory is not None and v.default_factory in (int, vc.b_int) else None
    k = KINDS.get(type(v))
    return k if k and not v else None


def contents(loc, which=None):
    """what the objects that the variables name hold"""
    out = {}
    for k, v in loc.items():
        if which is not None and k not in which: continue
        if isinstance(v, (table.Model, table.QuerySet)): out[k] = (id(v), tuple((n, id(x)) for n, x in v.__dict__.items()))
        elif isinstance(v, Coll): out[k] = (id(v), len(v.added))
        elif isinstance(v, (builtins.list, builtins.tuple, builtins.set)): out[k] = (id(v), tuple(id(x) for x in v))
        elif isinstance(v, builtins.dict): out[k] = (id(v), tuple((repr(n), id(x)) for n, x in v.items()))
    return out


def effects_kept(): return (table.W.state, len(table.W.writes), len(table.W.signals))


class Gather(vc.Plain):
    def __init__(self, key, it, loc, assigned):
        c, W = core.C, table.W
        self.be = be = W.spec
        self.key, self.it = key, it
        src = it if isinstance(it, Coll) else getattr(it, "coll", None)
        if src is not None and src.nothing and not src.added:
            self.phase, self.havoc, self.entries = "exit", {}, []
            return
        if "." in assigned: raise Unsupported("a loop that changes objects")
        names = list(assigned)
        self.conts, self.accs, self.scalars = {}, {}, {}
        for k in names:
            if k not in loc: continue
            v = loc[k]
            if isinstance(v, Coll):
                if not v.nothing or v.added: raise Unsupported("a loop that goes on filling a container")
                self.conts[k] = v.kind
            elif isinstance(v, (builtins.list, builtins.dict, builtins.set)):
                if kind_of(v) is None: raise Unsupported("a loop over rows that changes a container with contents")
                if any(w is v for n, w in loc.items() if n != k): raise Unsupported("a container with two names")
                self.conts[k] = kind_of(v)
            elif isinstance(v, table.Q): self.accs[k] = v
            else: self.scalars[k] = v
        self.missing = [k for k in names if k not in loc]
        # ---- the source
        if isinstance(it, table.QuerySet):
            qs = it
            if qs._cache is None: qs._cache = W.state
            st = self.st = qs._cache
            self.h = lambda x: qs.holds(st, x)
            self.before = lambda a, b: qs.before(st, a, b)
            self.entries = [(lambda x: T_, lambda x: self.row_value(x))]
        else:
            coll = it if isinstance(it, Coll) else it.coll
            self.h, self.before = coll.member, None
            self.entries = it.entries()
            self.st = None
            if coll.nothing: self.entries = []
        self.ck = (key, "contributes")
        self.which = vc.CANDIDATE.get(self.ck, 0)
        top = getattr(be, "topsel", None)
        if self.before is None or top is None: self.which = max(self.which, 1)
        if self.which in (0, 2) and self.before is not None:
            x = c.fresh("ini", "Row")
            if not c.ask(self.h(x) == be.selected(x), 8000, {"Row": [x]}): self.which = 1
        if self.which in (0, 2) and self.before is not None:
            a, r = c.fresh("anc", "Row"), c.fresh("des", "Row")
            first = lambda a, r: Implies(And(self.h(a), self.h(r), a != r, be.inside(be.S0, a, r)), self.before(a, r))
            if hasattr(be, "dfs_facts"): c.assume(*be.dfs_facts(a, r, a, r))
            if not c.ask(first(a, r), 8000, {"Row": [a, r]}): self.which = 1
            else: c.forall("a selected ancestor comes first", ["Row", "Row"], first)
        self.contributes = be.kept if self.which in (0, 2) and self.before is not None else (lambda x: T_)
        self.transient = lambda k: vc.CANDIDATE.get((key, "transient", k), 0) == 1
        # ---- the phases
        self.sk = (c.stats.get("attempt"), key, tuple(c.decisions[:c.pos]))
        self.havoc = {}
        if not self.entries: self.phase = "exit"
        elif c.branch(c.fresh("firstrow", z3.BoolSort()), "loop: the first row"): self.phase = "first"
        elif c.branch(c.fresh("laterrow", z3.BoolSort()), "loop: any later row"): self.phase = "later"
        else: self.phase = "exit"
        alts = self.alts = STORE.get(self.sk, []) if self.phase != "first" else []
        if self.phase == "first":
            for k, kind in self.conts.items(): self.havoc[k] = self.filled(Coll(kind))
            return
        if self.phase == "later":
            r = self.r = c.term("Row", c.fresh("row", "Row"))
            n = c.counter.get("#visited", 0); c.counter["#visited"] = n + 1
            V = z3.Function(f"visited{n}", sort("Row"), z3.BoolSort())
            c.assume(self.h(r), Not(V(r)))
            if self.before is not None:
                c.forall("visited", ["Row"], lambda x: And(Implies(V(x), And(self.h(x), Not(self.before(r, x)))), Implies(And(self.h(x), self.before(x, r)), V(x))))
            else: c.forall("visited", ["Row"], lambda x: Implies(V(x), self.h(x)))
            member = lambda x: And(V(x), self.contributes(x))
        else: member = lambda x: And(self.h(x), self.contributes(x))
        self.member = member
        live = [a for a in alts if not a["stop"]]
        for k, kind in self.conts.items():
            es = []
            if any(a["kinds"].get(k) == "counter" for a in live): kind = "counter"
            for a in live:
                got = a["conts"][k]
                if len(got) > 1: raise Unsupported("several elements from one row")
                if got: es.append((self.at(a["guard"], a["row"]), self.at(got[0], a["row"])))
            self.havoc[k] = Coll(kind, es, member)
            self.havoc[k].tag = (key, k)
            if kind == "list" and self.before is not None: self.havoc[k].order = self.before
            if self.phase == "later": self.filled(self.havoc[k])
        for k, q in self.accs.items():
            es = [(self.at(a["guard"], a["row"]), self.at(a["accs"][k], a["row"])) for a in live if a["accs"][k] is not None]
            self.havoc[k] = q | any_of(Coll("list", es, member)) if q.kids else any_of(Coll("list", es, member))
            self.acc_now = dict(getattr(self, "acc_now", {}), **{k: self.havoc[k]})
        keep = [k for k in self.scalars if not self.transient(k) and any(not vc.same(a["scalars"][k], self.scalars[k]) for a in live)]
        for k in self.missing: self.havoc[k] = Poison()
        for k in self.scalars:
            if self.transient(k): self.havoc[k] = Poison()
        self.keep = keep
        if keep and live:
            if c.branch(c.fresh("gathered", z3.BoolSort()), "loop: a row has contributed before"):
                L = c.term("Row", c.fresh("last", "Row"))
                c.assume(member(L))
                if self.before is None: raise Unsupported("a loop over a container that keeps the last element")
                if self.contributes is be.kept and hasattr(be, "tree0"):
                    import delete
                    c.term("Row", be.topsel(self.r) if self.phase == "later" else L)
                    if self.phase == "later": c.assume(delete.contiguous(be, be.topsel(self.r), L, self.r))
                c.forall("the last row that contributed", ["Row"], lambda x: Implies(And(member(x), x != L), And(Not(self.before(L, x)), self.before(x, L))))
                for i, a in enumerate(live):
                    if i == len(live) - 1 or c.branch(z3.substitute(a["guard"], (a["row"], L)), "last row"):
                        if i == len(live) - 1: c.assume(z3.substitute(a["guard"], (a["row"], L)))
                        for k in keep: self.havoc[k] = sub(a["scalars"][k], a["row"], L)
                        break
            else: c.forall("no row has contributed", ["Row"], lambda x: Not(member(x)))

    def filled(self, coll):
        coll.filling = True
        return coll
    def at(self, v, r0): return lambda x: sub(v, r0, x)
    def row_value(self, x):
        o = self.it._row_value(x)
        if isinstance(o, table.Model) and self.st is self.be.S0: o.__dict__["vc_from"] = "S0"
        return o

    def elements(self):
        import sys
        fr = sys._getframe(1)
        c, W = core.C, table.W
        if self.phase == "exit": return
        if self.phase == "first":
            r = c.term("Row", c.fresh("row", "Row"))
            c.assume(self.h(r))
            if self.before is not None: c.forall("the first row", ["Row"], lambda x: Implies(self.h(x), Not(self.before(x, r))))
        else: r = self.r
        i = 0
        while i < len(self.entries) - 1 and not c.branch(self.entries[i][0](r), "loop: kind of element"): i += 1
        c.assume(self.entries[i][0](r))
        eg = self.entries[i][0](r)
        value = self.entries[i][1](r)
        snap, n, kept = dict(c.counter), len(c.trace), effects_kept()
        objs = [(o, dict(o.__dict__)) for o in ([value] if isinstance(value, table.Model) else [x for x in value if isinstance(x, table.Model)] if isinstance(value, tuple) else [])]
        rows = c.__dict__.setdefault("loop_rows", [])
        rows.append(r)
        before_ = dict(self.havoc) if self.phase == "later" else {}
        yield value
        loc = dict(fr.f_locals)
        rows.pop()
        if effects_kept() != kept: raise Unsupported("a loop over rows that writes")
        for o, d in objs:
            if any(o.__dict__.get(k) is not v for k, v in d.items()): raise Unsupported("a loop that changes objects")
        conts = {k: loc[k] for k in self.conts}
        for k, v in conts.items():
            if v is not self.havoc[k]: raise Unsupported("a container is replaced")
        added = {k: v.added for k, v in conts.items()}
        accs = {}
        for k, q0 in self.accs.items():
            old = q0 if self.phase == "first" else self.acc_now[k]
            q = loc[k]
            if q is old: accs[k] = None
            elif type(q) is table.Q and q.op == "or" and not q.neg and len(q.kids) == 2 and q.kids[0] is old: accs[k] = q.kids[1]
            else: raise Unsupported("an accumulated condition")
        scalars = {k: loc[k] for k in self.scalars}
        if self.phase == "first":
            guard = And([eg] + [g if d else Not(g) for w, d, g in c.trace[n:] if w != "search: any number"])
            for v in [guard, added, accs] + [v for k, v in scalars.items() if not self.transient(k) and v is not self.scalars[k]]: check_template(v, snap, r)
            STORE.setdefault(self.sk, []).append({"row": r, "guard": z3.simplify(guard), "conts": added, "accs": accs, "scalars": scalars, "stop": False,
                                                  "kinds": {k: v.kind for k, v in conts.items()}})
            raise PathEnd
        # ---- a later row
        did = any(added.values()) or any(v is not None for v in accs.values())
        for k in self.scalars:
            if k in self.keep or self.transient(k): continue
            if not vc.same(scalars[k], self.scalars[k]):
                vc.CANDIDATE[(self.key, "transient", k)] = 1
                raise Restart
        must = c.branch(self.contributes(r), "loop: the row contributes")
        if not must:
            if did or any(scalars[k] is not before_.get(k, self.scalars[k]) for k in self.keep): self.failed("a row below one that was gathered is not gathered itself", did, [k for k in self.keep if scalars[k] is not before_.get(k, self.scalars[k])])
            raise PathEnd
        for a in self.alts:
            if not c.branch(z3.substitute(a["guard"], (a["row"], r)), "loop: kind of row"): continue
            want = {k: [sub(v, a["row"], r) for v in vs] for k, vs in a["conts"].items()}
            qs = {k: None if q is None else sub(q, a["row"], r) for k, q in a["accs"].items()}
            gs = [alike(added[k], want[k]) for k in want] + [T_ if accs[k] is qs[k] else alike(accs[k], qs[k]) for k in qs]
            if any(g is None for g in gs): self.failed("what is gathered from a row", did, [])
            else:
                gs = And(gs)
                if self.which == 2 or c.ask(gs, 8000): obligation("loop: what is gathered from a row", gs)
                else: self.failed("what is gathered from a row", did, [])
            for k in self.keep:
                g = alike(scalars[k], sub(a["scalars"][k], a["row"], r))
                if g is None or not c.ask(g, 8000):
                    vc.CANDIDATE[(self.key, "transient", k)] = 1
                    raise Restart
            raise PathEnd
        if c.ask(F_, 3000, {"Row": []}): raise PathEnd
        raise Unsupported("a loop whose first row is special")

    def failed(self, what, did, ks):
        c = core.C
        if c.ask(F_, 8000, {"Row": []}): raise PathEnd
        if not did and ks:
            for k in ks: vc.CANDIDATE[(self.key, "transient", k)] = 1
            raise Restart
        if self.which == 0 and self.before is not None: vc.CANDIDATE[self.ck] = 1; raise Restart
        if self.which == 1 and self.before is not None and vc.CANDIDATE.get(self.ck, 0) == 1 and getattr(self.be, "topsel", None) is not None: vc.CANDIDATE[self.ck] = 2; raise Restart
        if self.which == 2:
            obligation("loop: exactly the selected nodes that lie below no other selected node are gathered", F_)
            raise PathEnd
        raise Unsupported("a loop without a contract: " + what)


# -------------------------------------------------------------------------- a search over the ancestors of the current row
class Search:
    """is there a number d in lo..hi-1 at which the body leaves the loop?  Nothing else happens at the others."""
    def __init__(self, key, it):
        c = core.C
        self.key, self.it = key, it
        self.lo, self.hi = raw(it.lo), raw(it.hi)
        if it.step != 1: raise Unsupported("step")
        self.sk = (c.stats.get("attempt"), key, tuple(c.decisions[:c.pos]))
        self.inside = c.branch(c.fresh("search", z3.BoolSort()), "search: any number")
        if self.inside:
            self.d = c.fresh("d", "Int")
            c.assume(self.lo <= self.d, self.d < self.hi)
            if c.ask(F_, 3000, {"Row": []}): raise PathEnd
            self.start = len(c.__dict__.setdefault("members", []))
        else: self.facts()
    def passed(self):
        """the body did nothing at d"""
        c = core.C
        log = [(coll, v) for coll, v, d in c.members[self.start:] if not d]
        STORE.setdefault(self.sk, []).append([(coll, v) for coll, v in log if self.is_prefix(v)])
    def is_prefix(self, v):
        rows = core.C.__dict__.get("loop_rows") or []
        if not rows or not isinstance(v, StrPath) or v.steps: return False
        t = v.tree
        return core.C.ask(And(Not(v.root), t.inside(v.row, rows[-1]), t.D(v.row) == self.d), 8000)
    def facts(self):
        """at no number did the body leave the loop: no prefix of the row's path is in the container that was looked into"""
        c = core.C
        recs, rows = STORE.get(self.sk, []), c.__dict__.get("loop_rows") or []
        if not recs or not rows: return
        r = rows[-1]
        for coll, _ in recs[0]:
            if coll.tag is None or not all(any(k.tag == coll.tag for k, _ in rec) for rec in recs): continue
            for g, e in coll.alts:
                k = coll.key(e(c.fresh("any", "Row")))
                if not (isinstance(k, StrPath) and not k.steps): continue
                c.forall("not found among the ancestors", ["Row"], lambda x, coll=coll, g=g, e=e, t=k.tree: Implies(And(coll.member(x), g(x), t.inside(coll.row_key(e, x), r)),
                         Or(t.D(coll.row_key(e, x)) < self.lo, t.D(coll.row_key(e, x)) >= self.hi)))


class SearchLoop(vc.Plain):
    def __init__(self, key, it, loc, assigned):
        self.key = key
        self.names = [k for k in assigned if k in loc]
        self.havoc = {k: Poison() for k in assigned if k in loc and vc.CANDIDATE.get((key, "transient", k), 0) == 1}
        if "." in assigned or any(isinstance(loc[k], (Coll, builtins.list, builtins.dict, builtins.set)) for k in self.names): raise Unsupported("a search that changes something")
        self.loc = {k: loc[k] for k in self.names if k not in self.havoc}
        self.s = Search(key, it)
        if not self.s.inside:
            for k in assigned:
                if k not in loc: self.havoc[k] = Poison()
    def elements(self):
        import sys
        fr = sys._getframe(1)
        if not self.s.inside: return
        kept = effects_kept()
        yield SymInt(self.s.d)
        loc = fr.f_locals
        if effects_kept() != kept: raise Unsupported("a search that writes")
        for k, v in self.loc.items():
            if loc.get(k) is not v and not vc.same(loc.get(k), v):
                vc.CANDIDATE[(self.key, "transient", k)] = 1
                raise Restart
        self.s.passed()
        raise PathEnd


class Some:
    """a generator over a range, for any()"""
    def __init__(self, it, cond, elt, key): self.it, self.cond, self.elt, self.key = it, cond, elt, key
    def vc_any(self):
        s = Search(self.key, self.it)
        if not s.inside: return False
        d = SymInt(s.d)
        if self.cond(d) and self.elt(d): return True
        s.passed()
        raise PathEnd
    def __iter__(self): raise Unsupported("iteration over a symbolic range")


# ------------------------------------------------------------------------------------ one update for each key of a counter
class ForEach(vc.Plain):
    """for key, count in counter.items(): the row of the key is updated; the others are not"""
    def __init__(self, key, it, loc, assigned):
        c, W = core.C, table.W
        self.key, self.it = key, it
        self.coll = coll = it if isinstance(it, Coll) else it.coll
        coll.settled()
        self.S = W.state
        self.havoc = {}
        self.phase = "exit"
        if coll.nothing: return
        self.hk, self.cnt, self.of = coll.counting()
        self.sk = (c.stats.get("attempt"), key, tuple(c.decisions[:c.pos]))
        if c.branch(c.fresh("firstkey", z3.BoolSort()), "loop: the first key"): self.phase = "first"
        elif c.branch(c.fresh("laterkey", z3.BoolSort()), "loop: any later key"): self.phase = "later"
        self.havoc = {k: Poison() for k in assigned if k != "."}
        if self.phase == "first": return
        tm = self.tm = STORE.get(self.sk)
        if tm is None:
            if c.ask(F_, 3000, {"Row": []}): raise PathEnd
            raise Unsupported("a loop over a counter")
        if self.phase == "later":
            k = c.counter.get("#done", 0); c.counter["#done"] = k + 1
            pr = z3.Function(f"donekey{k}", sort("Row"), z3.BoolSort())
            p = self.p = c.term("Row", c.fresh("key", "Row"))
            c.assume(Not(pr(p)))
            c.forall("keys gone through", ["Row"], lambda x: Implies(pr(x), self.hk(x)))
        else: pr = self.hk
        self.be_state(pr)
        if self.phase == "exit": W.spec.counters.append(coll)

    def be_state(self, pr):
        W, S, (p0, fs) = table.W, self.S, self.tm
        W.writes.append(("loop", W.atomic > 0))
        if W.atomic == 0: W.segments += 2
        W.state = S.with_update(lambda r: pr(r), {f: (lambda r, t=t: sub(t, p0, r)) for f, t in fs.items()})

    def value(self, p):
        path = table.W.spec.path_value(self.S, p)
        full = path, SymInt(self.cnt(p))
        if isinstance(self.it, Part) and self.it.f != self.coll.key: return full
        return path

    def elements(self):
        c, W = core.C, table.W
        if self.phase == "exit": return
        p = self.p if self.phase == "later" else c.term("Row", c.fresh("key", "Row"))
        c.assume(self.hk(p))
        v, S, be = self.value(p), W.state, W.spec
        snap, sg = dict(c.counter), len(W.signals)
        import sys
        fr = sys._getframe(1)
        objs = contents(fr.f_locals)
        yield v
        S1 = W.state
        if objs != contents(fr.f_locals, objs): raise Unsupported("a loop that changes objects")
        if len(W.signals) != sg: raise Unsupported("signals in a loop over keys")
        names = [f for f in be.fields + be.user if f != "path"]
        if S1.tree is not None and S1.tree is not S.tree and S1.tree.prev is not None and not z3.is_false(z3.simplify(S1.tree.changed(p))): raise Unsupported("a loop over keys that changes paths")
        obligation_forall("loop: no other row than the key's changes", ["Row"], lambda r: And(S1.live(r) == S.live(r), Implies(r != p, And([eqv(S1.get(f, r), S.get(f, r)) for f in names]))))
        if self.phase == "first":
            fs = {f: S1.get(f, p) for f in names if not c.ask(eqv(S1.get(f, p), S.get(f, p)))}
            for t in fs.values(): check_template(t, {**snap, "key": 0}, p)
            if self.sk in STORE:
                p0, old = STORE[self.sk]
                if set(old) != set(fs) or not all(c.ask(sub(old[f], p0, p) == fs[f]) for f in fs): raise Unsupported("a loop over keys with cases")
            else: STORE[self.sk] = (p, fs)
        else:
            p0, fs = self.tm
            obligation("loop: the row of each key is changed in the same way", And([eqv(S1.get(f, p), sub(fs[f], p0, p) if f in fs else self.S.get(f, p)) for f in names]))
        raise PathEnd


def finder(key, it, loc, assigned):
    W = table.W
    if W is None or getattr(W.spec, "topsel", None) is None: return None
    if isinstance(it, vc.SymRange) and core.C.__dict__.get("loop_rows"): return SearchLoop(key, it, loc, assigned)
    if isinstance(it, Sorted):
        f = getattr(W.spec, "sorted_loop", None)
        if f is None: raise Unsupported("a loop over a sorted container")
        return f(key, it, loc, assigned)
    if isinstance(it, (Coll, Part)):
        coll = it if isinstance(it, Coll) else it.coll
        if coll.kind == "counter": return ForEach(key, it, loc, assigned)
        return Gather(key, it, loc, assigned)
    if isinstance(it, table.QuerySet) and not it._none:
        vals = [loc[k] for k in assigned if k in loc]
        if any(isinstance(v, (Coll, builtins.list, builtins.dict, builtins.set)) for v in vals): return Gather(key, it, loc, assigned)
    return None
vc.FINDERS.insert(0, finder)
