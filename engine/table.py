"""A symbolic database table and the part of Django's ORM that treebeard uses, given a meaning over it.

Trusted base: this file is the assumed contract of the ORM (see DESIGN.md).  A table is a set of rows `live` and one function
per field; UPDATE is a pointwise if-then-else, DELETE shrinks `live`, INSERT adds a row that was not live, a queryset is a
predicate with an ordering that is evaluated when it is fetched (and then cached, as Django does).
"""
import z3
import core
from core import SymInt, SymBool, Unsupported, PathEnd, raw

W = None   # the current world


class World:
    def __init__(self, spec):
        self.spec = spec                # backend description
        self.state = None
        self.atomic = 0
        self.segments = 0               # number of top-level atomic blocks (or single statements) with writes
        self.seg_open = False
        self.writes = []                # (kind, in atomic?)
        self.mirror = None
        self.signals = []
        self.saved = None               # state at the start of the outermost atomic block
        self.queries = 0
        self.fault_at = None

    def write(self, kind, new):
        self.writes.append((kind, self.atomic > 0))
        if self.atomic == 0:
            self.segments += 1
        elif not self.seg_open:
            self.seg_open = True
            self.segments += 1
        self.state = new


class State:
    def __init__(self, live, fields, sub=None):
        self.live_f, self.fields, self.sub_f = live, fields, sub
        self.memo = {}
        self.tree = None            # the tree that the path column denotes, if the implementation has one

    def set_tree(self, tree):
        self.tree = tree
        if tree is not None: tree.state = self
        return self
    def keep_tree(self, old):
        self.tree, self.torn = old.tree, old.torn
        return self
    torn = None                 # the update of paths that is half done
    def with_tree(self, tree):
        return State(self.live_f_memo, {f: (lambda r, f=f: self.get(f, r)) for f in self.fields}, self.sub_f and self.sub_memo).set_tree(tree)

    def live(self, r):
        k = ("", r.get_id())
        if k not in self.memo: self.memo[k] = (self.live_f(r), r)
        return self.memo[k][0]

    def sub(self, r):
        if self.sub_f is None: return z3.BoolVal(True)
        k = ("#sub", r.get_id())
        if k not in self.memo: self.memo[k] = (self.sub_f(r), r)
        return self.memo[k][0]

    def get(self, f, r):
        if self.tree is not None and f == "path": return W.spec.path_value(self, r)
        k = (f, r.get_id())
        if k not in self.memo:
            self.memo[k] = (self.fields[f](r), r)
        return self.memo[k][0]

    def with_update(self, cond, upd):
        """upd: field -> fn(row) giving the new value (over the old state)"""
        cmemo = {}
        def cnd(r):
            k = r.get_id()
            if k not in cmemo: cmemo[k] = (cond(r), r)
            return cmemo[k][0]
        nf = dict(self.fields)
        for f, fn in upd.items():
            nf[f] = (lambda r, f=f, fn=fn: vite(cnd(r), fn(r), self.get(f, r)))
        return State(self.live_f_memo, nf, self.sub_memo).keep_tree(self)

    def live_f_memo(self, r): return self.live(r)
    def sub_memo(self, r): return self.sub(r)

    def with_insert(self, row, vals, sub=True):
        nf = dict(self.fields)
        tree = None if self.tree is None else W.spec.insert_tree(self, row, vals)
        for f, v in vals.items():
            nf[f] = (lambda r, f=f, v=v: vite(r == row, v, self.get(f, r)))
        old = self
        st = State(lambda r: z3.Or(old.live(r), r == row), nf,
                     None if self.sub_f is None else (lambda r: z3.If(r == row, z3.BoolVal(bool(sub)), old.sub(r))))
        return st.set_tree(tree) if tree is not None else st

    def with_delete(self, cond):
        nf = dict(self.fields)
        old = self
        return State(lambda r: z3.And(old.live(r), z3.Not(cond(r))), {f: (lambda r, f=f: old.get(f, r)) for f in nf}, self.sub_f and self.sub_memo).set_tree(self.tree and self.tree.same())


# -------------------------------------------------------------------------------------------------------- values
class SymPk:
    """the primary key of a row"""
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __eq__(self, o):
        if isinstance(o, SymPk): return SymBool(self.t == o.t)
        return False
    def __ne__(self, o):
        if isinstance(o, SymPk): return SymBool(self.t != o.t)
        return True
    def __bool__(self):
        # a primary key can be 0 or the empty string: at most one row has such a key
        return core.C.branch(z3.Not(falsy_pk(self.t)), "the primary key is not 0 or empty")
    __hash__ = None
    def __repr__(self): return f"pk({self.t})"


def falsy_pk(row):
    return z3.And(z3.Const("falsy-pk!any", z3.BoolSort()), row == z3.Const("falsy-pk!row", row.sort()))


class FK:
    """value of a nullable foreign key column"""
    def __init__(self, null, row): self.null, self.row = null, row


def vite(c, a, b):
    """if-then-else on column values"""
    if a is b: return a
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    for x, y in ((a, b), (b, a)):
        if hasattr(x, "ite"):
            return x.ite(c, a, b)
    if isinstance(a, FK) or isinstance(b, FK):
        a, b = fk(a), fk(b)
        return FK(z3.If(c, a.null, b.null), z3.If(c, a.row, b.row))
    a, b = raw(a), raw(b)
    return z3.If(c, a, b)


def fk(v):
    if isinstance(v, FK): return v
    if v is None: return FK(z3.BoolVal(True), z3.Const("norow", core.sort("Row")))
    if isinstance(v, SymPk): return FK(z3.BoolVal(False), v.t)
    if isinstance(v, Model): return FK(z3.BoolVal(False), v._row)
    raise Unsupported(f"foreign key value {v!r}")


def wrap(v):
    """a column value as the Python value the code sees"""
    if isinstance(v, z3.ExprRef):
        if v.sort() == z3.IntSort(): return SymInt(v)
        if z3.is_bool(v): return SymBool(v)
        if v.sort() == core.sort("Row"): return SymPk(v)
    return v


def unwrap(v):
    if isinstance(v, (SymInt, SymBool)): return v.t
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, float) and v == int(v): return z3.IntVal(int(v))
    return v


# ------------------------------------------------------------------------------------------------- expressions
class Expr:
    conditional = False
    def __add__(self, o): return Comb("+", self, o)
    def __radd__(self, o): return Comb("+", o, self)
    def __sub__(self, o): return Comb("-", self, o)
    def __rsub__(self, o): return Comb("-", o, self)
    def __mul__(self, o): return Comb("*", self, o)
    def __truediv__(self, o): return Comb("/", self, o)
    def ev(self, st, r, qs): raise Unsupported(type(self).__name__)
    def asc(self): return self
    def desc(self): return Desc(self)


class Desc(Expr):
    def __init__(self, e): self.e = e


class F(Expr):
    def __init__(self, name): self.name = name
    def ev(self, st, r, qs):
        if qs is not None and self.name in qs._annot:
            return ev(qs._annot[self.name], st, r, qs)
        return column(st, self.name, r)
    def asc(self): return self
    def desc(self): return "-" + self.name


class Value(Expr):
    def __init__(self, value, output_field=None): self.value = value
    def ev(self, st, r, qs): return unwrap(self.value)


class Comb(Expr):
    def __init__(self, op, a, b): self.op, self.a, self.b = op, a, b
    def ev(self, st, r, qs):
        a, b = ev(self.a, st, r, qs), ev(self.b, st, r, qs)
        h = getattr(a, "db_op", None) or getattr(b, "db_op", None)
        if h: return h(self.op, a, b)
        a, b = raw(a), raw(b)
        if self.op == "+": return a + b
        if self.op == "-": return a - b
        if self.op == "*": return a * b
        if self.op == "/" and z3.is_int_value(z3.simplify(b)) and z3.simplify(b).as_long() > 0: return z3.simplify(a / b)
        raise Unsupported("division in SQL")


class Func(Expr):
    def __init__(self, *args, function=None, output_field=None, **kw): self.args, self.function = args, function
    def ev(self, st, r, qs): raise Unsupported(f"function {self.function or type(self).__name__}")


class Case(Expr):
    def __init__(self, *whens, default=None, output_field=None): self.whens, self.default = whens, default
    def ev(self, st, r, qs):
        out = ev(self.default, st, r, qs)
        for w in reversed(self.whens):
            out = vite(w.q.cond(st, r, qs), ev(w.then, st, r, qs), out)
        return out


class When(Expr):
    def __init__(self, q=None, then=None, **kw): self.q, self.then = (q if q is not None else Q()) & Q(**kw), then


class Greatest(Func):
    def ev(self, st, r, qs):
        a, b = [raw(ev(x, st, r, qs)) for x in self.args]
        return z3.If(a >= b, a, b)


class OuterRef(Expr):
    def __init__(self, name): self.name = name
SUBQUERY = None
class Subquery(Expr):
    def __init__(self, qs, output_field=None): self.qs = qs
    def ev(self, st, r, qs):
        if SUBQUERY is None: raise Unsupported("Subquery")
        return SUBQUERY(self, st, r, qs)
class Exists(Expr):
    def __init__(self, qs): self.qs = qs
    def ev(self, st, r, qs):
        # EXISTS over rows: a fresh truth value constrained in both directions
        q = self.qs._resolve_outer(st, r)
        c = core.C
        b = c.fresh("exists", z3.BoolSort()); w = c.fresh("xw", "Row")
        c.term("Row", w)
        c.assume(z3.Implies(b, q.holds(st, w)))
        c.forall("no such row", ["Row"], lambda x: z3.Implies(z3.Not(b), z3.Not(q.holds(st, x))))
        return b
class Max(Expr):
    def __init__(self, e): self.e = e
class Min(Expr):
    def __init__(self, e): self.e = e


def ev(e, st, r, qs=None):
    if isinstance(e, Expr): return e.ev(st, r, qs)
    return unwrap(e)


def column(st, name, r):
    name = {"id": "pk"}.get(name, name)
    if name == "pk": return r
    if name in st.fields: return st.get(name, r)
    if name.endswith("_id") and name[:-3] in st.fields: return st.get(name[:-3], r)
    raise Unsupported(f"no column {name}")


def outer(e, st, r):
    """the expression with the columns of the outer row put in"""
    if isinstance(e, OuterRef): return Value(wrap(column(st, e.name, r)))
    if isinstance(e, Comb): return Comb(e.op, outer(e.a, st, r), outer(e.b, st, r))
    if isinstance(e, Func) and any(isinstance(x, Expr) for x in getattr(e, "args", ())):
        import copy
        e = copy.copy(e)
        e.args = tuple(outer(x, st, r) for x in e.args)
    return e


class Q:
    def __init__(self, *qs, _neg=False, _op="and", **kw):
        self.kids = list(qs) + list(kw.items())
        self.op, self.neg = _op, _neg
    def __and__(self, o): return Q(self, o)
    def __or__(self, o): return Q(self, o, _op="or")
    def __invert__(self): return Q(self, _neg=True)
    def __bool__(self): return bool(self.kids)
    def cond(self, st, r, qs=None):
        cs = []
        for k in self.kids:
            if isinstance(k, Q):
                if k.kids or k.neg: cs.append(k.cond(st, r, qs))
                continue
            if not isinstance(k, tuple): raise Unsupported(f"Q({k!r})")
            cs.append(lookup(st, r, k[0], k[1], qs))
        if not cs: out = z3.BoolVal(True)     # Django drops an empty Q
        else: out = z3.Or(cs) if self.op == "or" else z3.And(cs)
        return z3.Not(out) if self.neg else out


def lookup(st, r, key, arg, qs=None):
    parts = key.split("__")
    name, ops = parts[0], parts[1:]
    if qs is not None and name in qs._annot:
        v = ev(qs._annot[name], st, r, qs)
    else:
        v = column(st, name, r)
    if isinstance(arg, Expr): arg = wrap(ev(arg, st, r, qs))
    if isinstance(arg, QuerySet):
        if name in ("pk", "id") and ops == ["in"] and (arg._values is None or arg._values[1] in (("pk",), ("id",))): return arg.holds(st, v)
        raise Unsupported("subquery argument")
    if hasattr(v, "db_lookup"):
        return v.db_lookup(ops, arg)
    if len(ops) > 1: raise Unsupported(key)
    op = ops[0] if ops else "exact"
    if name == "pk" or isinstance(v, z3.ExprRef) and v.sort() == core.sort("Row"):
        def rw(a):
            if isinstance(a, SymPk): return a.t
            if isinstance(a, Model): return a._row
            raise Unsupported(f"{key}={a!r}")
        if op == "exact":
            if arg is None: return z3.BoolVal(False)
            return v == rw(arg)
        if op == "in":
            if hasattr(arg, "contains"): return arg.contains(v)
            return z3.Or([v == rw(a) for a in arg]) if len(arg) else z3.BoolVal(False)
        raise Unsupported(key)
    if isinstance(v, FK):
        if op == "exact":
            if arg is None: return v.null
            a = fk(arg)
            return z3.And(z3.Not(v.null), z3.Not(a.null), v.row == a.row)
        if op == "isnull": return v.null if arg else z3.Not(v.null)
        raise Unsupported(key)
    if op == "in": return z3.Or([v == raw(a) for a in arg]) if len(arg) else z3.BoolVal(False)
    if op == "range":
        a, b = arg
        return z3.And(v >= raw(a), v <= raw(b))
    if arg is None: raise Unsupported(f"{key}=None")
    a = raw(arg)
    if op == "exact": return v == a
    if op == "gt": return v > a
    if op == "gte": return v >= a
    if op == "lt": return v < a
    if op == "lte": return v <= a
    raise Unsupported(key)


def vless(a, b):
    if hasattr(a, "db_less"): return a.db_less(b)
    if isinstance(a, FK):      # only ever used as a grouping prefix of the ordering; NULLs compare equal
        return z3.And(z3.Not(a.null), z3.Not(b.null), FKLESS(a.row, b.row))
    return raw(a) < raw(b)

def veq(a, b):
    if hasattr(a, "db_eq"): return a.db_eq(b)
    if isinstance(a, FK): return z3.And(a.null == b.null, z3.Or(a.null, a.row == b.row))
    return raw(a) == raw(b)


_fkless = None
def FKLESS(a, b):
    global _fkless
    if _fkless is None: _fkless = z3.Function("fkless", core.sort("Row"), core.sort("Row"), z3.BoolSort())
    return _fkless(a, b)


# --------------------------------------------------------------------------------------------------- querysets
class QuerySet:
    def __init__(self, model=None, query=None, using=None, hints=None):
        self.model = model
        self._using = using
        self._conds, self._order, self._rev, self._annot = [], [], False, {}
        self._none, self._cache, self._values, self._distinct = False, None, None, False
        self._extra_conds = []      # fn(st, r) -> Bool

    def __deepcopy__(self, memo): return self._clone()

    @property
    def db(self): return self._using or "default"

    def _clone(self):
        q = type(self)(self.model, using=self._using)
        q._conds, q._order, q._rev, q._annot = list(self._conds), list(self._order), self._rev, dict(self._annot)
        q._none, q._values, q._extra_conds = self._none, self._values, list(self._extra_conds)
        return q
    _chain = _clone

    def _add(self, q):
        c = self._clone()
        c._conds.append(q)
        return c
    def filter(self, *a, **kw): return self._add(Q(*a, **kw))
    def exclude(self, *a, **kw): return self._add(Q(*a, _neg=True, **kw))
    def all(self): return self._clone()
    def none(self):
        c = self._clone(); c._none = True
        return c
    def order_by(self, *fs):
        c = self._clone(); c._order, c._rev = list(fs), False
        return c
    def reverse(self):
        c = self._clone(); c._rev = not c._rev
        return c
    def select_for_update(self, *a, **k): return self._clone()
    def only(self, *a): return self._clone()
    def defer(self, *a): return self._clone()
    def prefetch_related(self, *a): return self._clone()
    def select_related(self, *a): return self._clone()
    def using(self, db): return self._clone()
    def distinct(self): return self._clone()
    def values(self, *fs):
        c = self._clone(); c._values = ("dict", fs)
        return c
    def values_list(self, *fs, flat=False):
        c = self._clone(); c._values = ("flat" if flat else "tuple", fs)
        return c
    def annotate(self, **kw):
        c = self._clone(); c._annot.update(kw)
        return c
    alias = annotate

    def _resolve_outer(self, st, r):
        c = self._clone()
        def res(q):
            out = Q(_neg=q.neg, _op=q.op)
            for k in q.kids:
                if isinstance(k, Q): out.kids.append(res(k))
                elif isinstance(k[1], OuterRef): out.kids.append((k[0], wrap(column(st, k[1].name, r))))
                elif isinstance(k[1], Expr): out.kids.append((k[0], outer(k[1], st, r)))
                else: out.kids.append(k)
            return out
        c._conds = [res(q) for q in self._conds]
        return c

    # ---- meaning
    def holds(self, st, r):
        if self._none: return z3.BoolVal(False)
        cs = [st.live(r)]
        if self.model is not None and self.model._is_sub: cs.append(st.sub(r))
        cs += [q.cond(st, r, self) for q in self._conds]
        cs += [f(st, r) for f in self._extra_conds]
        return z3.And(cs)

    def keys(self):
        if not self._order: return [("pk", False)]
        out = []
        for f in self._order:
            if isinstance(f, str):
                neg = f.startswith("-")
                out.append((f.lstrip("-"), neg != self._rev))
            elif isinstance(f, Expr): out.append((f, self._rev))
            else: raise Unsupported(f"order_by({f!r})")
        return out

    def before(self, st, a, b, keys=None):
        """row a comes strictly before row b"""
        keys = self.keys() if keys is None else keys
        out, eqs = [], []
        for f, neg in keys:
            if f == "pk":
                less = PKLESS(a, b) if not neg else PKLESS(b, a)
                same = a == b
            else:
                va = ev(f, st, a, self) if isinstance(f, Expr) else F(f).ev(st, a, self)
                vb = ev(f, st, b, self) if isinstance(f, Expr) else F(f).ev(st, b, self)
                less, same = (vless(va, vb) if not neg else vless(vb, va)), veq(va, vb)
            out.append(z3.And(eqs + [less]))
            eqs = eqs + [same]
        return z3.Or(out)

    def _flip(self): return [(f, not n) for f, n in self.keys()]

    # ---- evaluation
    def _pick(self, name, keys=None):
        """the first row, or None"""
        if self._none: return None
        if self._cache is not None: st = self._cache
        else: st = W.state
        W.queries += 1
        c = core.C
        w = c.term("Row", c.fresh(name, "Row"))
        b = c.fresh(f"some_{name}", z3.BoolSort())
        hold = lambda r: self.holds(st, r)
        c.assume(z3.Implies(b, hold(w)))
        if self.order_matters(): c.forall(f"{name} comes first", ["Row"], lambda r: z3.Implies(z3.And(b, hold(r)), z3.Not(self.before(st, r, w, keys))))
        c.forall(f"no {name}", ["Row"], lambda r: z3.Implies(z3.Not(b), z3.Not(hold(r))))
        if not c.branch(b, f"exists {name}"):
            c.drop("Row", w)
            return None
        return w

    def order_matters(self): return True

    def _obj(self, w):
        return None if w is None else self.model._fetched(w, W.state if self._cache is None else self._cache, self)

    def _row_value(self, w):
        if w is None: return None
        if self._values is None: return self._obj(w)
        kind, fs = self._values
        st = W.state if self._cache is None else self._cache
        vals = [wrap(F(f).ev(st, w, self)) for f in fs]
        if kind == "dict": return dict(zip(fs, vals))
        return vals[0] if kind == "flat" else tuple(vals)

    def first(self): return self._row_value(self._pick("first"))
    def last(self): return self._row_value(self._pick("last", self._flip()))
    def exists(self):
        if self._none: return False
        st = self._cache if self._cache is not None else W.state
        c = core.C
        b = c.fresh("exists", z3.BoolSort()); w = c.term("Row", c.fresh("some", "Row"))
        c.assume(z3.Implies(b, self.holds(st, w)))
        c.forall("none exists", ["Row"], lambda r: z3.Implies(z3.Not(b), z3.Not(self.holds(st, r))))
        return SymBool(b)
    def __bool__(self):
        if self._none: return False
        if self._cache is None: self._cache = W.state
        return bool(self.exists())
    def get(self, *a, **kw):
        q = self.filter(*a, **kw) if a or kw else self
        if q._none: raise self.model.DoesNotExist("none")
        st, c = W.state, core.C
        w = c.term("Row", c.fresh("got", "Row"))
        b = c.fresh("found", z3.BoolSort())
        c.assume(z3.Implies(b, q.holds(st, w)))
        c.forall("not found", ["Row"], lambda r: z3.Implies(z3.Not(b), z3.Not(q.holds(st, r))))
        if not c.branch(b, "get() finds a row"):
            c.drop("Row", w)
            raise self.model.DoesNotExist("no row")
        # more than one row?
        w2 = c.term("Row", c.fresh("got2", "Row"))
        m = c.fresh("many", z3.BoolSort())
        c.assume(z3.Implies(m, z3.And(q.holds(st, w2), w2 != w)))
        c.forall("only one", ["Row"], lambda r: z3.Implies(z3.And(z3.Not(m), q.holds(st, r)), r == w))
        many = c.branch(m, "get() finds several rows")
        c.drop("Row", w2)
        if many: raise self.model.MultipleObjectsReturned("several rows")
        return q._row_value(w)
    def __getitem__(self, k):
        if k == 0:
            r = self.first()
            if r is None: raise core.real(IndexError("list index out of range"))
            return r
        raise Unsupported(f"queryset[{k!r}]")
    def count(self): return counted(self)
    def __len__(self): raise Unsupported("len() of a queryset")
    def aggregate(self, **kw):
        if self._none: return {k: None for k in kw}
        out = {}
        st, c = W.state, core.C
        for k, e in kw.items():
            if not isinstance(e, (Max, Min)): raise Unsupported(f"aggregate {e!r}")
            inner = F(e.e) if isinstance(e.e, str) else e.e
            name = "max" if isinstance(e, Max) else "min"
            w = c.term("Row", c.fresh(name, "Row"))
            b = c.fresh(f"some_{name}", z3.BoolSort())
            val = lambda r: ev(inner, st, r, self)
            c.assume(z3.Implies(b, self.holds(st, w)))
            def best(r, mx=isinstance(e, Max)):
                x, y = val(r), val(w)
                return z3.Implies(z3.And(b, self.holds(st, r)), z3.Not(vless(y, x) if mx else vless(x, y)))
            c.forall(name, ["Row"], best)
            c.forall(f"no {name}", ["Row"], lambda r: z3.Implies(z3.Not(b), z3.Not(self.holds(st, r))))
            out[k] = wrap(val(w)) if c.branch(b, f"rows for {name}") else None
        return out
    def iterator(self, chunk_size=None): return self
    def __iter__(self):
        if self._none: return iter(())
        raise Unsupported("iteration over rows without a loop contract")
    def delete(self, *a, **k):
        st = W.state
        gone = W.spec.deleted_rows(self, st)
        W.spec.on_delete(gone, st)
        W.write("delete", st.with_delete(gone))
        c = core.C
        n = c.fresh("deleted", "Int")
        c.assume(n >= 0)
        w = c.term("Row", c.fresh("del", "Row"))
        c.assume(z3.Implies(n > 0, gone(w)))
        c.forall("nothing deleted", ["Row"], lambda r: z3.Implies(n == 0, z3.Not(gone(r))))
        return SymInt(n), {}
    def update(self, **kw):
        st, c = W.state, core.C
        if self._none: return 0
        hooked = W.spec.update_hook(self, st, kw)
        if hooked is not None:
            W.write("update", hooked[0])
            return SymInt(hooked[1])
        upd = {}
        for f, e in kw.items():
            g = f[:-3] if f.endswith("_id") and f[:-3] in st.fields else f
            if g not in st.fields: raise Unsupported(f"update({f})")
            def fn(r, e=e, f=f):
                v = ev(e, st, r, self)
                if isinstance(st.get(g, r), FK): v = fk(v)
                return v
            upd[g] = fn
        W.write("update", st.with_update(lambda r: self.holds(st, r), upd))
        W.spec.on_update(self, st, kw)
        n = c.fresh("updated", "Int")
        c.assume(n >= 0)
        w = c.fresh("upd", "Row")
        c.assume(z3.Implies(n > 0, self.holds(st, w)))
        c.forall("nothing updated", ["Row"], lambda r: z3.Implies(n == 0, z3.Not(self.holds(st, r))))
        return SymInt(n)
    def bulk_update(self, *a, **k): raise Unsupported("bulk_update")
    def bulk_create(self, *a, **k): raise Unsupported("bulk_create")


def counted(qs):
    """number of rows: a fresh natural number that is zero exactly when there are none"""
    if qs._none: return 0
    c, st = core.C, W.state
    n = c.fresh("count", "Int"); w = c.term("Row", c.fresh("cnt", "Row"))
    c.assume(n >= 0, z3.Implies(n > 0, qs.holds(st, w)))
    c.forall("count zero", ["Row"], lambda r: z3.Implies(n == 0, z3.Not(qs.holds(st, r))))
    s = SymInt(n)
    W.spec.counts.append((n, qs, st))
    return s


class RowSeq:
    """list(queryset): the rows in an arrangement that respects the queryset's order"""
    n = 0
    def __init__(self, qs):
        self.qs = qs._clone()
        st = self.st = self.qs._cache = qs._cache if qs._cache is not None else W.state
        if qs._cache is None: qs._cache = st
        W.queries += 1
        c = core.C
        self.len = c.fresh("listlen", "Int")
        k = c.counter.get("#seq", 0); c.counter["#seq"] = k + 1
        pos = self.pos = z3.Function(f"seqpos{k}", core.sort("Row"), z3.IntSort())
        h = lambda r: self.qs.holds(st, r)
        c.assume(self.len >= 0)
        c.forall("place in the list", ["Row"], lambda r: z3.Implies(h(r), z3.And(0 <= pos(r), pos(r) < self.len)))
        c.forall("list in order", ["Row", "Row"], lambda a, b: z3.Implies(z3.And(h(a), h(b), a != b), z3.And(pos(a) != pos(b), z3.Implies(self.qs.before(st, a, b), pos(a) < pos(b)))))
    def vc_len(self): return SymInt(self.len)
    def __bool__(self):
        if not core.C.branch(self.len > 0, "list not empty"): return False
        w = core.C.term("Row", core.C.fresh("member", "Row"))
        core.C.assume(self.qs.holds(self.st, w), self.pos(w) == 0)
        return True
    def index(self, v):
        r = v.t if isinstance(v, SymPk) else v._row if isinstance(v, Model) else None
        if r is None: raise Unsupported("index")
        if not core.C.branch(self.qs.holds(self.st, r), "is in the list"): raise core.real(ValueError("not in list"))
        return SymInt(self.pos(r))
    def __getitem__(self, k):
        if not isinstance(k, (int, SymInt)) or isinstance(k, bool): raise Unsupported("slice of a list of rows")
        c, k = core.C, raw(k)
        if c.branch(k < 0, "negative index"): k = self.len + k
        if not c.branch(z3.And(0 <= k, k < self.len), "index in range"): raise core.real(IndexError("list index out of range"))
        w = c.term("Row", c.fresh("element", "Row"))
        c.assume(self.qs.holds(self.st, w), self.pos(w) == k)
        return self.qs._row_value(w)
    def __contains__(self, v):
        r = v.t if isinstance(v, SymPk) else v._row if isinstance(v, Model) else None
        if r is None: raise Unsupported("in")
        return core.C.branch(self.qs.holds(self.st, r), "is in the list")
    def __iter__(self): raise Unsupported("iteration over a list of rows")


_pkless = None
def PKLESS(a, b):
    global _pkless
    if _pkless is None: _pkless = z3.Function("pkless", core.sort("Row"), core.sort("Row"), z3.BoolSort())
    return _pkless(a, b)


# ------------------------------------------------------------------------------------------------------ manager
class Manager:
    model = None
    _db = None
    def __get__(self, inst, owner):
        if inst is not None: raise AttributeError("Manager isn't accessible via instances")
        d = owner.__dict__.get("_managers_")
        if d is None:
            d = {}
            owner._managers_ = d
        if id(self) not in d:
            m = type(self)()
            m.model = owner
            d[id(self)] = m
        return d[id(self)]
    def get_queryset(self): return QuerySet(self.model, using=self._db)
    def __getattr__(self, name):
        if name in ("filter", "exclude", "all", "none", "get", "order_by", "alias", "annotate", "select_for_update", "first", "last", "count", "exists",
                    "values", "values_list", "bulk_create", "bulk_update", "aggregate", "update", "only", "using", "in_bulk"):
            return getattr(self.get_queryset(), name)
        raise AttributeError(name, name=name, obj=self)


class Field:
    def __init__(self, *a, max_length=None, default=None, **k):
        self.max_length, self.default, self.kw = max_length, default, k
        self.name = self.model = None
    def __set_name__(self, owner, name): self.name, self.model = name, owner
    @classmethod
    def register_lookup(cls, lookup, name=None): return lookup
class PkField(Field):
    name = attname = "id"


class Meta_:
    def __init__(self, cls): self.cls = cls
    @property
    def proxy_for_model(self): return self.cls.__dict__.get("_proxy_for")
    @property
    def concrete_model(self): return self.cls.__dict__.get("_proxy_for") or self.cls
    @property
    def pk(self):
        f = PkField(); f.name = f.attname = "id"
        return f
    def get_field(self, name):
        f = W.spec.field(self.cls, name) if W is not None else None
        if f is not None: return f
        for k in self.cls.__mro__:
            if isinstance(k.__dict__.get(name), Field): return k.__dict__[name]
        raise Unsupported(f"get_field({name})")
    def __str__(self): return "app.model"


class State_:
    def __init__(self, adding): self.adding, self.db = adding, "default"


class ModelBase(type):
    @property
    def _meta(cls): return Meta_(cls)
    @property
    def _default_manager(cls): return cls.objects


class Model(metaclass=ModelBase):
    _is_sub = False
    class DoesNotExist(Exception): ...
    class MultipleObjectsReturned(Exception): ...

    def __init__(self, **kw):
        self._state = State_(True)
        self._row = None
        self.__dict__["pk"] = None
        for f, v in W.spec.defaults().items(): setattr(self, f, v)
        for k, v in kw.items(): setattr(self, k, v)

    @property
    def _meta(self): return Meta_(type(self))

    @classmethod
    def _fetched(cls, row, st, qs=None):
        o = cls.__new__(cls)
        o._state = State_(False)
        o._row = row
        o.__dict__["pk"] = o.__dict__["id"] = SymPk(row)
        o._load(st)
        if qs is not None:
            for k, e in qs._annot.items():
                o.__dict__[k] = LazyAnnot(e, st, row, qs)
        return o

    def __getattribute__(self, name):
        v = object.__getattribute__(self, name)
        if type(v) is LazyAnnot:
            v = wrap(ev(v.e, v.st, v.row, v.qs))
            self.__dict__[name] = v
        return v

    def _load(self, st):
        W.spec.load(self, st)

    def __eq__(self, o):
        if not isinstance(o, Model): return NotImplemented
        if type(self)._meta.concrete_model is not type(o)._meta.concrete_model: return False
        if self._row is None: return self is o
        if o._row is None: return False
        if self is o: return True
        return SymBool(self._row == o._row)
    def __ne__(self, o):
        e = self.__eq__(o)
        return SymBool(z3.Not(e.t)) if isinstance(e, SymBool) else (e if e is NotImplemented else not e)
    __hash__ = None
    def __bool__(self): return True

    def save(self, *a, **kw):
        st, c = W.state, core.C
        vals = W.spec.values_of(self)
        if a or kw and set(kw) - {"using", "update_fields", "force_insert"}: raise Unsupported("save() arguments")
        uf = kw.get("update_fields")
        if self._state.adding:
            r = c.term("Row", c.fresh("new", "Row"))
            c.assume(z3.Not(st.live(r)))
            W.write("insert", st.with_insert(r, vals, sub=type(self)._is_sub))
            self._row = r
            self.__dict__["pk"] = self.__dict__["id"] = SymPk(r)
            self._state.adding = False
            W.spec.on_insert(self, r, st)
        else:
            r = self._row
            if uf is not None: vals = {k: v for k, v in vals.items() if k in uf}
            vals = W.spec.saving(self, r, st, vals)
            st = W.spec.save_state(self, r, st, vals)
            W.write("save", st.with_update(lambda x: z3.And(x == r, st.live(x)), {f: (lambda x, v=v: v) for f, v in vals.items()}))
            W.spec.on_save(self, r, st)

    def refresh_from_db(self, using=None, fields=None, **kw):
        st = W.state
        c = core.C
        cond = st.live(self._row)
        if not c.branch(cond, "row still exists"): raise self.DoesNotExist("gone")
        if fields is None: self._load(st)
        else:
            tmp = type(self)._fetched(self._row, st)
            for f in fields: setattr(self, f, getattr(tmp, f))

    @classmethod
    def check(cls, **kw): return []
    def full_clean(self, *a, **k): pass


class LazyAnnot:
    def __init__(self, e, st, row, qs): self.e, self.st, self.row, self.qs = e, st, row, qs


# ------------------------------------------------------------------------------------------------- transactions
class Atomic:
    def __init__(self, using=None): pass
    def __enter__(self):
        if W.atomic == 0:
            W.saved, W.seg_open = (W.state, W.mirror), False
        W.atomic += 1
    def __exit__(self, t, v, tb):
        W.atomic -= 1
        if W.atomic == 0:
            W.seg_open = False
            if t is not None and issubclass(t, Exception):
                W.state = W.saved[0]          # rolled back
        elif t is not None and issubclass(t, Exception):
            pass      # a savepoint would be rolled back too; the exception goes on to the outer block in all code here
        return False
    def __call__(self, fn):
        def inner(*a, **k):
            with Atomic(): return fn(*a, **k)
        inner.__wrapped__ = fn
        inner.__name__ = getattr(fn, "__name__", "atomic")
        return inner


def atomic(using=None, savepoint=True, durable=False):
    if callable(using): return Atomic()(using)
    return Atomic(using)


class Signal:
    def __init__(self, *a, **k): self.name = None
    def send(self, sender=None, **kw):
        W.signals.append((self, sender, kw))
        W.spec.on_signal(self, sender, kw)
    def connect(self, *a, **k): pass
