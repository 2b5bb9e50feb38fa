"""Run-time support of the rewritten code (see loader.py): loop contracts, comprehensions, f-strings, shadowed builtins."""
import builtins
import z3
import core, table
from core import SymBool, SymInt, Unsupported, PathEnd

FINDERS = []          # fn(key, iterable, locals, assigned) -> loop contract or None
CANDIDATE = {}        # (loop key, visit) -> which inferred skip rule to use
MAXWHILE = 40


from core import Restart


class Plain:
    havoc = {}
    def __init__(self, it): self.it = it
    def elements(self):
        if isinstance(self.it, str) and self.it == "while":
            n = 0
            while True:
                n += 1
                if n > MAXWHILE: raise Unsupported("unbounded loop without a contract")
                yield None
        else:
            n = 0
            for x in builtins.iter(self.it):
                n += 1
                if n > 2000: raise Unsupported("long loop")
                yield x
    def leave(self): pass
    def end(self, loc): pass


def snapshot(loc, assigned):
    return {k: loc[k] for k in assigned if k in loc}


class SearchLoop(Plain):
    """Inferred contract of a loop over the rows of a queryset, in its order.

    In every state of the assigned variables the rows for which the body does nothing ("stay" rows) are skipped: either the
    rows that differ from every node held in a local variable, or (second candidate) none.  That the body does nothing on a
    stay row is an obligation of its own, checked on a path of its own for an arbitrary stay row; when it fails, everything is
    explored again with the next candidate."""

    def __init__(self, key, qs, loc, assigned):
        if "." in assigned or any(isinstance(loc.get(k), (list, dict, set)) for k in assigned): raise Unsupported("loop with other effects than assignments, without a contract")
        self.key, self.qs, self.assigned = key, qs, assigned
        if qs._cache is None: qs._cache = table.W.state
        self.st = qs._cache

    def stay(self, which, loc):
        if which == 0:
            pks = [v._row for v in loc.values() if isinstance(v, table.Model) and v._row is not None]
            pks += [v.t for v in loc.values() if isinstance(v, table.SymPk)]
            return lambda r: z3.And([r != t for t in pks]) if pks else z3.BoolVal(True)
        return lambda r: z3.BoolVal(False)

    def elements(self):
        import sys
        fr = sys._getframe(1)
        c, qs, st = core.C, self.qs, self.st
        if qs._none: return
        prev, visits, seen = None, 0, []
        while True:
            visits += 1
            if visits > 6: raise Unsupported("search loop without a bound")
            state = (self.key, tuple(sorted((k, repr(v)) for k, v in fr.f_locals.items() if k in self.assigned and isinstance(v, (bool, int, str, type(None))))))
            which = CANDIDATE.get(state, 0)
            stay = self.stay(which, dict(fr.f_locals))
            after = (lambda r: z3.BoolVal(True)) if prev is None else (lambda r, p=prev, seen=tuple(seen): z3.And([r != x for x in seen] + [z3.Not(qs.before(st, r, p))]))
            if which == 0:
                b = c.fresh("stayrow", z3.BoolSort())
                if c.branch(b, "loop: arbitrary skipped row"):
                    x = c.term("Row", c.fresh("x", "Row"))
                    c.assume(qs.holds(st, x), after(x), stay(x))
                    if c.ask(z3.BoolVal(False), 3000, {'Row': []}): raise PathEnd
                    kept = (table.W.state, len(table.W.writes), len(table.W.signals))
                    before = snapshot(fr.f_locals, self.assigned)
                    obj = qs._row_value(x)
                    c.in_stay = state
                    yield obj
                    loc = fr.f_locals
                    after_ = snapshot(loc, self.assigned)
                    ok = all(k in before and same(before[k], after_[k]) for k in after_) and all(k in after_ for k in before)
                    ok = ok and (table.W.state, len(table.W.writes), len(table.W.signals)) == kept
                    if not ok:
                        CANDIDATE[c.in_stay] = 1
                        raise Restart
                    c.in_stay = None
                    raise PathEnd
            w = c.term("Row", c.fresh("next", "Row"))
            e = c.fresh("more", z3.BoolSort())
            interesting = lambda r, after=after, stay=stay: z3.And(qs.holds(st, r), after(r), z3.Not(stay(r)))
            c.assume(z3.Implies(e, interesting(w)))
            c.forall("next interesting row", ["Row"], lambda r, w=w, e=e, i=interesting: z3.Implies(z3.And(e, i(r)), z3.Not(qs.before(st, r, w))))
            c.forall("no interesting row", ["Row"], lambda r, e=e, i=interesting: z3.Implies(z3.Not(e), z3.Not(i(r))))
            if not c.branch(e, "loop: another row"):
                c.drop("Row", w)
                return
            prev = w
            seen.append(w)
            yield qs._row_value(w)


def same(a, b):
    if a is b: return True
    if isinstance(a, (bool, int, str, type(None))) and isinstance(b, (bool, int, str, type(None))): return a == b and type(a) is type(b)
    if isinstance(a, (SymInt, SymBool)) and isinstance(b, (SymInt, SymBool)): return a.t.eq(b.t)
    return False


def loop(key, it, loc, assigned):
    if isinstance(it, table.RowSeq): it = it.qs
    for fn in FINDERS:
        lp = fn(key, it, loc, assigned)
        if lp is not None: return lp
    if isinstance(it, table.QuerySet) and not it._none:
        return SearchLoop(key, it, loc, assigned)
    return Plain(it)


class PSet(builtins.set):
    """a set that can be asked about symbolic values"""
    def __contains__(self, x):
        try: return builtins.set.__contains__(self, x)
        except TypeError: return builtins.any(x == y for y in self)


def comp(kind, it, cond, elt, has_if):
    if hasattr(it, "vc_comp"): return it.vc_comp(kind, cond, elt, has_if)
    if isinstance(it, builtins.list):
        for x in it:
            if hasattr(x, "vc_block_comp"): return x.vc_block_comp(it, kind, cond, elt, has_if)
    if isinstance(it, (table.RowSeq, table.QuerySet)) and not getattr(it, "_none", False):
        f = getattr(table.W.spec, "rows_comp", None)
        if f is not None: return f(kind, it.qs if isinstance(it, table.RowSeq) else it, cond, elt, has_if)
        raise Unsupported("comprehension over rows")
    out = [elt(x) for x in builtins.iter(it) if cond(x)]
    return PSet(out) if kind == "set" else (builtins.iter(out) if kind == "gen" else out)


def comp2(kind, it, cond, elt, has_if):
    """the target of the comprehension is a tuple"""
    if hasattr(it, "vc_comp2"): return it.vc_comp2(kind, lambda x: cond(*x), lambda x: elt(*x), has_if)
    if hasattr(it, "vc_comp") or isinstance(it, (table.RowSeq, table.QuerySet)) and not getattr(it, "_none", False): raise Unsupported("comprehension over tuples")
    out = [elt(*x) for x in builtins.iter(it) if cond(*x)]
    return PSet(out) if kind == "set" else (builtins.iter(out) if kind == "gen" else out)


def fstr(*parts):
    vals = [p if isinstance(p, str) else p[0] for p in parts]
    for v in vals:
        if hasattr(v, "vc_fstr"): return v.vc_fstr(vals)
    if any(isinstance(v, (SymInt, SymBool, table.SymPk)) for v in vals): return "<symbolic text>"
    return "".join(builtins.str(v) for v in vals)


def join(s, x):
    if hasattr(x, "vc_join"): return x.vc_join(s)
    return s.join(x)


def b_len(x):
    if hasattr(x, "vc_len"): return x.vc_len()
    if isinstance(x, table.QuerySet): raise Unsupported("len(queryset)")
    if isinstance(x, builtins.list):
        for e in x:
            if hasattr(e, "vc_block_len"): return e.vc_block_len(x)
    return builtins.len(x)
class _Int(type):
    def __instancecheck__(cls, x): return isinstance(x, (builtins.int, SymInt))
class b_int(metaclass=_Int):
    def __new__(cls, x=0, *a):
        if isinstance(x, SymInt): return x
        if hasattr(x, "vc_int"): return x.vc_int()
        return builtins.int(x, *a)
class _Str(type):
    def __instancecheck__(cls, x): return isinstance(x, builtins.str) or getattr(x, "vc_is_str", False)
    def __getattr__(cls, n): return getattr(builtins.str, n)
class b_str(metaclass=_Str):
    def __new__(cls, x="", *a):
        if hasattr(x, "vc_str"): return x.vc_str()
        return builtins.str(x, *a)
def b_sorted(x, *a, **k):
    if hasattr(x, "vc_sorted"): return x.vc_sorted(*a, **k)
    if isinstance(x, table.QuerySet): raise Unsupported("sorted(queryset)")
    return builtins.sorted(x, *a, **k)
def b_range(*a):
    for v in a:
        if hasattr(v, "vc_range"): return v.vc_range(a)
    if any(isinstance(v, SymInt) for v in a): return SymRange(a)
    return builtins.range(*a)
class SymRange:
    def vc_list(self): return RangeList(self)
    def __init__(self, a):
        self.args = a
        lo, hi, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
        self.lo, self.hi, self.step = lo, hi, step
    def __getitem__(self, k):
        if isinstance(k, slice) and isinstance(k.start, builtins.int) and k.start >= 0 and k.stop is None and k.step is None and isinstance(self.step, builtins.int) and self.step > 0:
            return SymRange((self.lo + self.step * k.start, self.hi, self.step))
        raise Unsupported("element of a symbolic range")
    def vc_comp(self, kind, cond, elt, has_if):
        if kind == "gen" and core.C.__dict__.get("loop_rows"):
            import collect
            return collect.Some(self, cond, elt, "any")
        f = getattr(table.W.spec, "range_comp", None) if table.W is not None else None
        if f is None or has_if: raise Unsupported("comprehension over a symbolic range")
        return f(kind, self.lo, self.hi, self.step, elt)
    def __iter__(self): raise Unsupported("iteration over a symbolic range")
class RangeList:
    """list(range(..)) with symbolic bounds"""
    def __init__(self, r): self.r = r
    def vc_len(self):
        lo, hi, step = core.raw(self.r.lo), core.raw(self.r.hi), self.r.step
        if step != 1: raise Unsupported("length of a symbolic range")
        return SymInt(z3.If(hi > lo, hi - lo, 0))
    def __bool__(self): return core.C.branch(core.raw(self.vc_len()) > 0)
    def __iter__(self): raise Unsupported("iteration over a symbolic range")
class _List(type):
    def __instancecheck__(cls, x): return isinstance(x, (builtins.list, RangeList))
class b_list(metaclass=_List):
    def __new__(cls, x=()):
        if hasattr(x, "vc_list"): return x.vc_list()
        if isinstance(x, table.QuerySet) and not x._none: return table.RowSeq(x)
        return builtins.list(x)
    def __class_getitem__(cls, k): return cls
class _Set(type):
    def __instancecheck__(cls, x): return isinstance(x, builtins.set)
class b_set(metaclass=_Set):
    def __new__(cls, x=()):
        if hasattr(x, "vc_set"): return x.vc_set()
        return builtins.set(x)
    def __class_getitem__(cls, k): return cls
def b_all(x):
    if hasattr(x, "vc_all"): return x.vc_all()
    return builtins.all(x)
def b_any(x):
    if hasattr(x, "vc_any"): return x.vc_any()
    return builtins.any(x)
def b_min(*a, **k):
    for v in a:
        if hasattr(v, "vc_min"): return v.vc_min(a)
    if any(isinstance(v, SymInt) for v in a):
        out = a[0]
        for v in a[1:]: out = SymInt(z3.If(core.raw(out) <= core.raw(v), core.raw(out), core.raw(v)))
        return out
    return builtins.min(*a, **k)
def b_max(*a, **k):
    for v in a:
        if hasattr(v, "vc_max"): return v.vc_max(a)
    if any(isinstance(v, SymInt) for v in a):
        out = a[0]
        for v in a[1:]: out = SymInt(z3.If(core.raw(out) >= core.raw(v), core.raw(out), core.raw(v)))
        return out
    return builtins.max(*a, **k)
def b_enumerate(x, *a):
    if hasattr(x, "vc_enumerate"): return x.vc_enumerate(*a)
    if isinstance(x, table.QuerySet) and not x._none: raise Unsupported("enumerate(queryset)")
    return builtins.enumerate(x, *a)
def b_reversed(x):
    if hasattr(x, "vc_reversed"): return x.vc_reversed()
    return builtins.reversed(x)
def b_zip(*a):
    for v in a:
        if hasattr(v, "vc_zip"): return v.vc_zip(a)
    if any(isinstance(x, table.QuerySet) for x in a): raise Unsupported("zip(queryset)")
    return builtins.zip(*a)
class _Dict(type):
    def __instancecheck__(cls, x): return isinstance(x, builtins.dict)
class b_dict(metaclass=_Dict):
    def __new__(cls, *a, **k):
        if len(a) == 1 and not k and hasattr(a[0], "vc_dict"): return a[0].vc_dict()
        return builtins.dict(*a, **k)
    def __class_getitem__(cls, k): return cls
def b_reduce(fn, x, *a):
    if hasattr(x, "vc_reduce"): return x.vc_reduce(fn, *a)
    import functools
    return functools.reduce(fn, x, *a)
