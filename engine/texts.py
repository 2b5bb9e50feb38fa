"""C13 and C14 for materialized paths on tables of any content: paths are texts (a length and a character code per index, labels.py), no tree
is assumed.

The real MP_NodeManager.find_problems and fix_tree are run on a table of arbitrary rows.  The loop of find_problems over the rows has
the contract "what the body does for a row depends on that row and the table only": it is run once for an arbitrary row, each list it
appends to must be the one the specification names, and the rows gone through are exactly those asked for."""
import sys, time, traceback
import z3
import core, table, vc, ops, labels, mpath
from common import Back
from core import SymInt, SymBool, Unsupported, PathEnd, raw, prove, sort
And, Or, Not, Implies, If, BoolVal = z3.And, z3.Or, z3.Not, z3.Implies, z3.If, z3.BoolVal
I, B = z3.IntSort(), z3.BoolSort()
ACTIVE = None
ROLES = {}          # place of a list in the locals -> its place in the result


class Texts(labels.Strings):
    """texts over any characters; `al`: the character belongs to the alphabet; codes of the alphabet lie between those of its first and last
    character (the alphabet is in the order of the column's collation)"""
    def __init__(self, c, step):
        self.step = step
        self.c, self.S, self.strs, self.products, self.lits = c, core.sort("Str"), [], [], {}
        S = self.S
        self.ln, self.ch = z3.Function("len", S, I), z3.Function("char", S, I, I)
        self.diff = z3.Function("diff", S, S, I)
        self.al, self.pathof = z3.Function("inalphabet", I, B), z3.Function("path0", sort("Row"), S)
        self.evil, self.evilat = z3.Function("evil", S, B), z3.Function("evilat", S, I)
        self.a0, self.a1 = z3.Int("firstcode"), z3.Int("lastcode")
        self.hasp, self.parent, self.kids = z3.Function("hasparent", sort("Row"), B), z3.Function("parentrow", sort("Row"), sort("Row")), z3.Function("children", sort("Row"), I)
        ln, ch, diff, al = self.ln, self.ch, self.diff, self.al
        c.derive = self.derive
        c.assume(self.a0 < self.a1, al(self.a0), al(self.a1))
        c.forall("length", ["Str"], lambda a: And(ln(a) >= 0, diff(a, a) == ln(a)))
        c.forall("the alphabet is an interval's part", ["Str", "Idx"], lambda a, i: Implies(al(ch(a, i)), And(self.a0 <= ch(a, i), ch(a, i) <= self.a1)))
        c.forall("first difference", ["Str", "Str"], lambda a, b: And(diff(a, b) == diff(b, a), 0 <= diff(a, b), diff(a, b) <= ln(a), diff(a, b) <= ln(b),
                 Implies(And(diff(a, b) < ln(a), diff(a, b) < ln(b)), ch(a, diff(a, b)) != ch(b, diff(a, b))), (a == b) == And(diff(a, b) == ln(a), diff(a, b) == ln(b))))
        c.forall("equal before it", ["Str", "Str", "Idx"], lambda a, b, i: Implies(And(0 <= i, i < diff(a, b)), ch(a, i) == ch(b, i)))
        c.forall("a text with a foreign character", ["Str"], lambda a: Implies(self.evil(a), And(0 <= self.evilat(a), self.evilat(a) < ln(a), Not(al(ch(a, self.evilat(a)))))))
        c.forall("a text without", ["Str", "Idx"], lambda a, i: Implies(And(Not(self.evil(a)), 0 <= i, i < ln(a)), al(ch(a, i))))
        c.term("Idx", z3.IntVal(0))

    def derive(self, s, t):
        if s == "Row": return [("Str", self.pathof(t))] + self.derive("Str", self.pathof(t))
        if s != "Str": return []
        known = list(self.c.terms.get("Str", {}).values())
        return [("Idx", self.ln(t)), ("Idx", self.evilat(t))] + [("Idx", self.diff(t, u)) for u in known if not u.eq(t)]

    def prefix(self, p, q): return self.diff(p, q) == self.ln(p)
    def child(self, q, r):
        """the path of row q is that of row r and one step"""
        return And(self.prefix(self.pathof(r), self.pathof(q)), self.ln(self.pathof(q)) == self.ln(self.pathof(r)) + self.step)
    def good(self, q): return And(Not(self.evil(self.pathof(q))), self.ln(self.pathof(q)) % self.step == 0)

    def cut(self, t, k):
        """the first k characters"""
        u = self.c.fresh("cut", self.S)
        self.c.assume(self.ln(u) == If(k < 0, 0, If(k < self.ln(t), k, self.ln(t))), self.diff(u, t) == self.ln(u))
        self.c.term("Str", u)
        return u

    def repeat(self, a, k, n):
        """a followed by n times the character k"""
        t = self.c.fresh("appended", self.S)
        ln, ch = self.ln, self.ch
        self.c.assume(ln(t) == ln(a) + n, *[ch(t, ln(a) + j) == k for j in range(n)])
        self.c.assume(self.diff(a, t) == ln(a))
        self.c.term("Str", t)
        return t

    def literal(self, s):
        if s: raise Unsupported(f"text {s!r}")
        if "" not in self.lits:
            t = self.lits[""] = self.c.fresh("emptytext", self.S)
            self.c.assume(self.ln(t) == 0)
            self.c.term("Str", t)
        return self.lits[""]


def term(o):
    if isinstance(o, Txt): return o.t
    if isinstance(o, str): return ACTIVE.literal(str.__str__(o))
    raise Unsupported(f"text {o!r}")


class Length(SymInt):
    __slots__ = ()
    def __truediv__(self, o):
        if isinstance(o, int) and o > 0: return Ratio(self.t, o)
        raise Unsupported("division")


class Ratio:
    def __init__(self, a, b): self.a, self.b = a, b
    def vc_int(self): return SymInt(self.a / self.b)
    def __eq__(self, o): return SymBool(self.a == raw(o) * self.b) if core.num(o) else False
    def __ne__(self, o): return SymBool(self.a != raw(o) * self.b) if core.num(o) else True
    def is_integer(self): return SymBool(self.a % self.b == 0)
    __hash__ = None
    def __getattr__(self, n): raise Unsupported("a quotient")


class Txt:
    vc_is_str = True
    __hash__ = None
    def __init__(self, t): self.t = t
    def __repr__(self): return f"text({self.t})"
    def __bool__(self): return core.C.branch(ACTIVE.ln(self.t) > 0, "text is not empty")
    def _is(self, o): return isinstance(o, (Txt, str))
    def __eq__(self, o): return SymBool(self.t == term(o)) if self._is(o) else False
    def __ne__(self, o): return SymBool(self.t != term(o)) if self._is(o) else True
    def startswith(self, o): return SymBool(ACTIVE.prefix(term(o), self.t))
    def vc_len(self): return Length(ACTIVE.ln(self.t))
    def vc_str(self): return self
    def vc_set(self): return CharSet(self)
    def __add__(self, o):
        if isinstance(o, str) and not o: return self
        if isinstance(o, Rep):
            return Txt(ACTIVE.repeat(self.t, o.code, o.n))
        raise Unsupported("text + text")
    def __getitem__(self, k):
        if not isinstance(k, slice) or k.step is not None or k.start not in (None, 0): raise Unsupported("part of a text")
        if k.stop is None: return self
        j = raw(k.stop)
        n = ACTIVE.ln(self.t)
        return Txt(ACTIVE.cut(self.t, If(j < 0, n + j, j)))
    def __iter__(self): raise Unsupported("iteration over a text")
    def vc_comp(self, kind, cond, elt, has_if):
        """over the characters: decided by what it gives for characters of the alphabet and for others"""
        try: got = [(bool(cond(Char(f))) if has_if else True, elt(Char(f))) for f in (True, False)]
        except core.Restart: raise
        return Chars(self, kind, got)
    def db_lookup(self, ops, arg):
        op = ops[0] if ops else "exact"
        if len(ops) > 1: raise Unsupported("lookup")
        A = ACTIVE
        le = lambda x, y: Or(x == y, A.lt(x, y))
        if op == "exact": return self.t == term(arg)
        if op == "startswith": return A.prefix(term(arg), self.t)
        if op == "range": return And(le(term(arg[0]), self.t), le(self.t, term(arg[1])))
        if op == "in": return Or([self.t == term(a) for a in arg]) if len(arg) else BoolVal(False)
        if op in ("gt", "gte", "lt", "lte"):
            x, y = (self.t, term(arg)) if op[0] == "l" else (term(arg), self.t)
            return A.lt(x, y) if len(op) == 2 else le(x, y)
        raise Unsupported(f"path__{op}")
    def db_less(self, o): return ACTIVE.lt(self.t, term(o))
    def db_eq(self, o): return self.t == term(o)
    def same_value(self, o): return self.t == term(o)
    def ite(self, c, a, b): return Txt(If(c, term(a), term(b)))


class Char:
    """any character of the alphabet, or any that is not"""
    vc_is_str = True
    __hash__ = None
    def __init__(self, fine): self.fine = fine
    def __getattr__(self, n): raise Unsupported("a character")
    def __eq__(self, o): raise Unsupported("a character")
    __ne__ = __eq__
    def __bool__(self): return True


class Chars:
    """a comprehension over the characters of a text; got: (kept?, value) for characters of the alphabet and for the others"""
    def __init__(self, txt, kind, got): self.txt, self.kind, self.got = txt, kind, got
    def some(self, which):
        """there is a character of this sort"""
        e = ACTIVE.evil(self.txt.t)
        if not which: return e
        raise Unsupported("there is a character of the alphabet")
    def any_(self, test):
        fine, other = [k and bool(test(v)) for k, v in self.got]
        if fine and other: return SymBool(ACTIVE.ln(self.txt.t) > 0)
        if other: return SymBool(self.some(False))
        if fine: raise Unsupported("there is a character of the alphabet")
        return False
    def vc_any(self): return self.any_(lambda v: v)
    def vc_all(self):
        r = self.any_(lambda v: not v)
        return SymBool(Not(r.t)) if isinstance(r, SymBool) else not r
    def vc_len(self): raise Unsupported("number of characters")
    def __bool__(self): return bool(self.any_(lambda v: True))
    def vc_list(self): return self
    vc_set = vc_list
    def __iter__(self): raise Unsupported("iteration over characters")


class CharSet:
    """set(text)"""
    def __init__(self, txt): self.txt = txt
    def _al(self, o):
        if not isinstance(o, (Alphabet, AlphaSet)): raise Unsupported("set of characters")
        return ACTIVE.evil(self.txt.t)
    def __sub__(self, o): return Rest(self._al(o))
    difference = __sub__
    def __le__(self, o): return SymBool(Not(self._al(o)))
    issubset = __le__
    def __iter__(self): raise Unsupported("iteration over characters")
    def __getattr__(self, n): raise Unsupported("set of characters")


class Rest:
    def __init__(self, e): self.e = e
    def __bool__(self): return core.C.branch(self.e, "a foreign character")
    def __getattr__(self, n): raise Unsupported("set of characters")


class Rep:
    def __init__(self, code, n): self.code, self.n = code, n


class AChar:
    """a character of the alphabet with a known code"""
    def __init__(self, code): self.code = code
    def __mul__(self, n):
        if isinstance(n, bool) or not isinstance(n, int): raise Unsupported("repetition")
        return Rep(self.code, n)
    __rmul__ = __mul__
    def __getattr__(self, n): raise Unsupported("a character of the alphabet")


class AlphaSet:
    def __contains__(self, x): return x in Alphabet()
    def issuperset(self, o): return o.vc_set().issubset(self) if isinstance(o, Txt) else o.issubset(self)
    def __ge__(self, o): return o.issubset(self)
    def __iter__(self): raise Unsupported("iteration over the alphabet")


class Alphabet:
    vc_is_str = True
    def __contains__(self, x):
        if isinstance(x, Char): return x.fine
        raise Unsupported("alphabet")
    def __getitem__(self, k):
        if k == 0: return AChar(ACTIVE.a0)
        if k == -1: return AChar(ACTIVE.a1)
        raise Unsupported("alphabet")
    def vc_set(self): return AlphaSet()
    def vc_len(self): raise Unsupported("size of the alphabet")
    def __iter__(self): raise Unsupported("iteration over the alphabet")
    def __getattr__(self, n): raise Unsupported("alphabet")


# ------------------------------------------------------------------------------------------------------------ loops
class Rec:
    """a list that is only appended to"""
    def __init__(self, place): self.place, self.got = place, []
    def append(self, x): self.got.append(x)
    def extend(self, x):
        if not isinstance(x, (list, tuple)): raise Unsupported("extend")
        self.got.extend(x)
    def __iadd__(self, x): self.extend(x); return self
    def __getattr__(self, n): raise Unsupported("a list of problems is looked at")
    __iter__ = __len__ = __bool__ = __contains__ = __getitem__ = __eq__ = lambda self, *a: (_ for _ in ()).throw(Unsupported("a list of problems is looked at"))
    __hash__ = None


def recs(v, place, out):
    """the lists in a container, each replaced by a Rec"""
    if isinstance(v, list) and not v:
        r = Rec(place); out.append(r)
        return r
    if isinstance(v, (list, tuple)): return type(v)(recs(x, place + (i,), out) for i, x in enumerate(v))
    if isinstance(v, dict): return {k: recs(x, place + (k,), out) for k, x in v.items()}
    if v is None or isinstance(v, (bool, int, str)): return v
    raise Unsupported("loop over the rows with other effects")


class RowLoop(vc.Plain):
    """a loop over all rows of a queryset that only appends to lists, according to the row"""
    def __init__(self, key, qs, loc, assigned):
        A = ACTIVE
        if A.loop is not None: raise Unsupported("several loops over the rows")
        A.loop, self.qs = self, qs
        self.recs, self.havoc = [], {}
        for k in assigned:
            if k == "." or k not in loc: continue
            v = loc[k]
            self.havoc[k] = recs(v, (k,), self.recs) if isinstance(v, (list, dict, tuple)) else labels.Poison()
        for k, v in loc.items():
            if k not in assigned and isinstance(v, (list, dict, set)): self.havoc[k] = recs(v, (k,), self.recs) if isinstance(v, (list, dict)) else labels.Poison()
        self.row = self.open = None
    def elements(self):
        c, A = core.C, ACTIVE
        if c.branch(c.fresh("finished", B), "loop: over"): return
        r = self.row = c.term("Row", c.fresh("row", "Row"))
        c.assume(self.qs.holds(table.W.state, r))
        self.open = True
        yield self.qs._row_value(r)
        self.open = False
        A.each(self)
        raise PathEnd


class CharLoop(vc.Plain):
    """for character in text: the body does nothing for characters of the alphabet"""
    def __init__(self, txt, loc, assigned): self.txt, self.assigned = txt, assigned
    def elements(self):
        c, A, t = core.C, ACTIVE, self.txt.t
        fr = sys._getframe(1)
        grown = lambda: sum(len(r.got) for r in A.loop.recs) if A.loop is not None else 0
        if c.branch(c.fresh("finecharacter", B), "loop: any character of the alphabet"):
            c.assume(A.ln(t) > 0)
            n = len(c.loose)
            c.loose.append(BoolVal(False))
            before, g = vc.snapshot(fr.f_locals, self.assigned), grown()
            yield Char(True)
            after = vc.snapshot(fr.f_locals, self.assigned)
            if g != grown() or any(not (k in before and vc.same(before[k], after[k])) and not isinstance(after[k], Char) for k in after): raise Unsupported("the loop does something for characters of the alphabet")
            raise PathEnd
        n = 0
        while c.branch(A.evil(t) if not n else c.fresh("anotherforeign", B), "loop: a foreign character"):
            n += 1
            if n > 2: raise PathEnd
            yield Char(False)


def finder(key, it, loc, assigned):
    if ACTIVE is None: return None
    if isinstance(it, Txt): return CharLoop(it, loc, assigned)
    if isinstance(it, table.QuerySet) and not it._none: return RowLoop(key, it, loc, assigned)
    return None
vc.FINDERS.insert(0, finder)


# ------------------------------------------------------------------------------------------------------------- scenes
class Free(Back):
    """a table of any content"""
    fields = ("path", "depth", "numchild")
    user = ("data",)
    signals = False
    object_fields = fields
    def __init__(self, step):
        super().__init__({})
        import importlib
        self.mod = importlib.import_module("treebeard.mp_tree")
        self.make_models(self.mod.MP_Node)
        self.Base.steplen, self.Base.alphabet = step, Alphabet()
        self.step = step
    def enter(self, c, A):
        self.c, self.A = c, A
        self.W = table.W = table.World(self)
        live = z3.Function("live0", sort("Row"), B)
        depth, num, data = [z3.Function(n, sort("Row"), s) for n, s in (("depth0", I), ("numchild0", I), ("data0", sort("Data")))]
        self.S0 = self.W.state = table.State(lambda r: live(r), {"path": lambda r: Txt(A.pathof(r)), "depth": lambda r: depth(r), "numchild": lambda r: num(r), "data": lambda r: data(r)})
        st = self.S0
        st.torn = None
        c.forall("paths are unique", ["Row", "Row"], lambda a, b: Implies(And(st.live(a), st.live(b), A.pathof(a) == A.pathof(b)), a == b))
        c.forall("the parent", ["Row"], lambda r: Implies(A.hasp(r), And(st.live(A.parent(r)), A.child(r, A.parent(r)))))
        c.forall("no parent", ["Row", "Row"], lambda r, q: Implies(And(Not(A.hasp(r)), st.live(q)), Not(A.child(r, q))))
        c.forall("number of children", ["Row"], lambda r: A.kids(r) >= 0)
        A.loop, self.counts, A.prefix_ = None, [], ""
        self.tracked = []
    def path_value(self, st, r): return st.fields["path"](r)
    def on_delete(self, gone, st): raise Unsupported("delete")


def goal(name, g, ex=None): return prove(core.C, f"{ACTIVE.prefix_}: {name}", g, ex)
def ob(name, g, ex=None):
    if not core.C.replaying(): core.C.checks.append(goal(name, g, ex))

NAMES = ["foreign characters", "partial step", "missing parent", "wrong depth", "wrong number of children"]


def classes(A, st, r):
    """the specification: which of the five lists a row belongs to"""
    p = A.pathof(r)
    conds = [A.evil(p), A.ln(p) % A.step != 0, And(A.ln(p) > A.step, Not(A.hasp(r))), st.get("depth", r) != A.ln(p) / A.step, st.get("numchild", r) != A.kids(r)]
    return [And(conds[k], *[Not(x) for x in conds[:k]]) for k in range(5)]


def counted_children(A, be, r):
    """every count of the path that was taken is the number of children of row r (rows with a malformed path aside)"""
    c = core.C
    for n, qs, st in be.counts:
        q = c.term("Row", c.fresh("anyrow", "Row"))
        ob("the rows counted are the children", Implies(And(A.good(q), A.good(r), Not(A.evil(A.pathof(r)))), qs.holds(st, q) == And(st.live(q), A.child(q, r))), {"Row": [q, r]})
        c.assume(n == A.kids(r))


def find_problems(with_parent):
    def fn(c, A, be):
        st = be.S0
        parent = None
        kw = {}
        if with_parent:
            parent = be.fetch("parent")
            p = A.pathof(parent._row)
            c.assume(A.good(parent._row), A.ln(p) > 0)
            kw["parent"] = parent
        def each(loop):
            r = loop.row
            c.term("Row", A.parent(r))
            counted_children(A, be, r)
            spec = classes(A, st, r)
            if not ROLES: raise Unsupported("which list is which is not known")
            for k in range(5):
                got = [x for rec in loop.recs if ROLES.get(rec.place) == k for x in rec.got]
                ok = len(got) == 1 and isinstance(got[0], table.SymPk)
                if not got: ob(f"rows left out of the list: {NAMES[k]}", Not(spec[k]), {"Row": [r]})
                else: ob(f"rows put into the list: {NAMES[k]}", And(BoolVal(ok), spec[k], got[0].t == r if ok else BoolVal(False)), {"Row": [r]})
        A.each = each
        mgr = be.Base.objects
        try: res = mgr.find_problems(**kw)
        except (Unsupported, core.Budget): raise
        except Exception as e:
            if core.own(e): raise Unsupported(f"{type(e).__name__}: {e}")
            return [goal(f"no exception ({type(e).__name__})", BoolVal(False))]
        loop = A.loop
        if loop is None: raise Unsupported("no loop over the rows")
        if loop.open: raise Unsupported("the loop over the rows is left early")
        ok = isinstance(res, (tuple, list)) and len(res) == 5 and all(isinstance(x, Rec) for x in res)
        if not ok: raise Unsupported("the result is not made of the lists")
        ROLES.clear()
        ROLES.update({x.place: k for k, x in enumerate(res)})
        r = c.fresh("sk_row", "Row")
        asked = And(st.live(r), A.prefix(A.pathof(parent._row), A.pathof(r))) if parent is not None else st.live(r)
        return [goal("five different lists", BoolVal(len(ROLES) == 5)), goal("exactly the rows asked for are looked at", loop.qs.holds(st, r) == asked, {"Row": [r]}),
                goal("nothing is written", BoolVal(not be.W.writes))]
    return fn


def fix_tree(with_parent):
    def fn(c, A, be):
        st = be.S0
        c.forall("paths are well formed", ["Row"], lambda r: Implies(st.live(r), And(A.good(r), A.ln(A.pathof(r)) >= A.step)))
        parent = None
        kw = {}
        if with_parent:
            parent = kw["parent"] = be.fetch("parent")
        try: be.Base.objects.fix_tree(**kw)
        except (Unsupported, core.Budget): raise
        except Exception as e:
            if core.own(e): raise Unsupported(f"{type(e).__name__}: {e}")
            return [goal(f"no exception ({type(e).__name__})", BoolVal(False))]
        S1 = be.W.state
        r, q = c.fresh("sk_row", "Row"), c.fresh("sk_q", "Row")
        ex = {"Row": [r]}
        out = []
        within = lambda x: A.prefix(A.pathof(parent._row), A.pathof(x)) if parent is not None else BoolVal(True)
        inside = within(r)
        for n, qs, st_, outer in SUBS:
            ob("the rows counted are the children", Implies(And(st.live(q), st.live(r), inside), qs(st_, q, r) == And(st.live(q), A.child(q, r))), {"Row": [q, r]})
            c.forall("the count is that of the children", ["Row"], lambda x, n=n: Implies(within(x), n(x) == A.kids(x)))
        out += [goal("no row appears or disappears, no path and no data changes", And(S1.live(r) == st.live(r), Implies(st.live(r), And(S1.get("path", r).t == A.pathof(r), S1.get("data", r) == st.get("data", r)))), ex),
                goal("the depth is that of the path", Implies(And(st.live(r), inside), S1.get("depth", r) == A.ln(A.pathof(r)) / A.step), ex),
                goal("the number of children is the true one", Implies(And(st.live(r), inside), S1.get("numchild", r) == A.kids(r)), ex),
                goal("rows outside the branch are untouched", Implies(And(st.live(r), Not(inside)), And(S1.get("depth", r) == st.get("depth", r), S1.get("numchild", r) == st.get("numchild", r))), ex)]
        return out
    return fn


SUBS = []


def subquery_count(sub, st, r, qs):
    """(SELECT COUNT(pk) FROM rows WHERE ..): one natural number per outer row"""
    q = sub.qs
    kind, fs = q._values or (None, ())
    if len(fs) != 1 or fs[0] not in q._annot: raise Unsupported("subquery")
    e = q._annot[fs[0]]
    if not (type(e) is table.Func and e.function in ("Count", "COUNT") and len(e.args) == 1 and isinstance(e.args[0], table.F) and e.args[0].name in ("pk", "id")): raise Unsupported("subquery")
    for n, _, s, o in SUBS:
        if o is sub and s is st: return n(r)
    n = z3.Function(f"subcount{len(SUBS)}", sort("Row"), I)
    SUBS.append((n, lambda st_, x, r_: q._resolve_outer(st_, r_).holds(st_, x), st, sub))
    return n(r)


SCENES = {"C13": [("find_problems()", find_problems(False)), ("find_problems(parent)", find_problems(True))],
          "C14": [("fix_tree()", fix_tree(False)), ("fix_tree(parent)", fix_tree(True))]}


def job(j):
    prop, k, step, secs = j
    name, fn = SCENES[prop][k]
    return one_scene(f"mp.{name} steplen={step}", fn, step, secs)


def run(prop, tier, secs):
    scenes, out = SCENES[prop], []
    kept = mpath.STRLEN
    mpath.STRLEN = lambda v: ACTIVE.ln(term(v))
    table.SUBQUERY = subquery_count
    try:
        import multiprocessing
        from concurrent.futures import ProcessPoolExecutor
        jobs = [(prop, k, step, secs) for step in ((4, 1) if tier == "quick" else (4, 1, 2, 3)) for k in range(len(scenes))]
        with ProcessPoolExecutor(8, multiprocessing.get_context("fork")) as ex: out = list(ex.map(job, jobs))
    finally: mpath.STRLEN, table.SUBQUERY = kept, None
    return out


def one_scene(name, fn, step, secs):
    global ACTIVE
    stats = {"solver_s": 0.0, "queries": 0}
    rec = {"task": name, "obligations": [], "paths": 0, "status": "done"}
    pad, core.PAD = core.PAD, None
    vc.CANDIDATE.clear(); ROLES.clear()
    be = Free(step)
    def one(c):
        global ACTIVE
        ACTIVE = A = Texts(c, step)
        SUBS.clear()
        be.enter(c, A)
        A.prefix_ = name
        rec["paths"] += 1
        res = fn(c, A, be)
        if c.check([], 2000) != z3.unsat: rec["possible"] = rec.get("possible", 0) + 1
        return res
    try:
        res = core.explore(one, stats, deadline=time.time() + max(20, secs / 3))
        rec["obligations"] = [r.as_dict() for r in res]
    except Unsupported as e: rec["status"] = f"unsupported: {e}"
    except core.Budget as e: rec["status"] = f"budget: {e}"
    except Exception as e:
        rec["status"] = f"unsupported: the engine failed ({type(e).__name__}: {e})"; rec["tb"] = traceback.format_exc()[-2500:]
    finally: core.PAD = pad; ACTIVE = None
    rec["returned"] = rec["possible"] = rec.get("possible", 0)
    rec["solver_s"] = stats["solver_s"]
    return rec


if __name__ == "__main__":
    for r in run(sys.argv[1], "quick", 300):
        print(r["task"], r["status"], r["paths"], r["possible"], f"{r['solver_s']:.1f}s")
        if "tb" in r: print(r["tb"])
        for o in r["obligations"]:
            print("   ", o["status"], o["name"], o["seconds"])
            if o["status"] != "discharged": print("      ", o["path"], str(o["detail"])[:600])
