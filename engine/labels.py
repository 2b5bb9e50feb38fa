"""C11: the contract of treebeard.ltree.generate_label, on the real code, for labels of every length and every set of used labels outside
the gap; and the lemmas on labels that lt.py uses.

A label is a string over 0-9A-Z: a length and a character at every index.  Two strings are compared at diff(a, b), the first index at
which they differ (or one of them ends).  Facts are instantiated over the strings and indices of the path."""
import itertools as real_itertools, string as real_string, sys, time, traceback
import z3
import core, table, vc, ops
from core import SymInt, SymBool, Unsupported, PathEnd, raw, prove
And, Or, Not, Implies, If, BoolVal = z3.And, z3.Or, z3.Not, z3.Implies, z3.If, z3.BoolVal
ALPHA = real_string.digits + real_string.ascii_uppercase
I, B = z3.IntSort(), z3.BoolSort()
core.SORTS.setdefault("Idx", I)
ACTIVE = None


class Strings:
    """the strings of one path"""
    def __init__(self, c, size=len(ALPHA)):
        self.c, self.S, self.strs, self.products, self.lits = c, core.sort("Str"), [], [], {}
        S = self.S
        self.ln, self.ch = z3.Function("len", S, I), z3.Function("char", S, I, I)
        self.diff, self.used = z3.Function("diff", S, S, I), z3.Function("used", S, B)
        ln, ch, diff = self.ln, self.ch, self.diff
        c.derive = self.derive
        c.forall("length", ["Str"], lambda a: And(ln(a) >= 0, diff(a, a) == ln(a)))
        if size is not None: c.forall("characters", ["Str", "Idx"], lambda a, i: Implies(And(0 <= i, i < ln(a)), And(0 <= ch(a, i), ch(a, i) < size)))
        c.forall("first difference", ["Str", "Str"], lambda a, b: And(diff(a, b) == diff(b, a), 0 <= diff(a, b), diff(a, b) <= ln(a), diff(a, b) <= ln(b),
                 Implies(And(diff(a, b) < ln(a), diff(a, b) < ln(b)), ch(a, diff(a, b)) != ch(b, diff(a, b))), (a == b) == And(diff(a, b) == ln(a), diff(a, b) == ln(b))))
        c.forall("equal before it", ["Str", "Str", "Idx"], lambda a, b, i: Implies(And(0 <= i, i < diff(a, b)), ch(a, i) == ch(b, i)))
        c.term("Idx", z3.IntVal(0))

    def derive(self, s, t):
        if s != "Str": return []
        known = list(self.c.terms.get("Str", {}).values())
        return [("Idx", self.ln(t))] + [("Idx", self.diff(t, u)) for u in known if not u.eq(t)] + [("Idx", p.out(t)) for p in self.products]

    def new(self, name):
        t = self.c.fresh(name, self.S)
        self.strs.append(t)
        return self.c.term("Str", t)

    def lt(self, a, b):
        d, ln, ch = self.diff(a, b), self.ln, self.ch
        return And(d < ln(b), Or(d == ln(a), ch(a, d) < ch(b, d)))

    def append(self, a, k):
        """a followed by the character with number k"""
        t = self.new("appended")
        ln, ch = self.ln, self.ch
        self.c.assume(ln(t) == ln(a) + 1, ch(t, ln(a)) == k)
        self.c.forall("the beginning of the text", ["Idx"], lambda i: Implies(And(0 <= i, i < ln(a)), ch(t, i) == ch(a, i)))
        return t

    def literal(self, s):
        if any(x not in ALPHA for x in s): raise Unsupported(f"text {s!r}")
        if s not in self.lits:
            t = self.lits[s] = self.new("literal")
            self.c.assume(self.ln(t) == len(s))
            for i, x in enumerate(s):
                self.c.term("Idx", z3.IntVal(i))
                self.c.assume(self.ch(t, i) == ALPHA.index(x))
        return self.lits[s]


def term(o):
    if isinstance(o, Lab): return o.t
    if isinstance(o, str): return ACTIVE.literal(str.__str__(o))
    raise Unsupported(f"text {o!r}")


class Lab:
    """a text over the alphabet, of unknown length"""
    vc_is_str = True
    __hash__ = None
    def __init__(self, t): self.t = t
    def __repr__(self): return f"text({self.t})"
    def __bool__(self): return core.C.branch(ACTIVE.ln(self.t) > 0, "text is not empty")
    def _is(self, o): return isinstance(o, (Lab, str))
    def __eq__(self, o): return SymBool(self.t == term(o)) if self._is(o) else False
    def __ne__(self, o): return SymBool(self.t != term(o)) if self._is(o) else True
    def __lt__(self, o): return SymBool(ACTIVE.lt(self.t, term(o))) if self._is(o) else NotImplemented
    def __gt__(self, o): return SymBool(ACTIVE.lt(term(o), self.t)) if self._is(o) else NotImplemented
    def __le__(self, o): return SymBool(Not(ACTIVE.lt(term(o), self.t))) if self._is(o) else NotImplemented
    def __ge__(self, o): return SymBool(Not(ACTIVE.lt(self.t, term(o)))) if self._is(o) else NotImplemented
    def __add__(self, o):
        if not isinstance(o, str): raise Unsupported("text + text")
        t = self.t
        for x in o:
            if x not in ALPHA: raise Unsupported(f"text {o!r}")
            t = ACTIVE.append(t, ALPHA.index(x))
        return Lab(t)
    def __radd__(self, o):
        if o == "": return self
        raise Unsupported("text + text")
    def startswith(self, o): return SymBool(ACTIVE.diff(self.t, term(o)) == ACTIVE.ln(term(o)))
    def vc_fstr(self, vals):
        if vals and vals[0] is self and all(isinstance(v, str) for v in vals[1:]): return self + "".join(vals[1:])
        raise Unsupported("text around a text")
    def vc_str(self): return self
    def vc_len(self): return SymInt(ACTIVE.ln(self.t))
    def at(self, k): return Char(ACTIVE.ch(self.t, k))
    def seq(self): return Seq(ACTIVE.ln(self.t), self.at)
    def vc_list(self): return self.seq()
    def vc_comp(self, kind, cond, elt, has_if): return self.seq().vc_comp(kind, cond, elt, has_if)
    def vc_zip(self, a): return [] if any(isinstance(x, (str, list)) and not x for x in a) else Zip(a)
    def __getitem__(self, k):
        if isinstance(k, slice): raise Unsupported("slice of a text")
        n = ACTIVE.ln(self.t)
        k = raw(k)
        if core.C.branch(k < 0): k = n + k
        if not core.C.branch(And(0 <= k, k < n), "index in range"): raise core.real(IndexError("string index out of range"))
        return self.at(core.C.term("Idx", k))
    def __iter__(self): raise Unsupported("iteration over a text")


class Char:
    """a character of a text, by its number in the alphabet"""
    vc_is_str = True
    __hash__ = None
    def __init__(self, t): self.t = t
    def _o(self, o):
        if isinstance(o, Char): return o.t
        if isinstance(o, str) and len(o) == 1 and o in ALPHA: return z3.IntVal(ALPHA.index(o))
        raise Unsupported("comparison of characters")
    def __eq__(self, o): return SymBool(self.t == self._o(o))
    def __ne__(self, o): return SymBool(self.t != self._o(o))
    def __lt__(self, o): return SymBool(self.t < self._o(o))
    def __le__(self, o): return SymBool(self.t <= self._o(o))
    def __gt__(self, o): return SymBool(self.t > self._o(o))
    def __ge__(self, o): return SymBool(self.t >= self._o(o))
    def __bool__(self): return True


def run_of(s):
    """(number of the first character, length) of a run of neighbouring characters of the alphabet"""
    k = ALPHA.find(s)
    if not s or k < 0: raise Unsupported(f"characters {s!r}")
    return k, len(s)


class Chars(str):
    """a constant text whose characters may be looked up by an unknown character"""
    def index(self, x, *a):
        if not isinstance(x, Char): return str.index(self, x, *a)
        lo, n = run_of(str(self))
        if not core.C.branch(And(lo <= x.t, x.t < lo + n), "character is in the alphabet"): raise core.real(ValueError("substring not found"))
        return SymInt(x.t - lo)
    def find(self, x, *a):
        if not isinstance(x, Char): return str.find(self, x, *a)
        lo, n = run_of(str(self))
        return SymInt(If(And(lo <= x.t, x.t < lo + n), x.t - lo, -1))
    def __contains__(self, x):
        if not isinstance(x, Char): return str.__contains__(self, x)
        lo, n = run_of(str(self))
        return bool(SymBool(And(lo <= x.t, x.t < lo + n)))
    def __add__(self, o): return Chars(str.__add__(self, o)) if isinstance(o, str) else NotImplemented
    def __getitem__(self, k):
        if isinstance(k, slice) and isinstance(k.start, SymInt) and k.stop is None and k.step is None:
            lo, n = run_of(str(self))
            i = k.start.t
            if core.C.branch(i < 0, "negative slice"): raise Unsupported("negative slice")
            return Run(lo + i, z3.IntVal(lo + n))
        v = str.__getitem__(self, k)
        return Chars(v)


class Run:
    """the characters numbered lo..hi-1, in order"""
    def __init__(self, lo, hi): self.lo, self.hi = lo, hi
    def has(self, x): return And(self.lo <= x, x < self.hi)
    def subst(self, a, b): return Run(z3.substitute(self.lo, (a, b)), z3.substitute(self.hi, (a, b)))
    def __iter__(self): raise Unsupported("iteration over characters")


def as_run(x):
    if isinstance(x, list): x = "".join(x)
    if isinstance(x, Run): return x
    if isinstance(x, str):
        lo, n = run_of(str(x))
        return Run(z3.IntVal(lo), z3.IntVal(lo + n))
    raise Unsupported("not a set of characters")


class Seq:
    """a list of n elements given by a function of the index, followed by known elements"""
    __hash__ = None
    def __init__(self, n, at, more=()): self.n, self.at, self.more = n, at, list(more)
    def vc_len(self): return SymInt(self.n + len(self.more))
    def vc_list(self): return Seq(self.n, self.at, self.more)
    def append(self, x): self.more.append(x)
    def __add__(self, o):
        if isinstance(o, list): return Seq(self.n, self.at, self.more + o)
        if isinstance(o, Seq) and o.n.eq(z3.IntVal(0)): return Seq(self.n, self.at, self.more + o.more)
        raise Unsupported("list + list")
    def vc_comp(self, kind, cond, elt, has_if):
        if has_if or kind not in ("list", "gen"): raise Unsupported("comprehension over characters")
        c = core.C
        k = c.fresh("each", I)
        c.assume(0 <= k, k < self.n)
        if c.ask(BoolVal(False)): return Seq(self.n, lambda j: None, [elt(x) for x in self.more])      # there is none
        npc, nb, na = len(c.pc), c.branch, c.ask
        c.term("Idx", k)
        def branch(g, why=""):
            if c.ask(g, 4000): return True
            if c.ask(Not(g), 4000): return False
            raise Unsupported("comprehension over characters with cases")
        c.branch = branch
        try: v = elt(self.at(k))
        finally: del c.branch
        if len(c.pc) != npc: raise Unsupported("comprehension over characters")
        if isinstance(v, SymInt): f = lambda j: SymInt(z3.substitute(v.t, (k, j)))
        elif isinstance(v, Char): f = lambda j: Char(z3.substitute(v.t, (k, j)))
        elif isinstance(v, Run): f = lambda j: v.subst(k, j)
        elif isinstance(v, str): f = lambda j: v
        else: raise Unsupported("comprehension over characters")
        return Seq(self.n, f, [elt(x) for x in self.more])
    def __getitem__(self, k):
        c = core.C
        if isinstance(k, slice):
            if k.step is not None or k.start not in (None, 0): raise Unsupported("slice of a list")
            if k.stop is None: return Seq(self.n, self.at, self.more)
            j = raw(k.stop)
            if c.branch(j < 0, "negative slice"): raise Unsupported("negative slice")
            out = Prefix(self, If(j <= self.n + len(self.more), j, self.n + len(self.more)))
            return out
        raise Unsupported("element of a list")
    def elem(self, k):
        """the run of characters at index k, as (lo, hi)"""
        r = as_run(self.at(k)) if not z3.is_int_value(z3.simplify(self.n)) or z3.simplify(self.n).as_long() else None
        lo, hi = (r.lo, r.hi) if r else (z3.IntVal(0), z3.IntVal(0))
        for i, x in enumerate(self.more):
            q = as_run(x)
            lo, hi = If(k == self.n + i, q.lo, lo), If(k == self.n + i, q.hi, hi)
        return Run(lo, hi)
    def prefix(self): return Prefix(self, self.n + len(self.more))
    def __iter__(self): yield Spread(self.prefix())


class Prefix:
    """the first m elements of a list"""
    __hash__ = None
    def __init__(self, seq, m): self.seq, self.m = Seq(seq.n, seq.at, seq.more), m
    def vc_len(self): return SymInt(self.m)
    def __iter__(self): yield Spread(self)


class Spread:
    """stands for the elements of a list in a call f(*list)"""
    def __init__(self, p): self.p = p
    def __getattr__(self, n): raise Unsupported("element of a list")
    def __iter__(self): raise Unsupported("element of a list")


class Poison:
    """the unknown value of a variable that a loop assigns"""
    __hash__ = None
    def no(self, *a, **k): raise Unsupported("a variable assigned by a loop")
    __bool__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __sub__ = __iter__ = __getitem__ = __contains__ = __call__ = __index__ = __getattr__ = no


class Product:
    """contract of itertools.product of increasing runs of characters: the texts with one character of each, in alphabetical order"""
    def __init__(self, p):
        c, A = core.C, ACTIVE
        self.m, self.seq, self.n = p.m, p.seq, len(A.products)
        self.isin, self.out = z3.Function(f"inproduct{self.n}", A.S, B), z3.Function(f"outside{self.n}", A.S, I)
        A.products.append(self)
        for t in list(c.terms["Str"].values()): c.term("Idx", self.out(t))
        has = lambda i, x: self.seq.elem(i).has(x)
        c.forall("texts of the product", ["Str", "Idx"], lambda s, i: Implies(self.isin(s), And(A.ln(s) == self.m, Implies(And(0 <= i, i < self.m), has(i, A.ch(s, i))))))
        c.forall("texts outside the product", ["Str"], lambda s: Implies(Not(self.isin(s)), Or(A.ln(s) != self.m, And(0 <= self.out(s), self.out(s) < self.m, Not(has(self.out(s), A.ch(s, self.out(s))))))))
    def __iter__(self): raise Unsupported("iteration over a product")
    def vc_list(self): return self
    def vc_comp(self, kind, cond, elt, has_if):
        if kind != "gen" or has_if: raise Unsupported("comprehension over a product")
        t = ACTIVE.c.fresh("element", ACTIVE.S)
        if isinstance(elt(Parts(t)), Lab): return self
        raise Unsupported("comprehension over a product")


class Parts:
    """an element of a product"""
    def __init__(self, t): self.t = t
    def vc_join(self, s):
        if s != "": raise Unsupported("separator")
        return Lab(self.t)
    def __iter__(self): raise Unsupported("iteration over characters")


class Zip:
    """zip of texts"""
    def __init__(self, a): self.a = a
    def __iter__(self): raise Unsupported("iteration over zip")


def fake_product(*a, **k):
    if any(isinstance(x, Spread) for x in a):
        if len(a) != 1 or k: raise Unsupported("product of several things")
        return Product(a[0].p)
    if k: raise Unsupported("product with arguments")
    return Product(Prefix(Seq(z3.IntVal(0), None, list(a)), z3.IntVal(len(a))))


class Module:
    def __init__(self, real, **kw): self.__dict__.update(kw); self._real = real
    def __getattr__(self, n): raise Unsupported(f"{self._real}.{n}")


class Used:
    """the set of used labels: none lies between the neighbours"""
    def __contains__(self, x): return bool(SymBool(ACTIVE.used(term(x))))
    def __iter__(self): raise Unsupported("iteration over the used labels")
    def __bool__(self): return core.C.branch(ACTIVE.someused, "there are used labels")
    def vc_set(self): return self
    def vc_len(self): raise Unsupported("number of used labels")


def good(s):
    A = ACTIVE
    return And(A.ln(s) > 0, A.gap(s), Not(A.used(s)))


# ---------------------------------------------------------------------------------------------------------------- loops
class CountLoop(vc.Plain):
    """loop over pairs of characters: every integer it assigns counts the iterations, until the loop is left"""
    def __init__(self, it, loc, assigned):
        c = core.C
        self.j = c.fresh("iteration", I)
        n = [ACTIVE.ln(term(x)) for x in it.a]
        self.n, self.it = n, it
        c.assume(self.j >= 0, *[self.j <= x for x in n])
        self.start = {k: loc[k] for k in assigned if k in loc}
        if any(not isinstance(v, (int, SymInt)) or isinstance(v, bool) for v in self.start.values()): raise Unsupported("loop over characters")
        self.havoc = {k: SymInt(raw(v) + self.j) for k, v in self.start.items()}
    def elements(self):
        c = core.C
        fr = sys._getframe(1)
        inside = And([self.j < x for x in self.n])
        if not c.branch(inside, "loop: another pair"): return
        c.term("Idx", self.j)
        yield tuple(Lab(term(x)).at(self.j) for x in self.it.a)
        loc = fr.f_locals
        for k, v in self.start.items():
            w = loc[k]
            if not isinstance(w, (int, SymInt)) or not c.ask(raw(w) == raw(v) + self.j + 1): raise Unsupported("loop over characters without a contract")
        raise PathEnd


class RangeLoop(vc.Plain):
    """loop over lengths: invariant: for the lengths gone through, the witness was not usable.  Whether the loop variable is the length
    or one less is found by trying."""
    def __init__(self, key, it, loc, assigned):
        self.key, self.off = ("range", key), vc.CANDIDATE.get(("range", key), 1)
        self.havoc = {k: Poison() for k in assigned if k in loc}
        self.lo, self.hi, self.w = raw(it.lo), raw(it.hi), ACTIVE.witness
        if it.step != 1: raise Unsupported("step")
    def elements(self):
        c, A, w = core.C, ACTIVE, self.w
        i = c.fresh("i", I)
        ruled = lambda k, off: Implies(A.ln(w) == k + off, Not(good(w)))
        if c.branch(c.fresh("iterate", B), "loop: any length"):
            c.assume(self.lo <= i, i < self.hi)
            c.assume(Implies(And(self.lo <= A.ln(w) - self.off, A.ln(w) - self.off < i), Not(good(w))))
            yield SymInt(i)
            if self.off == 1 and not c.ask(ruled(i, 1)):
                vc.CANDIDATE[self.key] = 0
                raise core.Restart
            ob("a length is given up only when its candidate is not usable", ruled(i, self.off))
            raise PathEnd
        c.assume(Implies(And(self.lo <= A.ln(w) - self.off, A.ln(w) - self.off < self.hi), Not(good(w))))


class ProductLoop(vc.Plain):
    """loop over the texts of a product in alphabetical order: invariant: none of those gone through is usable"""
    def __init__(self, it, loc, assigned):
        self.havoc = {k: Poison() for k in assigned if k in loc}
        self.it = it
    def elements(self):
        c, A, p = core.C, ACTIVE, self.it
        if c.branch(c.fresh("iterate", B), "loop: any text"):
            cur = A.new("text")
            c.assume(p.isin(cur))
            if c.ask(BoolVal(False)): raise PathEnd
            c.forall("earlier texts are not usable", ["Str"], lambda e: Implies(And(p.isin(e), A.lt(e, cur)), Not(good(e))))
            yield Parts(cur)
            ob("a text is skipped only when it is not usable", Not(good(cur)))
            raise PathEnd
        c.forall("no text is usable", ["Str"], lambda e: Implies(p.isin(e), Not(good(e))))


def finder(key, it, loc, assigned):
    if ACTIVE is None: return None
    if isinstance(it, Zip): return CountLoop(it, loc, assigned)
    if isinstance(it, Product): return ProductLoop(it, loc, assigned)
    if isinstance(it, vc.SymRange): return RangeLoop(key, it, loc, assigned)
    return None
vc.FINDERS.append(finder)


def ob(name, g):
    if not core.C.replaying(): core.C.checks.append(prove(core.C, f"{ACTIVE.prefix}: {name}", g))
def goal(name, g): return prove(core.C, f"{ACTIVE.prefix}: {name}", g)


# --------------------------------------------------------------------------------------------------------------- scenes
def scene(has_before, has_after):
    def fn(c, A, mod):
        b, a = A.new("before") if has_before else None, A.new("after") if has_after else None
        A.gap = lambda s: And(BoolVal(True) if a is None else A.lt(a, s), BoolVal(True) if b is None else A.lt(s, b))
        for t in (a, b):
            if t is not None: c.assume(A.ln(t) > 0)
        if a is not None and b is not None: c.assume(A.lt(a, b))
        A.someused = c.fresh("someused", B)
        c.forall("no used label lies in the gap", ["Str"], lambda s: Implies(A.used(s), And(A.ln(s) > 0, Not(A.gap(s)), A.someused)))
        # a label that fits, if any does: the left neighbour followed by 0, or the first character
        A.witness = A.append(a, 0) if a is not None else A.literal("0") if b is not None else A.literal("A")
        w = A.witness
        kw = {}
        if has_before: kw["before"] = Lab(b)
        if has_after: kw["after"] = Lab(a)
        try: r = mod.generate_label(skip=Used(), **kw)
        except mod.InvalidLabelConstraints:
            s = A.new("anylabel")
            return [goal("InvalidLabelConstraints only when no label fits", Not(And(A.ln(s) > 0, A.gap(s))))]
        except (Unsupported, core.Budget): raise
        except Exception as e:
            if core.own(e): raise Unsupported(f"{type(e).__name__}: {e}")
            return [goal(f"no other exception ({type(e).__name__})", BoolVal(False))]
        if isinstance(r, str): r = Lab(A.literal(str(r)))
        if not isinstance(r, Lab): return [goal("the result is a text", BoolVal(False))]
        return [goal("the label is not empty", A.ln(r.t) > 0), goal("the label lies between its neighbours", A.gap(r.t)), goal("the label is not used", Not(A.used(r.t)))]
    return fn


def lemmas(c, A, mod):
    """what lt.py uses of labels"""
    x, y = A.new("x"), A.new("y")
    k = c.fresh("character", I)
    c.assume(0 <= k, k < len(ALPHA))
    xk, yk = A.append(x, k), A.append(y, k)
    x0, y0 = A.append(x, 0), A.append(y, 0)
    z = A.literal("0")
    return [goal("lemma: appending a character makes a text greater", A.lt(x, xk)),
            goal("lemma: appending one character to different texts gives different texts", (xk == yk) == (x == y)),
            goal("lemma: appending 0 keeps the order", A.lt(x0, y0) == A.lt(x, y)),
            goal("lemma: nothing lies between a text and the text followed by 0", Implies(A.lt(x, y), Or(y == x0, A.lt(x0, y)))),
            goal("lemma: 0 is the least text that is not empty", Implies(A.ln(x) > 0, Not(A.lt(x, z)))),
            goal("lemma: the order is total", Or(A.lt(x, y), A.lt(y, x), x == y)),
            goal("lemma: the order is irreflexive and asymmetric", And(Not(A.lt(x, x)), Not(And(A.lt(x, y), A.lt(y, x)))))]


def lemma_trans(c, A, mod):
    x, y, z = A.new("x"), A.new("y"), A.new("z")
    return [goal("lemma: the order is transitive", Implies(And(A.lt(x, y), A.lt(y, z)), A.lt(x, z)))]


SCENES = [("generate_label(no neighbours)", scene(False, False)), ("generate_label(before)", scene(True, False)), ("generate_label(after)", scene(False, True)),
          ("generate_label(before, after)", scene(True, True)), ("lemmas on labels", lemmas), ("lemma on labels: transitivity", lemma_trans)]


def run(prop, tier, secs):
    global ACTIVE
    import lt, loader
    recs = []
    be = ops.backend("lt", {})
    mod = be.mod
    kept = {k: mod.__dict__.get(k) for k in ("string", "itertools", "generate_label")}
    mod.string = Module("string", ascii_uppercase=Chars(real_string.ascii_uppercase), digits=Chars(real_string.digits))
    mod.itertools = Module("itertools", product=fake_product)
    if getattr(mod, "vc_real_generate_label", None) is not None: mod.generate_label = mod.vc_real_generate_label
    for name, fn in SCENES:
        stats = {"solver_s": 0.0, "queries": 0}
        rec = {"task": name, "obligations": [], "paths": 0, "status": "done"}
        pad, core.PAD = core.PAD, None
        vc.CANDIDATE.clear()
        def one(c, fn=fn, name=name):
            global ACTIVE
            A = ACTIVE = Strings(c)
            A.prefix, A.witness = name, None
            table.W = table.World(be)
            rec["paths"] += 1
            res = fn(c, A, mod)
            if c.check([], 2000) != z3.unsat: rec["possible"] = rec.get("possible", 0) + 1
            return res
        try:
            res = core.explore(one, stats, deadline=time.time() + max(20, secs / 3))
            rec["obligations"] = [r.as_dict() for r in res]
        except Unsupported as e: rec["status"] = f"unsupported: {e}"
        except core.Budget as e: rec["status"] = f"budget: {e}"
        except Exception as e:
            rec["status"] = f"unsupported: the engine failed ({type(e).__name__}: {e})"; rec["tb"] = traceback.format_exc()[-2500:]
        finally: core.PAD = pad; ACTIVE = None
        rec["returned"] = rec["possible"] = rec.get("possible", 0)
        rec["solver_s"] = stats["solver_s"]
        recs.append(rec)
    mod.__dict__.update(kept)
    return recs


if __name__ == "__main__":
    for r in run("C11", "quick", 300):
        print(r["task"], r["status"], r["paths"], r["possible"], f"{r['solver_s']:.1f}s")
        if "tb" in r: print(r["tb"])
        for o in r["obligations"]:
            print("   ", o["status"], o["name"], o["seconds"])
            if o["status"] != "discharged": print("      ", o["path"], str(o["detail"])[:600])
