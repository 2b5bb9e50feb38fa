"""C10: contracts of the number codec and of the path helpers, on the real code, for every alphabet of two or more characters and
every step length.

A string over the alphabet is a numeral: its length n and its value v < r^n, r the size of the alphabet (every string over the
alphabet is one, and two strings are equal exactly when length and value are).  Concatenation is v1 * r^n2 + v2; strings of one
length compare, in alphabet order, as their values.  r^k is the function pw with pw(0) = 1, pw(1) = r, pw(a+b) = pw(a) pw(b)."""
import importlib, sys, time, traceback
import z3
import core, table, vc, ops
from core import SymInt, SymBool, Unsupported, PathEnd, raw, prove
And, Or, Not, Implies, If, BoolVal = z3.And, z3.Or, z3.Not, z3.Implies, z3.If, z3.BoolVal
I = z3.IntSort()
pw = z3.Function("pw", I, I)
R = z3.Int("radix")
ACTIVE = None


class Spec:
    """the world of one path"""
    def __init__(self, c):
        self.c, self.lens = c, []
        c.assume(R >= 2, pw(0) == 1, pw(1) == R)

    def power(self, n):
        n = z3.simplify(n)
        if not any(n.eq(m) for m in self.lens):
            self.lens.append(n)
            self.c.assume(Implies(n >= 0, pw(n) >= 1), Implies(n >= 1, And(pw(n) == R * pw(n - 1), pw(n) >= 2, pw(n - 1) >= 1)))
        return pw(n)

    def product(self, a, b):
        """pw(a+b) = pw(a) pw(b), and what follows for the order"""
        a, b = z3.simplify(a), z3.simplify(b)
        pa, pb, ps = self.power(a), self.power(b), self.power(a + b)
        self.c.assume(Implies(And(a >= 0, b >= 0), And(ps == pa * pb, ps >= pa, ps >= pb)))

    def mono(self, a, b):
        """a <= b -> pw(a) <= pw(b)"""
        self.product(a, b - a)


def fresh(n): return core.C.fresh(n, I)
def P(n): return ACTIVE.power(n)
def sure(g): return core.C.ask(g, 5000)
def unique(x, y):
    """two decompositions of the same number by the same power are the same"""
    (p1, s1), (p2, s2) = x, y
    core.C.assume(Implies(And(s1.n == s2.n, p1.v * P(s1.n) + s1.v == p2.v * P(s2.n) + s2.v), And(p1.v == p2.v, s1.v == s2.v)))


def text(o):
    if isinstance(o, Num): return o
    if isinstance(o, str) and o == "": return Num(z3.IntVal(0), z3.IntVal(0))
    raise Unsupported(f"text {o!r}")


class Num:
    vc_is_str = True
    __hash__ = None
    def __init__(self, n, v):
        self.n, self.v, self.cuts = z3.simplify(n), v, []
    @staticmethod
    def any(name, n=None):
        c = core.C
        n = fresh(name + "_len") if n is None else n
        v = fresh(name + "_val")
        c.assume(n >= 0, 0 <= v, v < P(n))
        return Num(n, v)
    def __repr__(self): return f"text({self.n},{self.v})"
    def vc_len(self): return SymInt(self.n)
    def vc_str(self): return self
    def vc_fstr(self, vals):
        if any(isinstance(v, str) and v for v in vals): return "<text>"       # a message
        out = Num(z3.IntVal(0), z3.IntVal(0))
        for v in vals: out = out + text(v)
        return out
    def __bool__(self): return core.C.branch(self.n > 0, "text is not empty")
    def __add__(self, o):
        try: o = text(o)
        except Unsupported: return NotImplemented
        if z3.is_int_value(o.n) and o.n.as_long() == 0: return self
        if z3.is_int_value(self.n) and self.n.as_long() == 0: return o
        ACTIVE.product(self.n, o.n)
        r = Num(self.n + o.n, self.v * P(o.n) + o.v)
        core.C.assume(r.v >= 0, r.v < P(r.n))
        r.cuts.append((self.n, self, o))
        return r
    def __radd__(self, o): return text(o) + self
    def __mul__(self, k):
        k = raw(k)
        if z3.is_int_value(self.n) and self.n.as_long() == 1:
            m = k if sure(k >= 0) else If(k >= 0, k, 0)
            if not z3.is_int_value(z3.simplify(m)) and not sure(k >= 0):
                if core.C.branch(k < 0, "negative repetition"): return Num(z3.IntVal(0), z3.IntVal(0))
                m = k
            if sure(self.v == 0): P(m); return Num(m, z3.IntVal(0))
            if sure(self.v == R - 1): P(m); return Num(m, P(m) - 1)
        raise Unsupported("repetition of a text")
    __rmul__ = __mul__

    # ---- parts
    def cut(self, m):
        """(first m characters, the rest); 0 <= m <= n"""
        c = core.C
        m = z3.simplify(m)
        for k, a, b in self.cuts:
            if k.eq(m) or sure(k == m): return a, b
        ACTIVE.product(m, self.n - m)
        a, b = Num.any("head", m), Num.any("tail", z3.simplify(self.n - m))
        c.assume(self.v == a.v * P(b.n) + b.v)
        self.cuts.append((m, a, b))
        return a, b
    def __getitem__(self, k):
        c = core.C
        if isinstance(k, (int, SymInt)): k = slice(k, None if isinstance(k, int) and k == -1 else k + 1)
        if not isinstance(k, slice) or k.step is not None: raise Unsupported("slice of a text")
        def end(x, default):
            if x is None: return default
            t = raw(x)
            if c.branch(t < 0, "slice from the end"):
                t = self.n + t
                return z3.IntVal(0) if c.branch(t < 0, "slice beyond the start") else t
            return self.n if not z3.is_true(z3.simplify(t == self.n)) and c.branch(t > self.n, "slice beyond the end") else t
        a, b = end(k.start, z3.IntVal(0)), end(k.stop, self.n)
        if c.branch(a >= b, "empty slice"): return Num(z3.IntVal(0), z3.IntVal(0))
        s, off = self, a
        if not z3.is_true(z3.simplify(b == self.n)): s = self.cut(b)[0]
        if not z3.is_true(z3.simplify(a == 0)): s = s.cut(a)[1]
        return s
    def startswith(self, o):
        o = text(o)
        if not core.C.branch(o.n <= self.n, "prefix is not longer"): return False
        if z3.is_true(z3.simplify(o.n == 0)): return True
        return SymBool(self.cut(o.n)[0].v == o.v)
    def endswith(self, o):
        o = text(o)
        if not core.C.branch(o.n <= self.n): return False
        return SymBool(self.cut(self.n - o.n)[1].v == o.v)
    def rjust(self, w, ch):
        ch = text(ch)
        w = raw(w)
        if core.C.branch(w <= self.n, "no padding needed"): return self
        return ch * SymInt(w - self.n) + self
    # ---- relations
    def eq(self, o): return And(self.n == o.n, self.v == o.v)
    def __eq__(self, o):
        if not isinstance(o, (Num, str)): return False
        return SymBool(self.eq(text(o)))
    def __ne__(self, o):
        if not isinstance(o, (Num, str)): return True
        return SymBool(Not(self.eq(text(o))))
    def lt(self, o):
        c = core.C
        if c.branch(self.n == o.n, "texts of one length"): return self.v < o.v
        if c.branch(self.n < o.n, "shorter text"): return self.v <= o.cut(self.n)[0].v
        return self.cut(o.n)[0].v < o.v
    def __lt__(self, o): return SymBool(self.lt(text(o)))
    def __gt__(self, o): return SymBool(text(o).lt(self))
    def __le__(self, o): return SymBool(Not(text(o).lt(self)))
    def __ge__(self, o): return SymBool(Not(self.lt(text(o))))
    def __iter__(self): raise Unsupported("iteration over a text without a loop contract")


class Foreign:
    """a character that is not in the alphabet"""
    vc_is_str = True
    def vc_fstr(self, vals): return "<text>"


class Alphabet:
    """r distinct characters"""
    vc_is_str = True
    def vc_len(self): return SymInt(R)
    def vc_str(self): return self
    def vc_set(self): return self            # they are distinct
    def vc_fstr(self, vals): return "<text>"
    def __getitem__(self, k):
        if not isinstance(k, (int, SymInt)): raise Unsupported("slice of the alphabet")
        t, c = raw(k), core.C
        if c.branch(t < 0, "negative index"): t = t + R
        if c.branch(Or(t < 0, t >= R), "index outside the alphabet"): raise core.real(IndexError("string index out of range"))
        return Num(z3.IntVal(1), t)
    def index(self, ch): return Map()[ch]
    find = index
    def __contains__(self, ch):
        if isinstance(ch, Foreign): return False
        if isinstance(ch, Num) and z3.is_int_value(ch.n) and ch.n.as_long() == 1: return True
        raise Unsupported("in alphabet")
    def vc_enumerate(self, *a):
        if a: raise Unsupported("enumerate(alphabet, start)")
        return Pairs(False)
    def vc_zip(self, args):
        if len(args) == 2:
            for i in (0, 1):
                o = args[1 - i]
                if args[i] is self and isinstance(o, vc.SymRange) and (len(o.args) == 1 or isinstance(o.args[0], int) and o.args[0] == 0) and sure(raw(o.args[-1] if len(o.args) < 3 else 0) == R):
                    return Pairs(i == 0)
        raise Unsupported("zip")
    def __iter__(self): raise Unsupported("iteration over the alphabet")


class Pairs:
    """(character, index) for the whole alphabet, or the other way round"""
    def __init__(self, charfirst): self.charfirst = charfirst
    def vc_dict(self): return Map(self.charfirst)
    def __iter__(self): raise Unsupported("iteration over the alphabet")


class Map:
    def __init__(self, bychar=True): self.bychar = bychar
    def __getitem__(self, k):
        if not self.bychar: return Alphabet()[k]
        if isinstance(k, Foreign): raise core.real(KeyError("foreign character"))
        if isinstance(k, Num) and z3.is_int_value(k.n) and k.n.as_long() == 1: return SymInt(k.v)
        raise Unsupported("cached_map[...]")
    def get(self, k, d=None):
        try: return self[k]
        except KeyError: return d
    def __contains__(self, k): return not isinstance(k, Foreign)


# ------------------------------------------------------------------------------------------------------- loop contracts
def ob(name, g):
    if not core.C.replaying(): core.C.checks.append(prove(core.C, f"{ACTIVE.prefix}: {name}", g))
    core.C.assume(g)


class DigitsLoop(vc.Plain):
    """a loop that peels digits off a number and puts them in front of a text.

    invariant: the number asked for = the number left * r^(length of the text) + the text's value, and the number left is positive
    once there is a digit (so that no leading zero is written); variant: the number left."""
    def __init__(self, loc, s, n):
        c = core.C
        self.s, self.n, self.goal = s, n, ACTIVE.ghost_num
        ob("loop: invariant holds at the start", self.inv(text(loc[s]), raw(loc[n])))
        self.txt, self.num = Num.any("done"), fresh("left")
        c.assume(self.inv(self.txt, self.num))
        self.havoc = {s: self.txt, n: SymInt(self.num)}
    def inv(self, t, num):
        return And(num >= 0, self.goal == num * P(t.n) + t.v, Implies(t.n >= 1, num >= 1))
    def elements(self):
        fr = sys._getframe(1)
        yield None
        t, num = text(fr.f_locals[self.s]), raw(fr.f_locals[self.n])
        ob("loop: invariant is kept", self.inv(t, num))
        ob("loop: the number left decreases", And(num < self.num, num >= 0))
        raise PathEnd


class ReadLoop(vc.Plain):
    """a loop over the characters of a text that accumulates a number.  invariant: the number is the value of the part read"""
    def __init__(self, loc, it, n):
        c = core.C
        self.it, self.n = it, n
        ob("loop: invariant holds at the start", raw(loc[n]) == 0)
        self.i, self.p = fresh("read_len"), fresh("read_val")
        c.assume(0 <= self.i, self.i <= it.n, 0 <= self.p, self.p < P(self.i))
        self.havoc = {n: SymInt(self.p)}
    def elements(self):
        c = core.C
        fr = sys._getframe(1)
        if not c.branch(self.i < self.it.n, "loop: another character"):
            c.assume(self.p == self.it.v)
            return
        if ACTIVE.foreign and c.branch(c.fresh("foreign_here", z3.BoolSort()), "a foreign character"):
            yield Foreign()
            ob("a foreign character is refused", BoolVal(False))
            raise PathEnd
        d = fresh("digit")
        c.assume(0 <= d, d < R)
        yield Num(z3.IntVal(1), d)
        ob("loop: invariant is kept", raw(fr.f_locals[self.n]) == self.p * R + d)
        raise PathEnd


def finder(key, it, loc, assigned):
    if ACTIVE is None: return None
    ints = [k for k in assigned if isinstance(loc.get(k), (int, SymInt)) and not isinstance(loc.get(k), bool)]
    if isinstance(it, Num):
        if len(ints) != 1: raise Unsupported("loop without a contract")
        return ReadLoop(loc, it, ints[0])
    if isinstance(it, str) and it == "while":
        strs = [k for k in assigned if isinstance(loc.get(k), (str, Num))]
        if len(strs) == 1 and len(ints) == 1 and ACTIVE.ghost_num is not None: return DigitsLoop(loc, strs[0], ints[0])
        raise Unsupported("loop without a contract")
    return None
vc.FINDERS.insert(0, finder)


# -------------------------------------------------------------------------------------------------------------- scenes
def conv():
    return importlib.import_module("treebeard.numconv").NumConv


def contract_int2str(num):
    """what int2str promises (proved as such below)"""
    c = core.C
    x = raw(num)
    if c.branch(x < 0, "negative number"): raise core.real(ValueError("number must be positive"))
    t = Num.any("numeral")
    c.assume(t.v == x, t.n >= 1, Implies(t.n > 1, x >= P(t.n - 1)))
    return t

def contract_str2int(s):
    s = text(s)
    return SymInt(s.v)


def scene_int2str(c, A):
    n = conv()(Alphabet())
    x = fresh("number"); A.ghost_num = x
    try: t = n.int2str(SymInt(x))
    except ValueError: return [goal("ValueError is raised only for a negative number", x < 0)]
    if not isinstance(t, Num): return [goal("a text over the alphabet is returned", BoolVal(False))]
    return [goal("a negative number is refused", x >= 0), goal("the text's value is the number", t.v == x), goal("the text is not empty", t.n >= 1),
            goal("no leading zeroes", Implies(t.n > 1, x >= P(t.n - 1))), goal("all characters are in the alphabet", And(0 <= t.v, t.v < P(t.n)))]

def scene_str2int(c, A):
    n = conv()(Alphabet())
    s = Num.any("text"); A.ghost_num = None
    x = n.str2int(s)
    return [goal("the number is the text's value", raw(x) == s.v)]

def scene_foreign(c, A):
    n = conv()(Alphabet())
    s = Num.any("text"); A.foreign = True
    try: n.str2int(s)
    except ValueError: return [goal("a foreign character is refused with ValueError", BoolVal(True))]
    return []

def scene_roundtrip(c, A):
    M = A.model()
    x = fresh("number")
    c.assume(x >= 0)
    return [goal("decoding the encoded number gives it back", raw(M._str2int(M._int2str(SymInt(x)))) == x)]

def path(A, k, name="path"):
    """a path of k whole steps"""
    return Num.any(name, k * A.s)

def fits(A, x):
    P(A.s)
    return x < pw(A.s)

def key_facts(A, t):
    """the numeral of x has at most s characters exactly when x < r^s"""
    ACTIVE.mono(t, A.s); ACTIVE.mono(A.s, t - 1)

def scene_get_path(c, A):
    M = A.model()
    d, x, k = fresh("depth"), fresh("step"), fresh("steps")
    c.assume(d >= 1, x >= 0, k >= d - 1, fits(A, x))
    base = None
    if c.branch(c.fresh("nobase", z3.BoolSort()), "no base path"): c.assume(d == 1)
    else: base = path(A, k)
    m, k2 = (d - 1) * A.s, k * A.s
    c.assume(m <= k2, m >= 0, Implies(d == 1, m == 0))
    p = M._get_path(base, SymInt(d), SymInt(x))
    head = base.cut(m)[0] if base is not None else Num(z3.IntVal(0), z3.IntVal(0))
    if isinstance(p, str): return [goal("a path is returned", BoolVal(False))]
    return [goal("the parent's part is kept and exactly one step is added", And(p.n == m + A.s, p.cut(m)[0].v == head.v)),
            goal("the step added holds the position", p.v == head.v * P(A.s) + x)]

def scene_get_path_order(c, A):
    M = A.model()
    d, x, y, k = fresh("depth"), fresh("step"), fresh("step"), fresh("steps")
    c.assume(d >= 1, x >= 0, y >= 0, k >= d - 1, fits(A, x), fits(A, y))
    base = path(A, k)
    c.assume((d - 1) * A.s <= k * A.s, (d - 1) * A.s >= 0, Implies(d == 1, (d - 1) * A.s == 0))
    p, q = M._get_path(base, SymInt(d), SymInt(x)), M._get_path(base, SymInt(d), SymInt(y))
    return [goal("paths of siblings compare as their positions", p.lt(q) == (x < y))]

def scene_inc_path(c, A):
    M = A.model()
    k = fresh("steps")
    c.assume(k >= 1, k * A.s >= A.s)
    o = M.__new__(M)
    p = o.path = path(A, k)
    head, last = p.cut(p.n - A.s)
    P(A.s)
    try: q = o._inc_path()
    except ops.EXC.PathOverflow: return [goal("PathOverflow is raised only at the last position", last.v + 1 == P(A.s))]
    return [goal("the last position has no successor", last.v + 1 < P(A.s)), goal("the successor has the same length", q.n == p.n),
            goal("the successor has the same parent and the next position", q.v == head.v * P(A.s) + last.v + 1),
            goal("the node's own path is not touched", o.path.eq(p))]

def scene_lastpos(c, A):
    M = A.model()
    k = fresh("steps")
    c.assume(k >= 1, k * A.s >= A.s)
    o = M.__new__(M)
    p = o.path = path(A, k)
    return [goal("the last step's position is read", raw(o._get_lastpos_in_path()) == p.cut(p.n - A.s)[1].v)]

def scene_basepath(c, A):
    M = A.model()
    k, d = fresh("steps"), fresh("depth")
    c.assume(0 <= d, d <= k, 0 <= d * A.s, d * A.s <= k * A.s, Implies(k == 0, k * A.s == 0))
    p = path(A, k)
    b = text(M._get_basepath(p, SymInt(d)))
    return [goal("the first steps of the path", b.eq(p.cut(d * A.s)[0]))]

def scene_parent(c, A):
    M = A.model()
    k = fresh("steps")
    c.assume(k >= 1, k * A.s >= A.s)
    p = path(A, k)
    b = text(M._get_parent_path_from_path(p))
    return [goal("all steps but the last", b.eq(p.cut(p.n - A.s)[0]))]

def scene_empty(c, A):
    M = A.model()
    d = fresh("depth")
    c.assume(d >= 0, d * A.s >= 0)
    return [goal("the empty path has no parent part", text(M._get_basepath("", SymInt(d))).n == 0), goal("and no parent", text(M._get_parent_path_from_path("")).n == 0)]

def scene_interval(c, A):
    M = A.model()
    k = fresh("steps")
    c.assume(k >= 0, k * A.s >= 0)
    p = path(A, k)
    lo, hi = M._get_children_path_interval(p)
    lo, hi = text(lo), text(hi)
    q = Num.any("other", p.n + A.s)          # any path one step longer
    head, last = q.cut(p.n)
    P(A.s)
    out = [goal("both ends are one step longer", And(lo.n == p.n + A.s, hi.n == p.n + A.s))]
    out.append(goal("the interval holds exactly the children's paths", And(lo.v <= q.v, q.v <= hi.v) == (head.v == p.v)))
    return out


def lemma_pw(c, A):
    """pw(a+b) = pw(a) pw(b) by induction on b, from pw(0) = 1 and pw(k+1) = r pw(k)"""
    f = z3.Function("pow", I, I)
    a, b = fresh("a"), fresh("b")
    c.assume(f(0) == 1, a >= 0, b >= 0, f(b + 1) == R * f(b), f(a + b + 1) == R * f(a + b))
    return [goal("lemma pw(a+b) = pw(a) pw(b): start", f(a + 0) == f(a) * f(0)), goal("lemma pw(a+b) = pw(a) pw(b): step", Implies(f(a + b) == f(a) * f(b), f(a + (b + 1)) == f(a) * f(b + 1))),
            goal("lemma pw > 0: step", Implies(f(b) >= 1, f(b + 1) >= 1))]

def lemma_concat(c, A):
    """the concatenation of two numerals is one: v1 r^n2 + v2 < r^(n1+n2); and its parts are determined"""
    p, q, x, y, x2, y2 = [fresh(n) for n in ("p", "q", "x", "y", "x2", "y2")]
    c.assume(p >= 1, q >= 1, 0 <= x, x < p, 0 <= y, y < q, 0 <= x2, 0 <= y2, y2 < q)
    return [goal("lemma: a concatenation is a text", And(x * q + y >= 0, x * q + y < p * q)),
            goal("lemma: the parts of a text are determined", Implies(x * q + y == x2 * q + y2, And(x == x2, y == y2)))]


def goal(name, g): return prove(core.C, f"{ACTIVE.prefix}: {name}", g)


SCENES = [("numconv.int2str", scene_int2str, False), ("numconv.str2int", scene_str2int, False), ("numconv.str2int with a foreign character", scene_foreign, False),
          ("MP_Node._int2str/_str2int", scene_roundtrip, True), ("MP_Node._get_path", scene_get_path, True), ("MP_Node._get_path (order)", scene_get_path_order, True),
          ("MP_Node._inc_path", scene_inc_path, True), ("MP_Node._get_lastpos_in_path", scene_lastpos, True), ("MP_Node._get_basepath", scene_basepath, True),
          ("MP_Node._get_parent_path_from_path", scene_parent, True), ("MP_Node helpers on the empty path", scene_empty, True), ("MP_Node._get_children_path_interval", scene_interval, True),
          ("lemma: powers", lemma_pw, False), ("lemma: concatenation", lemma_concat, False)]


def run(prop, tier, secs):
    global ACTIVE
    recs = []
    be = ops.backend("mp", {})
    K = conv()
    real = (K.__dict__["int2str"], K.__dict__["str2int"])
    for name, fn, by_contract in SCENES:
        t0 = time.time()
        stats = {"solver_s": 0.0, "queries": 0}
        rec = {"task": name, "obligations": [], "paths": 0, "status": "done"}
        pad, core.PAD = core.PAD, None
        def one(c, fn=fn, by=by_contract, name=name):
            global ACTIVE
            c.solver = z3.SimpleSolver()
            A = ACTIVE = Spec(c)
            A.prefix, A.ghost_num, A.foreign = name, None, False
            A.s = z3.Int("steplen")
            c.assume(A.s >= 1)
            A.model = lambda: MODEL(be, A)
            K.int2str, K.str2int = ((lambda self, x: contract_int2str_for(A, x)), (lambda self, x: contract_str2int(x))) if by else real
            table.W = table.World(be)
            rec["paths"] += 1
            res = fn(c, A)
            if c.check([], 2000) != z3.unsat: rec["possible"] = rec.get("possible", 0) + 1
            return res
        try:
            res = core.explore(one, stats, deadline=time.time() + max(20, secs / 3))
            rec["obligations"] = [r.as_dict() for r in res]
        except Unsupported as e: rec["status"] = f"unsupported: {e}"
        except core.Budget as e: rec["status"] = f"budget: {e}"
        except Exception as e:
            rec["status"] = f"unsupported: the engine failed ({type(e).__name__}: {e})"; rec["tb"] = traceback.format_exc()[-2500:]
        finally:
            K.int2str, K.str2int = real
            core.PAD = pad; ACTIVE = None
        rec["returned"] = rec["possible"] = rec.get("possible", 0)
        rec["solver_s"] = stats["solver_s"]
        recs.append(rec)
    return recs


def contract_int2str_for(A, x):
    t = contract_int2str(x)
    key_facts(A, t.n)
    return t


def MODEL(be, A):
    class M(be.mod.MP_Node):
        node_order_by = []
        alphabet = Alphabet()
        steplen = SymInt(A.s)
    return M


if __name__ == "__main__":
    for r in run("C10", "quick", 300):
        print(r["task"], r["status"], r["paths"], f"{r['solver_s']:.1f}s")
        if "tb" in r: print(r["tb"])
        for o in r["obligations"]:
            print("   ", o["status"], o["name"], o["seconds"]); 
            if o["status"] != "discharged": print("      ", o["path"], o["detail"][:600])
