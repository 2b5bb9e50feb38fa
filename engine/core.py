"""Path-wise symbolic execution of the real functions and discharge of their proof obligations with z3.

The functions under contract are executed by CPython on symbolic values; a symbolic condition that is asked for its truth
value forks the path (depth-first, by re-execution with a recorded list of decisions).  Universally quantified facts
(invariants of the pre-state, "this is the first row", ...) are kept as Python closures and are instantiated over the
ground terms of the path, so that every query is quantifier free.  An obligation is discharged when the solver finds the
path condition, the instantiated facts and the negated goal unsatisfiable.
"""
import itertools, os, re, sys, time
import z3


class Unsupported(Exception):
    """The code does something this engine has no semantics for: nothing is proved about it."""


def real(e):
    """an exception that the modelled function raises itself"""
    e.vc_real = True
    return e


ENGINE = os.path.dirname(os.path.abspath(__file__))
MODEL_API = {"full_clean", "clean", "clean_fields", "validate_unique", "get_deferred_fields", "serializable_value", "save_base", "arefresh_from_db", "asave", "from_db", "unique_error_message",
             "get_next_in_order", "get_previous_in_order", "prepare_database_save", "validate_constraints", "adelete", "date_error_message"}

def own(e):
    """the exception comes from a construct that the verifier does not know, not from the code under contract"""
    if getattr(e, "vc_real", False): return False
    tb = e.__traceback__
    if tb is None: return False
    while tb.tb_next: tb = tb.tb_next
    if isinstance(e, (TypeError, AttributeError, IndexError, KeyError, AssertionError, UnboundLocalError, ValueError, NotImplementedError)) and tb.tb_frame.f_code.co_filename.startswith(ENGINE): return True
    import table
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        if o is None: return False
        if isinstance(o, table.Model) or isinstance(o, type) and issubclass(o, table.Model): return e.name in MODEL_API
        if isinstance(o, (table.Manager, table.QuerySet)): return not (e.name or "").startswith("_")
        return type(o).__module__ in OWN_MODULES or isinstance(o, type) and o.__module__ in OWN_MODULES
    if isinstance(e, TypeError):
        words = set(re.findall(r"\w+", str(e)))
        return any(n in words for m in OWN_MODULES if m in sys.modules for n, v in vars(sys.modules[m]).items() if isinstance(v, type) and v.__module__ == m)
    return False


OWN_MODULES = ("core", "table", "vc", "mp", "mpath", "ns", "al", "lt", "common", "ops", "query", "codec", "deleg", "labels", "loader", "collect", "delete")


class PathEnd(BaseException):
    """The current path is finished (infeasible, or closed by a loop contract)."""


class Budget(Exception):
    pass


def mentions(e, ids):
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in ids: return True
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        todo += x.children()
    return False


C = None          # the current context
PAD = None        # text repeated a symbolic number of times
SORTS = {}
SUBST, KEEP = {}, []      # instances already built (they are shared by the paths of a scene)


def sort(name):
    if name == "Int":
        return z3.IntSort()
    if name == "Label": return z3.RealSort()
    if name not in SORTS:
        SORTS[name] = z3.DeclareSort(name)
    return SORTS[name]


class Ctx:
    def __init__(self, decisions, stats, label=""):
        self.decisions, self.pos = list(decisions), 0
        self.ninit = len(self.decisions)
        self.pc = []                # ground assumptions
        self.univ = []              # (name, sorts, fn)
        self.terms = {}             # sort name -> {id: term}
        self.counter = {}
        self.stats, self.label = stats, label
        self.alternatives = []      # decision prefixes still to explore
        self.trace = []             # human-readable account of the branches taken
        self.templates, self.pinned = {}, set()
        self.inst_cache, self.done, self.done_size, self.keep = {}, set(), {}, []
        self.solver, self.npc = z3.SimpleSolver(), 0
        self.solver.set("smt.arith.solver", 2)
        self.loose = []             # conditions under which nothing that was left open on this path (an over-approximation) matters
        self.checks = []            # obligations raised along the path (loop invariants ...): proved on the spot

    # ---- symbols
    def fresh(self, base, srt):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        name = f"{base}!{n}" if n else base
        return z3.Const(name, sort(srt) if isinstance(srt, str) else srt)

    in_stay = None              # the body of a search loop is running on a row that the contract skips
    derive = None               # fn(sort name, term) -> further ground terms [(sort name, term)]

    def term(self, sname, t):
        """register a ground term for instantiation"""
        d = self.terms.setdefault(sname, {})
        if t.get_id() not in d:
            d[t.get_id()] = t
            if self.derive:
                for s2, t2 in self.derive(sname, t): self.terms.setdefault(s2, {})[t2.get_id()] = t2
        return t

    def drop(self, sname, t):
        """the term plays no further part on this path"""
        d = self.terms.get(sname, {})
        for t2 in [t] + [x for s2, x in (self.derive(sname, t) if self.derive else []) if s2 == sname]:
            if t2.get_id() in d and t2.get_id() not in self.pinned: del d[t2.get_id()]

    # ---- assumptions
    def assume(self, *cs):
        for c in cs:
            if isinstance(c, SymBool): c = c.t
            if isinstance(c, bool): c = z3.BoolVal(c)
            self.pc.append(c)

    def forall(self, name, sorts, fn):
        """the fact is built here, once, over placeholders; instances are substitutions"""
        k = len(self.univ)
        self.univ.append((name, tuple(sorts), fn))
        ph = [z3.Const(f"?{k}.{i}", sort(s)) for i, s in enumerate(sorts)]
        npc = len(self.pc)
        self.univ[k] = (name, (), lambda: z3.BoolVal(True))       # not used while it is being built
        self.templates[k] = ([], z3.BoolVal(True), 0)
        e = fn(*ph)
        if isinstance(e, bool): e = z3.BoolVal(e)
        ids = {p.get_id() for p in ph}
        for f in self.pc[npc:]:
            if mentions(f, ids): raise Unsupported(f"a fact with effects: {name}")
        self.univ[k] = (name, tuple(sorts), fn)
        self.templates[k] = (ph, e, e.get_id())
        self.done_size.pop(k, None)

    def instances(self, extra_terms=None):
        """new instances of the universal facts, [(key, formula)]"""
        terms = {s: list(d.values()) for s, d in self.terms.items()}
        extra = {s: list(l) for s, l in (extra_terms or {}).items()}
        if self.derive:
            for s, l in list((extra_terms or {}).items()):
                if s.startswith("+"): continue      # "+Row": witnesses, taken as they are
                for t in l:
                    for s2, t2 in self.derive(s, t): extra.setdefault(s2, []).append(t2)
        for s, l in extra.items():
            s = s.lstrip("+")
            ids = {t.get_id() for t in terms.get(s, [])}
            for t in l:
                if t.get_id() not in ids:
                    ids.add(t.get_id()); terms[s] = terms.get(s, []) + [t]
        size = tuple(sorted((s, len(l)) for s, l in terms.items()))
        pairs = {s: [(t.get_id(), t) for t in l] for s, l in terms.items()}
        out = []
        for k, (name, sorts, fn) in enumerate(self.univ):
            if self.done_size.get(k) == size: continue
            if not extra_terms: self.done_size[k] = size
            done, cache = self.done, self.inst_cache
            for combo in itertools.product(*[pairs.get(s, ()) for s in sorts]):
                key = (k, len(sorts)) + tuple([p[0] for p in combo])
                if key in done: continue
                e = cache.get(key)
                if e is None:
                    e = cache[key] = self.instance(k, combo)
                    self.keep.append(combo)
                out.append((key, e))
        return out

    def instance(self, k, combo):
        """the fact at the given terms"""
        t = self.templates[k]
        if not t[0]: return t[1]
        key = (t[2],) + tuple([p[0] for p in combo])
        e = SUBST.get(key)
        if e is None:
            if len(SUBST) > 400000: SUBST.clear(); KEEP.clear()
            n = len(combo)
            frm, to = (z3.Ast * n)(), (z3.Ast * n)()
            for i in range(n): frm[i], to[i] = t[0][i].as_ast(), combo[i][1].as_ast()
            ctx = t[1].ctx
            e = SUBST[key] = z3.BoolRef(z3.Z3_substitute(ctx.ref(), t[1].as_ast(), n, frm, to), ctx)
            KEEP.append((t, combo))
        return e

    # ---- queries
    def check(self, extra, timeout, extra_terms=None):
        s = self.solver
        t0 = time.time()
        s.set("timeout", timeout)
        s.add(self.pc[self.npc:])
        self.npc = len(self.pc)
        new = self.instances()
        s.add([e for _, e in new])
        self.done.update(k for k, _ in new)
        s.push()
        try:
            if extra_terms: s.add([e for _, e in self.instances(extra_terms)])
            s.add(self.pc[self.npc:])       # facts assumed while the instances were built
            s.add(extra)
            t1 = time.time()
            r = s.check()
            dt = time.time() - t1
            self.stats["solver_s"] += dt
            if os.environ.get("VC_SLOW") and dt > 1:
                print(f"slow {dt:.1f}s {r} terms={ {s: len(l) for s, l in self.terms.items()} } asserted={len(s.assertions())} {str(z3.simplify(extra[0]))[:100] if extra else ''}", flush=True)
                if os.environ.get("VC_DUMP"):
                    open(f"/tmp/q{self.stats['queries']}.smt2", "w").write(s.to_smt2())
            self.last_model = s.model() if r == z3.sat else None
            self.last_reason = s.reason_unknown() if r == z3.unknown else ""
        finally:
            s.pop()
        self.stats["queries"] += 1
        return r

    def feasible(self, c):
        return self.check([c], 1500) != z3.unsat

    def branch(self, c, why=""):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            self.assume(c if d else z3.Not(c))
            self.trace.append((why, d, c))
            return d
        t = self.feasible(c)
        f = self.feasible(z3.Not(c))
        if not t and not f:
            raise PathEnd
        if t and f:
            self.alternatives.append(self.decisions[:self.pos] + [False])
        d = bool(t)
        self.decisions.append(d)
        self.pos += 1
        if sum(x is True or x is False for x in self.decisions) > self.stats.get("max_decisions", 60):
            raise Budget(f"too many decisions on one path")
        self.assume(c if d else z3.Not(c))
        self.trace.append((why, d, c))
        return d

    def merged(self, fn):
        """the value of a boolean function without effects, over all ways its branches may go, as one term"""
        todo, out, b0, a0 = [[]], [], self.branch, self.assume
        while todo:
            script, conds = todo.pop(), []
            if len(out) > 16: raise Unsupported("condition with too many cases")
            def branch(c, why=""):
                c = z3.simplify(c)
                if z3.is_true(c): return True
                if z3.is_false(c): return False
                if len(conds) == len(script):
                    todo.append(script + [False])
                    script.append(True)
                d = script[len(conds)]
                conds.append(c if d else z3.Not(c))
                return d
            self.branch, self.assume = branch, lambda *fs: a0(*[z3.Implies(z3.And(conds), f) if conds else f for f in fs])
            try: v = fn()
            finally: self.branch, self.assume = b0, a0
            v = v.t if isinstance(v, SymBool) else z3.BoolVal(bool(v))
            out.append(z3.And(conds + [v]))
        return z3.Or(out)

    def replaying(self):
        """the path is still on the part it shares with the path it was split from: what is proved there has been proved already"""
        return self.pos < self.ninit

    def ask(self, g, timeout=4000, extra_terms=None):
        """is g certain here?  The answer is recorded with the decisions, so that a replayed path does not ask again."""
        g = z3.simplify(g)
        if z3.is_true(g): return True
        if z3.is_false(g) and not extra_terms: return False
        if self.pos < len(self.decisions):
            self.pos += 1
            return self.decisions[self.pos - 1][1]
        d = self.check([z3.Not(g)], timeout, extra_terms) == z3.unsat
        self.decisions.append(("p", d))
        self.pos += 1
        return d

    def choose(self, n, why=""):
        """nondeterministic choice among n alternatives"""
        for i in range(n - 1):
            b = self.fresh("choice", z3.BoolSort())
            if self.branch(b, why): return i
        return n - 1


# ------------------------------------------------------------------------------------------------- symbolic values
def raw(x):
    """the z3 term of a value"""
    if isinstance(x, (SymInt, SymBool)): return x.t
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, z3.ExprRef): return x
    if isinstance(x, float) and x == int(x): return z3.IntVal(int(x))
    raise Unsupported(f"no term for {x!r}")


class SymBool:
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __bool__(self): return C.branch(self.t)
    def __and__(self, o): return SymBool(z3.And(self.t, raw(o)))
    def __or__(self, o): return SymBool(z3.Or(self.t, raw(o)))
    def __invert__(self): return SymBool(z3.Not(self.t))
    def __eq__(self, o): return SymBool(self.t == raw(o))
    def __ne__(self, o): return SymBool(self.t != raw(o))
    __hash__ = None
    def __repr__(self): return f"SymBool({self.t})"


def num(o):
    return isinstance(o, (SymInt, int)) and not isinstance(o, bool) or isinstance(o, float) and o == int(o)


class SymInt:
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __add__(self, o): return SymInt(self.t + raw(o)) if num(o) else NotImplemented
    __radd__ = __add__
    def __sub__(self, o): return SymInt(self.t - raw(o)) if num(o) else NotImplemented
    def __rsub__(self, o): return SymInt(raw(o) - self.t) if num(o) else NotImplemented
    def __mul__(self, o):
        if isinstance(o, str) and PAD is not None: return PAD(o, self.t)
        return SymInt(self.t * raw(o)) if num(o) else NotImplemented
    __rmul__ = __mul__
    def __neg__(self): return SymInt(-self.t)
    def __pos__(self): return self
    def __abs__(self): return SymInt(z3.If(self.t >= 0, self.t, -self.t))
    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0: return SymInt(self.t / o)
        if isinstance(o, SymInt): return SymInt(divided(self.t, o.t)[0])
        raise Unsupported("division")
    def __truediv__(self, o):
        # exact division only: the path where it leaves a remainder is reported as unsupported
        if isinstance(o, int) and o > 0:
            if C.branch(self.t % o == 0, "exact division"): return SymInt(self.t / o)
        raise Unsupported("division with a remainder")
    def __mod__(self, o):
        if isinstance(o, int) and o > 0: return SymInt(self.t % o)
        if isinstance(o, SymInt): return SymInt(divided(self.t, o.t)[1])
        raise Unsupported("modulo")
    def __divmod__(self, o): return (self // o, self % o)
    def __eq__(self, o): return SymBool(self.t == raw(o)) if num(o) else False
    def __ne__(self, o): return SymBool(self.t != raw(o)) if num(o) else True
    def __lt__(self, o): return SymBool(self.t < raw(o)) if num(o) else NotImplemented
    def __le__(self, o): return SymBool(self.t <= raw(o)) if num(o) else NotImplemented
    def __gt__(self, o): return SymBool(self.t > raw(o)) if num(o) else NotImplemented
    def __ge__(self, o): return SymBool(self.t >= raw(o)) if num(o) else NotImplemented
    def __bool__(self): return C.branch(self.t != 0)
    def __int__(self): raise Unsupported("int() of a symbolic value outside the loader")
    def __index__(self): raise Unsupported("index from a symbolic value")
    __hash__ = None
    def __repr__(self): return f"SymInt({self.t})"


def divided(a, b):
    """quotient and remainder by a positive symbolic divisor"""
    memo = C.__dict__.setdefault("quotients", {})
    k = (a.get_id(), b.get_id())
    if k not in memo:
        if not C.ask(b > 0): raise Unsupported("division by a divisor that may not be positive")
        q, d = C.fresh("quotient", "Int"), C.fresh("remainder", "Int")
        C.assume(a == q * b + d, 0 <= d, d < b, z3.Implies(a >= 0, z3.And(q >= 0, q <= a)), z3.Implies(z3.And(a > 0, b >= 2), q < a), z3.Implies(a >= b, q >= 1), z3.Implies(z3.And(a >= 0, a < b), q == 0))
        memo[k] = (q, d, a, b)
    return memo[k][:2]


def ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    return z3.If(c, a, b)


# ------------------------------------------------------------------------------------------------- obligations
class Result:
    """one obligation on one path"""
    def __init__(self, name, status, seconds, path, detail=""):
        self.name, self.status, self.seconds, self.path, self.detail = name, status, seconds, path, detail

    def as_dict(self):
        return {"name": self.name, "status": self.status, "seconds": round(self.seconds, 3), "path": self.path, "detail": self.detail}


def prove(ctx, name, goal, extra_terms=None, timeout=20000):
    """goal: z3 Bool (already at skolem terms)"""
    if isinstance(goal, SymBool): goal = goal.t
    if isinstance(goal, bool): goal = z3.BoolVal(goal)
    t0 = time.time()
    r = ctx.check([z3.Not(goal)], timeout, extra_terms)
    dt = time.time() - t0
    status = {"unsat": "discharged", "sat": "refuted", "unknown": "unknown"}[str(r)]
    detail = ""
    if status == "refuted" and ctx.loose:
        r2 = ctx.check([z3.Not(goal)] + ctx.loose, timeout, extra_terms)
        if r2 != z3.sat: status, ctx.last_reason = "unknown", "only refuted where the verifier over-approximates the code"
    if status == "refuted":
        try:
            m = ctx.last_model
            detail = describe(ctx, m)
        except z3.Z3Exception as e:
            detail = str(e)
    elif status == "unknown":
        detail = ctx.last_reason
    return Result(name, status, dt, "" if status == "discharged" else path_text(ctx), detail)


def path_text(ctx):
    return "; ".join(f"{'' if d else 'not '}{why or str(c)[:80]}" for why, d, c in ctx.trace)[:1200]


def describe(ctx, m):
    out = []
    f = getattr(ctx, "describe", None)
    if f:
        try: return f(m)[:3000]
        except Exception as e: out.append(f"({e!r})")
    for d in m.decls():
        if d.arity() == 0: out.append(f"{d.name()}={m[d]}")
    return " ".join(out)[:1500]


class Restart(BaseException):
    """an inferred loop contract was not inductive: explore again with the next candidate"""


def explore(run, stats, max_paths=400, deadline=None):
    """run(ctx) executes one path and returns a list of Results (it may raise PathEnd)"""
    global C
    for attempt in range(30):
        todo, results, npaths = [[]], [], 0
        stats["attempt"] = attempt
        try:
            while todo:
                if deadline and time.time() > deadline: raise Budget("time")
                dec = todo.pop()
                ctx = Ctx(dec, stats)
                C = ctx
                try:
                    res = run(ctx)
                    npaths += 1
                    results += res + ctx.checks
                except PathEnd:
                    results += ctx.checks
                finally:
                    todo += ctx.alternatives
                if npaths > max_paths: raise Budget(f"more than {max_paths} paths")
        except Restart:
            continue
        stats["paths"] = stats.get("paths", 0) + npaths
        return results
    raise Budget("no inductive loop contract found")
