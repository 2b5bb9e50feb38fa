"""Loads the library's source from /repo with `django` replaced by the symbolic ORM of table.py.

The text that runs is the text in /repo, except for this mechanical rewriting of the syntax tree (made on every run):
  * f-strings become a call of __vc__.fstr with the same parts (so that parts may be symbolic);
  * `for`/`while` loops ask __vc__.loop whether there is a loop contract or a symbolic iterable; if there is neither, they run
    as written;
  * list comprehensions and generator expressions over one iterable become __vc__.comp (only used for symbolic iterables);
  * "text".join(x) becomes __vc__.join("text", x) (the parts may be symbolic);
  * the builtins len, int, str, sorted, range, list, set, dict, all, any, min, max, enumerate, reversed, zip, isinstance are looked up in __vc__ first.
Type annotations, docstrings and `warnings.warn` are kept but have no effect.
"""
import __future__, ast, importlib.abc, importlib.machinery, importlib.util, os, sys, types
import core, table

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "treebeard"


class Rewriter(ast.NodeTransformer):
    def __init__(self, mod): self.mod, self.fn, self.n = mod, [], [0]

    def visit_FunctionDef(self, node):
        self.fn.append(node.name); self.n.append(0)
        self.generic_visit(node)
        self.fn.pop(); self.n.pop()
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant): parts.append(v)
            else:
                if v.conversion not in (-1, 115) or v.format_spec is not None:
                    return node
                parts.append(ast.Tuple([v.value], ast.Load()))
        return ast.copy_location(ast.Call(ast.Attribute(ast.Name("__vc__", ast.Load()), "fstr", ast.Load()), parts, []), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == "join" and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str) and len(node.args) == 1 and not node.keywords:
            node.func, node.args = ast.Attribute(ast.Name("__vc__", ast.Load()), "join", ast.Load()), [f.value, node.args[0]]
        return node

    def _key(self):
        k = self.n[-1]
        self.n[-1] += 1
        return f"{self.mod}.{'.'.join(self.fn)}#{k}"

    @staticmethod
    def _assigned(body):
        out = []
        def names(t):
            if isinstance(t, ast.Name) and t.id not in out: out.append(t.id)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts: names(e)
            elif isinstance(t, ast.Starred): names(t.value)
            elif isinstance(t, ast.Attribute) and "." not in out: out.append(".")      # the state of some object changes
            elif isinstance(t, ast.Subscript): names(t.value) if isinstance(t.value, ast.Name) else names(ast.Attribute())
        class V(ast.NodeVisitor):
            def visit_Assign(self, n):
                for t in n.targets: names(t)
                self.generic_visit(n)
            def visit_AugAssign(self, n): names(n.target); self.generic_visit(n)
            def visit_AnnAssign(self, n): names(n.target); self.generic_visit(n)
            def visit_NamedExpr(self, n): names(n.target); self.generic_visit(n)
            def visit_For(self, n): names(n.target); self.generic_visit(n)
            def visit_Delete(self, n):
                for t in n.targets: names(t)
                self.generic_visit(n)
            def visit_Call(self, n):
                f = n.func
                if isinstance(f, ast.Attribute) and f.attr in MUTATORS:
                    names(f.value if isinstance(f.value, (ast.Name, ast.Attribute)) else ast.Attribute())
                self.generic_visit(n)
            def visit_FunctionDef(self, n): pass
            def visit_Lambda(self, n): pass
            def visit_ListComp(self, n): pass
            def visit_SetComp(self, n): pass
            def visit_DictComp(self, n): pass
            def visit_GeneratorExp(self, n): pass
        for s in body: V().visit(s)
        return out

    def _loop(self, node, target, it, extra):
        key = self._key()
        saved = self.n[-1]
        self.generic_visit(node)
        st = f"__st{saved}"
        assigned = self._assigned(node.body)
        P = lambda s: ast.parse(s).body
        pre = ast.Assign([ast.Name(st, ast.Store())], ast.Call(ast.Attribute(ast.Name("__vc__", ast.Load()), "loop", ast.Load()),
              [ast.Constant(key), it, ast.Call(ast.Name("locals", ast.Load()), [], []), ast.Constant(tuple(assigned))], []))
        hav = []
        for v in assigned:
            if v == ".": continue
            hav += P(f"if {v!r} in {st}.havoc: {v} = {st}.havoc[{v!r}]")
        orelse = P(f"{st}.end(locals())") + node.orelse
        loop = ast.For(target, ast.Call(ast.Attribute(ast.Name(st, ast.Load()), "elements", ast.Load()), [], []), extra + node.body, orelse)
        out = [pre] + hav + [loop]
        for s in out: ast.copy_location(s, node); ast.fix_missing_locations(s)
        return out

    def visit_For(self, node):
        return self._loop(node, node.target, node.iter, [])

    def visit_While(self, node):
        # while C: B   ->   for _ in endless: if not C: st.leave(); break ; B
        test = ast.UnaryOp(ast.Not(), node.test)
        ident = self.n[-1] + 1
        lv = ast.parse(f"__st{ident}.leave()").body
        brk = ast.If(test, lv + [ast.Break()], [])
        new = ast.For(ast.Name("__w", ast.Store()), ast.Constant("while"), [brk] + node.body, node.orelse)
        ast.copy_location(new, node); ast.fix_missing_locations(new)
        return self._loop(new, new.target, new.iter, [])

    def _comp(self, node, kind):
        self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].is_async: return node
        g = node.generators[0]
        # __vc__.comp(kind, iterable, lambda x: cond, lambda x: elt, original-as-thunk)
        if isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts): names = [e.id for e in g.target.elts]
        elif isinstance(g.target, ast.Name): names = [g.target.id]
        else: return node
        arg = ast.arguments([], [ast.arg(n) for n in names], None, [], [], None, [])
        cond = ast.Constant(True)
        if g.ifs: cond = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
        new = ast.Call(ast.Attribute(ast.Name("__vc__", ast.Load()), "comp" if isinstance(g.target, ast.Name) else "comp2", ast.Load()),
                       [ast.Constant(kind), g.iter, ast.Lambda(arg, cond), ast.Lambda(arg, node.elt), ast.Constant(bool(g.ifs))], [])
        return ast.copy_location(new, node)

    def visit_ListComp(self, node): return self._comp(node, "list")
    def visit_GeneratorExp(self, node): return self._comp(node, "gen")
    def visit_SetComp(self, node): return self._comp(node, "set")


MUTATORS = {"append", "extend", "insert", "add", "update", "pop", "remove", "discard", "clear", "setdefault", "reverse", "sort", "popitem"}
SHADOW = ["len", "int", "str", "sorted", "range", "list", "set", "all", "any", "min", "max", "enumerate", "reversed", "zip", "dict"]


class Functools:
    """functools with the reduce of vc.py"""
    def __getattr__(self, n):
        import functools, vc
        return vc.b_reduce if n == "reduce" else getattr(functools, n)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."): return None
        p = os.path.join(REPO, *name.split("."))
        if os.path.isdir(p): f, pkg = os.path.join(p, "__init__.py"), True
        else: f, pkg = p + ".py", False
        if not os.path.exists(f): return None
        spec = importlib.machinery.ModuleSpec(name, self, origin=f, is_package=pkg)
        spec.loader_state = f
        if pkg: spec.submodule_search_locations = [p]
        return spec
    def create_module(self, spec): return None
    def exec_module(self, m):
        f = m.__spec__.loader_state
        src = open(f).read()
        tree = Rewriter(m.__name__).visit(ast.parse(src))
        ast.fix_missing_locations(tree)
        import vc
        m.__dict__["__vc__"] = vc
        for b in SHADOW:
            m.__dict__[b] = getattr(vc, "b_" + b)
        m.__file__ = f
        exec(compile(tree, f, "exec", flags=__future__.annotations.compiler_flag, dont_inherit=True), m.__dict__)
        if "reduce" in m.__dict__: m.__dict__["reduce"] = vc.b_reduce
        import functools
        if m.__dict__.get("functools") is functools: m.__dict__["functools"] = Functools()


def mod(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    m.__path__ = []
    sys.modules[name] = m
    parent, _, leaf = name.rpartition(".")
    if parent: setattr(sys.modules[parent], leaf, m)
    return m


def install():
    T = table
    class cached_property:
        def __init__(self, fn): self.fn = fn
        def __set_name__(self, o, n): self.n = n
        def __get__(self, i, o):
            if i is None: return self
            v = i.__dict__[self.n] = self.fn(i)
            return v
    class Any_:
        def __init__(self, *a, **k): pass
        def __call__(self, *a, **k): return self
    class AnyMod(types.ModuleType):
        def __getattr__(self, n):
            if n.startswith("__"): raise AttributeError(n)
            return type(n, (Any_,), {})
    mod("django"); mod("django.core"); mod("django.db"); mod("django.dispatch", Signal=T.Signal); mod("django.utils")
    mod("django.utils.translation", gettext_noop=lambda s: s, gettext_lazy=lambda s: s, gettext=lambda s: s, ngettext=lambda *a: a[0])
    mod("django.utils.functional", cached_property=cached_property)
    class Conn:
        vendor = "sqlite"
        class features: can_return_rows_from_bulk_insert = True
    class Conns(dict):
        def __missing__(self, k): return Conn
    class Router:
        @staticmethod
        def db_for_write(*a, **k): return "default"
    dbm = mod("django.db.models", F=T.F, Q=T.Q, Value=T.Value, Func=T.Func, Case=T.Case, When=T.When, OuterRef=T.OuterRef, Subquery=T.Subquery,
              Exists=T.Exists, Max=T.Max, Min=T.Min, Model=T.Model, Manager=T.Manager, QuerySet=T.QuerySet, Field=T.Field)
    for f in ("CharField", "IntegerField", "PositiveIntegerField", "ForeignKey", "TextField"): setattr(dbm, f, type(f, (T.Field,), {}))
    dbm.Aggregate = T.Func
    class Lookup_: 
        pass
    dbm.Lookup, dbm.Transform = type("Lookup", (), {}), type("Transform", (T.Func,), {})
    dbm.UniqueConstraint, dbm.CheckConstraint = Any_, Any_
    dbm.Deferrable = type("Deferrable", (), {"DEFERRED": "deferred"})
    dbm.CASCADE = "CASCADE"
    class QsMod: QuerySet = T.QuerySet
    mod("django.db.models.query", QuerySet=T.QuerySet)
    import mpath
    mod("django.db.models.functions", Concat=mpath.Concat, Substr=mpath.Substr, Length=mpath.Length, Greatest=T.Greatest)
    mod("django.db.models.lookups", Lookup=dbm.Lookup, Transform=dbm.Transform, PostgresOperatorLookup=type("PostgresOperatorLookup", (), {}))
    mod("django.db.models.expressions", Func=T.Func, F=T.F, Value=T.Value)
    mod("django.db.models.fields", TextField=dbm.TextField, CharField=dbm.CharField, IntegerField=dbm.IntegerField)
    class Text:
        """text for display, not modelled"""
        def __add__(self, o): return self
        __radd__ = __mul__ = __rmul__ = __add__
    class FormField:
        """a model choice field: what it offers is what its choices were when they or the queryset were last set (the widget's choices)"""
        def __init__(self, *a, queryset=None, **k): self.queryset = queryset
        queryset = property(lambda self: self._queryset, lambda self, q: self.__dict__.update(_queryset=None if q is None else q.all(), offered=self.__dict__.get("_choices", q)))
        choices = property(lambda self: self.__dict__.get("_choices", self._queryset), lambda self, v: self.__dict__.update(_choices=v, offered=v))
        def prepare_value(self, v): return v.pk if isinstance(v, T.Model) else v
        def label_from_instance(self, o): return Text()
    class ModelForm:
        """the part of a model form that the library's form relies on"""
        def __init__(self, *a, instance=None, initial=None, **k):
            self.instance, self.initial = instance, initial
            self.fields = {n: copy_(f) for k in type(self).__mro__ for n, f in vars(k).items() if isinstance(f, FormField)}
    import copy
    copy_ = copy.copy
    f = lambda n: type(n, (FormField,), {})
    mod("django.forms", CharField=type("CharField", (), {"__init__": lambda self, *a, **k: None}), ModelForm=ModelForm, ModelChoiceField=f("ModelChoiceField"), ChoiceField=f("ChoiceField"),
        Form=ModelForm, TypedChoiceField=f("TypedChoiceField"), ModelMultipleChoiceField=f("ModelMultipleChoiceField"))
    mod("django.forms.models", modelform_factory=lambda *a, **k: None, ModelForm=ModelForm)
    mod("django.utils.html", conditional_escape=lambda s: Text(), format_html=lambda s, *a, **k: Text())
    mod("django.utils.safestring", mark_safe=lambda s: Text())
    mod("django.forms.widgets", TextInput=Any_)
    mod("django.core.validators", RegexValidator=Any_)
    mod("django.db.transaction", atomic=T.atomic)
    sys.modules["django.db"].connections = Conns()
    sys.modules["django.db"].connection = Conn
    sys.modules["django.db"].router = Router
    ser = mod("django.core.serializers"); 
    mod("django.core.serializers.base", DeserializedObject=type("DeserializedObject", (), {}))
    mod("django.core.checks", Error=Any_, register=lambda *a, **k: (lambda f: f), Tags=Any_)
    mod("django.core.exceptions", ValidationError=type("ValidationError", (Exception,), {}), FieldDoesNotExist=type("FieldDoesNotExist", (Exception,), {}))
    sys.meta_path.insert(0, Finder())
