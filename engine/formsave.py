"""C19: the contract of MoveNodeForm.save, checked against the contracts of the manager's methods (a caller sees the callee's
contract, not its body).

Ghost state: the place of the node being saved, the values of the instance and of its row ("form": those submitted, "old": those
before), and the log of writes.  Every input of the function is symbolic: whether the instance is new, which fields changed, the
position and the reference node, whether they are valid, commit.  Manager methods, by contract:
  add_root(instance), add_child(target, instance), add_sibling(target, pos, instance): instance is not in the table; writes it
  with its values at the place meant; move(node, target, pos): node is in the table; puts it at (target, pos), ordered by the
  values of the instance for sorted positions; get_first_root_node(), get_last_root_node(): a root, None on an empty tree.
The parent class's save(commit) raises ValueError if there are errors, else writes the instance if commit."""
import importlib, time, types
import z3
import core, ops, table
from core import Unsupported

SORT = {"unordered": [], "none": None, "by k": ["k"], "by -k, j": ["-k", "j"]}
TREE = ("treebeard_ref_node", "treebeard_position")


class Blank:
    """an object of which only what the contract mentions may be used"""
    def __init__(self, name): self.__dict__["name"] = name
    def __getattr__(self, n): raise Unsupported(f"{self.name}.{n}")
    def __setattr__(self, n, v): raise Unsupported(f"{self.name}.{n} is set")
    def __bool__(self): return True
    def __repr__(self): return self.name


class Errors(dict): ...


class State:
    """what the contracts speak about"""
    def __init__(self, order, adding):
        self.sorted, self.adding = bool(order), adding
        self.place = None if adding else ("before",)
        self.memory, self.row, self.writes, self.bad = "form", None if adding else "old", [], []
        self.roots = [None if adding else Blank("first root"), None if adding else Blank("last root")]

    def persist(self, how):
        self.writes.append(how)
        if self.adding: self.bad.append("writes a row that has no place in the tree")
        self.row = self.memory


class Instance:
    def __init__(self, st): self.__dict__.update(_st=st, _state=types.SimpleNamespace(adding=st.adding, db="default"), extra={})
    def __getattr__(self, n):
        if n == "pk": return None if self._st.adding else 1
        raise Unsupported(f"instance.{n}")
    def __setattr__(self, n, v): raise Unsupported(f"instance.{n} is set")
    def __bool__(self): return True
    def save(self, *a, **k):
        if a or k: raise Unsupported("save with arguments")
        self._st.persist("instance.save")
    def refresh_from_db(self, *a, **k):
        if a or k: raise Unsupported("refresh with arguments")
        if self._st.adding: raise table.Model.DoesNotExist("refresh of a row that is not there")
        self._st.memory = self._st.row


def manager(st, inst, order, ctx):
    def sorted_(pos): return pos.startswith("sorted-")
    class Manager:
        tree_model = None
        def __getattr__(self, n): raise Unsupported(f"manager.{n}")
        def _new(self, o, kw):
            if kw is not None or o is not inst: raise Unsupported("adds something else than the instance")
            if not st.adding: raise exc("NodeAlreadySaved")
        def _put(self, place, how):
            st.writes.append(how)
            st.place = place + ((st.memory,) if st.sorted else ())
        def _root_place(self, target, pos):
            """places next to a root, by what they mean"""
            if sorted_(pos): return ("root", "sorted")
            if pos == "first-sibling" or pos == "left" and target is st.roots[0]: return ("root", "first")
            if pos == "last-sibling" or pos == "right" and target is st.roots[1]: return ("root", "last")
            return ("at", target, pos)
        def _where(self, target, pos, allowed):
            if pos not in allowed or sorted_(pos) != st.sorted: raise exc("InvalidPosition")
            if target is st.roots[0] or target is st.roots[1]:
                if pos.endswith("sibling") or pos in ("left", "right"): return self._root_place(target, pos)
            elif not isinstance(target, Blank): raise AttributeError(f"{target!r} is no node")
            return ("at", target, pos)
        def _added(self):
            st.adding = inst._state.adding = False
            st.row = st.memory
            return inst
        def add_root(self, create_kwargs=None, *, instance=None):
            self._new(instance, create_kwargs)
            self._put(("root", "sorted" if st.sorted else "last"), "add_root")
            return self._added()
        def add_child(self, target, create_kwargs=None, *, instance=None):
            self._new(instance, create_kwargs)
            if not isinstance(target, Blank): raise AttributeError(f"{target!r} is no node")
            self._put(("at", target, "sorted-child" if st.sorted else "last-child"), "add_child")
            return self._added()
        def add_sibling(self, target, pos=None, create_kwargs=None, *, instance=None):
            self._new(instance, create_kwargs)
            self._put(self._where(target, pos, ("first-sibling", "left", "right", "last-sibling", "sorted-sibling")), "add_sibling")
            return self._added()
        def move(self, node, target, pos=None):
            if node is not inst: raise Unsupported("moves another node")
            if st.adding: st.bad.append("moves a node that is not in the tree")
            self._put(self._where(target, pos, ("first-sibling", "left", "right", "last-sibling", "sorted-sibling", "first-child", "last-child", "sorted-child")), "move")
        def _root(self, i):
            if st.adding and st.roots[0] is None:
                if not core.C.branch(z3.Const("the_tree_is_empty", z3.BoolSort())): st.roots[:] = [Blank("first root"), Blank("last root")]
            return st.roots[i]
        def get_first_root_node(self): return self._root(0)
        def get_last_root_node(self): return self._root(1)
    def exc(n): return getattr(importlib.import_module("treebeard.exceptions"), n)("")
    m = Manager()
    m.tree_model = types.SimpleNamespace(node_order_by=order, objects=m)
    return m


def scene(ctx, F, order):
    b = lambda n: ctx.branch(z3.Const(n, z3.BoolSort()))
    obs = []
    adding, invalid, commit, has_ref = b("the_instance_is_new"), b("the_form_has_errors"), b("commit"), b("a_reference_node_is_given")
    names = list(TREE) + [f.removeprefix("-") for f in order or []] + ["other"]
    changed = [n for n in names if b(f"changed_{n}")]
    st = State(order, adding)
    inst = Instance(st)
    mgr = manager(st, inst, order, ctx)
    model = types.SimpleNamespace(objects=mgr, node_order_by=order, _default_manager=mgr, __name__="Model")
    ref = Blank("the reference node") if has_ref else None
    choices = ("sorted-child", "sorted-sibling") if order else ("first-child", "left", "right")
    pos = choices[-1]
    for p in choices[:-1]:
        if b(f"position_is_{p}"): pos = p; break
    form = F.__new__(F)
    for n, v in dict(_meta=types.SimpleNamespace(model=model), instance=inst, is_sorted=order if order is not None else None, errors=Errors(), changed_data=changed,
                     cleaned_data={"treebeard_position": pos, "treebeard_ref_node": ref, "other": "x", **{f.removeprefix("-"): 1 for f in order or []}}).items():
        setattr(form, n, v)
    if invalid:
        form.errors["other"] = ["wrong"]
        for n in TREE:
            if b(f"invalid_{n}"): del form.cleaned_data[n]; form.errors[n] = ["wrong"]
    supers = []
    def super_save(self, commit=True):
        supers.append(commit)
        if self.errors: raise ValueError("the data didn't validate")
        if commit: st.persist("super().save")
        return self.instance
    F.PARENT.save = super_save
    pre = f"MoveNodeForm.save, {F.label}"
    def goal(name, ok, detail=""):
        r = core.prove(ctx, f"{pre}: {name}", z3.BoolVal(bool(ok)))
        if r.status == "refuted": r.detail = (detail + "; " if detail else "") + f"writes {st.writes}, place {st.place}; new={adding} errors={invalid} commit={commit} reference={ref} position={pos} changed={changed}; " + r.detail
        obs.append(r)
    ret = err = None
    try: ret = form.save(commit=commit)
    except Unsupported: raise
    except Exception as e:
        core.own(e)
        err = e
    if invalid:
        goal("an invalid form raises", err is not None)
        goal("an invalid form writes nothing", not st.writes)
        return obs
    goal("a valid form does not raise", err is None, repr(err))
    if err is not None: return obs
    goal("no row without a place in the tree", not st.bad, "; ".join(st.bad))
    treefields = set(TREE) | {f.removeprefix("-") for f in order or []}
    V = ("form",) if st.sorted else ()
    if not adding and not treefields & set(changed):
        goal("a form whose tree fields are unchanged leaves the tree as it was", st.place == ("before",))
    else:
        want = ("at", ref, pos) + V if has_ref else ("root", "sorted" if st.sorted else "last" if adding else "first") + V
        goal("the node is at the place the form says", st.place == want, f"wanted {want}")
    goal("the submitted values are those of the instance", st.memory == "form")
    if commit: goal("the submitted values are stored", st.row == "form")
    if adding: goal("a new node is in the tree", not st.adding)
    goal("the parent class's save runs once with the given commit", supers == [commit], f"{supers}")
    goal("returns the instance", ret is inst and form.instance is inst)
    return obs


def run(prop, tier, secs):
    recs = []
    ops.backend("mp", {})
    mod = importlib.import_module("treebeard.forms")
    for label, order in SORT.items():
        t0 = time.time()
        stats = {"solver_s": 0.0, "queries": 0}
        F = type(mod.MoveNodeForm)("Form", (mod.MoveNodeForm,), {"label": label, "PARENT": mod.forms.ModelForm, "is_valid": lambda self: not self.errors, "has_changed": lambda self: bool(self.changed_data)})
        status, obs = "done", []
        try: obs = core.explore(lambda ctx: scene(ctx, F, order), stats, max_paths=20000, deadline=time.time() + secs)
        except Unsupported as e: status = f"unsupported: {e}"
        except core.Budget as e: status = f"budget: {e}"
        finally:
            if "save" in vars(F.PARENT): del F.PARENT.save
        recs.append({"task": f"MoveNodeForm.save {label}", "obligations": [o.as_dict() for o in obs], "paths": stats.get("paths", 0), "possible": stats.get("paths", 0), "returned": 1,
                     "status": status, "solver_s": stats["solver_s"], "seconds": time.time() - t0})
    return recs


if __name__ == "__main__":
    import sys, collections
    for r in run("C19", "quick", 600):
        n = collections.Counter(o["status"] for o in r["obligations"])
        print(r["task"], r["status"], r["paths"], dict(n), round(r["seconds"], 1))
        for o in r["obligations"]:
            if o["status"] != "discharged": print("   ", o["status"], o["name"], o.get("detail", "")[:400]); break
