"""Database functions on paths."""
from table import Func, F, Value, ev, wrap, unwrap
from core import Unsupported, raw, SymInt
STRLEN = REWRITE = None


def _f(e): return F(e) if isinstance(e, str) else e


class Substr(Func):
    def __init__(self, expr, pos, length=None):
        self.args = (_f(expr),)
        self.pos, self.length = pos, length
    def ev(self, st, r, qs): raise Unsupported("Substr outside Concat")


class Concat(Func):
    def __init__(self, *args, **kw): self.args = args
    def parts(self):
        if len(self.args) != 2 or not isinstance(self.args[0], Value) or not isinstance(self.args[1], Substr): raise Unsupported("Concat")
        s = self.args[1]
        if not (isinstance(s.args[0], F) and s.args[0].name == "path" and s.length is None): raise Unsupported("Substr")
        return self.args[0].value, s
    def start(self): return self.parts()[1].pos
    def ev(self, st, r, qs):
        new, s = self.parts()
        return REWRITE(new, st.get("path", r), s.pos)


class Length(Func):
    def __init__(self, expr, **kw): self.args = (_f(expr),)
    def ev(self, st, r, qs): return STRLEN(ev(self.args[0], st, r, qs))
