"""Objects of the package under abstract interpretation: construct, call,
inspect, and interpret the resulting terms in finite structures."""
from . import interp as ip
from . import terms as tm
from . import watch
from .model import Bot, Model, Undecided
from .source import AnalysisBroken
from .terms import mk, sym


class Lab:
    def __init__(self, ctx, contracts=None):
        self.ctx = ctx
        self.prog = ctx.prog
        self.I = ip.Interp(self.prog, contracts or {})
        self.I.enter(self.prog.modules["clubs"], None, None)

    def cls(self, name):
        return self.prog.find_class(name)

    def new(self, name, args=(), kw=None):
        r = self.I.construct(self.cls(name).qual, list(args), dict(kw or {}), None)
        return r

    def blank(self, name, fields=None, origin="self"):
        r = self.I.alloc("obj", cls=self.cls(name).qual, origin=origin, label=name)
        for k, v in (fields or {}).items():
            self.I.st.heap[(r.args[0], k)] = v
        return r

    def list(self, name, ty=("list", "any"), n=None):
        t = sym(name, ty=ty)
        if n is not None:
            tm.SHAPES[t] = n
        return self.I.alloc("list", origin="arg", label=name, content=t)

    def call(self, obj, name, args=(), kw=None):
        f = self.I.getattr(obj, name, None)
        return self.I.call(f, list(args), dict(kw or {}), None)

    def call_value(self, f, args=(), kw=None):
        return self.I.call(f, list(args), dict(kw or {}), None)

    def func(self, module, name, args=(), kw=None):
        m = self.prog.modules[module]
        if name not in m.globals:
            raise AnalysisBroken(f"{module}.{name} not found")
        return self.I.call(mk("func", module, name), list(args), dict(kw or {}), None)

    def attr(self, obj, name):
        v = self.I.getattr(obj, name, None)
        return self.I.purify(v)

    def pure(self, v):
        return self.I.purify(v)

    def done(self):
        self.ctx.saw(self.I)

    @property
    def shaky(self):
        return bool(self.I.doubts())

    def settle(self):
        """forget the conditions under which the construction succeeded"""
        self.mark = len(self.I.root_raises)
        self.I.st.pc = ()

    mark = 0

    def raised(self, m, building=False):
        """name of the exception raised in structure m, or None"""
        for e in self.I.root_raises[:self.mark] if building else self.I.root_raises[self.mark:]:
            pc = tm.and_(*e.st.pc) if e.st.pc else tm.TRUE
            try:
                if m(pc):
                    return e.val.args[0].rsplit(".", 1)[-1] if e.val.op == "exc" else "?"
            except Bot:
                continue
        return None

    def at(self, name):
        """source position of a function seen during the analysis"""
        for k, v in self.I.functions_seen.items():
            if k.endswith("." + name) or k == name:
                return v
        return "?"


__all__ = ["Lab", "Model", "Bot", "Undecided"]


from .core import CONSISTENT, PROVED, REFUTED, UNDECIDED, Ob  # noqa: E402
from .transfer import Bad, need  # noqa: E402


def sweep(ctx, key, rule, lab, where, structures, pred, complete=False, how=""):
    """pred(model) in every structure; a violation needs a concrete structure.

    structures: iterable of (description, Model)."""
    n = und = 0
    why = ""
    where = [lab.at(w) for w in ([where] if isinstance(where, str) else where)]
    for desc, m in structures:
        n += 1
        try:
            pred(m)
        except Bad as b:
            msg = str(b)
        except Bot as b:
            msg = f"no value is computed (the operation raises): {b}"
        except Undecided as u:
            und += 1
            why = str(u)
            continue
        else:
            continue
        if lab.shaky:
            return Ob(key, rule, UNDECIDED, where, "the source uses constructs without a sound abstraction here: " + "; ".join(lab.I.doubts()[:2]), n)
        return Ob(key, rule, REFUTED, where, f"{msg} [{desc}]", n, {"counter_structure": desc, "reason": msg})
    ctx.count("structures", n)
    if lab.shaky or und * 2 > n or n == 0:
        return Ob(key, rule, UNDECIDED, where, why or "constructs without a sound abstraction", n)
    if complete and not und:
        return Ob(key, rule, PROVED, where, "", n, how=how or "the term agrees at every point of its finite domain")
    return Ob(key, rule, CONSISTENT, where, "", n - und, how=how or "terms agree in every generated structure")


def guarded(ctx, key, rule, fn):
    """an analysis step that may meet constructs it does not support"""
    try:
        with watch.limited():
            r = fn()
        return r if isinstance(r, list) else [r]
    except (watch.OutOfTime, MemoryError, ip.Unsupported, RecursionError, KeyError, IndexError, TypeError, AttributeError, AssertionError, ValueError) as e:
        ctx.notes.append(f"{key}: {type(e).__name__}: {e}")
        return [Ob(key, rule, UNDECIDED, (), f"not analysed: {type(e).__name__}: {e}")]
