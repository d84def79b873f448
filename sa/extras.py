"""Attributes of a table that the pinned tree does not have (caches, counters,
backing fields of properties): their value before a transition is what the
constructor and the earlier transitions of the same history left."""
import ast

from . import terms as tm
from .model import Bot, Model, Undecided

KNOWN = {
    "action", "active", "antes", "ascii_viewer", "big_blind", "blinds", "button", "community_cards", "deck", "evaluator", "history",
    "hole_cards", "largest_raise", "mandatory_num_hole_cards", "num_cards_for_hand", "num_community_cards", "num_hole_cards",
    "num_players", "num_raises", "num_ranks", "num_streets", "num_suits", "pot", "pot_commits", "raise_sizes", "stacks",
    "start_stack", "street", "street_commits", "street_option", "street_raises", "viewer",
}


def names(prog):
    """attributes the methods of Dealer store beyond the known ones"""
    out = []
    cls = prog.find_class("Dealer")
    for c in prog.mro(cls.qual):
        fns = [n for n in c.node.body if isinstance(n, ast.FunctionDef) and n.args.args]
        for fn in fns:
            me = fn.args.args[0].arg
            for n in ast.walk(fn):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                    if n.attr not in KNOWN and n.attr not in out and n.attr not in c.setters:
                        out.append(n.attr)
    return out


def symbol(name):
    return "own " + name


def same(a, b):
    return a == b or a is None or b is None


class Extras:
    def __init__(self, ctx):
        self.ctx = ctx
        self.names = names(ctx.prog)
        self.types = {}
        self.init = {}
        self.shapes = {}
        self.lab = None
        if not self.names:
            return
        from .rules.effects import dealer_lab
        self.lab, d, _ = dealer_lab(ctx)
        I = self.lab.I
        for f in list(self.names):
            v = I.hget(d.args[0], f)
            if v is None:
                c = self.lab.cls("Dealer")
                if f in c.attrs:
                    v = I.getattr(d, f, None)
            if v is None:
                self.types[f] = "any"
                continue
            if v.op == "ref" and I.loc[v.args[0]].kind == "obj":
                self.names.remove(f)
                continue
            p = self.lab.pure(v)
            self.init[f] = p
            ty = p.ty
            if v.op == "ref":
                ty = ty if isinstance(ty, tuple) else I.loc[v.args[0]].kind
                if I.loc[v.args[0]].kind == "list":
                    try:
                        self.shapes[f] = tm.length(p)
                    except Exception:
                        pass
            self.types[f] = ty if ty not in (None, "none") and p is not tm.NONE else "any"
        ctx.notes.append(f"attributes of their own: {self.names}")

    def install(self, table):
        """symbols for the unknown attributes of a table"""
        I = table.I
        for f in self.names:
            ty = self.types[f]
            kind = ty[0] if isinstance(ty, tuple) else ty
            if kind in ("list", "dict", "set", "odict"):
                t = tm.sym(symbol(f), ty)
                if kind == "list" and self.shapes.get(f) is table.N:
                    tm.SHAPES[t] = table.N
                table.field(f, I.alloc("dict" if kind == "odict" else kind, origin="field", label=f, content=t))
            else:
                t = tm.sym(symbol(f), ty)
                table.field(f, t)
            table.f[f] = t

    def widen(self, trs):
        """attributes that may hold values of another type than at first"""
        more = False
        for tr in trs:
            for f in self.names:
                v = tr.t.get(f)
                if v is None or self.types[f] == "any":
                    continue
                a, b = self.types[f], v.ty
                ka, kb = (x[0] if isinstance(x, tuple) else x for x in (a, b))
                if ka != kb:
                    self.types[f] = "any"
                    more = True
                elif a != b:
                    # elements of another type
                    if isinstance(a, tuple) and a != (ka, "any"):
                        self.types[f] = (ka, "any")
                        more = True
        return more

    # -------------------------------------------------------------- values

    def start(self, case):
        from .rules.effects import PARAMS, dealer_syms
        c = {k: v for k, v in case.pre.items() if k in PARAMS}
        c["low_end_straight"] = True
        m = Model(dealer_syms(c, {}))
        out = {}
        for f, t in self.init.items():
            try:
                out[f] = m(t)
            except (Undecided, Bot):
                pass
        return out

    def before(self, case):
        """{attribute: value} before the transition, as far as it is known"""
        chain = []
        c = case
        while c is not None and c.own is None and not c.cut and c.prev is not None:
            chain.append(c)
            c = c.prev
        if c.own is None:
            c.own = {} if c.cut else self.start(c)
        for d in reversed(chain):
            d.own = self.after(d.prev)
        return case.own

    def known(self, case):
        return self.before(case) if self.names else None

    def after(self, case):
        from .transfer import Out, transfer
        out = self.run(Out(transfer(self.ctx, case.kind), case, case.own), case.own)
        # every other time somebody looks at the table in between
        if self.lookers and case.post is not None and case.pre["pot"] % 2:
            p = dict(case.post)
            for kind in self.lookers:
                left = sum(p["num_community_cards"]) - len(p["community_cards"])
                if kind == "win" and (p["action"] < 0 or left > 0 or p.get("over")):
                    continue
                looked = type(case)(kind, {k: v for k, v in p.items() if k in case.pre}, {}, {}, case.funcs)
                out = self.run(Out(transfer(self.ctx, kind), looked, out), out)
        return out

    def run(self, o, old):
        out = {}
        try:
            r = o.raised()
        except Undecided:
            return {}
        for f in self.names:
            try:
                if r[0] is not None:
                    if f in r[1]:
                        out[f] = o.m(r[1][f])
                elif f in o.tr.post:
                    out[f] = o.m(o.tr.post[f])
            except (Undecided, Bot):
                pass
        return out

    @property
    def lookers(self):
        if not hasattr(self, "_look"):
            from .transfer import transfer
            self._look = []
            for kind in ("win", "config"):
                try:
                    tr = transfer(self.ctx, kind)
                except Exception:
                    continue
                if not tr.unreliable and any(tr.post.get(f) is not tr.t.f.get(f) for f in self.names):
                    self._look.append(kind)
        return self._look


def extras(ctx):
    def make():
        x = Extras(ctx)
        if x.names:
            from .transfer import Transfer
            for _ in range(3):
                try:
                    if not x.widen([Transfer(ctx.prog, k, x) for k in ("reset", "step")]):
                        break
                except Exception as e:
                    ctx.notes.append(f"attributes: {type(e).__name__}: {e}")
                    x.types = {f: "any" for f in x.names}
                    break
        return x
    return ctx.memo("extras", make)
