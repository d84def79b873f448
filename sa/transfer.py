"""Transfer functions of the public table operations, and their evaluation in
finite structures."""
import collections

from . import ref
from . import terms as tm
from . import watch
from .core import CONSISTENT, PROVED, REFUTED, UNDECIDED, Ob
from .dealer import Table
from .extras import extras, symbol
from .model import Bot, Model, Undecided
from .source import AnalysisBroken

ARGS = {
    "step": [("bet", "float")],
    "after": [("bet", "float")],
    "reset": [("reset_button", "bool"), ("reset_stacks", "bool")],
    "win": [],
    "config": [],
}
METHOD = {"after": "step", "win": "win_probabilities", "config": "_render_config"}
FIELDS = ref.STATE


class Transfer:
    """closed terms for everything a call of the operation leaves behind"""

    def __init__(self, prog, kind, own=None):
        self.kind = kind
        self.t = t = Table(prog, state="mid" if kind in ("step", "win", "midconfig") else "any")
        names = own.names if own else []
        if names:
            own.install(t)
        name = METHOD.get(kind, kind)
        args = [tm.sym(n, ty) for n, ty in ARGS.get(kind, [])]
        self.raw = t.call(name, args)
        self.value = t.I.purify(self.raw)
        self.post = {}
        for f in FIELDS:
            v = t.get(f)
            if v is None:
                raise AnalysisBroken(f"Dealer.{name} leaves no attribute {f}")
            self.post[f] = v
        for f in names:
            v = t.get(f)
            if v is not None:
                self.post[f] = v
        dk = t.I.hget(t.ref.args[0], "deck")
        if dk is None or dk.op != "ref":
            raise AnalysisBroken("Dealer.deck is no longer one object")
        c = t.I.hget(dk.args[0], "cards")
        self.post["deck.cards"] = t.I.purify(c)
        self.raises = []
        end = t.I.st
        for e in t.I.root_raises:
            t.I.st = e.st
            self.raises.append((tm.and_(*e.st.pc) if e.st.pc else tm.TRUE, e.val, {f: t.get(f) for f in FIELDS + names if t.get(f) is not None}, e.node))
        t.I.st = end
        self.writes = collections.defaultdict(list)
        for kind_, where, _, pl in t.I.events:
            if kind_ == "setattr" and pl[0].op == "ref":
                self.writes[pl[1]].append(where)
            elif kind_ == "mutate":
                r = pl[0]
                if r.op == "ref":
                    li = t.I.loc[r.args[0]]
                    self.writes[li.label].append(where)
        self.doubts = t.I.doubts()
        self.unreliable = bool(self.doubts)

    def blame(self, fields):
        out = []
        for f in fields:
            out += self.writes.get(f, [])
            out += self.writes.get(f.split(".")[-1], [])
        if not out:
            out = [self.entry()]
        return sorted(set(out))

    def entry(self):
        fs = self.t.I.functions_seen
        name = METHOD.get(self.kind, self.kind)
        for k, v in fs.items():
            if k.endswith("." + name):
                return v
        return "?"


def transfer(ctx, kind):
    def make():
        tr = Transfer(ctx.prog, kind, extras(ctx))
        ctx.saw(tr.t.I)
        ctx.count("terms_" + kind, sum(1 for f in tr.post.values() for _ in tm.subterms(f)))
        if tr.t.I.unknown:
            ctx.notes.append(f"{kind}: constructs without interpretation: {tr.t.I.unknown[:5]}")
        return tr
    return ctx.memo(("transfer", kind), make)


class Out:
    """the outcome of one operation in one structure"""

    def __init__(self, tr, case, own=None):
        self.tr, self.case = tr, case
        syms = dict(case.pre)
        if own:
            syms.update((symbol(f), v) for f, v in own.items())
        syms["action?"] = syms["action"]
        syms.update(case.args)
        self.m = Model(syms, case.funcs)
        self._raised = None
        self.used = []

    def raised(self):
        """(exception class name, state at the raise) or None"""
        if self._raised is None:
            self._raised = (None, None)
            for pc, exc, st, _ in self.tr.raises:
                try:
                    hit = self.m(pc)
                except Bot:
                    continue
                if hit:
                    self._raised = (exc.args[0].rsplit(".", 1)[-1] if exc.op == "exc" else "?", st)
                    break
        return self._raised

    def __getitem__(self, f):
        self.used.append(f)
        return self.m(self.tr.post[f])

    def at_raise(self, f):
        return self.m(self.raised()[1][f])

    def ret(self):
        return self.m(self.tr.value)

    def obs(self):
        """the observation the operation returns"""
        return self.part(0) if self.tr.kind in ("step", "after") else self.ret()

    def part(self, *path):
        """component of the returned value (tuple index / dict key)"""
        t = self.tr.value
        for p in path:
            if t.op == "tuple" and isinstance(p, int):
                t = t.args[p]
            elif t.op == "dict" and isinstance(p, str):
                nt = None
                for k, v in t.args[0]:
                    if tm.is_const(k) and tm.cval(k) == p:
                        nt = v
                if nt is None:
                    return self._dig(path)
                t = nt
            else:
                return self._dig(path)
        return self.m(t)

    def _dig(self, path):
        v = self.ret()
        for p in path:
            v = v[p]
        return v


class Bad(Exception):
    def __init__(self, msg, fields=()):
        super().__init__(msg)
        self.fields = fields


def need(cond, msg, *fields):
    if not cond:
        raise Bad(msg, fields)


def budget(ctx):
    return 30000 if ctx.thorough else 1500


def get_cases(ctx):
    return ctx.memo("cases", lambda: ref.cases(ctx.seed * 7919 + 11, budget(ctx)))


def decide(ctx, name, kinds, pred, rule, select=None, proof=None):
    """an obligation over every call of the given operations"""
    return decide_many(ctx, [(name, kinds, pred, rule, select, proof)])[0]


def decide_many(ctx, specs):
    """specs: (name, kinds, predicate(case, out), rule[, select[, proof]]).

    A proof (normal forms) settles an obligation; otherwise the terms are
    interpreted in the generated structures, which can only refute it."""
    specs = [tuple(s) + (None,) * (6 - len(s)) for s in specs]
    res = [dict(n=0, bot=0, und=0, bad=None, where=set(), proof=None) for _ in specs]
    kinds = sorted({k for s in specs for k in s[1]})
    trs = {k: transfer(ctx, k) for k in kinds}
    own = extras(ctx)
    for s, r in zip(specs, res):
        if s[5]:
            r["proof"] = s[5]()
    for case in get_cases(ctx):
        todo = [(s, r) for s, r in zip(specs, res)
                if case.kind in s[1] and r["bad"] is None and not (s[4] and not s[4](case))]
        if not todo:
            continue
        if watch.left() < 0:
            ctx.notes.append("the time limit ended the generation of structures")
            break
        tr = trs[case.kind]
        out = Out(tr, case, own.known(case))
        ctx.count("structures_" + case.kind)
        for s, r in todo:
            r["n"] += 1
            out.used = []
            try:
                s[2](case, out)
            except Bad as b:
                r["bad"] = (str(b), case, tr.blame(b.fields or out.used))
            except Bot as b:
                r["bad"] = (f"no value is computed (the operation raises): {b}", case, tr.blame(out.used) if out.used else [tr.entry()])
            except Undecided as u:
                r["und"] += 1
                r["why"] = str(u)
    obs = []
    for s, r in zip(specs, res):
        name, kinds, _, rule = s[:4]
        where = [trs[k].entry() for k in kinds]
        shaky = any(trs[k].unreliable for k in kinds)
        if r["bad"] and not shaky:
            msg, case, bl = r["bad"]
            obs.append(Ob(name, rule, REFUTED, bl, msg, r["n"], {"counter_structure": case.show(), "reason": msg}))
        elif r["bad"]:
            obs.append(Ob(name, rule, UNDECIDED, where, "the source uses constructs without a sound abstraction here: " + "; ".join(d for k in kinds for d in trs[k].doubts[:2]), r["n"]))
        elif r["proof"]:
            obs.append(Ob(name, rule, PROVED, where, "", 1, how=r["proof"]))
        elif r["n"] == 0 or r["und"] * 2 > r["n"]:
            obs.append(Ob(name, rule, UNDECIDED, where, r.get("why", "no structure"), r["n"]))
        else:
            obs.append(Ob(name, rule, CONSISTENT, where, "", r["n"] - r["und"], how="terms agree in every generated structure"))
    return obs
