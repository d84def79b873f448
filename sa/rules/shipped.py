"""The shipped configurations (clubs.configs)."""
import os

from .. import terms as tm
from ..core import PROVED, REFUTED, UNDECIDED, Ob
from ..lab import Bot, Lab, Model, Undecided, guarded
from ..source import AnalysisBroken
from ..spec.games import GAMES, faults
from .effects import c_init

MOD = "clubs.configs"


def values(ctx):
    """name -> (python value, position) of the public dictionaries of clubs.configs"""
    lab = Lab(ctx)
    m = ctx.prog.modules.get(MOD)
    if m is None:
        raise AnalysisBroken(f"{MOD} not found")
    lab.I.enter(m, None, None)
    out = {}
    for name in m.globals:
        if name.startswith("_") or not name.isupper():
            continue
        v = lab.I.load_name(name, None)
        try:
            val = Model({})(lab.pure(v))
        except (Bot, Undecided) as e:
            val = e
        out[name] = (val, v)
    ctx.saw(lab.I)
    return out, lab.shaky


def position(ctx, name):
    m = ctx.prog.modules[MOD]
    for node in m.tree.body:
        for t in getattr(node, "targets", [getattr(node, "target", None)]):
            if getattr(t, "id", None) == name:
                return f"{os.path.relpath(m.path, ctx.prog.repo)}:{node.lineno}"
    return m.path


def c31(ctx):
    vals, shaky = values(ctx)
    obs = []
    rule = "constant value of the configuration compared with the rules of the game it is named after"
    for name in GAMES:
        at = [position(ctx, name)]
        key = f"{name} is the game it is named after"
        if name not in vals:
            gone = name not in ctx.prog.modules[MOD].globals
            obs.append(Ob(key, rule, REFUTED if gone else UNDECIDED, at, "the configuration is not defined" if gone else "not evaluated", 1))
            continue
        v = vals[name][0]
        if not isinstance(v, dict) or shaky:
            obs.append(Ob(key, rule, UNDECIDED, at, f"not a constant: {v}", 1))
            continue
        fs = faults(name, v)
        ctx.count("facts", fs[1])
        obs.append(Ob(key, rule, REFUTED if fs[0] else PROVED, at, "; ".join(fs[0]), fs[1],
                      {"configuration": name, "value": repr(v)}, how="every fact holds for the constant"))
    rule2 = "guards of Dealer.__init__ evaluated for the constant configuration"

    def accepted(name, v):
        lab = Lab(ctx, {"Deck.__init__": c_init("Deck"), "Evaluator.__init__": c_init("Evaluator"), "ASCIIViewer.__init__": c_init("ASCIIViewer")})
        kw = {k: term(lab, x) for k, x in v.items()}
        key = f"Dealer accepts {name}"
        d = lab.new("Dealer", [], kw)
        lab.done()
        exc = lab.raised(Model({}))
        if lab.shaky:
            return Ob(key, rule2, UNDECIDED, [position(ctx, name)], "; ".join(lab.I.doubts()[:2]), 1)
        if exc:
            return Ob(key, rule2, REFUTED, [position(ctx, name), lab.at("Dealer.__init__")], f"the constructor raises {exc}", 1,
                      {"configuration": name, "value": repr(v)})
        return Ob(key, rule2, PROVED, [position(ctx, name)], "", 1, how="no raise is reachable")
    for name, (v, _) in vals.items():
        if isinstance(v, dict) and (name in GAMES or {"num_players", "num_streets"} <= set(v)):
            obs += guarded(ctx, f"Dealer accepts {name}", rule2, lambda name=name, v=v: accepted(name, v))
            if name not in GAMES and not shaky:
                fs = faults(name, v)
                obs.append(Ob(f"{name} can be dealt", rule, REFUTED if fs[0] else PROVED, [position(ctx, name)], "; ".join(fs[0]), fs[1],
                              {"configuration": name}, how="every fact holds for the constant"))
    return obs


def term(lab, x):
    if isinstance(x, list):
        return lab.I.alloc("list", origin="arg", label="config", content=tm.lst(*[term(lab, y) for y in x]))
    if x is None:
        return tm.NONE
    return tm.const(x)
