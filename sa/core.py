"""Obligations, verdicts, reports."""
import json
import os
import time

from .source import AnalysisBroken

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROVED = "proved"            # normal forms agree / rule holds at every instance
CONSISTENT = "consistent"    # no generated structure tells the two sides apart
UNDECIDED = "undecided"      # the analysis has no verdict (never an alarm)
REFUTED = "refuted"          # a violation, with the construct that causes it


class Ob:
    """one decided obligation"""

    def __init__(self, key, rule, verdict, where=(), detail="", n=1, witness=None, how=""):
        self.key, self.rule, self.verdict, self.detail, self.n = key, rule, verdict, detail, n
        self.where = [where] if isinstance(where, str) else sorted(set(where))
        self.witness, self.how = witness, how

    def json(self):
        d = {"obligation": self.key, "rule": self.rule, "verdict": self.verdict, "instances": self.n}
        if self.where:
            d["where"] = self.where[:12]
        if self.detail:
            d["detail"] = self.detail[:600]
        if self.how:
            d["how"] = self.how
        return d


class Ctx:
    """what a rule may consult"""

    def __init__(self, prop, thorough, seed):
        self.prop, self.thorough, self.seed = prop, thorough, seed
        self._prog = None
        self.cache = {}
        self.functions = {}
        self.notes = []
        self.stats = {}

    @property
    def prog(self):
        if self._prog is None:
            from .source import Program
            self._prog = Program()
        return self._prog

    def memo(self, key, fn):
        if key not in self.cache:
            self.cache[key] = fn()
        return self.cache[key]

    def saw(self, interp):
        self.functions.update(interp.functions_seen)

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n


def load_known():
    p = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def finish(ctx, title, obs, t0, assumptions):
    """evidence, known findings, verdict line; returns the exit code"""
    pid = ctx.prop
    known = [k for k in load_known() if k["property"] == pid and k.get("status") != "fixed"]
    bad, hushed = [], []
    for o in obs:
        if o.verdict != REFUTED:
            continue
        k = next((k for k in known if k["obligation"] == o.key), None)
        (hushed if k else bad).append((o, k))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    counts = {}
    for o in obs:
        counts[o.verdict] = counts.get(o.verdict, 0) + 1
    ev = {
        "property": pid,
        "tier": "thorough" if ctx.thorough else "quick",
        "seed": ctx.seed,
        "level": "other",
        "coverage": {
            "explanation": title,
            "obligations": len(obs),
            "discharged": counts.get(PROVED, 0),
            "consistent": counts.get(CONSISTENT, 0),
            "undecided": counts.get(UNDECIDED, 0),
            "refuted": counts.get(REFUTED, 0),
            "instances": sum(o.n for o in obs),
            "functions_analysed": dict(sorted(ctx.functions.items())),
            "source_digest": ctx._prog.digest if ctx._prog else None,
            "measured": ctx.stats,
            "samples": [o.json() for o in obs][:80],
            "notes": ctx.notes[:20],
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    for o, k in hushed:
        print(f"KNOWN-FINDING: property={pid} {k['what']} [{o.key}]")
    if not bad:
        word = "UNDECIDED" if set(counts) == {UNDECIDED} else "OK"
        print(f"{word} property={pid} obligations={len(obs)} " + " ".join(f"{k}={v}" for k, v in sorted(counts.items())))
        return 0
    rd = os.path.join(ROOT, "replays")
    os.makedirs(rd, exist_ok=True)
    rp = os.path.join(rd, f"{pid}.json")
    with open(rp, "w") as f:
        json.dump({"property": pid, "violations": [dict(o.json(), witness=o.witness) for o, _ in bad]}, f, indent=1, default=str)
        f.write("\n")
    for o, _ in bad[:6]:
        at = ", ".join(o.where[:6]) or "?"
        print(f"{at}: {o.rule}: {o.key}: {o.detail[:400]}")
    print(f"VIOLATION property={pid} replay={rp}")
    return 1


__all__ = ["Ob", "Ctx", "finish", "AnalysisBroken", "PROVED", "CONSISTENT", "UNDECIDED", "REFUTED"]
