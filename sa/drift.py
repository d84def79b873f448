"""What a call leaves behind, carried on: a state that differs from the
reference's is played on, and every later call of the same history is held
against the history the reference plays with the same bets."""
import random

from . import ref
from . import watch
from .core import CONSISTENT, REFUTED, UNDECIDED, Ob
from .extras import extras
from .model import Bot, Undecided
from .spec import table as spec
from .transfer import Bad, Out, get_cases, need, transfer

FIELDS = ref.STATE + ["deck.cards"]
SEEDS, LENGTH = 40, 40


class View:
    """the reference's state, the operation's results"""

    def __init__(self, c, o):
        self.c, self.o = c, o
        self.used = o.used

    def __getitem__(self, f):
        return self.c.post[f]

    def part(self, *path):
        return self.o.part(*path)

    def ret(self):
        return self.o.ret()

    def obs(self):
        return self.o.obs()


def same(f, a, b, c):
    """equal as far as anybody can tell"""
    if f == "street":
        S = c.pre["num_streets"]
        return min(a, S) == min(b, S)
    if f == "street_option":
        return all(bool(x) == bool(y) for x, y, z in zip(a, b, c.post["active"]) if z) and len(a) == len(b)
    if f == "active":
        return [bool(x) for x in a] == [bool(x) for x in b]
    if f in ("history", "hole_cards", "community_cards", "deck.cards", "stacks", "pot_commits", "street_commits"):
        return list(a) == list(b)
    return a == b


def left(o, fields):
    out, odd = {}, False
    for f in fields:
        try:
            out[f] = o[f]
        except Bot:
            odd = True
        except Undecided:
            pass
    return out, odd


def starts(ctx):
    """[(case, state it leaves, fields that differ)], number of states compared"""
    def make():
        trs = {k: transfer(ctx, k) for k in ("reset", "step")}
        own = extras(ctx)
        if any(t.unreliable for t in trs.values()):
            return None, 0
        res, n, seen = [], 0, {}
        for c in get_cases(ctx):
            if c.kind not in trs or c.post is None:
                continue
            if watch.left() < 0:
                break
            o = Out(trs[c.kind], c, own.known(c))
            s, odd = left(o, FIELDS)
            n += 1
            diff = tuple(f for f in FIELDS if f in s and not same(f, s[f], c.post[f], c))
            if diff and not odd and len(s) == len(FIELDS):
                k = (c.kind, diff)
                seen[k] = seen.get(k, 0) + 1
                if seen[k] <= 12:
                    res.append((c, s, diff))
        return res, n
    return ctx.memo("drift", make)


def play(ctx, c, s, rng):
    """the continuation of a history: (case of the reference, outcome of the
    terms, state they started from)"""
    trs = {k: transfer(ctx, k) for k in ("reset", "step", "after")}
    own = extras(ctx)
    mine = None
    if own.names:
        mine = own.run(Out(trs[c.kind], c, own.known(c)), own.known(c))
    r = {**c.pre, **{k: v for k, v in c.post.items() if k in c.pre}}
    over = bool(c.post.get("over"))
    last = c.post
    cur = {**r, **s}
    spec.hand = c.funcs["hand"]
    funcs = c.funcs
    for _ in range(LENGTH):
        if over and rng.random() < 0.8:
            fresh = ref.shuffled(rng)
            spec.freshdeck = lambda deck, f=fresh: list(f)
            funcs = {"hand": c.funcs["hand"], "freshdeck": fresh}
            kind, args = "reset", {"reset_button": rng.random() < 0.2, "reset_stacks": rng.random() < 0.2}
            post = spec.reset(ref.ns(r), **args)
            if post is None:
                kind, args = "reset", {"reset_button": False, "reset_stacks": True}
                post = spec.reset(ref.ns(r), **args)
        elif over:
            kind, args, post = "after", {"bet": ref.pick_over(rng)}, None
        else:
            kind, args = "step", {"bet": ref.pick_bet(rng, ref.ns(r))}
            post = spec.step(ref.ns(r), args["bet"])
        if kind == "after":
            # the results of the hand stay as they were
            post = last
        case = ref.Case(kind, r, args, post, funcs)
        real = ref.Case(kind, cur, args, None, funcs)
        # which of the two transfer functions of step applies is up to the terms' own state
        own_kind = kind if kind == "reset" else "step" if cur["action"] >= 0 else "after"
        out = Out(trs[own_kind], real, mine)
        yield case, out, cur
        if kind != "after":
            last = post
        if mine is not None:
            mine = own.run(out, mine)
        nxt, odd = left(out, FIELDS)
        if odd or len(nxt) < len(FIELDS):
            return
        cur = {**cur, **nxt}
        r = {**r, **{k: v for k, v in post.items() if k in r}}
        over = bool(post.get("over"))


def histories(ctx, key, rule, tests):
    """tests: [(kinds, predicate(case, out, view, pre))]"""
    res, n = starts(ctx)
    entry = [transfer(ctx, k).entry() for k in ("reset", "step")]
    if res is None:
        return Ob(key, rule, UNDECIDED, entry, "constructs without a sound abstraction")
    ctx.count("states_left", n)
    trs = {k: transfer(ctx, k) for k in ("reset", "step", "after")}
    played = 0
    rng = random.Random(ctx.seed * 31 + 7)
    if not any(t.unreliable for t in trs.values()):
        for turn in range(3):
            for c, s, diff in res[:SEEDS * 4]:
                if watch.left() < 0:
                    break
                trail = []
                for case, out, pre in play(ctx, c, s, rng):
                    played += 1
                    trail.append((case.kind, {k: repr(v) for k, v in case.args.items()}))
                    for kinds, pred in tests:
                        if case.kind not in kinds:
                            continue
                        out.used = []
                        try:
                            pred(case, out, View(case, out), pre)
                        except (Bad, Bot) as b:
                            tr = trs[c.kind]
                            msg = f"{c.kind} leaves {', '.join(f'{f} {s[f]!r} instead of {c.post[f]!r}' for f in diff[:2])}; {len(trail)} calls later: {b}"
                            return Ob(key, rule, REFUTED, tr.blame(diff) + trs[case.kind].blame(out.used)[:3], msg[:900], n + played,
                                      {"first": c.show(), "then": trail, "reason": str(b)})
                        except (Undecided, LookupError, TypeError, ValueError, ArithmeticError):
                            pass
    how = "every call leaves the state the obligations on single calls start from" if not res else f"{played} calls after states that differ"
    return Ob(key, rule, CONSISTENT, entry, "", n + played, how=how)


__all__ = ["histories", "need"]
