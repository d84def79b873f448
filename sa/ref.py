"""Histories of well-formed tables, produced by the reference semantics
(spec/table.py).  They supply the structures in which two terms that have
different normal forms may be told apart; nothing of clubs is executed."""
import collections
import itertools
import random
from types import SimpleNamespace

from .model import Ufn
from .spec import table as spec

INF = float("inf")
SUITS, RANKS = "SHDC", "23456789TJQKA"
STATE = ["action", "active", "button", "largest_raise", "pot", "pot_commits", "stacks", "street",
         "street_commits", "street_option", "street_raises", "history", "hole_cards", "community_cards"]


def ns(s):
    d = SimpleNamespace(**{k: v for k, v in s.items() if "." not in k})
    d.deck = SimpleNamespace(cards=s["deck.cards"])
    return d


class Case:
    """one transition of the reference: pre-state, arguments, expected post-state"""
    __slots__ = ("kind", "pre", "args", "post", "funcs", "tags", "prev", "cut", "own")

    def __init__(self, kind, pre, args, post, funcs, prev=None, cut=False, tags=()):
        # prev: the transition before; cut: the table was changed by hand since
        self.prev, self.cut, self.own = prev, cut, None
        self.kind, self.pre, self.args, self.funcs, self.tags = kind, pre, args, funcs, tags
        self.post = None if post is None else {**pre, **post}

    def show(self):
        keep = ["num_players", "num_streets", "blinds", "antes", "raise_sizes", "num_raises", "num_community_cards",
                "num_hole_cards", "start_stack", "big_blind"] + STATE
        return {"method": self.kind, "arguments": {k: repr(v) for k, v in self.args.items()},
                "table": {k: repr(self.pre[k]) for k in keep if k in self.pre}}


def config(rng):
    n = rng.choice([2, 2, 3, 3, 3, 4, 4, 5, 2, 3, 3, 4, 4, 5, 6, rng.randint(6, 10)])
    S = rng.choice([1, 2, 2, 3, 2, 2, 3, rng.choice([4, 5])])
    comm = [rng.choice([0, 0, 1, 2, 3]) for _ in range(S)]
    hole = rng.choice([1, 2, 2, 2, 4 if n < 7 else 2])
    kind = rng.random()
    blinds = [rng.choice([0, 1, 2, 4]) for _ in range(n)]
    if kind < 0.4:
        blinds = [1, 2] + [0] * (n - 2)
    elif kind < 0.5:
        blinds = [0] * n
    antes = [0] * n
    if rng.random() < 0.5:
        antes = [rng.choice([0, 1, 1, 2, 5]) for _ in range(n)]
    rs = [rng.choice(["pot", INF, INF, 2, 4, 1]) for _ in range(S)]
    nr = [rng.choice([1.0, 2.0, 3.0, INF, INF]) for _ in range(S)]
    if rng.random() < 0.1:
        nr[rng.randrange(S)] = 0.0
    s = dict(num_players=n, num_streets=S, blinds=blinds, antes=antes, big_blind=blinds[1], raise_sizes=rs,
             num_raises=nr, num_suits=4, num_ranks=13, num_hole_cards=hole, num_community_cards=comm,
             num_cards_for_hand=rng.randint(1, 5), mandatory_num_hole_cards=rng.choice([0, 0, 1]),
             start_stack=rng.choice([2, 3, 5, 10, 40, 40, 200]), max_rank=rng.choice([3, 4, 9]))
    if rng.random() < 0.06:
        # amounts no machine word of 32 bits holds
        s["unit"] = k = rng.choice([2 ** 33 + 1, 2 ** 40 - 3, 10 ** 6 + 1])
        s["blinds"], s["antes"], s["start_stack"] = [b * k for b in blinds], [a * k for a in antes], s["start_stack"] * k + rng.randint(0, 3)
        s["big_blind"], s["raise_sizes"] = s["blinds"][1], [r * k if isinstance(r, int) else r for r in rs]
    s.update(fresh_state(s))
    return s


def fresh_state(s):
    n = s["num_players"]
    full = [r + u for r in RANKS for u in SUITS]
    return {"action": -1, "active": [False] * n, "button": 0, "largest_raise": 0, "pot": 0, "pot_commits": [0] * n,
            "stacks": [s["start_stack"]] * n, "street": 0, "street_commits": [0] * n, "street_option": [False] * n,
            "street_raises": 0, "history": [], "hole_cards": [], "community_cards": [], "deck.cards": full, "viewer": None}


class World:
    """interpretation of the uninterpreted symbols, shared by reference and terms"""

    def __init__(self, rng, max_rank):
        self.u = Ufn(rng.randrange(1 << 30))
        self.k = rng.choice([1, 2, 2, 3, 50])
        self.max_rank = max_rank
        self.fresh = None

    def hand(self, h, c):
        return min(self.u("hand", (tuple(h), tuple(c)), self.k), self.max_rank)


def use(world):
    spec.hand = world.hand
    spec.freshdeck = lambda deck: list(world.fresh)


def shuffled(rng):
    full = [r + u for r in RANKS for u in SUITS]
    rng.shuffle(full)
    return full


def pick_bet(rng, d):
    call, lo, hi = spec.bet_sizes(d)
    r = rng.random()
    if r < 0.12:
        return rng.choice([-1, -5, -1.0, -0.4])
    if r < 0.25:
        return 0
    if r < 0.5:
        return call
    if r < 0.62:
        return lo
    if r < 0.75:
        return hi
    if r < 0.92:
        return rng.randint(0, max(hi, call, 1) + 3)
    return rng.choice([0.5, 1.5, 2.5, 1.4, 1.6, call + 0.5, (call + lo) / 2, lo / 2, call / 2, 1000])


def stream(rng):
    """endless histories, one transition at a time"""
    while True:
        s = config(rng)
        w = World(rng, s["max_rank"])
        use(w)
        last = None
        # on long tables the button has to come round
        idle = rng.randrange(s["num_players"]) if s["num_players"] > 4 and rng.random() < 0.6 else 0
        for hand_no in range(idle + rng.randint(1, 4)):
            cut = False
            if hand_no >= idle and rng.random() < 0.5:
                s = dict(s)
                s["stacks"] = [rng.choice([0, 1, 1, 2, 3, 4, 7, 7, 20, 60]) for _ in s["stacks"]]
                if "unit" in s:
                    s["stacks"] = [x * s["unit"] + rng.choice([0, 0, 1, 5]) for x in s["stacks"]]
                cut = True
            w.fresh = shuffled(rng)
            fresh = list(w.fresh)
            rb, rst = rng.random() < 0.3, rng.random() < 0.25
            if hand_no < idle:
                rb, rst = False, True
            funcs = {"hand": w.hand, "freshdeck": fresh}
            post = spec.reset(ns(s), rb, rst)
            last = Case("reset", s, {"reset_button": rb, "reset_stacks": rst}, post, funcs, last, cut)
            yield last
            if post is None:
                break
            s = {**s, **{k: v for k, v in post.items() if k in s}}
            limit = rng.choice([2, 60, 60, 60]) if hand_no >= idle else 0
            while limit:
                limit -= 1
                d = ns(s)
                bet = pick_bet(rng, d)
                post = spec.step(d, bet)
                last = Case("step", s, {"bet": bet}, post, funcs, last)
                yield last
                s = {**s, **{k: v for k, v in post.items() if k in s}}
                if post["over"]:
                    if rng.random() < 0.5:
                        yield Case("after", s, {"bet": pick_over(rng)}, post, funcs, last)
                    break


def few(x, top=3):
    return x if x < top else top


def order(x, *marks):
    """where x lies among the marks"""
    return tuple((x > m) - (x < m) for m in marks)


def features(c):
    """what is going on in a transition; pairs of these are to be covered"""
    p, q = c.pre, c.post
    n = p["num_players"]
    f = [("n", n), ("button", p["button"]), ("streets", p["num_streets"]), ("hole", p["num_hole_cards"]), ("big", "unit" in p)]
    if c.kind == "reset":
        st = [p["start_stack"]] * n if c.args["reset_stacks"] else p["stacks"]
        f += [("args", c.args["reset_button"], c.args["reset_stacks"]), ("broke", few(sum(x == 0 for x in st), 4)),
              ("ante", any(p["antes"]), len(set(p["antes"])) > 1), ("blinds", few(sum(b > 0 for b in p["blinds"]), 4)),
              ("unequal", p["blinds"][0] > p["blinds"][1]), ("comm0", p["num_community_cards"][0]),
              ("midhand", p["action"] >= 0), ("history", few(len(p["history"]), 2)), ("rejected", q is None)]
        if q is not None:
            b = q["button"]
            f += [("short", few(sum(x == 0 and a for x, a in zip(q["stacks"], q["active"])))), ("first", (q["first"] - b) % n),
                  ("act", (q["action"] - b) % n), ("button in", q["active"][b]), ("actor broke", q["stacks"][q["action"]] == 0)]
            f += [("seat", i, st[i] > 0) for i in range(n)]
        return f
    i = p["action"]
    call, lo, hi = spec.bet_sizes(ns(p)) if c.kind == "step" else (0, 0, 0)
    bet = c.args["bet"]
    f += [("seat", (i - p["button"]) % n), ("size", p["raise_sizes"][min(p["street"], p["num_streets"] - 1)]),
          ("street", p["street"]), ("left", p["num_streets"] - p["street"]),
          ("raises", few(p["street_raises"])), ("cap", order(p["street_raises"], p["num_raises"][min(p["street"], p["num_streets"] - 1)])),
          ("call", order(call, 0, p["stacks"][i], p["largest_raise"])), ("bet", order(bet, -0.5, 0, call, lo, hi), bet != int(bet)),
          ("lo", order(lo, 0, call, hi)), ("stack", order(p["stacks"][i], 0, 1, p["big_blind"])),
          ("in", sum(p["active"])), ("broke", few(sum(a and s == 0 for a, s in zip(p["active"], p["stacks"])))),
          ("history", few(len(p["history"]), 2)), ("option", few(sum(p["street_option"]), 4)), ("largest", order(p["largest_raise"], 0, p["big_blind"]))]
    if c.kind == "step":
        f += [("folds", q["folds"]), ("paid all", q["paid"] == p["stacks"][i]), ("raised", q["street_raises"] > p["street_raises"], q["largest_raise"] > p["largest_raise"]),
              ("agreed", q["agreed"], q["over"]), ("dealt", few(len(q["community_cards"]) - len(p["community_cards"]), 4)),
              ("ran", q["street"] - p["street"]), ("next", (q["action"] - p["button"]) % n if q["action"] >= 0 else -1),
              ("moved", (q["action"] - i) % n if q["action"] >= 0 else -1)]
        if q["over"] and sum(q["active"]) > 1:
            won = [x + y for x, y in zip(q["payouts"], q["pot_commits"])]
            lost = [y for y, a in zip(q["pot_commits"], q["active"]) if not a]
            levels = {y for y, a in zip(q["pot_commits"], q["active"]) if a}
            hands = [c.funcs["hand"](h, q["community_cards"]) for h, a in zip(p["hole_cards"], q["active"]) if a]
            f += [("winners", few(sum(w > 0 for w in won), 4)), ("levels", few(len(levels), 4)), ("folded most", bool(lost) and max(lost) > max(levels)),
                  ("ties", len(hands) - len(set(hands))), ("best short", min(levels) < max(levels) and any(w and y == min(levels) for w, y in zip(won, q["pot_commits"]))),
                  ("uneven", len({w for w in won if w}) > 1), ("rest", few(len(lost))), ("worst", max(hands) == c.pre["max_rank"]),
                  ("lucky", tuple((k - p["button"]) % n for k in range(n) if won[k])[:2])]
        elif q["over"]:
            f.append(("fold end", few(len(set(q["pot_commits"])), 4)))
    return f


def cases(seed, want):
    """transitions that differ from each other: from a pool several times as
    large, those that show a pair of features not seen yet, and others until
    there are `want` steps"""
    rng = random.Random(seed)
    seen = set()
    out, spare = [], []
    pool = 12 * want
    for c in stream(rng):
        pool -= c.kind == "step"
        if pool < 0:
            break
        f = [hash((c.kind,) + x) for x in features(c)]
        new = [p for p in itertools.combinations(f, 2) if p not in seen]
        if new:
            seen.update(new)
            out.append(c)
        elif len(spare) < want * 2:
            spare.append(c)
    have = collections.Counter(c.kind for c in out)
    for c in spare:
        if have[c.kind] < (want if c.kind == "step" else want // 3):
            out.append(c)
            have[c.kind] += 1
    return out


def pick_over(rng):
    return rng.choice([0, 1, -1, 10])
