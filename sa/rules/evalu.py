"""Rules over hand evaluation (clubs/poker/evaluator.py)."""
import itertools
import random

from .. import terms as tm
from ..core import UNDECIDED, Ob
from ..lab import Bot, Lab, Model, Undecided, guarded, need, sweep
from ..model import Obj
from ..spec import hands as sp
from ..terms import NONE, sym
from .cards import PRETTY, RANKS, SUITS, ref_int

CARD = "clubs.poker.card.Card"
INV = {v: k for k, v in sp.NAMES.items()}
ORDER = ["sf", "fk", "fh", "fl", "st", "tk", "tp", "pa", "hc"]


def card(s):
    return Obj(CARD, {"_bin_str": f"{ref_int(s):b}", "_int": ref_int(s), "rank": s[0], "suit": PRETTY[s[1]]})


DECK = {(r, s): card(RANKS[r] + s) for r in range(13) for s in SUITS}


def deal(m, suited, s, rng):
    """cards with the given ranks"""
    if suited:
        x = rng.choice(SUITS[:s])
        cs = [DECK[r, x] for r in m]
    else:
        while True:
            cs, used = [], set()
            for r in m:
                x = rng.choice([y for y in SUITS[:s] if (r, y) not in used])
                used.add((r, x))
                cs.append(DECK[r, x])
            if len(m) < 2 or len({c.f["suit"] for c in cs}) > 1:
                break
    rng.shuffle(cs)
    return cs


class TableLab(Lab):
    """a LookupTable/Evaluator for symbolic suits, ranks, cards, low end and order"""

    def __init__(self, ctx, cls="LookupTable", order=False):
        super().__init__(ctx)
        S, R, C = [sym(x, "int") for x in ("S", "R", "C")]
        tm.BOUNDS[S], tm.BOUNDS[R], tm.BOUNDS[C] = (1, 4), (1, 13), (1, 5)
        lo = sym("lo", "bool")
        o = self.list("order", ("list", "str")) if order else NONE
        kw = {"low_end_straight": lo, "order": o}
        args = [S, R, C]
        if cls == "Evaluator":
            M = sym("M", "int")
            tm.BOUNDS[M] = (0, None)
            kw["mandatory_hole_cards"] = M
        self.obj = self.new(cls, args, kw)
        self.table = self.obj if cls == "LookupTable" else self.I.getattr(self.obj, "table", None)
        self.hand_dict = self.attr(self.table, "hand_dict")
        self.ranked = self.attr(self.table, "ranked_hands")
        self.max_rank = self.attr(self.table, "max_rank")
        self.stored = {}
        I = self.I
        for (loc, f), v in list(I.st.heap.items()):
            if f == "" or loc not in I.loc or I.loc[loc].kind != "obj" or I.loc[loc].cls not in ("clubs.poker.evaluator.LookupTable", "clubs.poker.evaluator.Evaluator"):
                continue
            if v.op == "ref" and I.loc.get(v.args[0]) and I.loc[v.args[0]].kind == "obj":
                continue
            c = I.purify(v)
            d = c.ty == "dict" or isinstance(c.ty, tuple) and c.ty[0] == "dict" or c.op in ("dict", "dupd", "odict")
            if sum(1 for _, _ in zip(range(60), tm.subterms(c))) < 60 or not (d or c.op in ("ite", "mu") and not tm.is_numeric(c) and not tm.is_listy(c)):
                continue
            # the tables are evaluated once per configuration
            name = f"stored:{f}"
            self.stored[name] = c
            I.st.heap[(loc, f)] = I.alloc("dict", origin="field", label=f, content=sym(name, ty="dict"))

        if cls == "Evaluator":
            self.settle()

    def config(self, s, r, k, lo, **more):
        """a structure: the configuration and the values of its stored tables"""
        base = dict(S=s, R=r, C=k, lo=lo, **more)
        m = Model(base)
        m.LIMIT = 10 ** 9
        if self.mark:
            ex = self.raised(m, True)
            need(ex is None, f"constructing the evaluator raises {ex}")
        for name, t in self.stored.items():
            try:
                base[name] = m(t)
            except Bot:
                base[name] = None
        return base


def big(d):
    m = Model(d)
    m.LIMIT = 10 ** 9
    return m


def configs(ctx, ranks=None):
    for k in range(1, 6):
        for r in range(1, 14):
            for s in range(1, 5):
                for lo in (True, False):
                    yield s, r, k, lo


def show(s, r, k, lo):
    return f"{s} suits, {r} ranks, {k} cards{'' if lo else ', no low end straight'}"


def deep(ctx, s, r, k, lo):
    """configurations whose whole table is compared in the quick tier"""
    if r * s < k:
        return False
    if ctx.thorough:
        return True
    if k == 5:
        return r <= 8 and s in (2, 3, 4) or (r, s) == (7, 1)
    if k == 4:
        return r in (4, 5, 6, 9) or (r, s) == (13, 4) and lo and False
    return r in (3, 4, 6, 13) or k < 3


def c24(ctx):
    """frequencies of the hand classes"""
    rule = "class-counts"

    def build():
        L = TableLab(ctx)
        raw = L.stored.get("stored:hand_dict", L.hand_dict)
        L.done()
        doms = {}
        for cfg in configs(ctx):
            m = Model(dict(zip(("S", "R", "C", "lo"), cfg)))
            doms[cfg] = m
        vals = {}

        def hd(m):
            cfg = tuple(m.syms[x] for x in ("S", "R", "C", "lo"))
            if cfg not in vals:
                vals[cfg] = m(raw)
            return cfg, vals[cfg]
        obs = []
        for c in ORDER:
            for what, i in (("unsuited", 0), ("suited", 1)):
                def pred(m, c=c, what=what, i=i):
                    cfg, d = hd(m)
                    if cfg[0] * cfg[1] < cfg[2]:
                        return
                    want = sp.counts(*cfg)[c][i]
                    got = d[sp.NAMES[c]][what]
                    need(got == want, f"{sp.NAMES[c]} counts {got} {what} hands, the deck has {want}")
                if c == "tk" and i == 1:
                    for nm, sel in ((" (not 3 suits or 3 cards)", lambda g: g[0] != 3 or g[2] <= 3), (" (3 suits, 4 or 5 cards)", lambda g: g[0] == 3 and g[2] > 3)):
                        st = [(show(*g), m) for g, m in doms.items() if sel(g)]
                        obs.append(sweep(ctx, f"number of {what} hands: {sp.NAMES[c]}{nm}", rule, L, ["LookupTable.__init__"], st, pred, True))
                    continue
                st = [(show(*g), m) for g, m in doms.items()]
                obs.append(sweep(ctx, f"number of {what} hands: {sp.NAMES[c]}", rule, L, ["LookupTable.__init__"], st, pred, True))
        return obs
    return guarded(ctx, "class counts", rule, build)


def c25(ctx):
    """order of the hand classes"""
    rule = "class-order"

    def default():
        L = TableLab(ctx)
        raw = L.stored.get("stored:hand_dict", L.hand_dict)
        L.done()
        st = [(show(*g), Model(dict(zip(("S", "R", "C", "lo"), g)))) for g in configs(ctx) if g[0] * g[1] >= g[2]]

        def possible(m):
            d = m(raw)
            got = list(m(L.ranked))
            want = {h for h in d if d[h]["unsuited"]}
            need(len(set(got)) == len(got) and set(got) == want, f"ranked hands are {got}, possible are {sorted(want)}")

        def rarity(m):
            d = m(raw)
            got = list(m(L.ranked))
            n = [d[h]["suited"] for h in got]
            need(all(a <= b for a, b in zip(n, n[1:])), f"hands are ranked {got} but occur {n} times")

        def top(m):
            d = m(raw)
            need(m(L.max_rank) >= sum(d[h]["unsuited"] for h in d) - 1, f"max_rank {m(L.max_rank)} is below the number of different hands")
        return [
            sweep(ctx, "exactly the possible hand classes are ranked", rule, L, ["LookupTable.__init__"], st, possible, True),
            sweep(ctx, "without a custom order rarer classes beat more frequent ones", rule, L, ["LookupTable.__init__"], st, rarity, True),
            sweep(ctx, "max_rank covers all hands", rule, L, ["LookupTable.__init__"], st, top, True),
        ]

    def custom():
        L = TableLab(ctx, order=True)
        raw = L.stored.get("stored:hand_dict", L.hand_dict)
        L.done()
        rng = random.Random(ctx.seed)

        def st():
            for g in configs(ctx):
                if g[0] * g[1] < g[2]:
                    continue
                for _ in range(3 if ctx.thorough else 1):
                    o = rng.sample(ORDER, 9)
                    yield f"{show(*g)}, order {o}", Model(dict(zip(("S", "R", "C", "lo"), g), order=o))

        def follows(m):
            d = m(raw)
            need(L.raised(m) is None, f"raises {L.raised(m)}")
            got = list(m(L.ranked))
            want = [sp.NAMES[c] for c in m.syms["order"] if d[sp.NAMES[c]]["unsuited"]]
            need(got == want, f"order {m.syms['order']} ranks the hands {got}")

        def bad():
            for o in (["sf"], [], ORDER + ["sf"], ORDER[:-1] + ["xx"], ORDER[:-1] + ["sf"], ORDER[:-1], ["SF"] + ORDER[1:], ORDER + ["hc", "zz"], list("abcdefghi")):
                yield f"order {o}", Model(dict(S=4, R=13, C=5, lo=True, order=o))
            for i in range(9):
                o = ORDER[:]
                o[i] = ORDER[(i + 1) % 9]
                yield f"order {o}", Model(dict(S=4, R=13, C=5, lo=True, order=o))

        def rejects(m):
            need(L.raised(m) == "InvalidOrderError", f"order {m.syms['order']} raises {L.raised(m)}")
        return [
            sweep(ctx, "a custom order is followed, impossible hands left out", rule, L, ["LookupTable.__init__"], st(), follows),
            sweep(ctx, "only permutations of the order strings are accepted", "order-reject", L, ["LookupTable.__init__"], bad(), rejects),
        ]
    def text():
        L = TableLab(ctx, "Evaluator")
        raw = L.stored.get("stored:hand_dict", L.hand_dict)
        t = L.pure(L.call(L.obj, "__str__"))
        L.done()
        st = [(show(*g), big(dict(zip(("S", "R", "C", "lo", "M"), g + (0,))))) for g in configs(ctx) if g[0] * g[1] >= g[2]]

        def p(m):
            d = m(raw)
            got = m(t)
            ranked = list(m(L.ranked))
            total = sum(d[h]["suited"] for h in d)
            want = " > ".join("{} ({:.4%})".format(h, d[h]["suited"] / total) for h in ranked)
            need(got == want, f"str(evaluator) is {got!r}, the hands are {want!r}")
        return sweep(ctx, "str(evaluator) lists the ranked hands with their frequency", "class-text", L, ["Evaluator.__str__"], st, p, True)
    return (guarded(ctx, "class order", rule, default) + guarded(ctx, "custom order", rule, custom)
            + guarded(ctx, "evaluator text", "class-text", text))


def lookups(ctx, L, t, base, s, r, k, lo, rng):
    """[(class, strength key, suited, rank number)] of every kind of hand"""
    out = []
    for c, m, suited in sp.hands(s, r, k, lo):
        v = None
        for _ in range(2 if k <= 3 else 1):
            cs = deal(m, suited, s, rng)
            mod = Model({**base, "cards": cs})
            try:
                x = mod(t)
            except Bot as b:
                need(False, f"no rank for {''.join(RANKS[i] for i in m)} ({'one suit' if suited else 'mixed suits'}, {sp.NAMES[c]}): {b}")
            need(isinstance(x, int) and x >= 0, f"rank {x} for {m}")
            need(v is None or v == x, f"rank of {''.join(RANKS[i] for i in m)} depends on suits or order of the cards: {v}, {x}")
            v = x
        out.append((c, sp.strength(m, c, r, lo), m, suited, v))
    return out


def hand(m):
    return "".join(RANKS[i] for i in m)


def c26(ctx):
    """strength order of all hands of a deck"""
    rule = "hand-strength"

    def build(order):
        L = TableLab(ctx, "Evaluator", order=order)
        LC = ("list", ("obj", CARD))
        t = L.pure(L.call(L.table, "lookup", [L.list("cards", LC)]))
        g = L.pure(L.call(L.obj, "get_rank_class", [sym("hr", "int")]))
        L.done()
        rng = random.Random(ctx.seed + order)
        cache = {}

        def st():
            for cfg in configs(ctx):
                if not deep(ctx, *cfg):
                    continue
                if order and (cfg[1] > 7 or cfg[0] == 1 or cfg[1] * cfg[0] < cfg[2]):
                    continue
                more = {"M": 0}
                if order:
                    more["order"] = rng.sample(ORDER, 9)
                yield show(*cfg) + (f", order {more['order']}" if order else ""), (cfg, more)

        def table(key):
            cfg, more = key
            k = (cfg, tuple(more.get("order", ())))
            if k not in cache:
                base = L.config(*cfg, **more)
                try:
                    rows = lookups(ctx, L, t, base, *cfg, rng)
                except Exception as e:
                    cache[k] = e
                    raise
                cache[k] = (base, rows)
            if isinstance(cache[k], Exception):
                raise cache[k]
            return cache[k]

        def rows(m):
            return table(m)

        def ordered(m):
            base, rs = table(m)
            by = {}
            for c, key, ms, suited, v in rs:
                by.setdefault(c, {}).setdefault((key, ms), set()).add(v)
            for c, d in by.items():
                xs = sorted(d)
                vs = []
                for x in xs:
                    need(len(d[x]) == 1, f"{sp.NAMES[c]} {hand(x[1])} has the ranks {sorted(d[x])}")
                    vs.append(next(iter(d[x])))
                for a, b, x, y in zip(vs, vs[1:], xs, xs[1:]):
                    need(a < b, f"{sp.NAMES[c]} {hand(x[1])} (rank {a}) does not beat {hand(y[1])} (rank {b})")

        def classes(m):
            base, rs = table(m)
            ranked = [INV[x] for x in big(base)(L.ranked)]
            lim = {}
            for c, _, ms, _, v in rs:
                lo_, hi = lim.get(c, (v, v))
                lim[c] = (min(lo_, v), max(hi, v))
            for a, b in zip(ranked, ranked[1:]):
                need(a in lim and b in lim, f"{[sp.NAMES[x] for x in (a, b) if x not in lim]} ranked but impossible")
                need(lim[a][1] < lim[b][0], f"not every {sp.NAMES[a]} beats every {sp.NAMES[b]}: ranks {lim[a]} and {lim[b]}")
            mx = big(base)(L.max_rank)
            need(all(hi <= mx for _, hi in lim.values()), f"rank above max_rank {mx}")

        def named(m):
            base, rs = table(m)
            pick = {}
            for c, _, ms, _, v in rs:
                pick.setdefault(c, []).append((v, ms))
            for c, vs in pick.items():
                for v, ms in {min(vs), max(vs), vs[len(vs) // 2]}:
                    mod = Model({**base, "hr": v})
                    need(L.raised(mod) is None, f"get_rank_class({v}) raises {L.raised(mod)}")
                    got = mod(g)
                    need(got == sp.NAMES[c], f"get_rank_class of {hand(ms)} (rank {v}) is {got!r}, not {sp.NAMES[c]!r}")

        def beyond(m):
            base, rs = table(m)
            mx = big(base)(L.max_rank)
            for v in (-1, -7, mx + 1, mx + 100):
                mod = Model({**base, "hr": v})
                need(L.raised(mod) == "InvalidHandRankError", f"get_rank_class({v}) raises {L.raised(mod)} (max_rank {mx})")
        structures = list(st())
        w = ["LookupTable.__init__", "LookupTable.lookup"]
        sfx = " (custom order)" if order else ""
        return [
            psweep(ctx, "within a class better ranks win, equal ranks tie, suits never matter" + sfx, rule, L, w, structures, ordered),
            psweep(ctx, "every hand of a higher class beats every hand of a lower one" + sfx, rule, L, w, structures, classes),
            psweep(ctx, "get_rank_class names the class of every hand" + sfx, rule, L, ["Evaluator.get_rank_class"], structures, named),
            psweep(ctx, "numbers that are no hand rank are rejected" + sfx, "rank-reject", L, ["Evaluator.get_rank_class"], structures, beyond),
        ]

    def sizes():
        L = Lab(ctx)
        L.new("Evaluator", [sym("fs", "int"), sym("fr", "int"), sym("fc", "int")])
        L.done()
        st = [(f"{c} cards for a hand", Model({"fs": 4, "fr": 13, "fc": c})) for c in (-3, -1, 0, 1, 2, 3, 4, 5, 6, 7, 52)]

        def p(m):
            c = m.syms["fc"]
            got = L.raised(m)
            need((got == "InvalidHandSizeError") == (not 1 <= c <= 5), f"{c} card hands: raises {got}")
        return sweep(ctx, "hands have one to five cards", "hand-size", L, ["Evaluator.__init__"], st, p)
    return (guarded(ctx, "hand strength", rule, lambda: build(False)) + guarded(ctx, "hand strength, custom order", rule, lambda: build(True))
            + guarded(ctx, "hand sizes", "hand-size", sizes))


def psweep(ctx, key, rule, lab, where, structures, pred):
    """sweep whose structures are described by plain data"""
    return sweep(ctx, key, rule, lab, where, structures, pred)


def operators(ctx):
    """what the operators of a card compute, for terms that lost track of which values are cards"""
    for name in ("__and__", "__rand__", "__or__", "__ror__", "__lshift__", "__rshift__", "__int__"):
        L = Lab(ctx)
        if not ctx.prog.method(CARD, name):
            continue
        try:
            x, y = sym("x", ty=("obj", CARD)), sym("y", ty="any")
            t = L.pure(L.call(x, name, [] if name == "__int__" else [y]))
        except Exception:
            continue
        if not L.I.doubts() and not L.I.root_raises:
            Obj.DUNDER[CARD, name] = t


def c23(ctx):
    """evaluate = best of the admissible card combinations"""
    rule = "best-combination"
    operators(ctx)

    def build():
        L = TableLab(ctx, "Evaluator")
        LC = ("list", ("obj", CARD))
        h, c = L.list("hole", LC), L.list("comm", LC)
        x = L.pure(L.call(L.obj, "evaluate", [h, c]))
        h2, c2 = L.I.purify(h), L.I.purify(c)
        t = L.pure(L.call(L.table, "lookup", [L.list("cards", LC)]))
        # the same evaluator is asked again
        y = L.pure(L.call(L.obj, "evaluate", [L.list("hole2", LC), L.list("comm2", LC)]))
        L.done()
        rng = random.Random(ctx.seed)
        bases = {}

        def st():
            n = 1500 if ctx.thorough else 260
            for _ in range(n):
                k = rng.choice([1, 2, 3, 3, 4, 5])
                s = rng.choice([1, 2, 3, 4, 4])
                r = rng.choice([4, 5, 6, 7])
                lo = rng.random() < 0.7
                if s * r < 8:
                    continue
                cfg = (s, r, k, lo)
                if cfg not in bases:
                    bases[cfg] = L.config(*cfg, M=0)
                M = rng.choice([0, 0, 1, 2, k, k - 1])
                M = max(0, min(M, k))
                nh, nc = rng.randint(0, rng.choice([4, 4, 4, 6])), rng.randint(0, rng.choice([5, 5, 5, 7]))
                if nh + nc > s * r:
                    continue
                cs = rng.sample([DECK[i, y] for i in range(13 - r, 13) for y in SUITS[:s]], nh + nc)
                yield (f"{show(*cfg)}, {M} mandatory, hole {[a.f['rank'] + a.f['suit'] for a in cs[:nh]]}, "
                       f"community {[a.f['rank'] + a.f['suit'] for a in cs[nh:]]}"), Model({**bases[cfg], "M": M, "hole": cs[:nh], "comm": cs[nh:]})

        def combos(m):
            hole, comm, M, k = m.syms["hole"], m.syms["comm"], m.syms["M"], m.syms["C"]
            if M:
                return [list(a) + list(b) for a in itertools.combinations(hole, M) for b in itertools.combinations(comm, k - M)]
            return [list(a) for a in itertools.combinations(hole + comm, k)]

        memo = {}

        def best(m):
            vs = []
            for cs in combos(m):
                key = (tuple(m.syms[z] for z in ("S", "R", "C", "lo")), tuple(sorted(a.f["_int"] for a in cs)))
                if key not in memo:
                    memo[key] = Model({**m.syms, "cards": cs})(t)
                vs.append(memo[key])
            if not vs:
                need(m(x) == m(L.max_rank), f"evaluate gives {m(x)} although no hand can be formed (worst is {m(L.max_rank)})")
                return
            got = m(x)
            need(got == min(vs), f"evaluate gives {got}, the best admissible hand has rank {min(vs)}")

        def untouched(m):
            need(m(h2) == m.syms["hole"] and m(c2) == m.syms["comm"], "evaluate changes the cards it is given")

        def again(m):
            """a second evaluation is what it would be on its own"""
            a, b = m.syms["hole"], m.syms["comm"]
            for h2_, c2_ in ((a, b[::-1]), (a, b[1:]), (a[1:], b), (b, a), (a + b, []), (a[::-1], b)):
                one, two = Model({**m.syms, "hole": h2_, "comm": c2_}), Model({**m.syms, "hole2": h2_, "comm2": c2_})
                try:
                    want = one(x)
                except Bot:
                    continue
                got = two(y)
                need(got == want, f"after {len(a)} + {len(b)} cards were evaluated, {hands(h2_)} + {hands(c2_)} is ranked {got} instead of {want}")

        def hands(cs):
            return [a.f["rank"] + a.f["suit"] for a in cs]
        cs = list(st())
        return [
            sweep(ctx, "an evaluation does not depend on earlier ones", rule, L, ["Evaluator.evaluate"], cs[:90 if not ctx.thorough else 600], again),
            sweep(ctx, "evaluate is the best rank over all admissible combinations", rule, L, ["Evaluator.evaluate"], cs, best),
            sweep(ctx, "evaluate leaves the given cards alone", rule, L, ["Evaluator.evaluate"], cs, untouched),
        ]
    return guarded(ctx, "best combination", rule, build)
