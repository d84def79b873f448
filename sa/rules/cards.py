"""Rules over cards and decks (clubs/poker/card.py)."""
import itertools
import random

from .. import terms as tm
from ..lab import Bot, Lab, Model, guarded, need, sweep
from ..terms import const, sym

RANKS = "23456789TJQKA"
SUITS = "SHDC"
PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41]
PRETTY = dict(zip(SUITS, map(chr, (9824, 9829, 9830, 9827))))
BIT = dict(zip(SUITS, (1, 2, 4, 8)))


def ref_int(s):
    r = RANKS.index(s[0].upper())
    return (1 << (16 + r)) | (BIT[s[1].upper()] << 12) | (r << 8) | PRIMES[r]


ALL = [r + s for r in RANKS for s in SUITS]


def spellings():
    for s in ALL:
        yield from sorted({s, s.lower(), s[0] + s[1].lower(), s[0].lower() + s[1]})


def card_lab(ctx):
    def make():
        L = Lab(ctx)
        c = L.new("Card", [sym("s", "str")])
        L.card = c
        L.int, L.rank, L.suit = L.attr(c, "_int"), L.attr(c, "rank"), L.attr(c, "suit")
        L.toint = L.pure(L.call(c, "__int__"))
        L.tostr = L.pure(L.call(c, "__str__"))
        L.nraise = len(L.I.root_raises)
        L.done()
        return L
    return ctx.memo("card_lab", make)


def pair_lab(ctx):
    def make():
        L = Lab(ctx)
        a = L.new("Card", [sym("s", "str")])
        b = L.new("Card", [sym("t", "str")])
        L.a, L.b = a, b
        n = sym("n", "int")
        L.t = {}
        for m, other in (("__eq__", b), ("__and__", b), ("__or__", b)):
            L.t[m] = L.pure(L.call(a, m, [other]))
        for m in ("__and__", "__or__", "__rand__", "__ror__", "__lshift__", "__rshift__"):
            L.t[m + "n"] = L.pure(L.call(a, m, [n]))
        L.done()
        return L
    return ctx.memo("pair_lab", make)


def c21(ctx):
    def build():
        L = card_lab(ctx)
        good = [(repr(s), Model({"s": s})) for s in spellings()]

        def enc(m):
            s = m.syms["s"]
            need(L.raised(m) is None, f"Card({s!r}) raises {L.raised(m)}")
            need(m(L.toint) == ref_int(s), f"Card({s!r}) is encoded as {m(L.toint):#x}, the documented layout gives {ref_int(s):#x}")

        def face(m):
            s = m.syms["s"].upper()
            need(m(L.rank) == s[0], f"rank of Card({s!r}) is {m(L.rank)!r}")
            need(m(L.suit) == PRETTY[s[1]], f"suit of Card({s!r}) is {m(L.suit)!r}")
            need(m(L.tostr) == s[0] + PRETTY[s[1]], f"str(Card({s!r})) is {m(L.tostr)!r}")

        vals = {}

        def inj(m):
            s = m.syms["s"].upper()
            v = m(L.toint)
            need(vals.setdefault(v, s) == s, f"{vals[v]} and {s} have the same integer {v}")

        bad = []
        for r in "013456789ABEJTX*ZQ":
            for s in "SHDCXAKT12 ":
                for q in (r + s, (r + s).lower()):
                    bad.append((repr(q), Model({"s": q})))

        def reject(m):
            s = m.syms["s"].upper()
            want = "InvalidRankError" if s[0] not in RANKS else "InvalidSuitError" if s[1] not in SUITS else None
            got = L.raised(m)
            need(got == want, f"Card({m.syms['s']!r}) raises {got}, documented is {want}")

        return [
            sweep(ctx, "cards are encoded in the documented bit layout", "card-encoding", L, "Card.__init__", good, enc, True),
            sweep(ctx, "rank, suit and text of a card are those of its string", "card-face", L, ["Card.__init__", "Card.__str__"], good, face, True),
            sweep(ctx, "different cards have different integers", "card-injective", L, "Card.__init__", good, inj, True),
            sweep(ctx, "strings that name no card are rejected", "card-reject", L, "Card.__init__", bad, reject),
        ]

    def ops():
        L = pair_lab(ctx)
        rng = random.Random(ctx.seed)
        st = []
        for s, t in itertools.product(ALL, ALL):
            n = rng.choice([0, 1, 4, 8, 12, 16, 255, 0xF000, 0xFFFF, rng.randrange(1 << 29)])
            st.append((f"{s}, {t}, {n}", Model({"s": s, "t": t, "n": n})))

        def op(name, f):
            def p(m):
                want = f(ref_int(m.syms["s"]), ref_int(m.syms["t"]), m.syms["n"])
                got = m(L.t[name])
                need(got == want, f"{name} gives {got}, the integers give {want}")
            return p

        def sh(name, f):
            def p(m):
                if m.syms["n"] <= 32:
                    op(name, f)(m)
            return p
        return [
            sweep(ctx, "two cards are equal exactly if they name the same card", "card-operators", L, "Card.__eq__", st, op("__eq__", lambda a, b, n: a == b), True),
            sweep(ctx, "and/or of two cards work on their integers", "card-operators", L, ["Card.__and__", "Card.__or__"], st,
                  lambda m: (op("__and__", lambda a, b, n: a & b)(m), op("__or__", lambda a, b, n: a | b)(m)), True),
            sweep(ctx, "and/or of a card and an integer work on its integer, on either side", "card-operators", L,
                  ["Card.__and__", "Card.__or__", "Card.__rand__", "Card.__ror__"], st,
                  lambda m: [op(k, f)(m) for k, f in (("__and__n", lambda a, b, n: a & n), ("__or__n", lambda a, b, n: a | n),
                                                      ("__rand__n", lambda a, b, n: a & n), ("__ror__n", lambda a, b, n: a | n))]),
            sweep(ctx, "shifts of a card shift its integer", "card-operators", L, ["Card.__lshift__", "Card.__rshift__"], st,
                  lambda m: [sh(k, f)(m) for k, f in (("__lshift__n", lambda a, b, n: a << n), ("__rshift__n", lambda a, b, n: a >> n))]),
        ]
    return guarded(ctx, "card encoding", "card-encoding", build) + guarded(ctx, "card operators", "card-operators", ops)


# ------------------------------------------------------------------ decks


SIZES = [(ns, nr) for ns in range(1, 5) for nr in range(1, 14)]


def deck_names(ns, nr):
    return {r + PRETTY[s] for r in RANKS[-nr:] for s in SUITS[:ns]}


def name(c):
    """text of a card object of a structure"""
    return c.f["rank"] + c.f["suit"]


def names(cs):
    need(isinstance(cs, (list, tuple)), f"{cs!r} is not a list of cards")
    return [name(c) for c in cs]


def perms(seed):
    """interpretations of random.shuffle"""
    def mixed(k):
        return lambda l: random.Random(seed * 1000 + k + len(l)).sample(list(l), len(l))
    return [list, lambda l: list(reversed(l)), lambda l: list(l[1:]) + list(l[:1])] + [mixed(k) for k in range(4)]


class DeckLab(Lab):
    def __init__(self, ctx):
        super().__init__(ctx)
        ns, nr = sym("ns", "int"), sym("nr", "int")
        tm.BOUNDS[ns], tm.BOUNDS[nr] = (1, 4), (1, 13)
        self.ns, self.nr = ns, nr
        self.deck = self.new("Deck", [ns, nr])
        self.full = self.attr(self.deck, "full_deck")
        self.cards = self.attr(self.deck, "cards")
        # the path condition of a successful construction is kept apart
        self.built = self.I.st.pc

    def top(self, label="top"):
        LC = ("list", ("obj", self.cls("Card").qual))
        return self.list(label, LC)

    def now(self):
        return self.attr(self.deck, "cards")


FEW = [(1, 1), (2, 1), (1, 5), (2, 3), (3, 4), (4, 6), (2, 13), (4, 13)]


def sizes(ctx, extra=None):
    rng = random.Random(ctx.seed + 5)
    few = extra and not ctx.thorough
    extra = extra or (lambda rng, ns, nr: [{}])
    for ns, nr in FEW if few else SIZES:
        for k, p in enumerate(perms(ctx.seed)[:3] if few else perms(ctx.seed)):
            for e in extra(rng, ns, nr):
                yield f"{ns} suits, {nr} ranks, order {k}, {e}", Model({"ns": ns, "nr": nr, **e}, {"shuffle": p})


def c18(ctx):
    rule = "deck-terms"

    def build():
        L = DeckLab(ctx)
        before = L.cards
        L.I.tick = "again"
        sh = L.call(L.deck, "shuffle")
        after, full2 = L.now(), L.attr(L.deck, "full_deck")
        ln = L.pure(L.call(L.deck, "__len__"))
        L.done()

        def content(m):
            want = deck_names(m.syms["ns"], m.syms["nr"])
            for what, t in (("a new deck", before), ("a shuffled deck", after)):
                got = names(m(t))
                need(sorted(got) == sorted(want), f"{what} of {m.syms['ns']} suits and {m.syms['nr']} ranks holds {sorted(got)}")

        def fixed(m):
            need(names(m(full2)) == names(m(L.full)), "shuffle changes full_deck")
            need(sorted(names(m(full2))) == sorted(deck_names(m.syms["ns"], m.syms["nr"])), "full_deck is not the documented deck")

        def length(m):
            need(m(ln) == m.syms["ns"] * m.syms["nr"], f"len() of a full deck is {m(ln)}")

        def mixes(m):
            ns, nr = m.syms["ns"], m.syms["nr"]
            if ns * nr < 3:
                return
            for what, t in (("construction", before), ("shuffle", after)):
                a = [names(Model({"ns": ns, "nr": nr}, {"shuffle": p})(t)) for p in perms(ctx.seed)]
                base = names(m(L.full))
                need(any(x != a[0] for x in a), f"the order after {what} does not depend on random.shuffle: {a[0][:4]}")
                if m.funcs["shuffle"] is list:
                    continue
                got = names(m(t))
                pos = set(i for i, (x, y) in enumerate(zip(got, base)) if x != y)
                need(pos, f"{what} leaves the deck in its initial order")

        def where_free(m):
            """no position is spared by shuffling"""
            ns, nr = m.syms["ns"], m.syms["nr"]
            if ns * nr < 2 or m.funcs["shuffle"] is not list:
                return
            for what, t in (("construction", before), ("shuffle", after)):
                turn = ("shuffle", "again") if t is after else "shuffle"
                a = [names(Model({"ns": ns, "nr": nr}, {"shuffle": list, turn: p})(t)) for p in (list, lambda l: list(l[1:]) + list(l[:1]))]
                same = [i for i in range(ns * nr) if a[0][i] == a[1][i]]
                need(not same, f"{what} never moves the card at position {same[:1]}")

        self_ret = sh is L.deck
        obs = [
            sweep(ctx, "the deck holds every card of its ranks and suits exactly once", rule, L, ["Deck.__init__", "Deck.shuffle"], sizes(ctx), content),
            sweep(ctx, "shuffling never alters the set of cards", rule, L, "Deck.shuffle", sizes(ctx), fixed),
            sweep(ctx, "len() is the number of remaining cards", rule, L, "Deck.__len__", sizes(ctx), length),
            sweep(ctx, "creating and shuffling a deck randomises its order", rule, L, "Deck.shuffle", sizes(ctx), mixes),
            sweep(ctx, "shuffling moves every position", rule, L, "Deck.shuffle", sizes(ctx), where_free),
        ]
        from ..core import PROVED, REFUTED, UNDECIDED, Ob
        obs.append(Ob("shuffle returns the deck", "deck-fluent", PROVED if self_ret else UNDECIDED if L.shaky else REFUTED, [L.at("Deck.shuffle")],
                      "" if self_ret else "the value returned by shuffle is not the deck"))
        return obs

    def draws():
        L = DeckLab(ctx)
        c0 = L.now()
        n = sym("n", "int")
        x = L.pure(L.call(L.deck, "draw", [n]))
        c1 = L.now()
        y = L.pure(L.call(L.deck, "draw"))
        c2, full = L.now(), L.attr(L.deck, "full_deck")
        ln = L.pure(L.call(L.deck, "__len__"))
        text = L.pure(L.call(L.deck, "__str__"))
        c2b = L.now()
        L.call(L.deck, "shuffle")
        c3 = L.now()
        L.done()

        def extra(rng, ns, nr):
            t = ns * nr
            return [{"n": k} for k in sorted({0, 1, 2, 5, t - 1, t, t + 1, t + 7, rng.randrange(t + 1)})]

        def top(m):
            k = m.syms["n"]
            old = names(m(c0))
            need(names(m(x)) == old[:k], f"draw({k}) from {old[:6]} ({len(old)} cards) returns {names(m(x))[:6]}")

        def rest(m):
            k = m.syms["n"]
            old = names(m(c0))
            need(names(m(c1)) == old[k:], f"draw({k}) of {len(old)} cards leaves {len(m(c1))} cards {names(m(c1))[:4]}")

        def single(m):
            k = m.syms["n"]
            old = names(m(c0))[k:]
            need(names(m(y)) == old[:1], f"draw() returns {names(m(y))}, the next card is {old[:1]}")
            need(names(m(c2)) == old[1:], "draw() removes other cards than it returns")
            need(m(ln) == len(old[1:]), f"len() is {m(ln)} with {len(old[1:])} cards left")

        def printed(m):
            s, left = m(text), names(m(c2))
            need(isinstance(s, str), f"the text is {s!r}")
            at = sorted((s.find(x), x) for x in deck_names(m.syms["ns"], m.syms["nr"]) if x in s)
            need([x for _, x in at] == left, f"the text of a deck with the cards {left[:4]}... shows {[x for _, x in at][:4]}...")
            need(names(m(c2b)) == left, "printing changes the deck")

        def again(m):
            want = sorted(deck_names(m.syms["ns"], m.syms["nr"]))
            need(sorted(names(m(full))) == want, "drawing changes full_deck")
            need(sorted(names(m(c3))) == want, "shuffle after drawing does not restore all cards")
        return [
            sweep(ctx, "draw returns the top cards in order, at most those left", rule, L, "Deck.draw", sizes(ctx, extra), top),
            sweep(ctx, "draw removes exactly the cards it returns", rule, L, "Deck.draw", sizes(ctx, extra), rest),
            sweep(ctx, "by default one card is drawn and the length follows", rule, L, ["Deck.draw", "Deck.__len__"], sizes(ctx, extra), single),
            sweep(ctx, "the text of a deck lists the cards left in order", rule, L, "Deck.__str__", sizes(ctx, extra), printed),
            sweep(ctx, "shuffle restores the whole deck", rule, L, "Deck.shuffle", sizes(ctx, extra), again),
        ]

    def invalid():
        L = Lab(ctx)
        L.new("Deck", [sym("fs", "int"), sym("fr", "int")])
        L.done()
        st = [(f"Deck({a}, {b})", Model({"fs": a, "fr": b}, {"shuffle": list})) for a in range(-2, 8) for b in range(-2, 18)]

        def p(m):
            a, b = m.syms["fs"], m.syms["fr"]
            got = L.raised(m)
            ok = set()
            if not 1 <= b <= 13:
                ok.add("InvalidRankError")
            if not 1 <= a <= 4:
                ok.add("InvalidSuitError")
            need(got in ok if ok else got is None, f"Deck({a}, {b}) raises {got}")
        return sweep(ctx, "only decks of 1-4 suits and 1-13 ranks are created", "deck-size", L, "Deck.__init__", st, p)
    return (guarded(ctx, "deck content", rule, build) + guarded(ctx, "drawing", rule, draws) + guarded(ctx, "deck sizes", "deck-size", invalid))


def scripts(depth):
    ops = ("trick", "shuffle", "draw", "untrick")
    for n in range(2, depth + 1):
        for s in itertools.product(ops, repeat=n):
            if "trick" in s and s[-1] in ("shuffle",) and "shuffle" in s[s.index("trick"):]:
                yield s


def c19(ctx):
    """the order after shuffling follows the last trick/untrick"""
    rule = "trick-terms"
    obs = []
    depth = 4 if ctx.thorough else 3
    todo = list(scripts(depth))

    def one(s):
        L = DeckLab(ctx)
        ntrick = ndraw = 0
        state = None
        fluent = True
        L.I.tick = 0
        full = L.attr(L.deck, "full_deck")
        for op in s:
            if op == "trick":
                r = L.call(L.deck, "trick", [L.top(f"top{ntrick}")])
                state = f"top{ntrick}"
                ntrick += 1
                fluent = fluent and r is L.deck
            elif op == "untrick":
                r = L.call(L.deck, "untrick")
                state = None
                fluent = fluent and r is L.deck
            elif op == "draw":
                L.call(L.deck, "draw", [sym(f"n{ndraw}", "int")])
                ndraw += 1
            else:
                L.I.tick = (L.I.tick or 0) + 1
                L.call(L.deck, "shuffle")
        last = L.I.tick
        end = L.now()
        L.done()
        key = "order after " + ", ".join(s)

        def structures():
            rng = random.Random(ctx.seed * 31 + len(s))
            szs = SIZES if ctx.thorough else [(1, 1), (1, 5), (2, 3), (3, 4), (4, 13), (2, 13), (4, 6)]
            for ns, nr in szs:
                base = Model({"ns": ns, "nr": nr}, {"shuffle": list})(full)
                for k, p in enumerate(perms(ctx.seed)[:5]):
                    t = ns * nr
                    e = {}
                    for i in range(ntrick):
                        m = rng.choice([0, 1, 2, 3, t // 2, t - 1, t, t])
                        e[f"top{i}"] = rng.sample(list(base), min(max(m, 0), t))
                    for i in range(ndraw):
                        e[f"n{i}"] = rng.choice([0, 1, 3, t, t + 2])
                    d = {a: (names(b) if isinstance(b, list) else b) for a, b in e.items()}
                    yield f"{ns} suits, {nr} ranks, order {k}, {d}", Model({"ns": ns, "nr": nr, **e}, {"shuffle": p})

        def p(m):
            r = L.raised(m)
            need(r is None, f"raises {r}")
            got = names(m(end))
            all_ = sorted(deck_names(m.syms["ns"], m.syms["nr"]))
            need(sorted(got) == all_, f"the deck holds {len(got)} cards after {s}: lost or duplicated cards {sorted(set(all_) ^ set(got))[:3]}")
            if state:
                top = names(m.syms[state])
                need(got[:len(top)] == top, f"the tricked cards {top} are not on top: {got[:len(top)]}")
            # the rest is shuffled
            kept = len(m.syms[state]) if state else 0
            if len(got) - kept >= 2 and m.funcs["shuffle"] is list:
                o = Model(dict(m.syms), {"shuffle": list, ("shuffle", last): lambda l: list(l[1:]) + list(l[:1])})
                other = names(o(end))
                same = [i for i in range(kept, len(got)) if got[i] == other[i]]
                need(not same, f"the card at position {same[:1]} is not shuffled")
        o = [sweep(ctx, key, rule, L, ["Deck.shuffle", "Deck.trick"] + (["Deck.untrick"] if "untrick" in s else []), structures(), p)]
        if s == ("trick", "untrick", "shuffle"):
            from ..core import PROVED, REFUTED, UNDECIDED, Ob
            o.append(Ob("trick and untrick return the deck", "deck-fluent", PROVED if fluent else UNDECIDED if L.shaky else REFUTED,
                        [L.at("Deck.trick"), L.at("Deck.untrick")], "" if fluent else "the returned value is not the deck"))
        return o
    for s in todo:
        obs += guarded(ctx, "order after " + ", ".join(s), rule, lambda: one(s))
    return obs
