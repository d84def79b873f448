"""Rules over the viewers: what the text shows, and to whom."""
import random
import re

from .. import terms as tm
from ..core import CONSISTENT, PROVED, REFUTED, UNDECIDED, Ob
from ..lab import Lab, guarded, sweep
from ..model import Bot, Model, Undecided
from ..transfer import need
from .effects import lab_broken, render_config

CARDS = [r + s for s in "shdc" for r in "23456789TJQKA"]


def c_card_text(I, recv, args, kw, node):
    return tm.mk("str", I.purify(recv), ty="str")


class Ascii:
    """the text ASCIIViewer(n, h, c).render(config) prints, as one term"""

    def __init__(self, ctx):
        self.lab = lab = Lab(ctx, {"Card.__str__": c_card_text})
        I = lab.I
        n = tm.sym("num_players", "int")
        tm.BOUNDS[n] = (2, None)
        args = [n, tm.sym("num_hole_cards", "int"), tm.sym("num_comm", "int")]
        v = lab.new("ASCIIViewer", args)
        lab.settle()
        cfg, _ = render_config(lab)
        self.done_at = len(I.events)
        lab.call(v, "render", [cfg, tm.sym("sleep", "float")])
        self.prints = [(e[1], e[2], e[3]) for e in I.events[self.done_at:] if e[0] == "output"]
        self.order = [(e[0], e[2]) for e in I.events[self.done_at:] if e[0] == "output" or e[0] == "time" and e[3] == "time.sleep"]
        self.sleeps = [(e[1], e[2], e[3]) for e in I.events[self.done_at:] if e[0] == "time"]
        lab.done()

    def text(self, m):
        out = []
        for where, pc, args in self.prints:
            if m(tm.and_(*pc) if pc else tm.TRUE):
                out.append(" ".join(x if isinstance(x, str) else str(x) for x in (m(a) for a in args)))
        return "\n".join(out)


def table_cases(ctx, seed, count, over=None):
    """render configurations of all table sizes"""
    rng = random.Random(ctx.seed * 31 + seed)
    out = []
    for i in range(count):
        n = 2 + i % 9
        holes = rng.choice([1, 2, 2, 4])
        comm = rng.choice([0, 1, 3, 5, 5, 7])
        deck = list(CARDS)
        rng.shuffle(deck)
        active = [rng.random() < .7 for _ in range(n)]
        act = rng.randrange(n)
        active[act] = True
        done = rng.random() < .35 if over is None else over
        stacks = [rng.choice([0, 0, 7, 64, 100, 950, 1234, 20000]) for _ in range(n)]
        payouts = [rng.choice([0, -5, -20]) for _ in range(n)]
        if done:
            act = -1
            for k in rng.sample(range(n), rng.randint(1, min(3, n))):
                if active[k]:
                    payouts[k] = rng.choice([3, 10, 45, 1500])
            if not any(p > 0 for p in payouts):
                payouts[active.index(True)] = 77
        prev = rng.choice([None, (rng.randrange(n), 10, False), (rng.randrange(n), 0, False), (rng.randrange(n), 0, True), (rng.randrange(n), 1500, False)])
        d = dict(num_players=n, num_hole_cards=holes, num_comm=comm, active=active, all_in=[a and s == 0 for a, s in zip(active, stacks)],
                 community_cards=[deck.pop() for _ in range(rng.randint(0, comm))], hole_cards=[[deck.pop() for _ in range(holes)] for _ in range(n)],
                 payouts=payouts, street_commits=[rng.choice([0, 1, 25, 310, 4000]) for _ in range(n)], stacks=stacks, action=act,
                 button=rng.randrange(n), done=done, pot=rng.choice([0, 12, 999, 1000, 123456]), prev_action=prev, sleep=0)
        out.append(d)
    return out


def models(cases):
    for d in cases:
        m = Model(d)
        m.d = d
        yield ", ".join(f"{k}={d[k]!r}" for k in ("num_players", "action", "done", "active", "stacks", "button", "all_in", "hole_cards", "num_hole_cards")), m


def seat_pattern(i):
    return re.compile(rf"(?<!\S){i + 1}\. (\S*) (-?[\d,]+)(?!\S)")


def seats(m, text):
    """seat -> (line, column, cards, stack) of its block"""
    out = {}
    lines = text.split("\n")
    for i in range(m.d["num_players"]):
        hits = []
        for y, l in enumerate(lines):
            for x in seat_pattern(i).finditer(l):
                hits.append((y, x.start(), x.group(1), x.group(2)))
        need(len(hits) == 1, f"seat {i + 1} is shown {len(hits)} times")
        out[i] = hits[0]
    return out


def all_text_cards(d):
    return d["num_hole_cards"] * len(d["hole_cards"])


def c27(ctx):
    rule = "dependence of the printed text on the hole cards"

    def run():
        a = Ascii(ctx)
        count = 3000 if ctx.thorough else 360
        at = ["ASCIIViewer.render", "ASCIIViewer._parse_players", "ASCIIViewer._parse_string"]

        def visible(m):
            text = a.text(m)
            d = m.d
            for i, (y, x, cards, stack) in seats(m, text).items():
                own = ",".join(d["hole_cards"][i])
                if not d["active"][i]:
                    want = ",".join(["--"] * d["num_hole_cards"])
                elif d["done"] or i == d["action"]:
                    want = own
                else:
                    want = ",".join(["??"] * d["num_hole_cards"])
                need(cards == want, f"seat {i + 1} ({'in the hand' if d['active'][i] else 'folded'}, {'to act' if i == d['action'] else 'not to act'}"
                     f"{', hand over' if d['done'] else ''}) is shown as {cards} instead of {want}")

        def hidden(m):
            text = a.text(m)
            d = m.d
            for i, h in enumerate(d["hole_cards"]):
                if d["active"][i] and (d["done"] or i == d["action"]):
                    continue
                for c in h:
                    need(not re.search(rf"(?<![A-Za-z0-9]){c}(?![A-Za-z0-9])", text), f"the text contains {c}, a hidden card of seat {i + 1}")

        def twin(m):
            d = m.d
            d2 = dict(d)
            free = [c for h, i in zip(d["hole_cards"], range(99)) if not (d["active"][i] and (d["done"] or i == d["action"])) for c in h]
            it = iter(free[1:] + free[:1])
            d2["hole_cards"] = [h if d["active"][i] and (d["done"] or i == d["action"]) else [next(it) for _ in h] for i, h in enumerate(d["hole_cards"])]
            need(a.text(m) == a.text(Model(d2)), "exchanging hidden cards changes the text")
        cs = table_cases(ctx, 1, count)
        return [sweep(ctx, "every seat's cards are shown, masked or marked as folded", rule, a.lab, at, models(cs), visible),
                sweep(ctx, "no hidden card appears anywhere in the text", rule, a.lab, at, models(table_cases(ctx, 2, count)), hidden),
                sweep(ctx, "the text does not depend on hidden cards", "noninterference", a.lab, at, models(table_cases(ctx, 3, count)), twin)]
    return guarded(ctx, "ASCII text", rule, run)


def c28(ctx):
    rule = "contents of the printed text compared with the configuration"

    def run():
        a = Ascii(ctx)
        count = 3000 if ctx.thorough else 360
        at = ["ASCIIViewer.render", "ASCIIViewer._parse_string", "ASCIIViewer.__init__"]

        def blocks(m, text):
            """seat -> words next to it on the line below"""
            lines = text.split("\n")
            s = seats(m, text)
            out = {}
            for i, (y, x, cards, stack) in s.items():
                l = lines[y + 1]
                mid = len(l) // 2
                left = x < 30
                words = re.findall(r"[^\s/\\|]+", l[:mid] if left else l[mid:])
                out[i] = words
            return s, out

        def stacks(m):
            for i, (y, x, cards, stack) in seats(m, a.text(m)).items():
                need(stack == f"{m.d['stacks'][i]:,}", f"seat {i + 1} is shown with {stack} chips instead of {m.d['stacks'][i]}")

        def markers(m):
            d = m.d
            s, b = blocks(m, a.text(m))
            for i, words in b.items():
                amount = d["payouts"][i] if d["done"] else d["street_commits"][i]
                want = [f"{amount:,}"]
                if i == d["button"]:
                    want.append("D")
                if not d["done"] and d["all_in"][i]:
                    want.append("A")
                elif not d["done"] and i == d["action"]:
                    want.append("X")
                need(sorted(words) == sorted(want), f"below seat {i + 1} the table shows {words} instead of {want}")

        def board(m):
            d = m.d
            cards = d["community_cards"] + ["--"] * (d["num_comm"] - len(d["community_cards"]))
            want = "[" + ",".join(cards) + "]"
            text = a.text(m)
            need(text.count(want) == 1, f"the board {want} is not shown")
            line = next(l for l in text.split("\n") if want in l)
            rest = re.findall(r"[\d,]+", line.split(want)[1])
            pot = 0 if d["done"] else d["pot"]
            need(rest == [f"{pot:,}"], f"the pot is shown as {rest} instead of {pot:,}")

        def action(m):
            d = m.d
            text = a.text(m)
            last = [" ".join(l.split()) for l in text.split("\n")]
            if d["done"]:
                w = [(i, p) for i, p in enumerate(d["payouts"]) if p > 0]
                who, what = ", ".join(str(i + 1) for i, _ in w), ", ".join(str(p) for _, p in w)
                want = f"Players {who} won {what} respectively" if len(w) > 1 else f"Player {who} won {what}"
                need(want in last, f"the result {want!r} is not shown")
                need(not any("Action on" in l for l in last), "an action is announced after the end of the hand")
            else:
                want = f"Action on Player {d['action'] + 1}"
                if d["prev_action"]:
                    p, bet, fold = d["prev_action"]
                    want = f"Player {p + 1} " + ("folded" if fold else f"bet {bet}" if bet else "checked") + " " + want
                need(want in last, f"the action {want!r} is not shown")
                need(not any(" won " in l for l in last), "a winner is announced before the end of the hand")

        def around(m):
            s = seats(m, a.text(m))
            # clockwise: down on the right hand side, up on the left
            right = [i for i in s if s[i][1] >= 30]
            left = [i for i in s if s[i][1] < 30]
            order = sorted(right, key=lambda i: s[i][0]) + sorted(left, key=lambda i: -s[i][0])
            n = len(order)
            k = order.index(0)
            order = order[k:] + order[:k]
            need(order == list(range(n)), f"going clockwise the seats are {[i + 1 for i in order]}")

        def frame(m):
            need(not re.search(r"[{}]", a.text(m)), "an unfilled field is left in the text")
        jobs = [("every seat's stack is shown", stacks), ("commits or payouts, button, action and all-in marks are at their seats", markers),
                ("board and pot are shown", board), ("the last action, the seat to act and the winners are announced", action),
                ("the seats are in clockwise order", around), ("every field of the template is filled", frame)]
        obs = []
        for k, (key, pred) in enumerate(jobs):
            obs.append(sweep(ctx, key, rule, a.lab, at, models(table_cases(ctx, 10 + k, count)), pred))

        def once(m):
            a.lab.ctx.count("prints")
            n = sum(1 for w, pc, args in a.prints if m(tm.and_(*pc) if pc else tm.TRUE))
            need(n == 1, f"the table is printed {n} times")
        obs.append(sweep(ctx, "render prints the table once", rule, a.lab, at, models(table_cases(ctx, 30, 60)), once))

        def sleeps(m):
            t = [e for e in a.sleeps if e[2] == "time.sleep" and m(tm.and_(*e[1]) if e[1] else tm.TRUE)]
            need(len(t) == (1 if m.d["sleep"] else 0), f"render sleeps {len(t)} times when asked to sleep {m.d['sleep']} seconds")
            seq = [k for k, pc in a.order if m(tm.and_(*pc) if pc else tm.TRUE)]
            need("time" not in seq or "output" in seq[:seq.index("time")], "the pause is made before the table is printed")
        cs = table_cases(ctx, 31, 60)
        for i, d in enumerate(cs):
            d["sleep"] = [0, 1, 0.5][i % 3]
        obs.append(sweep(ctx, "render sleeps exactly if asked to", "calls of time.sleep on every path", a.lab, at, models(cs), sleeps))
        return obs
    return guarded(ctx, "ASCII text", rule, run)
