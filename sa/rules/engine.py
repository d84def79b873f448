"""Rules over the transfer functions of the table (reset, step)."""
from .. import ref
from ..spec import table as spec
from ..drift import histories
from ..lab import guarded
from ..transfer import decide_many, need, transfer

STEP = ("step",)
MONEY = ("stacks", "pot", "pot_commits", "street_commits")


def over(c, o):
    """does the operation itself report the end of the hand?"""
    return all(o.part(2))


def state(c, o, *fields):
    """the reference view of the state the operation leaves"""
    d = dict(c.pre)
    for f in fields or ref.STATE:
        d[f] = o[f]
    if not fields or "deck.cards" in fields:
        d["deck.cards"] = o["deck.cards"]
    return ref.ns(d)


def paid(c, o):
    """chips the seat to act puts in"""
    i = c.pre["action"]
    return o["pot_commits"][i] - c.pre["pot_commits"][i]


def seats(c):
    return range(c.pre["num_players"])


def started(c):
    return c.post is not None


def ends(c):
    return c.post is not None and c.post["over"]


def goes_on(c):
    return c.post is not None and not c.post["over"]


def is_showdown(c):
    return ends(c) and sum(c.post["active"]) > 1


def total(xs):
    return sum(xs)


# ------------------------------------------------------------------ whole histories
# (c: the reference's transition, o: what the terms make of it, v: the
# reference's state with the terms' results, pre: the state the terms started from)

SEQ = "compared with the reference's history, the state left by every call carried on"


def along(ctx, what, *tests):
    key = "histories: " + what
    return guarded(ctx, key, SEQ, lambda: histories(ctx, key, SEQ, tests))


def on(pred, select=None):
    """an obligation on single calls, its inputs taken from the reference"""
    def run(c, o, v, pre):
        if select is None or select(c):
            pred(c, v)
    return run


def rebased(pred, reset=False):
    """an obligation on single calls, from the state the terms started from"""
    def run(c, o, v, pre):
        try:
            post = spec.reset(ref.ns(pre), **c.args) if reset else spec.step(ref.ns(pre), **c.args)
        except Exception:
            return
        if post is not None:
            pred(ref.Case(c.kind, pre, c.args, post, c.funcs), o)
    return run


def all_chips(c, o, v, pre):
    a, b = total(o["stacks"]) + o["pot"], total(c.post["stacks"]) + c.post["pot"]
    need(a == b, f"{a} chips at the table instead of {b}", "stacks", "pot")
    if not c.post.get("over"):
        need(o["pot"] == total(o["pot_commits"]), f"pot {o['pot']} but the seats committed {o['pot_commits']}", "pot", "pot_commits")


def all_stacks(c, o, v, pre):
    need(all(x >= 0 for x in o["stacks"]), f"negative stack in {o['stacks']}", "stacks")
    if not c.post.get("over"):
        need(list(o["stacks"]) == list(c.post["stacks"]), f"stacks {o['stacks']} instead of {c.post['stacks']}", "stacks")
        need(list(o["pot_commits"]) == list(c.post["pot_commits"]), f"commits {o['pot_commits']} instead of {c.post['pot_commits']}", "pot_commits")


def all_settled(c, o, v, pre):
    if c.post.get("over"):
        need(all(o.part(2)), "the hand is over but not all seats are done")
        need(o["pot"] == 0 and o["action"] == -1, f"pot {o['pot']}, seat to act {o['action']} after the end", "pot", "action")
        need(list(o["stacks"]) == list(c.post["stacks"]), f"stacks {o['stacks']} instead of {c.post['stacks']} after the end", "stacks")
        need(list(o.part(1)) == list(c.post["payouts"]), f"payouts {o.part(1)} instead of {c.post['payouts']}")
    else:
        need(not all(o.part(2)) and o["action"] >= 0, "the hand ends too early", "action")


def all_charges(c, o, v, pre):
    i = c.pre["action"]
    call, lo, hi = spec.bet_sizes(ref.ns(c.pre))
    want = spec.clean_bet(round(c.args["bet"]), call, lo, hi)
    if call and (want < call or c.args["bet"] < 0):
        want = 0
    p = o["pot_commits"][i] - pre["pot_commits"][i]
    need(p == want, f"bet {c.args['bet']} with call {call}, raises {lo} to {hi}: seat {i} is charged {p} chips instead of {want}", "pot_commits")


def all_offers(c, o, v, pre):
    obs = o.obs()
    want = (0, 0, 0) if c.post.get("over") else spec.bet_sizes(ref.ns(c.post))
    got = (obs["call"], obs["min_raise"], obs["max_raise"])
    need(got == want, f"observation offers call/min/max {got} instead of {want}", "stacks", "street_commits", "largest_raise", "street_raises")


def all_raises(c, o, v, pre):
    need(list(o["history"]) == list(c.post["history"]), f"history {o['history']} instead of {c.post['history']}", "history")
    if not c.post.get("over"):
        need(o["largest_raise"] == c.post["largest_raise"], f"largest raise {o['largest_raise']} instead of {c.post['largest_raise']}", "largest_raise")
        need(o["street_raises"] == c.post["street_raises"], f"number of raises {o['street_raises']} instead of {c.post['street_raises']}", "street_raises")


def all_active(c, o, v, pre):
    got = [bool(a) for a in o["active"]]
    need(got == [bool(a) for a in c.post["active"]], f"seats in the hand {got} instead of {c.post['active']}", "active")


def all_turns(c, o, v, pre):
    need(o["action"] == c.post["action"], f"seat {o['action']} is to act instead of seat {c.post['action']}", "action")


def all_streets(c, o, v, pre):
    need(all(o.part(2)) == bool(c.post["over"]), f"hand {'ends' if all(o.part(2)) else 'goes on'}", "street")
    S = c.pre["num_streets"]
    need(min(o["street"], S) == min(c.post["street"], S), f"street {o['street']} instead of {c.post['street']}", "street")
    need(len(o["community_cards"]) == len(c.post["community_cards"]), f"{len(o['community_cards'])} community cards instead of {len(c.post['community_cards'])}", "community_cards")


def all_blinds(c, o, v, pre):
    for f in ("button", "street_commits", "pot_commits"):
        need(o[f] == c.post[f], f"{f} {o[f]} instead of {c.post[f]}", f)


# ------------------------------------------------------------------ C01 / C02


def conserved_step(c, o):
    before = total(c.pre["stacks"]) + c.pre["pot"]
    after = total(o["stacks"]) + o["pot"]
    need(before == after, f"stacks + pot change from {before} to {after}", "stacks", "pot")


def pot_is_commits(c, o):
    if c.kind == "step" and over(c, o):
        return
    need(o["pot"] == total(o["pot_commits"]), f"pot {o['pot']} but the seats committed {o['pot_commits']}", "pot", "pot_commits")


def conserved_reset(c, o):
    if c.args["reset_stacks"]:
        before = c.pre["num_players"] * c.pre["start_stack"]
    else:
        before = total(c.pre["stacks"])
    after = total(o["stacks"]) + o["pot"]
    need(before == after, f"a new hand starts with {after} chips instead of {before}", "stacks", "pot")


def moved_step(c, o):
    i = c.pre["action"]
    for j in seats(c):
        d = o["pot_commits"][j] - c.pre["pot_commits"][j]
        if j != i:
            need(d == 0, f"seat {j} commits {d} chips while seat {i} acts", "pot_commits")
        if not over(c, o):
            need(c.pre["stacks"][j] - o["stacks"][j] == d,
                 f"stack of seat {j} changes by {o['stacks'][j] - c.pre['stacks'][j]} but it commits {d}", "stacks", "pot_commits")


def bounded_step(c, o):
    i = c.pre["action"]
    p = paid(c, o)
    need(0 <= p <= c.pre["stacks"][i], f"seat {i} with {c.pre['stacks'][i]} chips is charged {p}", "pot_commits", "stacks")
    need(all(s >= 0 for s in o["stacks"]), f"negative stack in {o['stacks']}", "stacks")
    need(isinstance(p, int), f"fractional chips {p}", "pot_commits")


def street_part(c, o):
    """street commits are this street's part of the commits"""
    i = c.pre["action"]
    if o["street"] == c.pre["street"] and any(o["street_commits"]):
        for j in seats(c):
            a = o["street_commits"][j] - c.pre["street_commits"][j]
            b = o["pot_commits"][j] - c.pre["pot_commits"][j]
            need(a == b, f"seat {j} commits {b} but {a} to the street", "street_commits", "pot_commits")


def bounded_reset(c, o):
    start = [c.pre["start_stack"]] * c.pre["num_players"] if c.args["reset_stacks"] else c.pre["stacks"]
    for j in seats(c):
        p = o["pot_commits"][j]
        need(0 <= p <= start[j], f"seat {j} with {start[j]} chips is charged {p} before the first action", "pot_commits")
        need(start[j] - o["stacks"][j] == p, f"seat {j} commits {p} but its stack changes by {start[j] - o['stacks'][j]}", "stacks", "pot_commits")
        need(o["street_commits"][j] <= p, f"street commit of seat {j} exceeds its commit", "street_commits")
        if not o["active"][j]:
            need(p == 0, f"seat {j} is not in the hand but posts {p}", "pot_commits")


def c01(ctx):
    return decide_many(ctx, [
        ("step: chips are conserved", STEP, conserved_step, "stacks + pot after = stacks + pot before"),
        ("step: the pot is the sum of the commits", STEP, pot_is_commits, "pot = sum of commits while the hand is in progress", goes_on),
        ("reset: chips are conserved", ("reset",), conserved_reset, "stacks + pot of the new hand = stacks it starts from", started),
        ("reset: the pot is the sum of the commits", ("reset",), pot_is_commits, "pot = sum of commits", started),
        ("step after the end: chips are conserved", ("after",), conserved_step, "stacks + pot after = stacks + pot before"),
    ]) + along(ctx, "no chips appear or disappear", (("reset", "step", "after"), all_chips))


def c02(ctx):
    return decide_many(ctx, [
        ("step: nobody is charged more than his stack", STEP, bounded_step, "0 <= charge <= stack, integral"),
        ("step: only the seat to act is charged, once", STEP, moved_step, "stack decrease = commit increase; 0 for all others"),
        ("step: street commits follow the commits", STEP, street_part, "street commit increase = commit increase", goes_on),
        ("reset: forced bets never exceed the stack", ("reset",), bounded_reset, "0 <= ante + blind <= stack; 0 for seats not in the hand", started),
    ]) + along(ctx, "stacks shrink by what is due", (("reset", "step"), all_stacks))


# ------------------------------------------------------------------ C03


def settled(c, o):
    need(over(c, o), "the hand is over but not all seats are done")
    need(o["pot"] == 0, f"pot {o['pot']} left in the middle after the payout", "pot")
    need(o["action"] == -1, f"seat {o['action']} is still to act", "action")
    i, p = c.pre["action"], paid(c, o)
    pay = o.part(1)
    for j in seats(c):
        before = c.pre["stacks"][j] - (p if j == i else 0)
        want = before + o["pot_commits"][j] + pay[j]
        need(o["stacks"][j] == want, f"seat {j}: stack {before} + commit {o['pot_commits'][j]} + payout {pay[j]} becomes {o['stacks'][j]}", "stacks")


def not_settled(c, o):
    need(not over(c, o), "all seats are reported done in a hand which goes on")
    need(o["action"] >= 0, "nobody is to act in a hand which goes on", "action")


def idle(c, o):
    for f in ref.STATE + ["deck.cards"]:
        if f in ("hole_cards", "community_cards", "deck.cards", "history", "street_option"):
            pass
        need(o[f] == c.pre[f], f"{f} changes from {c.pre[f]} to {o[f]} after the hand is over", f)


def repeats(c, o):
    need(o.part(1) == c.post["payouts"], f"payouts {o.part(1)} instead of {c.post['payouts']} when asked again", "pot_commits", "pot")
    need(all(o.part(2)), "seats are no longer done")


def c03(ctx):
    return decide_many(ctx, [
        ("end of hand: the pot is settled exactly once", STEP, settled, "final stack = stack + commit + payout; pot empty; nobody to act", ends),
        ("hand in progress: nothing is settled", STEP, not_settled, "not all done; a seat is to act", goes_on),
        ("step after the end changes nothing", ("after",), idle, "post state = pre state"),
        ("step after the end repeats the result", ("after",), repeats, "same payouts, all done"),
    ]) + along(ctx, "hands are settled once", (("step", "after"), all_settled))


# ------------------------------------------------------------------ C04 C05 C06


def zero_sum(c, o):
    pay = o.part(1)
    need(len(pay) == c.pre["num_players"], "one payout per seat")
    need(total(pay) == 0, f"payouts {pay} of a finished hand do not sum to zero")


def cap(c, o):
    pay, com = o.part(1), o["pot_commits"]
    for j in seats(c):
        need(pay[j] >= -com[j], f"seat {j} loses {-pay[j]} but only committed {com[j]}")
        if o["active"][j] and sum(o["active"]) > 1:
            lay = total(min(x, com[j]) for x in com) - com[j]
            last = [k for k in seats(c) if com[k] > max(com[a] for a in seats(c) if o["active"][a])]
            spare = sum(com[k] - max(com[a] for a in seats(c) if o["active"][a]) for k in last)
            need(pay[j] <= lay + spare + odd_chips(c, o), f"seat {j} committed {com[j]} and wins {pay[j]} from commits {com}")


def strengths(c, o):
    h = c.funcs["hand"]
    return [h(hc, o["community_cards"]) if a else None for hc, a in zip(o["hole_cards"], o["active"])]


def layers(c, o):
    """pots of the hand by the rules of poker: [(chips, winners)]"""
    rest = list(o["pot_commits"])
    st = strengths(c, o)
    res, win = [], []
    while any(rest):
        live = [i for i in seats(c) if rest[i] > 0 and st[i] is not None]
        if live:
            cut = min(rest[i] for i in live)
            best = min(st[i] for i in live)
            win = [i for i in live if st[i] == best]
        else:
            cut = max(rest)
        res.append((total(min(r, cut) for r in rest), win))
        rest = [r - min(r, cut) for r in rest]
    return res


def odd_chips(c, o):
    w = spec.showdown(o["pot_commits"], strengths(c, o), c.pre["button"], c.pre["num_players"])
    return max(0, sum(o["pot_commits"]) - sum(shares(c, o))) if w else 0


def shares(c, o):
    """equal shares of every pot, without the indivisible chips"""
    com, st = list(o["pot_commits"]), strengths(c, o)
    n = c.pre["num_players"]
    won = [0] * n
    winners = []
    while any(com):
        live = [i for i in range(n) if com[i] > 0 and st[i] is not None]
        if live:
            best = min(st[i] for i in live)
            winners = [i for i in live if st[i] == best]
            cut = min(com[i] for i in winners)
        else:
            cut = min(r for r in com if r)
        pot = sum(min(r, cut) for r in com)
        for i in winners:
            won[i] += pot // len(winners)
        com = [r - min(r, cut) for r in com]
    return won


def side_pots(c, o):
    """every seat receives its equal share of each pot it is entitled to"""
    pay, com = o.part(1), o["pot_commits"]
    base = shares(c, o)
    odd = sum(com) - sum(base)
    for j in seats(c):
        got = pay[j] + com[j]
        need(base[j] <= got <= base[j] + odd, f"seat {j} receives {got} of the commits {com}; the pots it wins are worth {base[j]}")


def uncontested(c, o):
    pay, com = o.part(1), o["pot_commits"]
    w = o["active"].index(True)
    need(pay[w] == total(com) - com[w], f"the last seat standing wins {pay[w]} of {com}")


def in_progress(c, o):
    pay = o.part(1)
    for j in seats(c):
        want = 0 if o["active"][j] else -o["pot_commits"][j]
        need(pay[j] == want, f"payout {pay[j]} of seat {j} in a hand in progress", "pot_commits", "active")


def c04(ctx):
    return decide_many(ctx, [
        ("end of hand: payouts are zero-sum", STEP, zero_sum, "sum of payouts = 0", ends),
        ("showdown: payouts stay within the matched chips", STEP, cap, "-commit <= payout <= chips matched by others", is_showdown),
        ("showdown: every pot is split equally among its winners", STEP, side_pots, "payout + commit = sum of equal shares (+ odd chips)", is_showdown),
        ("uncontested: the last seat standing wins everything", STEP, uncontested, "payout = others' commits",
         lambda c: ends(c) and sum(c.post["active"]) == 1),
        ("hand in progress: only folded seats have lost", STEP, in_progress, "payout = -commit if folded else 0", goes_on),
    ]) + along(ctx, "payouts respect the pots", (STEP, on(zero_sum, ends)), (STEP, on(side_pots, is_showdown)),
                                                              (STEP, on(uncontested, lambda c: ends(c) and sum(c.post["active"]) == 1)), (STEP, on(in_progress, goes_on)))


def folded_lose(c, o):
    pay = o.part(1)
    for j in seats(c):
        if not o["active"][j]:
            need(pay[j] == -o["pot_commits"][j], f"folded seat {j} committed {o['pot_commits'][j]} and gets {pay[j]}")


def beaten_lose(c, o):
    pay, com, st = o.part(1), o["pot_commits"], strengths(c, o)
    for j in seats(c):
        if st[j] is None:
            continue
        if any(st[k] is not None and st[k] < st[j] and com[k] >= com[j] for k in seats(c)):
            need(pay[j] == -com[j], f"seat {j} (rank {st[j]}, commit {com[j]}) is beaten in every pot but gets {pay[j]}; ranks {st}, commits {com}")


def best_wins(c, o):
    """the strictly best hand takes all chips it matched"""
    pay, com, st = o.part(1), o["pot_commits"], strengths(c, o)
    live = [k for k in seats(c) if st[k] is not None]
    b = min(live, key=lambda k: st[k])
    if sum(st[k] == st[b] for k in live) == 1:
        need(pay[b] >= total(min(x, com[b]) for x in com) - com[b],
             f"seat {b} has the only best hand and gets {pay[b]} of {com}")


def contenders(c, o):
    """nobody but the seats evaluated best in a pot they have chips in is paid"""
    pay, com = o.part(1), o["pot_commits"]
    can = set()
    for chips, win in layers(c, o):
        can.update(win)
    for j in seats(c):
        if j not in can:
            need(pay[j] <= -com[j], f"seat {j} wins no pot but receives {pay[j] + com[j]} chips; ranks {strengths(c, o)}, commits {com}")


def c05(ctx):
    return decide_many(ctx, [
        ("folded seats lose exactly their commit", STEP, folded_lose, "payout = -commit"),
        ("showdown: beaten seats win nothing", STEP, beaten_lose, "a better hand with at least the same commit leaves nothing", is_showdown),
        ("showdown: the single best hand wins what it matched", STEP, best_wins, "payout >= matched chips", is_showdown),
        ("showdown: only winners of a pot are paid", STEP, contenders, "receives chips => best in a pot it has chips in", is_showdown),
    ]) + along(ctx, "the best hands are paid", (STEP, on(folded_lose)), (STEP, on(beaten_lose, is_showdown)),
                                                             (STEP, on(best_wins, is_showdown)), (STEP, on(contenders, is_showdown)))


def odd_seat(c, o):
    pay, com = o.part(1), o["pot_commits"]
    n = c.pre["num_players"]
    base = shares(c, o)
    odd = sum(com) - sum(base)
    extra = [pay[j] + com[j] - base[j] for j in seats(c)]
    need(total(extra) == odd, f"{odd} odd chips, but {total(extra)} are handed out")
    if odd:
        first = next((c.pre["button"] + k) % n for k in range(1, n + 1) if base[(c.pre["button"] + k) % n])
        need(extra[first] == odd, f"button {c.pre['button']}: the {odd} odd chips belong to seat {first}; extra chips {extra}")


def c06(ctx):
    return decide_many(ctx, [
        ("showdown: odd chips go to the first winner after the button", STEP, odd_seat,
         "all indivisible chips, once, to the first winning seat clockwise of the button", is_showdown)]) + along(ctx, "odd chips", (STEP, on(odd_seat, is_showdown)))


# ------------------------------------------------------------------ C07 C08 C09 C10


def charge(c, o):
    i = c.pre["action"]
    d = ref.ns(c.pre)
    call, lo, hi = spec.bet_sizes(d)
    p = paid(c, o)
    # the raise range may be closed (0) and then offers nothing
    top, bot = max(lo, hi), min(lo, hi)
    need(p in (0, call) or bot <= p <= top, f"seat {i} pays {p}; allowed are 0, {call} and {lo} to {hi}", "pot_commits", "stacks")


def nearest(c, o):
    d = ref.ns(c.pre)
    call, lo, hi = spec.bet_sizes(d)
    want = spec.clean_bet(round(c.args["bet"]), call, lo, hi)
    if call and (want < call or c.args["bet"] < 0):
        want = 0
    p = paid(c, o)
    need(p == want, f"bet {c.args['bet']} with call {call}, raises {lo} to {hi}: {p} chips are charged instead of {want}", "pot_commits", "stacks")


def c07(ctx):
    return decide_many(ctx, [
        ("step: only valid amounts are charged", STEP, charge, "charge in {0, call} or within the raise range"),
        ("step: the nearest valid amount is charged, ties down", STEP, nearest, "charge = nearest of fold/check, call, raise range"),
    ]) + along(ctx, "charges are the nearest valid amounts", (STEP, all_charges))


def sizes(c, o):
    d = state(c, o)
    obs = o.obs()
    if c.kind == "step" and over(c, o):
        want = (0, 0, 0)
    else:
        want = spec.bet_sizes(d)
    got = (obs["call"], obs["min_raise"], obs["max_raise"])
    need(got == want, f"observation offers call/min/max {got} instead of {want}", "stacks", "street_commits", "largest_raise", "street_raises")


def affordable(c, o):
    obs = o.obs()
    got = (obs["call"], obs["min_raise"], obs["max_raise"])
    i = o["action"]
    if i < 0:
        need(got == (0, 0, 0), f"bets {got} are offered although the hand is over")
        return
    st = o["stacks"][i]
    need(all(0 <= x <= st for x in got), f"offers {got} to a seat with {st} chips", "stacks")


def c08(ctx):
    return decide_many(ctx, [
        ("step: offered call, min and max raise", STEP, sizes, "documented formulas over the new state"),
        ("reset: offered call, min and max raise", ("reset",), sizes, "documented formulas over the new state", started),
        ("step: offers are affordable", STEP, affordable, "0 <= offer <= stack; 0 once the hand is over"),
        ("reset: offers are affordable", ("reset",), affordable, "0 <= offer <= stack", started),
    ]) + along(ctx, "offers", (("reset", "step"), all_offers))


def raises(c, o):
    d = ref.ns(c.pre)
    call = spec.bet_sizes(d)[0]
    p = paid(c, o)
    full = p > 0 and p - call >= c.pre["largest_raise"]
    lr = p - call if full else c.pre["largest_raise"]
    need(o["largest_raise"] == lr, f"largest raise {c.pre['largest_raise']} becomes {o['largest_raise']} after paying {p} to call {call}", "largest_raise")
    if o["street"] == c.pre["street"] and not over(c, o):
        n = c.pre["street_raises"] + (1 if full else 0)
        need(o["street_raises"] == n, f"number of raises {c.pre['street_raises']} becomes {o['street_raises']} after paying {p} to call {call}", "street_raises")
    elif o["street"] != c.pre["street"] and not over(c, o):
        need(o["street_raises"] == 0, "raises of the previous street still count", "street_raises")


def log(c, o):
    h = o["history"]
    i = c.pre["action"]
    need(list(h[:-1]) == list(c.pre["history"]), "earlier entries of the history change", "history")
    need(len(h) == len(c.pre["history"]) + 1, "an action adds one entry to the history", "history")
    s, b, f = h[-1]
    fold = c.pre["active"][i] and not o["active"][i]
    need(s == i and b == paid(c, o) and bool(f) == bool(fold),
         f"seat {i} pays {paid(c, o)}{' and folds' if fold else ''}, recorded as {h[-1]}", "history")


def c09(ctx):
    return decide_many(ctx, [
        ("step: full raises are counted and sized", STEP, raises, "largest raise, number of raises"),
        ("step: the history records what happened", STEP, log, "one entry (seat, chips, folded); earlier entries stay"),
    ]) + along(ctx, "raises and history", (STEP, all_raises))


def folding(c, o):
    i = c.pre["action"]
    d = ref.ns(c.pre)
    call, lo, hi = spec.bet_sizes(d)
    want = spec.clean_bet(round(c.args["bet"]), call, lo, hi)
    must = call > 0 and (want < call or c.args["bet"] < 0)
    need(bool(o["active"][i]) == (not must), f"bet {c.args['bet']} with {call} to call: seat {i} is {'in' if o['active'][i] else 'out'}", "active")
    if must:
        need(paid(c, o) == 0, f"seat {i} folds and pays {paid(c, o)}", "pot_commits", "stacks")


def others_stay(c, o):
    i = c.pre["action"]
    for j in seats(c):
        if j != i:
            need(bool(o["active"][j]) == bool(c.pre["active"][j]), f"seat {j} changes status while seat {i} acts", "active")


def never_back(c, o):
    for j in seats(c):
        need(c.pre["active"][j] or not o["active"][j], f"seat {j} is back in the hand", "active")


def c10(ctx):
    return decide_many(ctx, [
        ("step: a seat folds iff it faces a bet and declines it", STEP, folding, "folds <=> call > 0 and (amount < call or bet < 0); pays nothing"),
        ("step: no other seat changes status", STEP, others_stay, "active flags of the other seats stay"),
        ("step: nobody re-enters a hand", STEP, never_back, "active after => active before"),
        ("after the end: nobody re-enters a hand", ("after",), never_back, "active after => active before"),
    ]) + along(ctx, "who is in the hand", (("reset", "step", "after"), all_active))


# ------------------------------------------------------------------ C11 C12


def turn(c, o):
    i = c.pre["action"]
    act = o["active"]
    if over(c, o):
        need(o["action"] == -1, f"seat {o['action']} is to act in a finished hand", "action")
        return
    frm = i if not c.post["agreed"] else c.pre["button"]
    want = spec.next_active(act, frm)
    need(o["action"] == want, f"seat {o['action']} acts instead of seat {want} (after seat {i}, button {c.pre['button']}, active {act})", "action")


def turn_active(c, o):
    a = o["action"]
    if c.kind == "step" and over(c, o):
        return
    need(0 <= a < c.pre["num_players"] and o["active"][a], f"seat {a} is to act but not in the hand", "action")


def turn_reset(c, o):
    n, b = c.pre["num_players"], o["button"]
    act = o["active"]
    first = spec.next_active(act, b) if n > 2 else b
    want = spec.next_active(act, spec.next_active(act, first))
    need(o["action"] == want, f"seat {o['action']} opens instead of seat {want} (button {b}, active {act})", "action")


def c11(ctx):
    return decide_many(ctx, [
        ("step: the next active seat acts", STEP, turn, "next active seat clockwise; after a street: next after the button"),
        ("step: the seat to act is in the hand", STEP, turn_active, "active[action]"),
        ("reset: the seat after the blinds opens", ("reset",), turn_reset, "second active seat after the one posting the first blind", started),
        ("reset: the seat to act is in the hand", ("reset",), turn_active, "active[action]", started),
    ]) + along(ctx, "who is to act", (("reset", "step"), all_turns))


def street(c, o):
    need(over(c, o) == c.post["over"], f"hand {'ends' if over(c, o) else 'goes on'}; commits {c.post['street_commits']}, active {o['active']}", "street")
    w, g = c.post["street"], o["street"]
    S = c.pre["num_streets"]
    need(min(w, S) == min(g, S), f"street {c.pre['street']} becomes {g} instead of {w}", "street")


def board(c, o):
    need(list(o["community_cards"]) == list(c.post["community_cards"]),
         f"board {c.pre['community_cards']} becomes {o['community_cards']} instead of {c.post['community_cards']}", "community_cards")


def board_from_deck(c, o):
    g, p = list(o["community_cards"]), list(c.pre["community_cards"])
    need(g[:len(p)] == p, "cards on the board change", "community_cards")
    need(g[len(p):] + list(o["deck.cards"]) == list(c.pre["deck.cards"]), "community cards do not come off the top of the deck", "deck.cards", "community_cards")
    need(o["hole_cards"] == c.pre["hole_cards"], "hole cards change during a hand", "hole_cards")


def new_street(c, o):
    if o["street"] != c.pre["street"] and not over(c, o):
        need(not any(o["street_commits"]), f"street commits {o['street_commits']} carried to the next street", "street_commits")
        need(o["street_raises"] == 0, "raises carried to the next street", "street_raises")
        for j in seats(c):
            need(not (o["active"][j] and o["street_option"][j]), f"seat {j} has already acted on a new street", "street_option")


def pending(c, o):
    if over(c, o) or o["street"] != c.pre["street"]:
        return
    i = c.pre["action"]
    for j in seats(c):
        if o["active"][j]:
            want = j == i or bool(c.pre["street_option"][j])
            need(bool(o["street_option"][j]) == want, f"seat {j} {'has' if o['street_option'][j] else 'has not'} had its turn on this street", "street_option")


def run_out(c, o):
    need(len(o["community_cards"]) == total(c.pre["num_community_cards"]), f"showdown with {len(o['community_cards'])} of {c.pre['num_community_cards']} community cards", "community_cards")


def dones(c, o):
    d = o.part(2)
    if c.post["over"]:
        need(all(d) and len(d) == c.pre["num_players"], f"done flags {d} of a finished hand")
    else:
        want = [not a or s == 0 for a, s in zip(o["active"], o["stacks"])]
        need([bool(x) for x in d] == want, f"done flags {d}, expected {want}")


def c12(ctx):
    return decide_many(ctx, [
        ("step: streets advance exactly when all seats agree", STEP, street, "street advances <=> everyone in the hand acted and matched, is all in, or is alone"),
        ("step: community cards of the reached streets are dealt", STEP, board, "one street's cards per street; all remaining ones when at most one seat can bet"),
        ("step: community cards come off the deck", STEP, board_from_deck, "board grows by the top of the deck; hole cards stay"),
        ("step: a new street starts clean", STEP, new_street, "no street commits, no raises, everybody to act"),
        ("step: turns are remembered within a street", STEP, pending, "acted after = acted before or seat just acted"),
        ("showdown: the board is complete", STEP, run_out, "number of community cards = sum over all streets", is_showdown),
        ("step: done flags", STEP, dones, "all at the end, otherwise folded and all-in seats"),
    ]) + along(ctx, "streets", (STEP, all_streets))


# ------------------------------------------------------------------ C13 C32 C33


def fresh(c, o):
    want = {"largest_raise": c.pre["big_blind"], "street": 0, "street_raises": 0}
    for f, v in want.items():
        need(o[f] == v, f"{f} starts at {o[f]} instead of {v}", f)
    need(list(o["history"]) == [], "history of the previous hand", "history")


def fresh_stacks(c, o):
    n = c.pre["num_players"]
    if c.args["reset_stacks"]:
        start, act = [c.pre["start_stack"]] * n, [True] * n
    else:
        start, act = c.pre["stacks"], [s > 0 for s in c.pre["stacks"]]
    need([bool(a) for a in o["active"]] == act, f"active {o['active']} from stacks {start}", "active")
    got = [s + p for s, p in zip(o["stacks"], o["pot_commits"])]
    need(got == list(start), f"players start with {got} instead of {start}", "stacks", "pot_commits")


def fresh_turns(c, o):
    for j in seats(c):
        if o["active"][j]:
            need(not o["street_option"][j], f"seat {j} counts as having acted before the hand started", "street_option")


def no_memory(c, o):
    for f in ref.STATE:
        if f != "street_option":
            need(o[f] == c.post[f], f"{f} of the new hand is {o[f]} instead of {c.post[f]}", f)


def rejected(c, o):
    r = o.raised()[0]
    need(r == "TooFewActivePlayersError", f"a hand with fewer than two stacks is {'dealt' if r is None else 'rejected with ' + r}")


def rejected_clean(c, o):
    if o.raised()[0] is None:
        return
    for f in ref.STATE:
        if f != "active":
            need(o.at_raise(f) == c.pre[f], f"{f} changes although the hand is rejected", f)


def accepted(c, o):
    need(o.raised()[0] is None, f"reset is rejected with {o.raised()[0]}")


def c13(ctx):
    return decide_many(ctx, [
        ("reset: counters start afresh", ("reset",), fresh, "largest raise = big blind; street, raises 0; history empty", started),
        ("reset: players and stacks", ("reset",), fresh_stacks, "all seats (reset_stacks) or those with chips", started),
        ("reset: nobody has acted", ("reset",), fresh_turns, "no active seat has its option used", started),
        ("reset: nothing of the previous hand is left", ("reset",), no_memory, "post state = reference", started),
        ("reset: fewer than two stacks are rejected", ("reset",), rejected, "raises TooFewActivePlayersError", lambda c: c.post is None),
        ("reset: a rejected hand leaves the table alone", ("reset",), rejected_clean, "state at the raise = pre state", lambda c: c.post is None),
        ("reset: two stacks are enough", ("reset",), accepted, "no exception", started),
    ]) + along(ctx, "a new hand starts afresh", (("reset",), rebased(fresh, True)), (("reset",), rebased(fresh_stacks, True)),
                                                                (("reset",), rebased(fresh_turns, True)), (("reset",), rebased(no_memory, True)))


def button(c, o):
    n = c.pre["num_players"]
    want = 0 if c.args["reset_button"] else (c.pre["button"] + 1) % n
    need(o["button"] == want, f"button moves from {c.pre['button']} to {o['button']} instead of {want}", "button")


def blinds(c, o):
    n, act, b = c.pre["num_players"], o["active"], o["button"]
    first = spec.next_active(act, b) if n > 2 else b
    start = [s + p for s, p in zip(o["stacks"], o["pot_commits"])]
    for i in seats(c):
        k = (i - first) % n
        ante = min(start[i], c.pre["antes"][k]) if act[i] else 0
        blind = min(start[i] - ante, c.pre["blinds"][k]) if act[i] else 0
        need(o["street_commits"][i] == blind, f"button {b}, active {act}: seat {i} posts a blind of {o['street_commits'][i]} instead of {blind}", "street_commits")
        need(o["pot_commits"][i] - o["street_commits"][i] == ante,
             f"button {b}, active {act}: seat {i} posts an ante of {o['pot_commits'][i] - o['street_commits'][i]} instead of {ante}", "pot_commits")


def button_stays(c, o):
    need(o["button"] == c.pre["button"], "the button moves during a hand", "button")


def c32(ctx):
    return decide_many(ctx, [
        ("reset: the button moves one seat", ("reset",), button, "0 if reset_button else next seat", started),
        ("reset: blinds and antes are posted in seat order", ("reset",), blinds, "list entry k is due k seats after the first seat", started),
        ("step: the button stays", ("step", "after"), button_stays, "button unchanged"),
    ]) + along(ctx, "button and forced bets", (("reset",), all_blinds), (("reset",), rebased(blinds, True)))


def dealing(c, o):
    n, k, m = c.pre["num_players"], c.pre["num_hole_cards"], c.pre["num_community_cards"][0]
    need(len(o["hole_cards"]) == n and all(len(h) == k for h in o["hole_cards"]), f"hole cards {o['hole_cards']}", "hole_cards")
    need(len(o["community_cards"]) == m, f"{len(o['community_cards'])} community cards on the first street instead of {m}", "community_cards")


def one_deck(c, o):
    used = [x for h in o["hole_cards"] for x in h] + list(o["community_cards"]) + list(o["deck.cards"])
    full = list(c.funcs["freshdeck"])
    need(sorted(used) == sorted(full), "hole cards, board and remaining deck are not one full deck", "hole_cards", "community_cards", "deck.cards")


def keeps_deck(c, o):
    before = list(c.pre["community_cards"]) + list(c.pre["deck.cards"])
    after = list(o["community_cards"]) + list(o["deck.cards"])
    need(sorted(before) == sorted(after), "cards are duplicated or lost", "community_cards", "deck.cards")
    need(o["hole_cards"] == c.pre["hole_cards"], "hole cards change during the hand", "hole_cards")


def c33(ctx):
    return decide_many(ctx, [
        ("reset: numbers of cards", ("reset",), dealing, "num_hole_cards per seat, first street's community cards", started),
        ("reset: one freshly shuffled deck is dealt", ("reset",), one_deck, "hole cards + board + rest = shuffled deck", started),
        ("step: cards are neither duplicated nor lost", STEP, keeps_deck, "board + rest unchanged as a multiset; hole cards stay"),
    ]) + along(ctx, "cards", (("reset",), rebased(dealing, True)), (("reset",), rebased(one_deck, True)),
                                            (STEP, rebased(keeps_deck)))
