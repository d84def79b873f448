"""What the shipped configurations have to be, from their names and the README."""

SEATS = {"TWO": 2, "THREE": 3, "SIX": 6, "NINE": 9}
HOLDEM = dict(num_streets=4, num_suits=4, num_ranks=13, num_hole_cards=2, num_community_cards=[0, 3, 1, 1],
              num_cards_for_hand=5, mandatory_num_hole_cards=0)
GAMES = {
    "LEDUC_TWO_PLAYER": dict(num_streets=2, num_suits=2, num_ranks=3, num_hole_cards=1, num_community_cards=[0, 1],
                             num_cards_for_hand=2, limit="fixed", blinds=0, antes=1),
    "KUHN_TWO_PLAYER": dict(num_streets=1, num_suits=1, num_ranks=3, num_hole_cards=1, num_community_cards=[0],
                            num_cards_for_hand=1, limit="fixed", blinds=0, antes=1),
    "KUHN_THREE_PLAYER": dict(num_streets=1, num_suits=1, num_hole_cards=1, num_community_cards=[0],
                              num_cards_for_hand=1, limit="fixed", blinds=0, antes=1),
}
for _s in ("TWO", "SIX", "NINE"):
    GAMES[f"LIMIT_HOLDEM_{_s}_PLAYER"] = dict(HOLDEM, limit="fixed", two_blinds=True, antes=0)
    GAMES[f"NO_LIMIT_HOLDEM_{_s}_PLAYER"] = dict(HOLDEM, limit="inf", two_blinds=True, antes=0)
    GAMES[f"POT_LIMIT_OMAHA_{_s}_PLAYER"] = dict(HOLDEM, num_hole_cards=4, mandatory_num_hole_cards=2, limit="pot", two_blinds=True, antes=0)
    GAMES[f"SHORT_DECK_{_s}_PLAYER"] = dict(HOLDEM, num_ranks=9, limit="inf", two_blinds=True, antes=0, short=True)
GAMES["NO_LIMIT_HOLDEM_BB_ANTE_NINE_PLAYER"] = dict(HOLDEM, limit="inf", two_blinds=True, bb_ante=True)
KEYS = {"num_players", "num_streets", "blinds", "antes", "raise_sizes", "num_raises", "num_suits", "num_ranks", "num_hole_cards",
        "num_community_cards", "num_cards_for_hand", "mandatory_num_hole_cards", "start_stack"}
CLASSES = {"sf", "fk", "fh", "fl", "st", "tk", "tp", "pa", "hc"}


def spread(v, n):
    return list(v) if isinstance(v, list) else [v] * n


def each(v, n):
    return spread(v, n)


def faults(name, c):
    """(facts that do not hold, number of facts checked)"""
    bad, n = [], 0

    def fact(ok, msg):
        nonlocal n
        n += 1
        if not ok:
            bad.append(msg)
    want = GAMES.get(name, {})
    missing = KEYS - set(c)
    fact(not missing, f"{sorted(missing)} not given")
    if missing:
        return bad, n
    words = name.split("_")
    seats = [SEATS[w] for w in words if w in SEATS]
    players, streets = c["num_players"], c["num_streets"]
    if seats and name in GAMES:
        fact(players == seats[-1], f"num_players is {players}")
    for k in ("blinds", "antes"):
        if isinstance(c[k], list):
            fact(len(c[k]) == players, f"{k} has {len(c[k])} entries for {players} players")
    for k in ("raise_sizes", "num_raises", "num_community_cards"):
        if isinstance(c[k], list):
            fact(len(c[k]) == streets, f"{k} has {len(c[k])} entries for {streets} streets")
    board = sum(spread(c["num_community_cards"], streets))
    dealt = players * c["num_hole_cards"] + board
    fact(1 <= c["num_suits"] <= 4 and 1 <= c["num_ranks"] <= 13, "no such deck")
    fact(dealt <= c["num_suits"] * c["num_ranks"], f"a hand needs {dealt} cards, the deck has {c['num_suits'] * c['num_ranks']}")
    fact(1 <= c["num_cards_for_hand"] <= 5, "hands have one to five cards")
    fact(c["num_cards_for_hand"] <= c["num_hole_cards"] + board, "a hand needs more cards than a player can use")
    fact(c["mandatory_num_hole_cards"] <= min(c["num_hole_cards"], c["num_cards_for_hand"]), "more mandatory than hole cards")
    fact(c["num_cards_for_hand"] - c["mandatory_num_hole_cards"] <= board or not c["mandatory_num_hole_cards"], "the board is too small for the mandatory hole cards")
    blinds, antes = spread(c["blinds"], players), spread(c["antes"], players)
    fact(all(isinstance(x, int) and x >= 0 for x in blinds + antes), "negative or fractional blinds or antes")
    fact(any(blinds) or any(antes), "nothing to play for: no blinds and no antes")
    if len(blinds) == len(antes):
        fact(all(b + a < c["start_stack"] for b, a in zip(blinds, antes)), "the starting stack does not cover the blinds and antes")
    order = c.get("order")
    fact(order is None or sorted(order) == sorted(CLASSES), f"order {order} is not a permutation of the nine classes")
    for k in ("num_streets", "num_suits", "num_ranks", "num_hole_cards", "num_cards_for_hand", "mandatory_num_hole_cards"):
        if k in want:
            fact(c[k] == want[k], f"{k} is {c[k]} instead of {want[k]}")
    if "num_community_cards" in want:
        fact(each(c["num_community_cards"], streets) == want["num_community_cards"], f"num_community_cards is {c['num_community_cards']}")
    if "limit" in want:
        sizes, raises = each(c["raise_sizes"], streets), each(c["num_raises"], streets)
        if want["limit"] == "fixed":
            fact(all(isinstance(x, int) and not isinstance(x, bool) and x > 0 for x in sizes), f"raise sizes {sizes} are not fixed")
            fact(all(isinstance(x, int) and x > 0 for x in raises), f"number of raises {raises} is not limited")
        elif want["limit"] == "pot":
            fact(all(x == "pot" for x in sizes), f"raise sizes {sizes} are not pot limit")
        else:
            fact(all(x in ("inf", float("inf")) for x in sizes), f"raise sizes {sizes} are not unlimited")
        if want["limit"] != "fixed":
            fact(all(x in ("inf", float("inf")) for x in raises), f"number of raises {raises} is limited")
    for k, v in (("blinds", blinds), ("antes", antes)):
        if k in want and not want.get("bb_ante"):
            fact(all(x == want[k] for x in v), f"{k} are {v} instead of {want[k]} each")
    if want.get("two_blinds"):
        fact(len(blinds) > 1 and 0 < blinds[0] < blinds[1] and not any(blinds[2:]), f"blinds {blinds} are not a small and a big blind")
    if want.get("bb_ante"):
        fact(len(antes) > 1 and antes[1] > 0 and not antes[0] and not any(antes[2:]), f"antes {antes} are not posted by the big blind only")
    if want.get("short"):
        fact(order is not None and order.index("fl") < order.index("fh") if order and {"fl", "fh"} <= set(order) else False, "flushes do not beat full houses")
    if name in GAMES and not want.get("short"):
        fact(order is None, "custom order")
    fact(c.get("low_end_straight", True) is True, "straights cannot start with an ace")
    return bad, n
