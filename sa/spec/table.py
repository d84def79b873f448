"""Reference semantics of one table, written against the documentation.

The functions are pure: they read the table `d` and return the values the
corresponding transition has to establish.  They produce the histories of
well-formed tables from which separating structures are drawn, and what the
terms of clubs.poker.engine are compared with in those structures.
"""


def hand(hole_cards, community_cards):
    raise NotImplementedError  # interpreted symbol


def drawn(cards, n):
    return cards[:n]


def rest(cards, n):
    return cards[n:]


def freshdeck(deck):
    raise NotImplementedError  # interpreted symbol


def next_active(active, seat):
    n = len(active)
    for k in range(1, n + 1):
        if active[(seat + k) % n]:
            return (seat + k) % n
    return seat


def bet_sizes(d):
    """call, min raise and max raise of the player to act"""
    stack = d.stacks[d.action]
    call = max(d.street_commits) - d.street_commits[d.action]
    size = d.raise_sizes[d.street]
    if isinstance(size, int):
        lo = size + call
        hi = size + call
    elif size == "pot":
        lo = max(d.big_blind, d.largest_raise + call)
        hi = d.pot + 2 * call
    else:
        lo = max(d.big_blind, d.largest_raise + call)
        hi = stack
    if d.street_raises >= d.num_raises[d.street]:
        lo = 0
        hi = 0
    if d.street_raises > 0 and call < d.largest_raise:
        lo = 0
        hi = 0
    return min(call, stack), min(lo, stack), min(hi, stack)


def clean_bet(bet, call, lo, hi):
    """nearest of fold/check, call and the raise range; ties go down"""
    bet = max(0, bet)
    to_zero = abs(0 - bet)
    to_call = abs(call - bet)
    to_lo = abs(lo - bet)
    to_hi = abs(hi - bet)
    if to_zero <= to_call and to_zero <= to_lo and to_zero <= to_hi:
        return 0
    if to_call <= to_lo and to_call <= to_hi:
        return call
    return round(min(hi, max(lo, bet)))


def showdown(commits, strengths, button, n):
    """chips each seat receives; strengths[i] is None for folded seats"""
    rest_ = list(commits)
    won = [0] * n
    odd = 0
    winners = []
    while any(rest_):
        live = [i for i in range(n) if rest_[i] > 0 and strengths[i] is not None]
        if live:
            best = min(strengths[i] for i in live)
            winners = [i for i in live if strengths[i] == best]
            cut = min(rest_[i] for i in winners)
        else:
            # chips of folded seats no remaining seat matched
            cut = min(r for r in rest_ if r)
        layer = [min(r, cut) for r in rest_]
        pot = sum(layer)
        for i in winners:
            won[i] += pot // len(winners)
        odd += pot % len(winners)
        rest_ = [r - c for r, c in zip(rest_, layer)]
    for k in range(1, n + 1):
        if odd and won[(button + k) % n]:
            won[(button + k) % n] += odd
            odd = 0
    return won


def payouts(d, active, commits, community, over):
    n = d.num_players
    lost = [0 if a else -c for a, c in zip(active, commits)]
    if not over:
        return lost
    if sum(active) == 1:
        return [sum(commits) - c if a else -c for a, c in zip(active, commits)]
    strengths = [hand(h, community) if a else None for h, a in zip(d.hole_cards, active)]
    won = showdown(commits, strengths, d.button, n)
    return [w - c for w, c in zip(won, commits)]


def step(d, bet):
    """one action of the seat to act, hand in progress"""
    n = d.num_players
    seat = d.action
    call, lo, hi = bet_sizes(d)
    want = clean_bet(round(bet), call, lo, hi)
    folds = bool(call) and (want < call or bet < 0)
    paid = 0 if folds else want
    active = [a and not (folds and i == seat) for i, a in enumerate(d.active)]
    full_raise = paid > 0 and paid - call >= d.largest_raise
    largest_raise = paid - call if full_raise else d.largest_raise
    street_raises = d.street_raises + 1 if full_raise else d.street_raises
    pot = d.pot + paid
    pot_commits = [c + paid if i == seat else c for i, c in enumerate(d.pot_commits)]
    street_commits = [c + paid if i == seat else c for i, c in enumerate(d.street_commits)]
    stacks = [s - paid if i == seat else s for i, s in enumerate(d.stacks)]
    history = d.history + [(seat, int(paid), folds)]
    action = next_active(active, seat)
    acted = [o or i == seat or (not active[i] and (i - seat) % n < ((action - seat) % n or n)) for i, o in enumerate(d.street_option)]
    top = max(street_commits)
    can_bet = [a and s > 0 for a, s in zip(active, stacks)]
    agreed = not any(can_bet) or (
        all(acted)
        and all(not a or s == 0 or c == top for a, s, c in zip(active, stacks, street_commits))
    )
    street = d.street
    community = d.community_cards
    deck = d.deck.cards
    if agreed:
        action = next_active(active, d.button)
        street_commits = [0] * n
        street_raises = 0
        acted = [not a for a in active]
        if sum(can_bet) <= 1:
            street = d.num_streets
            dealt = sum(d.num_community_cards[d.street + 1:])
        else:
            street = d.street + 1
            dealt = d.num_community_cards[street] if street < d.num_streets else 0
        community = community + drawn(deck, dealt)
        deck = rest(deck, dealt)
    over = street >= d.num_streets or sum(active) <= 1
    done = [over or not a or s == 0 for a, s in zip(active, stacks)]
    pay = payouts(d, active, pot_commits, community, over)
    if over:
        action = -1
        pot = 0
        stacks = [s + p + c for s, p, c in zip(stacks, pay, pot_commits)]
    return {
        "action": action, "active": active, "largest_raise": largest_raise,
        "street_raises": street_raises, "pot": pot, "pot_commits": pot_commits,
        "street_commits": street_commits, "stacks": stacks, "history": history,
        "street_option": acted, "street": street, "community_cards": community,
        "deck.cards": deck, "payouts": pay, "done": done, "folds": folds, "paid": paid,
        "call": call, "agreed": agreed, "over": over,
    }


def collect(d, stacks, active, first, bets):
    """chips each seat posts; bets[0] is due from seat `first`"""
    n = d.num_players
    return [min(stacks[i], bets[(i - first) % n]) if active[i] else 0 for i in range(n)]


def passed(active, button, first, action, n):
    """seats without a player are agreed once the action went past them"""
    a1 = next_active(active, first)
    way = ((a1 - first) % n or n) + ((action - a1) % n or n)
    if n > 2:
        way += (first - button) % n or n
    return [not active[i] and ((i - button) % n or n) < way for i in range(n)]


def reset(d, reset_button, reset_stacks):
    """a new hand; None if fewer than two players have chips"""
    n = d.num_players
    if reset_stacks:
        stacks = [d.start_stack] * n
        active = [True] * n
    else:
        stacks = d.stacks
        active = [s > 0 for s in stacks]
        if sum(active) <= 1:
            return None
    button = 0 if reset_button else (d.button + 1) % n
    deck = freshdeck(d.deck)
    comm = d.num_community_cards[0]
    k = d.num_hole_cards
    first = next_active(active, button) if n > 2 else button
    ante = collect(d, stacks, active, first, d.antes)
    stacks = [s - a for s, a in zip(stacks, ante)]
    blind = collect(d, stacks, active, first, d.blinds)
    stacks = [s - b for s, b in zip(stacks, blind)]
    action = next_active(active, next_active(active, first))
    return {
        "action": action,
        "street_option": passed(active, button, first, action, n),
        "active": active, "button": button, "stacks": stacks,
        "pot_commits": [a + b for a, b in zip(ante, blind)],
        "street_commits": blind,
        "pot": sum(ante) + sum(blind),
        "largest_raise": d.big_blind, "street": 0, "street_raises": 0, "history": [],
        "community_cards": drawn(deck, comm),
        "hole_cards": [drawn(rest(deck, comm + i * k), k) for i in range(n)],
        "deck.cards": rest(deck, comm + n * k),
        "first": first, "ante": ante, "blind": blind,
    }


def observation(d, over):
    if over:
        call, lo, hi = 0, 0, 0
    else:
        call, lo, hi = bet_sizes(d)
    return {
        "action": d.action, "active": d.active, "button": d.button, "call": call,
        "community_cards": d.community_cards, "hole_cards": d.hole_cards[d.action],
        "max_raise": hi, "min_raise": lo, "pot": d.pot, "stacks": d.stacks,
        "street_commits": d.street_commits,
    }


def win_probabilities(d, combinations):
    n = d.num_players
    missing = sum(d.num_community_cards) - len(d.community_cards)
    wins = [0] * n
    for extra in combinations(d.deck.cards, missing):
        board = d.community_cards + list(extra)
        strengths = [hand(h, board) if a else None for h, a in zip(d.hole_cards, d.active)]
        best = min(s for s in strengths if s is not None)
        for i in range(n):
            if strengths[i] is not None and strengths[i] == best:
                wins[i] += 1
    return [w / sum(wins) for w in wins]
