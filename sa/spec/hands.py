"""Combinatorial meaning of poker hands: classes, strengths and frequencies
for a deck of s suits and the r highest ranks, hands of k cards."""
import functools
import itertools
import math

NAMES = {"sf": "straight flush", "fk": "four of a kind", "fh": "full house", "fl": "flush", "st": "straight",
         "tk": "three of a kind", "tp": "two pair", "pa": "pair", "hc": "high card"}


def multisets(r, k, s):
    """rank tuples (descending, 12 = ace) a deck can deal"""
    for m in itertools.combinations_with_replacement(range(12, 12 - r, -1), k):
        if all(m.count(x) <= s for x in set(m)):
            yield m


@functools.lru_cache(None)
def straights(r, k, low):
    """straights from best to worst as descending rank tuples"""
    out = [tuple(range(t, t - k, -1)) for t in range(12, 12 - r + k - 1, -1)]
    if low and r > k:
        out.append((12,) + tuple(range(13 - r + k - 2, 13 - r - 1, -1)))
    return out


SHAPE = {(4,): "fk", (4, 1): "fk", (3, 2): "fh", (3,): "tk", (3, 1): "tk", (3, 1, 1): "tk", (2, 2): "tp", (2, 2, 1): "tp",
         (2,): "pa", (2, 1): "pa", (2, 1, 1): "pa", (2, 1, 1, 1): "pa"}


def kind(m, suited, r, low):
    """class of a hand: its ranks and whether all suits agree"""
    k = len(m)
    sizes = tuple(sorted((m.count(x) for x in set(m)), reverse=True))
    if sizes in SHAPE:
        return SHAPE[sizes]
    st = k >= 3 and m in straights(r, k, low)
    if suited and k >= 3:
        return "sf" if st else "fl"
    return "st" if st else "hc"


def strength(m, cls, r, low):
    """sort key within a class, smaller is better"""
    if cls in ("sf", "st"):
        return straights(r, len(m), low).index(m)
    groups = sorted(set(m), key=lambda x: (-m.count(x), -x))
    return tuple(-x for x in groups)


@functools.lru_cache(None)
def hands(s, r, k, low):
    """[(class, ranks, suited)] of everything the deck can deal"""
    out = []
    for m in multisets(r, k, s):
        distinct = len(set(m)) == k
        if s == 1:
            out.append((kind(m, False, r, low), m, True))
            continue
        if distinct:
            out.append((kind(m, True, r, low), m, True))
            if k > 1:
                out.append((kind(m, False, r, low), m, False))
        else:
            out.append((kind(m, False, r, low), m, False))
    return out


@functools.lru_cache(None)
def counts(s, r, k, low):
    """class -> (number of different hands by rank, number of card combinations)"""
    un = {c: 0 for c in NAMES}
    su = {c: 0 for c in NAMES}
    seen = set()
    for c, m, suited in hands(s, r, k, low):
        if (c, m) not in seen:
            un[c] += 1
            seen.add((c, m))
        distinct = len(set(m)) == k
        if s == 1:
            n = 1
        elif distinct and k >= 2:
            n = s if suited else s ** k - s
        elif distinct:
            n = s
        else:
            n = math.prod(math.comb(s, m.count(x)) for x in set(m))
        su[c] += n
    assert sum(su.values()) == math.comb(s * r, k) if r * s >= k else True
    return {c: (un[c], su[c]) for c in NAMES}
