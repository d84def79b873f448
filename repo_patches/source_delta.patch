From 5ab12da9b7724db32c4287bdff70f93d11c185a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:59 +0000
Subject: [PATCH 01/18] fix: never collect more blinds or antes than a player's
 stack

---
 clubs/poker/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index c18e6e3..3265c98 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -592,7 +592,7 @@ class Dealer:
         # roll list to action
         bets = bets[-self.action :] + bets[: -self.action]  # noqa: E203
         bets = [
-            (stack > 0) * active * bet
+            min(stack, bet) * active
             for stack, active, bet in zip(self.stacks, self.active, bets)
         ]
         if street_commits:
-- 
2.43.0


From 61a5224d985d43e24227a489fd420e28e8175487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:12 +0000
Subject: [PATCH 02/18] fix: payouts of a finished hand do not depend on the
 emptied pot

step() after the end of a hand and rendering a finished hand recompute the
payouts once the pot is already handed out; settle from the commits instead.
---
 clubs/poker/engine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 3265c98..dc142a5 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -653,7 +653,7 @@ class Dealer:
         # if only one player left give that player all chips
         if sum(self.active) == 1:
             payouts = [
-                payout + active * (self.pot - pot_commit)
+                payout + active * (sum(self.pot_commits) - pot_commit)
                 for payout, active, pot_commit in zip(
                     payouts, self.active, self.pot_commits
                 )
@@ -695,7 +695,7 @@ class Dealer:
         ]
         # sort hands by hand strength and pot commits
         hands = sorted(hands, key=operator.itemgetter(1, 2))
-        pot = self.pot
+        pot = sum(self.pot_commits)
         remainder = 0
         payouts = [0] * self.num_players
         worst_hand = self.evaluator.table.max_rank + 1
-- 
2.43.0


From c01685697ce0a011576eed99812a214b6452ab69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:12 +0000
Subject: [PATCH 03/18] fix: history records a fold exactly when the player
 folded

---
 clubs/poker/engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index dc142a5..6990442 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -373,7 +373,8 @@ class Dealer:
         bet = self._clean_bet(bet, call, min_raise, max_raise)
 
         # only fold if player cannot check
-        if call and ((bet < call) or fold):
+        fold = bool(call and (bet < call or fold))
+        if fold:
             self.active[self.action] = False
             bet = 0
 
-- 
2.43.0


From 33d746371e1c2de7077effd2499064f0afe57f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:12 +0000
Subject: [PATCH 04/18] fix: remainder chips go to the first winning seat after
 the button

---
 clubs/poker/engine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 6990442..3d5e6fb 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -729,8 +729,9 @@ class Dealer:
         # give worst position player remainder chips
         if remainder:
             # worst player is first player after button involved in pot
-            for player_idx in range(1, self.num_players + 1):
-                if payouts[player_idx + self.button % self.num_players]:
+            for idx in range(1, self.num_players + 1):
+                player_idx = (self.button + idx) % self.num_players
+                if payouts[player_idx]:
                     payouts[player_idx] += remainder
                     break
         return payouts
-- 
2.43.0


From b05998402b5f127d2fcde5da064179a9588610cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:12 +0000
Subject: [PATCH 05/18] fix: observations do not alias the table's own lists

---
 clubs/poker/engine.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 3d5e6fb..1905b39 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -632,16 +632,16 @@ class Dealer:
             call, min_raise, max_raise = self._bet_sizes()
         observation: ObservationDict = {
             "action": self.action,
-            "active": self.active,
+            "active": list(self.active),
             "button": self.button,
             "call": call,
-            "community_cards": self.community_cards,
-            "hole_cards": self.hole_cards[self.action],
+            "community_cards": list(self.community_cards),
+            "hole_cards": list(self.hole_cards[self.action]),
             "max_raise": max_raise,
             "min_raise": min_raise,
             "pot": self.pot,
-            "stacks": self.stacks,
-            "street_commits": self.street_commits,
+            "stacks": list(self.stacks),
+            "street_commits": list(self.street_commits),
         }
         return observation
 
-- 
2.43.0


From d77e6b93642db70350a466ae8951d59bfb3b733e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:12 +0000
Subject: [PATCH 06/18] fix: accept the documented raise_sizes=float('inf')

---
 clubs/poker/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 1905b39..72ee5c4 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -174,7 +174,7 @@ class Dealer:
         def clean_rs(
             raise_size: Union[int, Literal["pot", "inf"]]
         ) -> Union[float, Literal["pot"]]:
-            if raise_size == "inf":
+            if raise_size in ("inf", float("inf")):
                 return float(raise_size)
             if raise_size == "pot":
                 return raise_size
-- 
2.43.0


From 0a3bd81efbdb039857cd8769322cd4f3f525998f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:12 +0000
Subject: [PATCH 07/18] fix: a deck tricked with all of its cards keeps their
 order

---
 clubs/poker/card.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/card.py b/clubs/poker/card.py
index de54134..ea3d573 100644
--- a/clubs/poker/card.py
+++ b/clubs/poker/card.py
@@ -216,7 +216,7 @@ class Deck:
             self
         """
         self.cards = list(self.full_deck)
-        if self._tricked and self._top_idcs and self._bottom_idcs:
+        if self._tricked:
             top_cards = [self.full_deck[idx] for idx in self._top_idcs]
             bottom_cards = [self.full_deck[idx] for idx in self._bottom_idcs]
             random.shuffle(bottom_cards)
-- 
2.43.0


From 05a60ea25cefc55515d066916c5c81f536cda878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:12 +0000
Subject: [PATCH 08/18] fix: custom orders may rank hands which are impossible
 in the deck

---
 clubs/poker/evaluator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index 8b4b1e2..ac8c22e 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -297,8 +297,10 @@ class LookupTable:
         for u_hand in u_hands:
             hand_rank = u_hand[1]
             cumulative_hands += u_hand[0]
-            self.hand_dict[hand_rank]["cumulative unsuited"] = cumulative_hands
-            if cumulative_hands > 0:
+            # impossible hands have no rank
+            self.hand_dict[hand_rank]["cumulative unsuited"] = 0
+            if u_hand[0] > 0:
+                self.hand_dict[hand_rank]["cumulative unsuited"] = cumulative_hands
                 self.hand_dict[hand_rank]["rank"] = rank
                 rank += 1
                 ranked_hands.append(hand_rank)
-- 
2.43.0


From 442112ab410e72b983c437dfd8a5a688b3d1bb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:12 +0000
Subject: [PATCH 09/18] fix: reject custom orders which are not permutations

---
 clubs/poker/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index ac8c22e..c4d3680 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -213,7 +213,7 @@ class LookupTable:
     ):
 
         if order is not None:
-            if any(string not in order for string in self.ORDER_STRINGS):
+            if sorted(order) != sorted(self.ORDER_STRINGS):
                 raise error.InvalidOrderError(
                     (
                         f"invalid order list {order},"
-- 
2.43.0


From e639fcd03917f35a8e7fb180397ec4c752b8fdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:12 +0000
Subject: [PATCH 10/18] fix: play out the hand when all active players are all
 in

If blinds or antes put players all in before their first turn the hand ended
without a showdown and the pot was refunded.
---
 clubs/poker/engine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 72ee5c4..04c7dd7 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -525,6 +525,9 @@ class Dealer:
         return win_probs
 
     def _all_agreed(self) -> bool:
+        # all agreed if no active player has chips left to act with
+        if not any(active and stack for active, stack in zip(self.active, self.stacks)):
+            return True
         # not all agreed if not all players had chance to act
         if not all(self.street_option):
             return False
-- 
2.43.0


From 56d3e73314fe9c1e1c9a8808e6e1e2a145ced44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:12 +0000
Subject: [PATCH 11/18] fix: folded players never win chips at showdown

---
 clubs/poker/engine.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index 04c7dd7..da9d4f4 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -706,16 +706,19 @@ class Dealer:
         # iterate over hand strength and
         # pot commits from smallest to largest
         for hand_idx, (_, strength, pot_commit) in enumerate(hands):
-            eligible = [
-                player_idx
-                for player_idx, other_strength, _ in hands
-                if other_strength == strength
-            ]
             # cut can only be as large as lowest player commit amount
             cut = [min(hand[2], pot_commit) for hand in hands]
             split_pot = sum(cut)
             if not split_pot:
                 continue
+            # chips of folded players which no remaining player matched
+            # go to the winners of the last split pot
+            if strength < worst_hand:
+                eligible = [
+                    player_idx
+                    for player_idx, other_strength, _ in hands
+                    if other_strength == strength
+                ]
             split = split_pot // len(eligible)
             remain = split_pot % len(eligible)
             for player_idx in eligible:
-- 
2.43.0


From 6996ae271d9fb4973d5cdd17ce650acc01a5fc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:12 +0000
Subject: [PATCH 12/18] fix: number of high cards in one and two card hands

---
 clubs/poker/evaluator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index c4d3680..f047a5e 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -470,8 +470,9 @@ class LookupTable:
         # any combination of rank and subtract straights
         unsuited = _ncr(ranks, cards_for_hand) - straights
         # multiplied with suit choices for all cards
-        # all same suits not allowed
-        suited = max(unsuited, unsuited * (suits ** cards_for_hand - suits))
+        # all same suits not allowed if flushes exist
+        flush_suits = suits if cards_for_hand > 2 else 0
+        suited = max(unsuited, unsuited * (suits ** cards_for_hand - flush_suits))
         if suits < 2:
             suited = unsuited
         return int(suited), int(unsuited)
-- 
2.43.0


From e6cf921dd97dd85edbfcbd122ab7cb8a51c31b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:12 +0000
Subject: [PATCH 13/18] fix: hand counts of decks with few ranks

With at most as many ranks as cards in a hand the low end straight was
counted although it does not exist or equals the regular straight, and the
lookup table could not be built.
---
 clubs/poker/evaluator.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index f047a5e..3b10947 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -351,7 +351,7 @@ class LookupTable:
         if cards_for_hand < 3 or suits < 2:
             return 0, 0
         # number of smallest cards which start straight
-        unsuited = ranks - (cards_for_hand - 1) + low_end_straight
+        unsuited = _num_straights(ranks, cards_for_hand, low_end_straight)
         # multiplied with number of suits
         suited = max(unsuited, unsuited * suits)
         return int(suited), int(unsuited)
@@ -391,7 +391,7 @@ class LookupTable:
         if cards_for_hand < 3 or suits < 2:
             return 0, 0
         # all straight combinations
-        straight_flushes = ranks - (cards_for_hand - 1) + low_end_straight
+        straight_flushes = _num_straights(ranks, cards_for_hand, low_end_straight)
         # choose all cards from ranks minus straight flushes
         unsuited = _ncr(ranks, cards_for_hand) - straight_flushes
         # multiplied by number of suits
@@ -405,7 +405,7 @@ class LookupTable:
         if cards_for_hand < 3:
             return 0, 0
         # number of smallest cards which start straight
-        unsuited = ranks - (cards_for_hand - 1) + low_end_straight
+        unsuited = _num_straights(ranks, cards_for_hand, low_end_straight)
         # straight flush combinations
         straight_flushes = 0
         if suits > 1:
@@ -466,7 +466,7 @@ class LookupTable:
         # number of smallest cards which start straight
         straights = 0
         if cards_for_hand > 2:
-            straights = ranks - (cards_for_hand - 1) + low_end_straight
+            straights = _num_straights(ranks, cards_for_hand, low_end_straight)
         # any combination of rank and subtract straights
         unsuited = _ncr(ranks, cards_for_hand) - straights
         # multiplied with suit choices for all cards
@@ -489,7 +489,7 @@ class LookupTable:
         for _ in range(ranks - (cards_for_hand - 1)):
             straight_flushes.append(int(bin_num_str, 2))
             bin_num_str = bin_num_str[:-1]
-        if low_end_straight:
+        if low_end_straight and ranks > cards_for_hand:
             # add low end straight
             bin_num_str = (
                 "0b1"
@@ -663,7 +663,16 @@ def _lexographic_next_bit(bits: int) -> Iterator[int]:
         yield lex
 
 
+def _num_straights(ranks: int, cards_for_hand: int, low_end_straight: bool) -> int:
+    # low end straight only differs from the other straights if there
+    # are more ranks than cards in the hand
+    low_end = low_end_straight and ranks > cards_for_hand
+    return max(0, ranks - (cards_for_hand - 1)) + low_end
+
+
 def _ncr(n: int, r: int) -> int:
+    if r > n:
+        return 0
     r = min(r, n - r)
     numer = functools.reduce(operator.mul, range(n, n - r, -1), 1)
     denom = functools.reduce(operator.mul, range(1, r + 1), 1)
-- 
2.43.0


From ac6d94ed83b7bb1bbc6a45cfb089b295e0d7e0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:12 +0000
Subject: [PATCH 14/18] fix: look up straight flushes if the deck has no other
 flushes

---
 clubs/poker/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/poker/evaluator.py b/clubs/poker/evaluator.py
index 3b10947..c3ee3e8 100644
--- a/clubs/poker/evaluator.py
+++ b/clubs/poker/evaluator.py
@@ -317,7 +317,7 @@ class LookupTable:
 
         # if suited hands aren't relevant set the suited
         # lookup table equal to the unsuited table
-        if not self.hand_dict["flush"]["cumulative unsuited"]:
+        if not suited_lookup:
             suited_lookup = unsuited_lookup
 
         self.suited_lookup = suited_lookup
-- 
2.43.0


From 13418ae7248f29624f2ec7673440e88fc751ea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:48 +0000
Subject: [PATCH 15/18] fix: reject unknown render modes on every call of
 render

---
 clubs/poker/engine.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index da9d4f4..a448a03 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -474,15 +474,15 @@ class Dealer:
         """
         viewer: Optional[Type[render.PokerViewer]] = None
         render_modes = ["ascii", "human"]
+        if mode not in render_modes:
+            raise error.InvalidRenderModeError(
+                (f"incorrect render mode {mode}," f"use one of {render_modes}")
+            )
         if self.viewer is None:
             if mode == "ascii":
                 viewer = render.ASCIIViewer
-            elif mode == "human":
-                viewer = render.GraphicViewer
             else:
-                raise error.InvalidRenderModeError(
-                    (f"incorrect render mode {mode}," f"use one of {render_modes}")
-                )
+                viewer = render.GraphicViewer
             self.viewer = viewer(
                 self.num_players,
                 self.num_hole_cards,
-- 
2.43.0


From 15119b342fc582c9a5e98702483864f3253938e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:48 +0000
Subject: [PATCH 16/18] fix: stop the web server process even if it cannot be
 notified

---
 clubs/render/graphic.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index 9eda291..1c7fafc 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -94,9 +94,11 @@ class GraphicViewer(viewer.PokerViewer):
 
     def close(self) -> None:
         if self.process.is_alive():
-            self.socket.send({"content": "close"})
-            self.process.terminate()
-            self.process.join()
+            try:
+                self.socket.send({"content": "close"})
+            finally:
+                self.process.terminate()
+                self.process.join()
 
     def __del__(self) -> None:
         self.close()
-- 
2.43.0


From c40b45da32b59aa2fe042af4f006aa6e03a809cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:48 +0000
Subject: [PATCH 17/18] fix: serve the table on the configured host

---
 clubs/render/graphic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clubs/render/graphic.py b/clubs/render/graphic.py
index 1c7fafc..d6fef74 100644
--- a/clubs/render/graphic.py
+++ b/clubs/render/graphic.py
@@ -147,7 +147,7 @@ class GraphicViewer(viewer.PokerViewer):
 
         socketio.start_background_task(listener)
 
-        socketio.run(app, port=self.port)
+        socketio.run(app, host=self.host, port=self.port)
 
     def render(self, config: viewer.RenderConfig, sleep: float = 0) -> None:
         """Render the table in browser based on the table configuration
-- 
2.43.0


From 7ae407bfe0fb14a19b949c20d47e52c65638d821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:20 +0000
Subject: [PATCH 18/18] fix: players only share side pots they have chips in

With three or more tied hands a player whose chips were already used up by an
earlier split pot stayed eligible for the following ones.
---
 clubs/poker/engine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clubs/poker/engine.py b/clubs/poker/engine.py
index a448a03..6e026fc 100644
--- a/clubs/poker/engine.py
+++ b/clubs/poker/engine.py
@@ -716,8 +716,8 @@ class Dealer:
             if strength < worst_hand:
                 eligible = [
                     player_idx
-                    for player_idx, other_strength, _ in hands
-                    if other_strength == strength
+                    for player_idx, other_strength, other_commit in hands
+                    if other_strength == strength and other_commit
                 ]
             split = split_pot // len(eligible)
             remain = split_pot % len(eligible)
-- 
2.43.0

