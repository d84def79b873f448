"""The properties, their anchors and what the checks say about them."""
EN = "clubs/poker/engine.py"
CARD = "clubs/poker/card.py"
EV = "clubs/poker/evaluator.py"
CF = "clubs/configs.py"
AS = "clubs/render/ascii_viewer.py"
GR = "clubs/render/graphic.py"

VG = "value-graph translation of the method's effects, comparison of the terms with a reference semantics in separating finite structures built by the reference"
VGN = ("Obligations over the terms the source computes. A few obligations hold by the form of the terms and are proved; every other is only "
       "searched for a separating finite structure (the terms are interpreted, the program is never run), so silence there is bounded assurance: "
       "evidence tells the two apart. Trusted: the abstract interpreter (sa/interp.py), the reference (sa/spec/table.py), contracts of Deck and Evaluator.")
HIST = "every configuration, every number of players and every sequence of reset and step calls with any bets"

VGL = ("The terms the source computes for symbolic arguments are compared with the documented meaning; where the domain is finite they are interpreted "
       "at all of its points (the program is never run), otherwise in generated structures, which is bounded assurance. Trusted: the abstract interpreter "
       "(sa/interp.py, sa/lib.py) and its interpretation of the library calls used.")


def P(id, title, statement, over, forall, why, files, mech, technique=VG, note=VGN, observe=()):
    return dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files, mech=mech,
                technique=technique, note=note, observe=list(observe))


H = ["configurations", "histories", "inputs"]
PROPS = [
    P("C01", "Chips are conserved while betting",
      "No call of reset or step creates or destroys chips: the sum of all stacks plus the pot is the same before and after every step, a new hand "
      "starts with exactly the chips the stacks held (or the starting stacks if they are reset), and while a hand is in progress the pot equals the "
      "sum of what the seats have committed to it.",
      H, HIST, "The tests follow a handful of scripted hands; chip totals under short stacks, antes plus blinds and odd stacks are never summed.",
      [EN], [("collecting bets, blinds and antes", EN + ": Dealer.reset, Dealer.step")], observe=["Dealer.stacks", "Dealer.pot", "Dealer.pot_commits"]),
    P("C02", "Nobody is ever charged more than the chips in front of them",
      "Every ante, blind, call and raise takes from a seat at most the chips in its stack, never a negative or fractional amount; the amount leaves "
      "the stack of exactly the seat it is charged to and is added to that seat's commits. Seats that are not in the hand post nothing.",
      H, HIST, "Tests use stacks which cover the blinds and bets that are valid or nearly so.",
      [EN], [("capping bets at the stack", EN + ": Dealer.reset, Dealer.step")], observe=["Dealer.stacks", "Dealer.pot_commits"]),
    P("C03", "A finished hand is settled exactly once",
      "When a step ends the hand, every seat's final stack is its stack plus its commit plus its payout, the pot is empty and nobody is left to act; "
      "while the hand goes on no stack is credited and some seat is to act. Further steps after the end change nothing and report the same payouts "
      "with all seats done.",
      H, HIST, "Tests check the final stacks of a few hands and never step a finished table repeatedly.",
      [EN], [("settlement in step", EN + ": Dealer.step")], observe=["Dealer.stacks", "Dealer.pot", "Dealer.action"]),
    P("C04", "Payouts are zero-sum and respect main and side pots",
      "The payouts of a finished hand sum to zero; nobody loses more than they committed or wins more from a seat than they matched of it; every main "
      "and side pot is shared equally among its winners, and a seat left alone wins all other commits. In a hand in progress the payouts are minus "
      "the commit for folded seats and zero for all others.",
      H, HIST, "Side pots depend on the joint order of commits and hand strengths of all seats; tests sample fewer than ten such combinations.",
      [EN], [("splitting the pot", EN + ": Dealer.step (payouts)")], observe=["second value returned by step"]),
    P("C05", "Only the best hand among contenders with chips in a pot is paid",
      "At the end of a hand a folded seat always loses exactly its commit; at a showdown a seat that is beaten by a seat with at least the same commit "
      "wins nothing, a single best hand wins everything it matched, and only seats that hold the best hand among the remaining contenders of some pot "
      "they have chips in receive chips.",
      H, HIST, "Which seats are eligible depends on all commits, folds and ranks at once; the tests cover a few fixed showdowns.",
      [EN], [("eligibility for pots", EN + ": Dealer.step (payouts)")], observe=["second value returned by step"]),
    P("C06", "Odd chips go once to the first winner after the button",
      "Chips of a showdown that cannot be divided equally among the winners of a pot are neither lost nor duplicated: all of them go to one seat, the "
      "first seat clockwise after the button that wins a share.",
      H, HIST, "Needs indivisible pots, at least two winners and every button position; the tests contain one such hand.",
      [EN], [("remainder of split pots", EN + ": Dealer.step (payouts)")], observe=["second value returned by step"]),
    P("C07", "A bet is replaced by the nearest valid amount",
      "Whatever number is passed to step, the seat to act pays zero, the call amount or an amount within the offered raise range, namely the one nearest "
      "to the requested (rounded) number, with ties resolved towards fold/check, then call, then raise.",
      ["inputs", "histories", "configurations"], "every bet (negative, fractional, huge) in every reachable situation",
      "Tests try few bets per situation; boundary ties and clipped ranges are sampled, not covered.",
      [EN], [("cleaning of bets", EN + ": Dealer.step")], observe=["chips charged by step"]),
    P("C08", "Observations offer the documented call, minimum and maximum raise",
      "The call, min_raise and max_raise reported by reset and step are the documented amounts for the seat to act (fixed, pot and no limit, raise "
      "count cap, no re-raise after an incomplete raise), never exceed its stack, are never negative and are zero once the hand is over.",
      H, HIST, "The formulas branch on limit type, raise cap, incomplete raises and stack sizes; tests visit single points.",
      [EN], [("bet sizes", EN + ": Dealer.reset, Dealer.step (observation)")], observe=["observation['call'], ['min_raise'], ['max_raise']"]),
    P("C09", "Raises are counted and the history records every action",
      "A payment of at least the call plus the largest raise so far becomes the new largest raise and counts as one raise of its street, any other "
      "payment does neither. Every step of a hand appends exactly one history entry with the acting seat, the chips it paid and whether it folded, "
      "and never alters earlier entries.",
      H, HIST, "Short all-in raises and raise caps need specific multi-step histories.",
      [EN], [("raise accounting, history", EN + ": Dealer.step")], observe=["Dealer.largest_raise", "Dealer.street_raises", "Dealer.history"]),
    P("C10", "A seat folds exactly when it declines a bet it faces",
      "The seat to act leaves the hand if and only if there is an amount to call and its cleaned bet is smaller or its bet is negative; it then pays "
      "nothing. A free check never folds, no other seat's status changes, and a folded seat stays out until the next hand.",
      H, HIST, "Negative bets, zero bets without a call and short calls interact; tests sample some of them.",
      [EN], [("folding", EN + ": Dealer.step")], observe=["Dealer.active"]),
    P("C11", "The action passes to the next seat in the hand",
      "After every step the seat to act is the next seat clockwise that is still in the hand, after a finished street the first such seat after the "
      "button, and at the start of a hand the seat after those posting the first two blinds (the button posts the first blind heads-up). The seat to "
      "act is always in the hand while it is in progress.",
      H, HIST, "All patterns of folded and broke seats around the button are quantified; tests use full tables mostly.",
      [EN], [("moving the action", EN + ": Dealer.reset, Dealer.step")], observe=["Dealer.action"]),
    P("C12", "Streets advance exactly when everyone has acted and agreed",
      "A street ends if and only if nobody in the hand has chips left or every seat in the hand has had its turn on it and has matched the largest "
      "street commit or is all in; then exactly the next street's community cards come off the top of the deck, or all remaining ones when at most one "
      "seat can still bet. A new street starts with empty street commits, no raises and everyone still to act, a showdown has the full board, and the "
      "done flags report folded and all-in seats, or all seats at the end.",
      H, HIST, "The condition couples options, commits, stacks and folds of all seats; tests follow fixed scripts.",
      [EN], [("street progression", EN + ": Dealer.step")], observe=["Dealer.street", "Dealer.community_cards", "done flags"]),
    P("C13", "A new hand starts from a clean table or is rejected untouched",
      "reset leaves nothing of the previous hand: commits, street, raises, history and turns start afresh, the largest raise is the big blind, and "
      "exactly the seats with chips are in the hand (all of them with starting stacks if stacks are reset). If fewer than two seats have chips and "
      "stacks are not reset, TooFewActivePlayersError is raised and button, stacks, cards, commits and history stay as they were.",
      H, "every state a previous hand can leave behind, including unfinished hands",
      "Tests reset fresh tables or tables after one hand.",
      [EN], [("reset", EN + ": Dealer.reset")], observe=["all attributes of Dealer"]),
    P("C14", "What callers receive cannot change the table",
      "The observations, payouts and done flags returned by reset and step, and the cards returned by draw, share no list or dictionary with the "
      "table or the deck: whatever a caller does to them, the game goes on unchanged, and an observation once returned never changes later. "
      "Observations have the documented keys and report the table's actual values.",
      H, HIST, "Aliasing shows only if a caller mutates or keeps a result; no test does.",
      [EN, CARD], [("building observations", EN + ": Dealer.reset, Dealer.step (observation)"), ("drawing", CARD + ": Deck.draw")],
      technique="alias analysis (disjointness of reachable containers on every path) over the value-graph translation", observe=["values returned by reset, step and draw"]),
    P("C15", "Observations never reveal other seats' cards",
      "While a hand goes on an observation contains the hole cards of the seat to act and nothing that depends on any other seat's hole cards or "
      "on cards still in the deck, neither directly nor through any reported number, flag or payout; once the hand is over it shows no "
      "hole cards.",
      H, HIST, "Non-interference relates pairs of runs; a test sees one.",
      [EN], [("hole cards of the seat to act", EN + ": Dealer.reset, Dealer.step (observation)")],
      technique="noninterference over the value-graph translation (twin structures that differ in hidden cards)", observe=["values returned by reset and step"]),
    P("C16", "Tables are independent of each other and of their configuration",
      "Neither constructing a table nor playing on it writes to class or module data or to the lists and dictionaries passed as configuration; the "
      "configuration attributes stay as constructed, and the state of one table is never shared with another table, with the caller or between two of "
      "its own attributes.",
      H, HIST, "Shared state is visible only with several tables or reused configurations at once.",
      [EN, CF], [("attributes of a table", EN + ": Dealer.__init__, reset, step")],
      technique="effect and alias analysis over the value-graph translation", observe=["attributes of several Dealer objects", "configuration dictionaries"]),
    P("C17", "Looking at a table does not change it",
      "win_probabilities, render, str and repr leave chips, cards, deck order, action and every other part of the hand as they were (only the viewer "
      "created by the first render is remembered), and viewers only read what they are shown.",
      H, "every state of a table and every query", "Tests render or print tables without comparing the state before and after.",
      [EN, AS], [("queries", EN + ": Dealer.win_probabilities, render, __str__, __repr__, _render_config")],
      technique="effect analysis (no write to objects that existed before the call) over the value-graph translation", observe=["all attributes of Dealer"]),
    P("C20", "Invalid configurations and calls are rejected, valid ones are not",
      "Blinds, antes, raise sizes, numbers of raises or community cards given as a list of the wrong length, and raise sizes other than numbers, "
      "'pot' or inf, are rejected with the documented error; everything documented is accepted. step before the first reset raises TableResetError "
      "and changes nothing; unknown render modes are rejected at every call.",
      ["configurations", "inputs"], "every configuration and every call",
      "Tests try one wrong value per parameter.",
      [EN], [("argument checks", EN + ": Dealer.__init__, step, render")],
      technique="guards of every raise, from the value-graph translation, compared with the documented preconditions", observe=["exceptions"]),
    P("C22", "A table is set up with exactly the values it was configured with",
      "After construction every attribute holds the configured value, single values are repeated for every seat or street, fixed, pot and no limit "
      "raise sizes are told apart, deck and evaluator are built for the configured suits, ranks, hand size, mandatory hole cards, low end straight and "
      "order, and no hand is in progress.",
      ["configurations"], "every configuration with lists or single values",
      "Tests construct the shipped games; swapped or ignored parameters with equal values go unnoticed.",
      [EN], [("constructor", EN + ": Dealer.__init__")], observe=["attributes of a new Dealer"]),
    P("C27", "The text rendering never shows hidden cards",
      "The ASCII table shows the hole cards of the seat to act only (of all seats in the hand once it is over), masks those of every other seat "
      "in the hand and marks folded seats; hidden cards influence no part of the text.",
      ["inputs", "configurations"], "every state of a hand with any number of seats",
      "Tests compare the text of a few fixed states.",
      [AS], [("masking of cards", AS + ": ASCIIViewer._parse_players, render")],
      technique="dependence of the printed term on the hole cards (value-graph translation, noninterference)", note=VGL, observe=["text printed by ASCIIViewer.render"]),
    P("C28", "The text rendering shows the state of the table",
      "The ASCII table shows every seat, clockwise, with its stack, its street commit (or its payout once the hand is over) and the marks for button, "
      "seat to act and all-in seats next to the right seat, the board with its missing cards, the pot, the last action and who acts next or who won "
      "how much; the text is printed once, before any pause asked for, and no field of its template is left unfilled.",
      ["inputs", "configurations"], "every state of a hand with 2 to 10 seats",
      "Tests compare the text of a few fixed states.",
      [AS], [("filling the template", AS + ": ASCIIViewer.__init__, _parse_string, render")],
      technique="value-graph translation of the printed text compared with the configuration", note=VGL, observe=["text printed by ASCIIViewer.render"]),
    P("C18", "A deck deals every card of its suits and ranks exactly once",
      "A new or reshuffled deck of s suits and r ranks holds each card of the s first suits (spades, hearts, diamonds, clubs) and the r highest "
      "ranks exactly once, in an order drawn anew by every shuffle. draw(n) removes and returns the n top cards (one by default, all that are left "
      "if fewer), len() is the number of cards left, str() lists them in that order, and decks of other than 1-4 suits and 1-13 ranks are rejected.",
      ["inputs", "histories"], "all 52 deck sizes, every order of the deck and every number of cards drawn",
      "Tests count the cards of a few decks and draw from fresh ones only.",
      [CARD], [("deck", CARD + ": Deck.__init__, Deck.shuffle, Deck.draw, Deck.__len__")], technique=VG + " (every deck size)", note=VGL, observe=["Deck.cards", "Deck.draw", "len(deck)"]),
    P("C19", "A tricked deck deals the chosen cards first until it is untricked",
      "After trick(cards) every shuffle puts exactly the given cards on top in the given order and the remaining cards, shuffled, below, whatever was "
      "drawn in between; a later trick replaces an earlier one, and after untrick shuffling is free again. No card is lost or duplicated by it.",
      ["inputs", "histories"], "every list of different cards of the deck (none to all) and every sequence of trick, untrick, draw and shuffle up to the analysed length",
      "Tests trick a full deck once and shuffle once.",
      [CARD], [("tricking", CARD + ": Deck.trick, Deck.untrick, Deck.shuffle")], technique=VG + " (per operation sequence)", note=VGL, observe=["Deck.cards"]),
    P("C21", "Cards encode rank and suit in the documented 32-bit layout",
      "For every rank and suit, in upper or lower case, a card's integer has the documented prime, rank, suit and rank-bit fields, so that different "
      "cards have different integers, its text is rank and suit symbol, equality is equality of cards, and &, | and shifts work on the integer. "
      "Strings with an unknown rank or suit raise InvalidRankError or InvalidSuitError.",
      ["inputs"], "all 52 cards in every spelling and all pairs of them",
      "Tests encode a few cards.",
      [CARD], [("card encoding", CARD + ": Card")], technique=VG + " (whole domain)", note=VGL, observe=["int(card)", "str(card)", "card operators"]),
    P("C23", "A hand is the best of all admissible card combinations",
      "evaluate returns the smallest rank number of all combinations of cards_for_hand cards: any hole and community cards if no hole cards are "
      "mandatory, otherwise exactly the mandatory number of hole cards with the rest from the board. If too few cards are given the result is "
      "max_rank. The cards passed in are not changed.",
      ["inputs", "configurations"], "all hole and community cards, hand sizes and numbers of mandatory hole cards",
      "Tests evaluate a dozen fixed hands per variant.",
      [EV], [("choosing the best hand", EV + ": Evaluator.evaluate, LookupTable.lookup")], technique=VG, note=VGL, observe=["Evaluator.evaluate"]),
    P("C24", "Hand class frequencies are the combinatorial ones",
      "For every deck of 1-4 suits and 1-13 ranks and hands of 1-5 cards, with or without low end straights, hand_dict reports for every class the "
      "number of different hands by rank (unsuited) and the number of card combinations of that class (suited). Flushes and straights need at least "
      "three cards, flushes at least two suits; the classes partition all combinations.",
      ["configurations"], "all 520 configurations with enough cards for a hand",
      "Tests compare full four-suit decks and single smaller decks.",
      [EV], [("class counts", EV + ": LookupTable")], technique=VG + " (whole domain)", note=VGL, observe=["LookupTable.hand_dict"]),
    P("C25", "Hand classes are ranked by rarity or exactly by the given order",
      "Without a custom order, ranked_hands lists exactly the possible classes, rarer ones (by the frequencies in hand_dict) first; with a custom order it lists exactly the "
      "possible classes in that order. An order that is not a permutation of the nine documented strings raises InvalidOrderError. The text of an "
      "evaluator lists these classes with their frequencies.",
      ["configurations", "inputs"], "all configurations and orders",
      "Tests use one or two custom orders on a full deck.",
      [EV], [("class order", EV + ": LookupTable.__init__, Evaluator")], technique=VG + " (whole domain)", note=VGL, observe=["LookupTable.ranked_hands", "str(evaluator)"]),
    P("C26", "Every hand gets a rank that reflects its strength",
      "The lookup gives every hand the deck can deal a rank number: smaller exactly if the hand is stronger (classes in their ranked order, within a "
      "class by the ranks of the largest groups first, then kickers; straights by their high card with the low end straight last), equal exactly "
      "if the hands have the same ranks and class, whatever the suits and the order of the cards. get_rank_class names the class of a rank number "
      "and rejects numbers outside 0..max_rank; hands of other than 1-5 cards are rejected.",
      ["configurations", "inputs"], "all hands of all decks",
      "Tests compare fixed hands; tables of thousands of entries are never compared with each other entry by entry.",
      [EV], [("lookup tables", EV + ": LookupTable._flushes, _multiples, lookup, Evaluator.get_rank_class")], technique=VG, note=VGL,
      observe=["LookupTable.lookup", "Evaluator.get_rank_class"]),
    P("C32", "Button, blinds and antes rotate in seat order",
      "Each reset moves the button by one seat, or to the first seat if asked, and it stays there during the hand. Entry k of the blinds and antes is "
      "posted by the k-th seat counted from the first active seat after the button (from the button itself heads-up), antes before blinds, by seats "
      "in the hand only.",
      H, HIST, "All combinations of button position, number of seats and broke seats matter; tests check a few positions.",
      [EN], [("posting of blinds and antes", EN + ": Dealer.reset")], observe=["Dealer.button", "Dealer.street_commits", "Dealer.pot_commits"]),
    P("C33", "All cards of a hand come from one shuffled deck",
      "reset deals every seat its number of hole cards and the first street's community cards from one freshly shuffled deck; at all times hole cards, "
      "board and remaining deck together are exactly that deck, and hole cards and board never change except by new community cards.",
      H, HIST, "Duplicated or lost cards show up only for particular card counts; tests look at counts of single hands.",
      [EN], [("dealing", EN + ": Dealer.reset, Dealer.step")], observe=["Dealer.hole_cards", "Dealer.community_cards", "Dealer.deck.cards"]),
    P("C34", "Win probabilities count every possible board exactly once",
      "win_probabilities considers every completion of the board with cards left in the deck exactly once, counts a win for every seat that holds the "
      "best hand among the seats still in the hand (for each of them on a tie), and returns each seat's share of all wins; folded seats get zero "
      "and the values sum to one.",
      H, "every state of a hand", "Tests look at a few fixed boards.",
      [EN], [("enumeration of boards", EN + ": Dealer.win_probabilities")], observe=["Dealer.win_probabilities"]),
    P("C35", "Rendering hands the viewer the actual state of the table",
      "render shows the table exactly once per call, with the viewer of the requested mode built for this table's number of seats and cards at the first "
      "call and the same viewer afterwards; the values it passes are the table's own, including who is all in, whether the hand is over and what "
      "everybody is paid.",
      H, "every state of a hand and every sequence of render calls", "Tests check the configuration of a single state.",
      [EN], [("render configuration", EN + ": Dealer._render_config, render")], observe=["configuration passed to the viewer"]),
    P("C31", "The shipped configurations are the games they are named after",
      "Every configuration in clubs.configs is accepted by Dealer and describes the game of its name: number of players, streets, blinds, antes, "
      "raise sizes and raise caps per street, suits and ranks, hole and community cards, hand size, mandatory hole cards and hand order, consistent with each other "
      "(list lengths, enough cards in the deck for all seats, blinds no larger than the starting stack).",
      ["configurations"], "all shipped configurations", "Tests use a few of them and check no value against the rules of the game.",
      [CF, EN], [("shipped games", CF), ("argument checks", EN + ": Dealer.__init__")],
      technique="constant evaluation of the configuration module and of the constructor's guards, compared with the rules of the named games",
      note="Complete for the constants found in the source; trusted: the rules of the games as written in sa/spec/games.py.",
      observe=["clubs.configs"]),
    P("C29", "The page of the web viewer draws the table it is sent",
      "Whatever sequence of tables the page receives, it then shows exactly the last one: every seat's stack, its street commit and the pot as numbers, each at one place; the hole "
      "cards of players still in the hand and the community cards dealt, each with its rank (a ten as 10), the suit drawn by that suit's picture and colour, in the order dealt; no "
      "cards for folded players or undealt places; the dealer button at the button's seat and the acting player's seat marked, nothing else marked. Nothing of an earlier table "
      "remains. The drawing has a place for every seat, in seating order, none covering another, and everything the script and the page refer to exists.",
      ["inputs", "histories", "configurations"], "every table size, every table shown, every sequence of tables",
      "No test runs the script of the page; tests check that a page is served and that the drawing's elements have some ids.",
      [GR, "clubs/render/resources"], [("drawing", GR + ": _SVGPoker, _SVGElement"), ("script", "clubs/render/resources/static/parse_config.js"), ("templates", "clubs/render/resources/templates")],
      technique="abstract interpretation of the construction of the drawing and of the page's script (translated from TypeScript's syntax tree); value-graph terms of every text and attribute, told apart in finite structures",
      note="Elements are recognised by the values they depend on, not by their names. Sizes, button and acting player are enumerated (four sizes quick, eleven thorough); chips, cards "
           "and flags are symbols. Trusted: sa/rules/page.py's meaning of DOM and xml.etree calls. Style sheets and what a browser makes of SVG are not modelled.",
      observe=["the document after messages"]),
    P("C30", "The web viewer shows every rendered table and goes away when closed",
      "Creating a web viewer starts exactly one server process and returns once it answers at the given (or a free) port, raising RenderInitializationError "
      "if it never does and MissingImportsError without the libraries needed. Every rendered table is sent unchanged, with its cards as text, and shown to all "
      "browsers, also to those that connect later; the configuration rendered is not changed. Closing or dropping the viewer, even repeatedly or after the "
      "server died, raises nothing and leaves no process behind.",
      ["inputs", "histories", "schedules"], "every sequence of renders, connecting browsers, closes and connection failures",
      "Tests open a viewer once and check that the page answers; no browser connects, nothing fails.",
      [GR], [("server process", GR + ": GraphicViewer.__init__, _run_flask"), ("messages", GR + ": GraphicViewer.render, _jsonify, close")],
      technique="abstract interpretation of both processes against scenarios of library behaviour: obligations on the traces of library calls and on the message term",
      note="Scenarios fix what the libraries do (connections refused, sends failing, browsers connecting, messages); the two processes are analysed separately and joined at "
           "the messages. Trusted: sa/rules/web.py's meaning of multiprocessing, socket, flask and socket.io calls. Unusual uses of them leave the obligation undecided.",
      observe=["GraphicViewer", "events emitted to browsers"]),
]

NA = {
}
