"""property id -> (what is decided, rule, assumptions)"""
from .rules import cards as ca
from .rules import engine as en
from .rules import effects as ef
from .rules import evalu as ev
from .rules import page as pg
from .rules import render as re
from .rules import shipped as sh
from .rules import web as we

TABLE = ["Deck.draw/shuffle and Evaluator.evaluate are replaced by their contracts (decided by C18, C19, C23)",
         "documented argument types; integer chips"]
DECK = ["random.shuffle permutes a list in place (interpreted as several fixed permutations)"]
HANDS = ["decks of 1-4 suits and 1-13 ranks, hands of 1-5 cards", "the reference order of hands (sa/spec/hands.py)"]
V = "value-graph translation of Dealer.{} compared with the reference semantics; differing terms are told apart in finite structures only"

RULES = {
    "C01": (V.format("reset/step"), en.c01, TABLE),
    "C02": (V.format("reset/step"), en.c02, TABLE),
    "C03": (V.format("step"), en.c03, TABLE),
    "C04": (V.format("step"), en.c04, TABLE),
    "C05": (V.format("step"), en.c05, TABLE),
    "C06": (V.format("step"), en.c06, TABLE),
    "C07": (V.format("step"), en.c07, TABLE),
    "C08": (V.format("reset/step"), en.c08, TABLE),
    "C09": (V.format("step"), en.c09, TABLE),
    "C10": (V.format("step"), en.c10, TABLE),
    "C11": (V.format("reset/step"), en.c11, TABLE),
    "C12": (V.format("step"), en.c12, TABLE),
    "C13": (V.format("reset"), en.c13, TABLE),
    "C14": ("alias analysis of the values returned by reset, step and draw on every path", ef.c14, TABLE),
    "C15": ("noninterference of observations: hidden cards in twin structures", ef.c15, TABLE),
    "C16": ("effect and alias analysis of constructor, reset, step and queries", ef.c16, TABLE),
    "C17": ("effect analysis of the queries", ef.c17, TABLE),
    "C18": ("value-graph translation of Deck.__init__/shuffle/draw, interpreted for every deck size", ca.c18, DECK),
    "C19": ("value-graph translation of sequences of trick/untrick/draw/shuffle with symbolic arguments", ca.c19, DECK),
    "C20": ("guards of every raise in constructor, step and render", ef.c20, []),
    "C21": ("value-graph translation of Card for a symbolic string, compared with the documented layout on its whole domain", ca.c21, []),
    "C22": ("value-graph translation of Dealer.__init__ compared with the configuration", ef.c22, ["Deck, Evaluator and ASCIIViewer are constructed as given (decided by C18, C23, C26, C28)"]),
    "C23": ("value-graph translation of Evaluator.evaluate against the minimum over all admissible combinations", ev.c23, HANDS),
    "C24": ("closed forms of the class counts computed by LookupTable, compared with combinatorics on the whole configuration domain", ev.c24, HANDS),
    "C25": ("closed form of the class order computed by LookupTable, on the whole configuration domain", ev.c25, HANDS),
    "C26": ("closed forms of the lookup tables and of lookup/get_rank_class, compared with the combinatorial order of all hands", ev.c26, HANDS),
    "C27": ("dependence of the printed text on hidden cards", re.c27, ["str(card) is its rank and suit (decided by C21)"]),
    "C28": ("value-graph translation of the printed text compared with the configuration", re.c28, ["str(card) is its rank and suit (decided by C21)"]),
    "C32": (V.format("reset"), en.c32, TABLE),
    "C33": (V.format("reset/step"), en.c33, TABLE),
    "C34": ("value-graph translation of Dealer.win_probabilities against the enumeration of all boards", ef.c34, TABLE),
    "C29": ("the drawing built by the server process and the script of the page, interpreted for messages whose numbers, cards and flags are symbols", pg.c29,
            ["meaning of DOM, socket.io and xml.etree calls as in sa/rules/page.py", "ten players at most; sizes and positions of button and acting player are enumerated"]),
    "C30": ("traces of library calls of both processes of the web viewer, and the message between them", we.c30, ["meaning of library calls as in sa/rules/web.py", "str(card) is its rank and suit (decided by C21)"]),
    "C31": ("constant evaluation of clubs.configs, and of the guards of Dealer.__init__ for every shipped configuration", sh.c31, []),
    "C35": ("value-graph translation of Dealer.render and _render_config", ef.c35, TABLE),
}
