"""Symbolic table: a Dealer object in an arbitrary state satisfying the data
invariants its constructor establishes, plus the modular contracts under which
its methods are analysed."""
from . import terms as tm
from . import interp as ip
from .terms import ONE, ZERO, NONE, add, const, is_const, length, mk, sub, sym, tab_close, index
from .source import AnalysisBroken, Program

CARD = ("obj", "clubs.poker.card.Card")
LI, LB = ("list", "int"), ("list", "bool")

# field -> (kind, element type / type, length symbol)
CONFIG = {
    "num_players": "int", "num_streets": "int", "big_blind": "int", "num_suits": "int",
    "num_ranks": "int", "num_hole_cards": "int", "num_cards_for_hand": "int",
    "mandatory_num_hole_cards": "int", "start_stack": "int",
}
SCALARS = {"action": "int", "button": "int", "largest_raise": "int", "pot": "int",
           "street": "int", "street_raises": "int"}
LISTS_N = {"active": LB, "pot_commits": LI, "stacks": LI, "street_commits": LI,
           "street_option": LB, "blinds": LI, "antes": LI}
LISTS_S = {"raise_sizes": ("list", "any"), "num_raises": ("list", "float"), "num_community_cards": LI}


def find_method(prog, clsname, name):
    c = prog.find_class(clsname)
    r = prog.method(c.qual, name)
    if r is None:
        raise AnalysisBroken(f"{clsname}.{name} not found")
    return r


# ---------------------------------------------------------------- contracts


def c_draw(I, recv, args, kw, node):
    """the top n cards leave the deck (obligation of C18)"""
    n = args[0] if args else kw.get("n", ONE)
    cards = I.getattr(recv, "cards", node)
    c = I.deref(cards)
    got = mk("drawn", c, n, ty=("list", CARD))
    if cards.op == "ref":
        I.st.heap[(cards.args[0], "")] = mk("rest", c, n, ty=("list", CARD))
    I.events.append(("draw", I.where(node), I.st.pc, (c, n)))
    return I.alloc("list", node=node, content=got)


def c_shuffle(I, recv, args, kw, node):
    I.events.append(("deck-shuffle", I.where(node), I.st.pc, recv))
    c = mk("freshdeck", recv, ty=("list", CARD))
    I.st.heap[(recv.args[0], "cards")] = I.alloc("list", node=node, content=c)
    return recv


def c_evaluate(I, recv, args, kw, node):
    names = ["hole_cards", "community_cards"]
    a = list(args) + [kw[x] for x in names[len(args):] if x in kw]
    a = [I.purify(x) for x in a]
    I.events.append(("evaluate", I.where(node), I.st.pc, tuple(a)))
    t = mk("hand", *a, ty="int")
    return t


def contracts():
    return {"Deck.draw": c_draw, "Deck.shuffle": c_shuffle, "Evaluator.evaluate": c_evaluate}


class Table:
    """an Interp positioned before a call of a Dealer method"""

    def __init__(self, prog=None, state="mid"):
        self.prog = prog or Program()
        self.I = ip.Interp(self.prog, contracts())
        I = self.I
        self.cls = self.prog.find_class("Dealer")
        I.enter(self.cls.module, None, None)
        self.ref = I.alloc("obj", cls=self.cls.qual, origin="self", label="dealer")
        self.f = {}
        self.state = state
        self.havoc()

    def field(self, name, v):
        self.I.st.heap[(self.ref.args[0], name)] = v

    def symlist(self, name, ty, n, origin="field"):
        t = sym(name, ty=ty)
        tm.SHAPES[t] = n
        r = self.I.alloc("list", origin=origin, label=name, content=t)
        return r, t

    def havoc(self):
        I = self.I
        N = sym("num_players", "int")
        S = sym("num_streets", "int")
        self.N, self.S = N, S
        tm.BOUNDS[N] = (2, None)
        tm.BOUNDS[S] = (1, None)
        for k, ty in CONFIG.items():
            v = sym(k, ty)
            self.field(k, v)
            self.f[k] = v
            if k not in ("num_players", "num_streets"):
                tm.BOUNDS[v] = (0, None)
        for k, ty in SCALARS.items():
            # a hand in progress has a seat to act
            v = sym("action?" if k == "action" and self.state != "mid" else k, ty)
            self.field(k, v)
            self.f[k] = v
        for k in ("pot", "street", "street_raises", "largest_raise", "button"):
            tm.BOUNDS[self.f[k]] = (0, None)
        tm.BOUNDS[sym("action", "int")] = (0, None)
        for k, ty in LISTS_N.items():
            r, t = self.symlist(k, ty, N)
            self.field(k, r)
            self.f[k] = t
            if ty == LI:
                tm.ELEM_BOUNDS[t] = (0, None)
        for k, ty in LISTS_S.items():
            r, t = self.symlist(k, ty, S)
            self.field(k, r)
            self.f[k] = t
        tm.ELEM_BOUNDS[self.f["num_community_cards"]] = (0, None)
        for k, ty in (("hole_cards", ("list", ("list", CARD))), ("community_cards", ("list", CARD)), ("history", ("list", "tuple"))):
            t = sym(k, ty=ty)
            if k == "hole_cards":
                tm.SHAPES[t] = N
            r = I.alloc("list", origin="field", label=k, content=t)
            self.field(k, r)
            self.f[k] = t
        deck = I.alloc("obj", cls=self.prog.find_class("Deck").qual, origin="field", label="deck")
        self.deck = deck
        t = sym("deck.cards", ty=("list", CARD))
        self.f["deck.cards"] = t
        I.st.heap[(deck.args[0], "cards")] = I.alloc("list", origin="field", label="deck.cards", content=t)
        self.field("deck", deck)
        ev = I.alloc("obj", cls=self.prog.find_class("Evaluator").qual, origin="field", label="evaluator")
        tb = I.alloc("obj", cls=self.prog.find_class("LookupTable").qual, origin="field", label="table")
        I.st.heap[(ev.args[0], "table")] = tb
        I.st.heap[(tb.args[0], "max_rank")] = sym("max_rank", "int")
        tm.BOUNDS[sym("max_rank", "int")] = (0, None)
        self.field("evaluator", ev)
        self.field("viewer", sym("viewer"))

    def call(self, name, args=(), kwargs=None):
        c, fn = find_method(self.prog, "Dealer", name)
        a = list(args)
        if name not in c.static:
            a = [self.ref] + a
        return self.I.call_func(fn, c.module, c, a, kwargs or {})

    def get(self, name):
        """pure content of a field in the current state"""
        I = self.I
        if any(name in c.props for c in self.prog.mro(self.cls.qual)):
            v = I.getattr(self.ref, name, None)
        else:
            v = I.hget(self.ref.args[0], name)
        if v is None:
            return None
        return I.purify(v)
