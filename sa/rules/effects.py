"""Rules over heap effects: who shares, who writes, who reads what."""
import copy

from .. import interp as ip
from .. import ref
from .. import terms as tm
from ..core import CONSISTENT, PROVED, REFUTED, UNDECIDED, Ob
from ..dealer import Table
from ..extras import extras, symbol
from ..lab import Lab, guarded
from ..model import Atom, Bot, Model, Undecided
from ..source import AnalysisBroken
from ..lab import sweep
from ..transfer import METHOD, Bad, Out, decide_many, get_cases, need, transfer

# instance state of the package's classes on the pinned tree (confirmed by reading)
STATE = {
    "Dealer": set(ref.STATE) | {"deck", "evaluator"},
    "Deck": {"cards"},
}
CONFIG = ["num_players", "num_streets", "blinds", "antes", "big_blind", "raise_sizes", "num_raises", "num_suits", "num_ranks",
          "num_hole_cards", "num_community_cards", "num_cards_for_hand", "mandatory_num_hole_cards", "start_stack"]
SHARED = ("list", "dict", "set", "odict")


def is_mut(ty):
    return ty in SHARED or isinstance(ty, tuple) and ty and ty[0] in SHARED


def elem(ty):
    return ty[1] if isinstance(ty, tuple) and len(ty) > 1 and ty[0] in ("list", "set") else None


class Shares:
    """mutable objects reachable from a value"""

    def __init__(self, I):
        self.I = I
        self.seen = set()
        self.refs = {}    # location -> how it is reached
        self.views = {}   # term of a container that is handed on uncopied -> how

    def go(self, v, path, top=True, depth=0):
        if depth > 60 or (v, top) in self.seen:
            return self
        self.seen.add((v, top))
        op = v.op
        if op == "ref":
            l = v.args[0]
            if l in self.refs:
                return self
            i = self.I.loc[l]
            if i.kind == "obj" and i.cls and i.cls.endswith(".Card"):
                return self
            self.refs[l] = path
            if i.kind == "obj":
                for (o, f), x in list(self.I.st.heap.items()):
                    if o == l:
                        self.go(x, f"{path}.{f}", True, depth + 1)
            else:
                c = self.I.hget(l, "")
                if c is not None:
                    self.go(c, path, False, depth + 1)
        elif op == "inner":
            self.views[v] = path
            self.go(v.args[0], path, True, depth + 1)
        elif op == "ite":
            self.go(v.args[1], path, top, depth + 1)
            self.go(v.args[2], path, top, depth + 1)
        elif op in ("tuple", "list"):
            for k, x in enumerate(v.args):
                if isinstance(x, tuple):
                    continue
                self.go(x, f"{path}[{k}]", True, depth + 1)
        elif op in ("dict", "odict"):
            for e in v.args[0]:
                self.go(e[1], f"{path}[{e[0]!s}]", True, depth + 1)
        elif op == "tab":
            for x in v.args:
                if hasattr(x, "op") and is_mut(x.ty):
                    self.go(x, path + "[..]", True, depth + 1)
        elif top and is_mut(v.ty):
            # the container itself, not a copy
            self.views[v] = path
        elif not top and is_mut(elem(v.ty)):
            # a copied container of uncopied containers
            if op in ("cat", "slice", "rev", "sorted", "upd", "rep"):
                for x in v.args:
                    if hasattr(x, "op"):
                        self.go(x, path, x.ty is not None and not is_mut(x.ty) and False, depth + 1)
            else:
                self.views[v] = path + "[..]"
        return self


def table_shares(t):
    return Shares(t.I).go(t.ref, "table")


def root_label(I, v):
    """the table attribute a handed on container belongs to"""
    for x in tm.subterms(v):
        if x.op == "sym" and x.args[0] in ref.STATE + ["deck.cards"] + CONFIG:
            return x.args[0]
        if x.op == "ref":
            return I.loc[x.args[0]].label
    return None


def sharing(tr, what):
    """containers shared between the table and the value the operation returned"""
    I = tr.t.I
    mine, ret = table_shares(tr.t), Shares(I).go(tr.raw, what)
    out = []
    for l in sorted(set(mine.refs) & set(ret.refs)):
        out.append((ret.refs[l], mine.refs[l], l))
    for v, p in ret.views.items():
        lab = root_label(I, v)
        if lab:
            out.append((p, f"table.{lab}[..]", None))
    return out, len(ret.refs) + len(ret.views)


def known_attr(path):
    parts = path.replace("[", ".").split(".")
    return len(parts) > 1 and parts[0] == "table" and (parts[1] in STATE["Dealer"] or parts[1] in CONFIG)


def reader(ctx, path):
    """an operation whose outcome depends on what the attribute of the path holds beforehand"""
    parts = path.replace("[", ".").split(".")
    if len(parts) < 2 or parts[0] != "table":
        return None
    for kind, name in (("after", "step on a finished table"), ("step", "step"), ("config", "render"), ("reset", "reset")):
        tr = transfer(ctx, kind)
        seen = set()
        for v in [tr.value] + [v for f, v in tr.post.items() if known_attr("table." + f)]:
            if v is not None and any(x.op == "sym" and x.args[0] in ("dealer." + parts[1], symbol(parts[1])) for x in contents(v, seen)):
                return name
    return None


def contents(t, seen):
    """subterms of which more than their identity matters"""
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen or x.op == "is":
            continue
        seen.add(x.id)
        yield x
        st.extend(tm.walk_args(x.args))


def c14(ctx):
    obs = []
    rule = "nothing a call returns is reachable from the table afterwards"
    for kind in ("reset", "step", "after"):
        def one(kind=kind):
            tr = transfer(ctx, kind)
            name = {"after": "step on a finished table"}.get(kind, kind)
            sh, n = sharing(tr, "result")
            key = f"what {name} returns is not shared with the table"
            bad = [s for s in sh if known_attr(s[1])]
            if tr.unreliable:
                return Ob(key, rule, UNDECIDED, [tr.entry()], "constructs without a sound abstraction", n)
            if not bad:
                for a, b, _ in sh:
                    by = reader(ctx, b)
                    if by:
                        return Ob(key, rule, REFUTED, [tr.entry()], f"{a} is kept as {b}, which decides what {by} does", n,
                                  {"shared": [(a, b)], "read by": by})
            if bad:
                where = tr.blame([s[1].replace("[", ".").split(".")[1] for s in bad])
                return Ob(key, rule, REFUTED, [tr.entry()] + where, "; ".join(f"{a} is {b}" for a, b, _ in bad), n,
                          {"shared": [(a, b) for a, b, _ in bad]})
            if sh:
                return Ob(key, rule, UNDECIDED, [tr.entry()], f"shared with {sh[0][1]}", n)
            return Ob(key, rule, PROVED, [tr.entry()], "", n, how="the two sets of reachable containers are disjoint on every path")
        obs += guarded(ctx, f"sharing of {kind}", rule, one)

    def draw():
        lab = Lab(ctx)
        d = lab.blank("Deck")
        CARD = ("obj", lab.cls("Card").qual)
        lst = lab.list("cards", ("list", CARD))
        lab.I.st.heap[(d.args[0], "cards")] = lst
        n = tm.sym("n", "int")
        tm.BOUNDS[n] = (0, None)
        r = lab.call(d, "draw", [n])
        mine, ret = Shares(lab.I).go(d, "deck"), Shares(lab.I).go(r, "hand")
        key = "the cards drawn are not the deck's own list"
        lab.done()
        both = set(mine.refs) & set(ret.refs)
        if lab.shaky:
            return Ob(key, rule, UNDECIDED, [lab.at("draw")], "constructs without a sound abstraction")
        if both:
            return Ob(key, rule, REFUTED, [lab.at("draw")], "draw returns the list the deck goes on using", 1)
        return Ob(key, rule, PROVED, [lab.at("draw")], "", 1, how="disjoint")
    obs += guarded(ctx, "draw", rule, draw)
    rule = "every field of an observation equals the table's attribute after the call"
    same = ["action", "active", "button", "community_cards", "pot", "stacks", "street_commits"]

    def faithful(c, o):
        for f in same:
            got = get(o, f)
            need(got == o[f], f"observation reports {f} {got!r} but the table holds {o[f]!r}", f)

    def keys(c, o):
        d = o.obs()
        want = {"action", "active", "button", "call", "community_cards", "hole_cards", "max_raise", "min_raise", "pot", "stacks", "street_commits"}
        need(isinstance(d, dict) and set(d) == want, f"observation has the keys {sorted(d)}")

    def get(o, f):
        if o.tr.kind == "reset":
            return o.part(f)
        return o.part(0, f)

    def proof(kind):
        def run():
            tr = transfer(ctx, kind)
            d = tr.value
            if kind != "reset":
                d = d.args[0] if d.op == "tuple" else None
            if d is None or d.op != "dict":
                return None
            m = {tm.cval(k): v for k, v in d.args[0] if tm.is_const(k)}
            if all(f in m and m[f] is tr.post[f] for f in same):
                return "the observation holds the very terms the attributes hold"
            return None
        return run
    specs = []
    for kind, name in (("reset", "reset"), ("step", "step"), ("after", "step on a finished table")):
        sel = (lambda c: c.post is not None)
        specs.append((f"the observation of {name} reports the table", (kind,), faithful, rule, sel, proof(kind)))
        specs.append((f"the observation of {name} has the documented keys", (kind,), keys, "keys of the returned dictionary", sel))
    obs += guarded(ctx, "observation", rule, lambda: decide_many(ctx, specs))
    return obs


# ------------------------------------------------------------------ C15


def obs_of(o):
    return o.ret() if o.tr.kind == "reset" else o.part(0)


def c15(ctx):
    obs = []
    rule = "hole_cards of an observation are those of the seat to act"

    def own(c, o):
        d = obs_of(o)
        a = d["action"]
        if a >= 0:
            need(d["hole_cards"] == o["hole_cards"][a], f"seat {a} is shown {d['hole_cards']} but holds {o['hole_cards'][a]}", "hole_cards", "action")

    def done(c, o):
        d = obs_of(o)
        if d["action"] == -1:
            need(not d["hole_cards"] or d["hole_cards"] != o["hole_cards"][-1], f"nobody is to act but {d['hole_cards']} of the last seat are shown")

    def others(c, o):
        d = obs_of(o)
        if d["action"] == -1:
            need(d["hole_cards"] in ([], o["hole_cards"][-1]), f"nobody is to act but {d['hole_cards']} are shown")

    over = lambda c: c.post is not None and c.post["over"]  # noqa: E731
    specs = [("the seat to act sees its own hole cards", ("reset", "step"), own, rule, lambda c: c.post is not None),
             ("the observation of a finished hand shows no hole cards", ("step", "after"), done, rule, over),
             ("the observation of a finished hand shows no other seat's hole cards", ("step", "after"), others, rule, over)]
    obs += guarded(ctx, "own cards", rule, lambda: decide_many(ctx, specs))
    rule = "noninterference: changing hidden cards does not change the result"

    def hidden(ctx, kind):
        """two tables that differ in hidden cards only must look alike"""
        tr = transfer(ctx, kind)
        name = kind
        key = f"{name} tells nothing about hidden cards while the hand goes on"
        if tr.unreliable:
            return Ob(key, rule, UNDECIDED, [tr.entry()], "constructs without a sound abstraction")
        n = und = 0
        for c in get_cases(ctx):
            if c.kind != kind or c.post is None or c.post.get("over"):
                continue
            twin = copy.copy(c)
            if kind == "reset":
                # another deal: only the seat to act's cards and the board are the same
                fresh = list(c.funcs["freshdeck"])
                keep = set(c.post["hole_cards"][c.post["action"]]) | set(c.post["community_cards"])
                free = [x for x in fresh if x not in keep]
                it = iter(free[1:] + free[:1])
                fr2 = [x if x in keep else next(it) for x in fresh]
                twin.funcs = dict(c.funcs, freshdeck=fr2)
            else:
                pre = dict(c.pre)
                post_a = c.post["action"]
                keep = set(pre["hole_cards"][post_a]) | set(pre["community_cards"]) | set(c.post["community_cards"])
                twin.prev, twin.cut, twin.own = None, True, None
                pool = [x for h in pre["hole_cards"] for x in h if x not in keep] + [x for x in pre["deck.cards"] if x not in keep]
                it = iter(pool[3:] + pool[:3])
                pre["hole_cards"] = [[x if x in keep else next(it) for x in h] for h in pre["hole_cards"]]
                pre["deck.cards"] = [x if x in keep else next(it) for x in pre["deck.cards"]]
                twin.pre = pre
            try:
                a, b = Out(tr, c, extras(ctx).known(c)).ret(), Out(tr, twin, extras(ctx).known(twin)).ret()
            except (Bot, Undecided):
                und += 1
                continue
            n += 1
            if a != b:
                da = a if kind == "reset" else a[0]
                db = b if kind == "reset" else b[0]
                diff = [f for f in da if da[f] != db.get(f)] if isinstance(da, dict) else []
                what = f"observation[{diff[0]!r}]" if diff else "payouts or done flags"
                return Ob(key, rule, REFUTED, [tr.entry()], f"{what} depends on cards the seat to act cannot see", n,
                          {"counter_structure": c.show(), "differs": what})
            if n > 700 and not ctx.thorough:
                break
        ctx.count("pairs_" + kind, n)
        if und > n:
            return Ob(key, rule, UNDECIDED, [tr.entry()], "", n)
        return Ob(key, rule, CONSISTENT, [tr.entry()], "", n, how="no pair of structures tells hidden cards apart")
    for kind in ("reset", "step"):
        obs += guarded(ctx, f"hidden cards {kind}", rule, lambda kind=kind: hidden(ctx, kind))
    return obs


# ------------------------------------------------------------------ C16


def writes(I):
    """(location, attribute or None, source position) of every write"""
    out = []
    for kind, where, _, pl in I.events:
        if kind == "setattr":
            out.append((pl[0], pl[1], where))
        elif kind == "mutate":
            out.append((pl[0], None, where))
    return out


# module and class level data of the pinned tree
STATICS = ("Card.", "Deck.", "LookupTable.", "Evaluator.", "ASCIIViewer.", "GraphicViewer.", "_SVGElement.", "_SVGPoker.", "clubs.configs")


def static_writes(I):
    bad, odd = [], []
    for o, attr, where in writes(I):
        if o.op == "ref" and I.loc[o.args[0]].origin == "static":
            (bad if named_static(I.loc[o.args[0]].label) else odd).append((I.loc[o.args[0]].label, where))
        elif o.op == "class" or o.op == "module":
            cls = o.args[0].rsplit(".", 1)[-1]
            (bad if attr in STATE.get(cls, ()) else odd).append((f"{cls}.{attr}", where))
    return bad, odd


FROZEN = {
    "Card.SUITS", "Card.STR_RANKS", "Card.INT_RANKS", "Card.PRIMES", "Card.CHAR_RANK_TO_INT_RANK", "Card.CHAR_SUIT_TO_INT_SUIT",
    "Card.INT_SUIT_TO_CHAR_SUIT", "Card.PRETTY_SUITS", "LookupTable.ORDER_STRINGS", "LookupTable.ORDER_FUNCS", "ASCIIViewer.POS_DICT", "ASCIIViewer.KEYS",
}


def named_static(label):
    """data of the pinned tree, or a class attribute with the name of instance state"""
    head, _, attr = label.rpartition(".")
    return label in FROZEN or attr in STATE.get(head, ()) or attr.isupper() and head in ("configs", "clubs.configs")


def analysed_ops(ctx):
    """(name, interpreter) for every public operation that can be read completely"""
    out = []
    for kind in ("reset", "step", "after", "win", "config"):
        out.append((kind if kind != "after" else "step (finished)", transfer(ctx, kind).t.I, transfer(ctx, kind)))
    return out


def c16(ctx):
    obs = []
    rule = "no write reaches module level, class level or configuration data"
    for kind in ("reset", "step", "after", "win", "config"):
        def one(kind=kind):
            tr = transfer(ctx, kind)
            I = tr.t.I
            name = METHOD.get(kind, kind) + (" on a finished table" if kind == "after" else "")
            bad, odd = static_writes(I)
            mine = []
            for o, attr, where in writes(I):
                if o.op == "ref" and attr is None and I.loc[o.args[0]].label in CONFIG:
                    mine.append((I.loc[o.args[0]].label, where))
            key = f"{name} writes no shared or configuration data"
            n = len(writes(I))
            if tr.unreliable:
                return Ob(key, rule, UNDECIDED, [tr.entry()], "constructs without a sound abstraction", n)
            if bad or mine:
                return Ob(key, rule, REFUTED, [w for _, w in bad + mine], "; ".join(f"writes {a}" for a, _ in bad + mine), n)
            if odd:
                return Ob(key, rule, UNDECIDED, [w for _, w in odd], f"writes {odd[0][0]}", n)
            return Ob(key, rule, PROVED, [tr.entry()], "", n, how="every written object was created by the call or belongs to the hand")
        obs += guarded(ctx, f"writes of {kind}", rule, one)
    rule2 = "configuration attributes keep their values"

    def keep(c, o):
        for f in CONFIG:
            got = o.m(o.tr.t.get(f))
            need(got == c.pre[f], f"{f} changes from {c.pre[f]!r} to {got!r}", f)

    def proof():
        for kind in ("reset", "step", "after"):
            t = transfer(ctx, kind).t
            for f in CONFIG:
                if t.get(f) is not t.f.get(f):
                    return None
        return "the terms are the symbols they were before the call"
    obs += guarded(ctx, "configuration", rule2, lambda: decide_many(
        ctx, [("reset and step leave the configuration alone", ("reset", "step", "after"), keep, rule2, None, proof)]))
    rule3 = "the containers of a table are separate objects"
    for kind in ("reset", "step", "after"):
        def apart(kind=kind):
            tr = transfer(ctx, kind)
            I = tr.t.I
            owners = {}
            for f in list(ref.STATE) + ["blinds", "antes", "raise_sizes", "num_raises", "num_community_cards"]:
                v = I.hget(tr.t.ref.args[0], f)
                if v is None:
                    continue
                s = Shares(I).go(v, f)
                for l in s.refs:
                    owners.setdefault(l, set()).add(f)
            dc = I.hget(tr.t.deck.args[0], "cards")
            if dc is not None and dc.op == "ref":
                owners.setdefault(dc.args[0], set()).add("deck.cards")
            key = f"the lists {METHOD.get(kind, kind)} leaves are separate" + (" (finished)" if kind == "after" else "")
            if tr.unreliable:
                return Ob(key, rule3, UNDECIDED, [tr.entry()], "", len(owners))
            both = [sorted(x) for x in owners.values() if len(x) > 1]
            # sharing shows only if one of the two is written in place
            hot = set()
            for k2 in ("reset", "step"):
                J = transfer(ctx, k2).t.I
                for o, attr, where in writes(J):
                    if o.op == "ref" and attr is None and J.loc[o.args[0]].origin == "field":
                        hot.add(J.loc[o.args[0]].label)
            bad = [x for x in both if set(x) & hot]
            if bad:
                return Ob(key, rule3, REFUTED, tr.blame(bad[0]), f"{' and '.join(bad[0])} are the same list and step changes it in place", len(owners))
            if both:
                return Ob(key, rule3, CONSISTENT, [tr.entry()], f"{both[0]} share a list nobody writes", len(owners))
            return Ob(key, rule3, PROVED, [tr.entry()], "", len(owners), how="pairwise disjoint reachable containers")
        obs += guarded(ctx, f"separation {kind}", rule3, apart)
    obs += guarded(ctx, "construction", rule, lambda: build(ctx, rule, rule3))
    obs += guarded(ctx, "second objects", rule4, lambda: second(ctx))
    return obs


rule4 = "an object is what its own arguments make it, whatever was constructed before"
EV0 = dict(suits=2, ranks=4, cards_for_hand=2, mandatory_hole_cards=0, low_end_straight=True, order=None)
DEALER0 = dict(num_players=3, num_streets=2, blinds=[1, 2, 0], antes=[0, 0, 0], raise_sizes=["pot", "pot"], num_raises=[3, 3], num_suits=2, num_ranks=5,
               num_hole_cards=1, num_community_cards=[0, 1], num_cards_for_hand=2, mandatory_num_hole_cards=0, start_stack=20, low_end_straight=True, order=None)
BACK = ["hc", "pa", "tp", "tk", "st", "fl", "fh", "fk", "sf"]


def build_from(ctx, steps):
    """interpret constructions one after the other; the state of the last object"""
    lab = Lab(ctx)
    out = []
    for cls, conf, calls in steps:
        kw = {}
        for k, v in conf.items():
            if isinstance(v, list):
                kw[k] = lab.I.alloc("list", origin="arg", label=k, content=tm.mk("list", *[tm.const(x) for x in v]))
            else:
                kw[k] = tm.NONE if v is None else tm.const(v)
        obj = lab.new(cls, [], kw)
        lab.settle()
        out.append((obj, []))
        for name, args in calls:
            vals = []
            for a in args:
                if isinstance(a, list):
                    a = lab.I.alloc("list", origin="arg", label="cards", content=tm.mk("list", *[lab.new("Card", [tm.const(c)]) for c in a]))
                else:
                    a = tm.const(a)
                vals.append(a)
            r = lab.call(obj, name, vals)
            out[-1][1].append((name, args, lab.pure(r)))
            lab.settle()
    return lab, out


def flat_state(lab, m, obj, path=(), seen=None):
    """{path: value} of everything reachable from an object, evaluated"""
    I = lab.I
    seen = seen if seen is not None else set()
    out = {}
    if obj.args[0] in seen:
        return out
    seen.add(obj.args[0])
    fields = sorted({f for (l, f) in I.st.heap if l == obj.args[0] and f})
    for f in fields:
        v = I.hget(obj.args[0], f)
        if v.op == "ref" and I.loc[v.args[0]].kind == "obj":
            out.update(flat_state(lab, m, v, path + (f,), seen))
            continue
        try:
            out[".".join(path + (f,))] = named(lab, m, m(lab.pure(v)))
        except (Undecided, Bot, ip.Unsupported):
            continue
    return out


def named(lab, m, v, depth=0):
    """a value with object identities replaced by the contents of the objects"""
    if isinstance(v, Atom):
        if v.n[0] == "ref" and depth < 3:
            return tuple(sorted(flat_state(lab, m, tm.mk("ref", v.n[1]), (), set()).items(), key=lambda x: x[0]))
        return v
    if isinstance(v, (list, tuple)):
        return type(v)(named(lab, m, x, depth + 1) for x in v)
    if isinstance(v, dict):
        return {k: named(lab, m, x, depth + 1) for k, x in v.items()}
    return v


def second(ctx):
    two = [("lookup", (["Qs", "Qh"],)), ("lookup", (["As", "Js"],)), ("lookup", (["As", "Kh"],))]
    vary = [("Evaluator", EV0, f, v, [("evaluate", (["As", "Js"], ["Qs", "Qh"])), ("evaluate", (["Ks", "Js"], ["Qh"]))])
            for f, v in (("suits", 3), ("ranks", 6), ("cards_for_hand", 3), ("mandatory_hole_cards", 1), ("low_end_straight", False), ("order", BACK))]
    tab = {k: v for k, v in EV0.items() if k != "mandatory_hole_cards"}
    vary += [("LookupTable", tab, f, v, two if f != "cards_for_hand" else [])
             for f, v in (("suits", 3), ("ranks", 6), ("cards_for_hand", 3), ("low_end_straight", False), ("order", BACK))]
    vary += [("Deck", dict(num_suits=2, num_ranks=3), f, v, [("draw", (2,))]) for f, v in ((None, None), ("num_suits", 3), ("num_ranks", 4))]
    vary += [("Dealer", DEALER0, f, v, [("reset", ())])
             for f, v in ((None, None), ("num_players", 4), ("num_suits", 3), ("num_ranks", 6), ("num_hole_cards", 2), ("num_cards_for_hand", 3),
                          ("mandatory_num_hole_cards", 1), ("start_stack", 30), ("low_end_straight", False), ("order", BACK))]
    obs = []
    alone = {}

    def state(steps, cls, calls):
        lab, objs = build_from(ctx, steps)
        m = Model({}, {"shuffle": list})
        out = []
        for obj, got in objs:
            vals = [(f"{name}{args}", f"{cls}.{name}", lambda t=t: named(lab, m, m(t))) for name, args, t in got]
            out.append([(p, f"{cls}.__init__", lambda x=x: x) for p, x in flat_state(lab, m, obj).items()] + vals)
        return lab, out, [o for o, _ in objs]

    for cls, conf, f, v, calls in vary:
        if not ctx.thorough and (cls == "LookupTable" or cls == "Dealer" and f not in (None, "num_players", "num_ranks", "order")):
            continue
        def one(cls=cls, conf=conf, f=f, v=v, calls=calls):
            key = f"two {cls} objects " + (f"differing in {f}" if f else "with the same arguments") + " do not affect each other"
            other = dict(conf, **{f: v}) if f else conf
            if f == "num_players":
                other.update(blinds=[1, 2] + [0] * (v - 2), antes=[0] * v)
            n = 0
            for a, b in ((conf, other), (other, conf)) if ctx.thorough else ((conf, other),):
                lab, got, objs = state([(cls, a, calls), (cls, b, calls)], cls, calls)
                at = [lab.at(f"{cls}.__init__")]
                if lab_broken(lab):
                    return Ob(key, rule4, UNDECIDED, at, "constructs without a sound abstraction", n)
                one = Shares(lab.I).go(objs[0], cls).refs
                for l, p in Shares(lab.I).go(objs[1], cls).refs.items():
                    for c, fs in STATE.items():
                        if l in one and any(p == f"{x}.{g}" for g in fs - {"evaluator"} for x in ((c, "Dealer.deck") if c == "Deck" else (c,))):
                            return Ob(key, rule4, REFUTED, at, f"two {cls} objects share {p}", n)
                for mine, conf1, what in ((got[1], b, f"after {cls}({a}) was constructed and used"), (got[0], a, f"while {cls}({b}) is constructed and used")):
                    k = (cls, repr(conf1), repr(calls))
                    if k not in alone:
                        alone[k] = state([(cls, conf1, calls)], cls, calls)
                    lab0, got0, _ = alone[k]
                    if lab_broken(lab0):
                        return Ob(key, rule4, UNDECIDED, at, "constructs without a sound abstraction", n)
                    got0 = {p: x for p, _, x in got0[0]}
                    for p, fn, x in mine:
                        if p not in got0:
                            continue
                        try:
                            x, x0 = x(), got0[p]()
                        except (Undecided, Bot):
                            continue
                        n += 1
                        if x != x0:
                            return Ob(key, rule4, REFUTED, at + [lab.at(fn)], f"{what}, {cls}({conf1}).{p} is {str(x)[:80]}; alone it is {str(x0)[:80]}", n)
            if not n:
                return Ob(key, rule4, UNDECIDED, at, "nothing could be evaluated", 0)
            return Ob(key, rule4, CONSISTENT, at, "", n, how="equal values of every attribute and result")
        obs += guarded(ctx, f"second {cls} {f}", rule4, one)
    return obs


def build(ctx, rule, rule3):
    obs = []
    for shape in ("lists", "scalars"):
        for order in (False, True):
            key0 = f"constructing a table ({shape}{', custom order' if order else ''})"
            lab, dealer, args = dealer_lab(ctx, shape, order)
            I = lab.I
            lab.done()
            bad, odd = static_writes(I)
            argrefs = {a.args[0] for a in args.values() if a.op == "ref"}
            mine = [(I.loc[o.args[0]].label, w) for o, attr, w in writes(I) if o.op == "ref" and o.args[0] in argrefs]
            key = key0 + " writes no shared or caller's data"
            n = len(writes(I))
            at = [lab.at("Dealer.__init__")]
            if lab_broken(lab):
                obs.append(Ob(key, rule, UNDECIDED, at, f"constructs without a sound abstraction: {I.unknown[:3]}", n))
            elif bad or mine:
                obs.append(Ob(key, rule, REFUTED, [w for _, w in bad + mine], "; ".join(f"writes {a}" for a, _ in bad + mine), n))
            elif odd:
                obs.append(Ob(key, rule, UNDECIDED, [w for _, w in odd], f"writes {odd[0][0]}", n))
            else:
                obs.append(Ob(key, rule, PROVED, at, "", n, how="every written object is new"))
            # instance state must not live in shared objects
            key = key0 + " shares no hand state with anybody"
            bad = []
            for f in STATE["Dealer"]:
                v = I.hget(dealer.args[0], f)
                if v is None:
                    c = lab.cls("Dealer")
                    if f in c.attrs and is_container(c.attrs[f]):
                        bad.append(f"{f} is a class attribute")
                    continue
                for l in Shares(I).go(v, f).refs:
                    if I.loc[l].origin == "static" and not named_constant(I.loc[l].label) or l in argrefs:
                        bad.append(f"{f} is {I.loc[l].label}")
            if bad:
                obs.append(Ob(key, rule3, REFUTED, at, "; ".join(sorted(bad)), len(STATE["Dealer"])))
            elif lab_broken(lab):
                obs.append(Ob(key, rule3, UNDECIDED, at, "", len(STATE["Dealer"])))
            else:
                obs.append(Ob(key, rule3, PROVED, at, "", len(STATE["Dealer"]), how="state attributes hold objects made by this constructor"))
    return obs


def named_constant(label):
    return label.rpartition(".")[2].isupper()


def is_container(expr):
    import ast
    return isinstance(expr, (ast.List, ast.Dict, ast.Set, ast.ListComp)) or isinstance(expr, ast.Call) and getattr(expr.func, "id", "") in ("list", "dict", "set")


def lab_broken(lab):
    return bool(lab.I.unknown) or any(e[0] == "mutate-value" for e in lab.I.events)


DIST = {"blinds": "num_players", "antes": "num_players", "raise_sizes": "num_streets", "num_raises": "num_streets", "num_community_cards": "num_streets"}
ETY = {"blinds": "int", "antes": "int", "raise_sizes": "any", "num_raises": "any", "num_community_cards": "int"}
PARAMS = ["num_players", "num_streets", "blinds", "antes", "raise_sizes", "num_raises", "num_suits", "num_ranks", "num_hole_cards",
          "num_community_cards", "num_cards_for_hand", "mandatory_num_hole_cards", "start_stack", "low_end_straight", "order"]


def c_init(name):
    def contract(I, recv, args, kw, node):
        I.events.append(("init-" + name, I.where(node), I.st.pc, (tuple(args), dict(kw))))
        return tm.NONE
    return contract


def dealer_lab(ctx, shape="lists", order=False, scalar=(), lists=None):
    """Dealer(...) with symbolic arguments; the parts' constructors are opaque"""
    lab = Lab(ctx, {"Deck.__init__": c_init("Deck"), "Evaluator.__init__": c_init("Evaluator"), "ASCIIViewer.__init__": c_init("ASCIIViewer")})
    args = {}
    for p in PARAMS:
        if p in DIST:
            if shape == "lists" and p not in scalar:
                args[p] = lab.list(p, ("list", ETY[p]), tm.sym("len_" + p, "int"))
            else:
                args[p] = tm.sym("one_" + p, ETY[p])
        elif p == "order":
            args[p] = lab.list("order", ("list", "str")) if order else tm.NONE
        elif p == "low_end_straight":
            args[p] = tm.sym(p, "bool")
        else:
            args[p] = tm.sym(p, "int")
            tm.BOUNDS[args[p]] = (0, None)
    d = lab.new("Dealer", [], args)
    return lab, d, args


# ------------------------------------------------------------------ C17


def c17(ctx):
    obs = []
    rule = "a query writes nothing but objects it created"
    for kind in ("win", "config"):
        def one(kind=kind):
            tr = transfer(ctx, kind)
            return pure_ob(tr.t, tr.entry(), METHOD[kind].lstrip("_"), rule, tr)
        obs += guarded(ctx, kind, rule, one)

    def named(name, args=(), free=(), contracts=None):
        t = Table(ctx.prog, state="any")
        t.I.contracts.update(contracts or {})
        if contracts and "ASCIIViewer" in str(contracts):
            av = t.I.alloc("obj", cls=ctx.prog.find_class("ASCIIViewer").qual, origin="field", label="ascii_viewer")
            t.field("ascii_viewer", av)
        t.call(name, list(args))
        ctx.saw(t.I)
        w = "?"
        for k, v in t.I.functions_seen.items():
            if k.endswith("." + name):
                w = v
        return pure_ob(t, w, name, rule, free=free)
    view = {"ASCIIViewer.__init__": c_init("ASCIIViewer"), "GraphicViewer.__init__": c_init("GraphicViewer"),
            "ASCIIViewer.render": c_init("render"), "GraphicViewer.render": c_init("render"), "ASCIIViewer._parse_string": c_text}
    obs += guarded(ctx, "__repr__", rule, lambda: named("__repr__"))
    obs += guarded(ctx, "__str__", rule, lambda: named("__str__", contracts=view))
    for state in ("first", "later"):
        obs += guarded(ctx, "render", rule, lambda state=state: render_pure(ctx, rule, state))
    obs += guarded(ctx, "viewer", rule, lambda: viewer_pure(ctx, rule))
    from .web import reading
    obs += guarded(ctx, "the web viewer leaves the configuration as it is", rule, lambda: reading(ctx))
    return obs


def render_table(ctx, state):
    t = Table(ctx.prog, state="any")
    view = {f"{c}.{m}": c_init(f"{c}.{m}") for c in ("ASCIIViewer", "GraphicViewer") for m in ("__init__", "render")}
    t.I.contracts.update(view)
    if state == "first":
        t.field("viewer", tm.NONE)
    else:
        t.field("viewer", t.I.alloc("obj", cls=ctx.prog.find_class("ASCIIViewer").qual, origin="field", label="viewer"))
    t.call("render", [tm.sym("mode", "str"), tm.sym("sleep", "float")], {"host": tm.sym("host", "str")})
    ctx.saw(t.I)
    w = "?"
    for k, v in t.I.functions_seen.items():
        if k.endswith("Dealer.render"):
            w = v
    return t, w


def render_pure(ctx, rule, state):
    t, w = render_table(ctx, state)
    return pure_ob(t, w, f"render ({state} call)", rule, free=("viewer",))


def c_text(I, recv, args, kw, node):
    return tm.sym("table text", "str")


def pure_ob(t, entry, name, rule, tr=None, free=()):
    I = t.I
    key = f"{name} leaves the table as it is"
    bad = []
    n = 0
    for o, attr, where in writes(I):
        n += 1
        if o.op != "ref":
            continue
        i = I.loc[o.args[0]]
        if o.args[0] == t.ref.args[0] and attr in free:
            continue
        if i.origin in ("self", "field", "param", "sym", "arg"):
            bad.append((f"{i.label}.{attr}" if attr else i.label, attr if i.origin == "self" else i.label, where))
    broken = bool(I.unknown) or any(e[0] == "mutate-value" for e in I.events)
    if bad:
        # a write of what was there already is none
        ok = True
        for lab, attr, where in bad:
            if attr in t.f:
                ok = ok and t.get(attr) is t.f[attr]
            else:
                ok = ok and attr not in STATE["Dealer"]
        if ok:
            return Ob(key, rule, CONSISTENT, [entry], "the value written is the old one or a private attribute", n)
        bad = [b for b in bad if b[1] in STATE["Dealer"] or b[1] in CONFIG or b[1] == "deck.cards"]
        if not bad or broken:
            return Ob(key, rule, UNDECIDED, [entry], "writes an attribute outside the documented state", n)
        return Ob(key, rule, REFUTED, sorted({b[2] for b in bad}), "writes " + ", ".join(sorted({b[0] for b in bad})), n)
    if broken:
        return Ob(key, rule, UNDECIDED, [entry], f"constructs without a sound abstraction: {I.unknown[:3]}", n)
    return Ob(key, rule, PROVED, [entry], "", n, how="no write reaches an object that existed before the call")


def viewer_pure(ctx, rule):
    """the viewers only read the configuration they are given"""
    obs = []
    for cls, meth in (("ASCIIViewer", "render"),):
        lab = Lab(ctx)
        v = lab.blank(cls)
        cfg, lists = render_config(lab)
        lab.call(v, meth, [cfg, tm.sym("sleep", "float")])
        lab.done()
        bad = []
        for o, attr, w in writes(lab.I):
            if o.op == "ref" and (o.args[0] in lists or o.args[0] == cfg.args[0]):
                bad.append((lab.I.loc[o.args[0]].label, w))
        key = f"{cls}.{meth} only reads the configuration"
        if bad:
            obs.append(Ob(key, rule, REFUTED, [w for _, w in bad], f"writes {bad[0][0]}", 1))
        else:
            # unknown text formatting cannot write a list
            obs.append(Ob(key, rule, PROVED if not lab.I.unknown else CONSISTENT, [lab.at(meth)], "", 1, how="no write to the argument"))
    return obs


def render_config(lab):
    CARD = ("obj", lab.cls("Card").qual)
    n = tm.sym("num_players", "int")
    tm.BOUNDS[n] = (2, None)
    fields = {}
    lists = set()
    for k, ty in (("active", ("list", "bool")), ("all_in", ("list", "bool")), ("community_cards", ("list", CARD)), ("hole_cards", ("list", ("list", CARD))),
                  ("payouts", ("list", "int")), ("street_commits", ("list", "int")), ("stacks", ("list", "int"))):
        r = lab.list(k, ty, None if k == "community_cards" else n)
        lists.add(r.args[0])
        fields[k] = r
    for k, ty in (("action", "int"), ("button", "int"), ("done", "bool"), ("pot", "int")):
        fields[k] = tm.sym(k, ty)
    fields["prev_action"] = tm.sym("prev_action", "any")
    cfg = lab.I.alloc("dict", origin="arg", label="config", content=tm.mk("dict", tuple((tm.const(k), v) for k, v in fields.items())))
    return cfg, lists


# ------------------------------------------------------------------ C34


def win_cases(ctx):
    import itertools
    out = []
    # some with every card that is left
    whole = set()
    missing = lambda c: sum(c.pre["num_community_cards"]) - len(c.pre["community_cards"])
    steps = [c for c in get_cases(ctx) if c.kind == "step"]
    for left, k in ((1, 20), (2, 4), (3, 1)):
        some = [c for c in steps if missing(c) == left and sum(c.pre["active"]) > 1]
        whole.update(id(c) for c in sorted(some, key=lambda c: -len(c.pre["deck.cards"]))[:k])
    for c in sorted(steps, key=lambda c: id(c) not in whole):
        left = missing(c)
        keep = {0: 1, 1: 4, 2: 5, 3: 5}.get(left)
        d = copy.copy(c)
        d.kind, d.args = "win", {}
        d.pre = dict(c.pre)
        if id(c) in whole:
            keep = len(c.pre["deck.cards"])
        if keep is None:
            continue
        if left:
            d.pre["deck.cards"] = c.pre["deck.cards"][:keep]
            d.prev, d.cut, d.own = None, True, None
        d.post = {}
        out.append(d)
    return out


def c34(ctx):
    import itertools
    from fractions import Fraction
    rule = "equal share per completed board and best hand, over all boards"

    def expect(c):
        left = sum(c.pre["num_community_cards"]) - len(c.pre["community_cards"])
        n = c.pre["num_players"]
        won = [0] * n
        for extra in itertools.combinations(c.pre["deck.cards"], left):
            board = c.pre["community_cards"] + list(extra)
            s = [c.funcs["hand"](c.pre["hole_cards"][i], board) if c.pre["active"][i] else None for i in range(n)]
            best = min(x for x in s if x is not None)
            for i in range(n):
                if s[i] == best:
                    won[i] += 1
        return [Fraction(w, sum(won)) for w in won]

    def value(c, o):
        got = o.ret()
        want = expect(c)
        need([Fraction(x) for x in got] == want, f"win probabilities {[str(x) for x in got]} instead of {[str(x) for x in want]}")

    def law(c, o):
        got = [Fraction(x) for x in o.ret()]
        need(len(got) == c.pre["num_players"], f"{len(got)} probabilities for {c.pre['num_players']} seats")
        need(sum(got) == 1 and all(0 <= x <= 1 for x in got), f"{[str(x) for x in got]} is no distribution")
        need(all(a or not p for a, p in zip(c.pre["active"], got)), "a folded seat can win")
    cs = win_cases(ctx)
    sub = copy.copy(ctx)
    sub.cache = dict(ctx.cache)
    sub.cache["cases"] = cs[: 4000 if ctx.thorough else 500]
    return guarded(ctx, "win probabilities", rule, lambda: decide_many(sub, [
        ("every completion of the board counts once", ("win",), value, rule),
        ("the probabilities are a distribution over the seats in the hand", ("win",), law, "distribution")]))


# ------------------------------------------------------------------ C20 / C22

INF = float("inf")


def configs_for(ctx, seed=0):
    import random
    rng = random.Random(1000 * ctx.seed + seed)
    out = []
    for _ in range(3000 if ctx.thorough else 400):
        n, s = rng.randint(2, 7), rng.randint(1, 5)
        c = dict(num_players=n, num_streets=s, blinds=[rng.randint(0, 9) for _ in range(n)], antes=[rng.randint(0, 9) for _ in range(n)],
                 raise_sizes=[rng.choice(["pot", "inf", INF, 0, 1, 2, 8]) for _ in range(s)],
                 num_raises=[rng.choice(["inf", INF, 0, 1, 3, 4]) for _ in range(s)],
                 num_suits=rng.randint(1, 4), num_ranks=rng.randint(1, 13), num_hole_cards=rng.randint(1, 5),
                 num_community_cards=[rng.randint(0, 5) for _ in range(s)], num_cards_for_hand=rng.randint(1, 5),
                 mandatory_num_hole_cards=rng.randint(0, 3), start_stack=rng.randint(1, 500), low_end_straight=rng.random() < .5)
        out.append(c)
    return out


def dealer_syms(c, names):
    syms = {}
    for k, v in c.items():
        if k in DIST:
            syms[names.get(k, k)] = v
            if isinstance(v, list):
                syms["len_" + k] = len(v)
        else:
            syms[k] = v
    return syms


def shapes():
    yield "all lists", (), "lists"
    for p in DIST:
        yield f"a single value for {p}", (p,), "lists"
    yield "single values", tuple(DIST), "lists"


def one_config(c, scalar):
    c = dict(c)
    for p in scalar:
        c[p] = c[p][0]
    return c


def named_syms(scalar):
    return {p: "one_" + p for p in scalar}


def c20(ctx):
    obs = []
    rule = "condition of the raise statement compared with the documented one"

    def dist():
        out = []
        lab, d, args = dealer_lab(ctx, "lists")
        lab.done()
        import random
        rng = random.Random(ctx.seed)

        def structures(p):
            for c in configs_for(ctx, 1)[: 800 if ctx.thorough else 120]:
                n = c[DIST[p]]
                for k in {0, 1, n - 1, n, n + 1, 2 * n}:
                    d2 = dict(c)
                    d2[p] = [rng.choice(c[p]) for _ in range(k)]
                    if p == "blinds" and k < 2 and k == n:
                        continue
                    m = Model(dealer_syms(d2, {}))
                    m.want = "InvalidConfigError" if k != n else None
                    yield f"{n} expected, {p} has {k} entries", m

        def pred(m):
            got = lab.raised(m)
            need(got == m.want, f"raises {got or 'nothing'} instead of {m.want or 'nothing'}")
        for p in DIST:
            out.append(sweep(ctx, f"a list of the wrong length for {p} is rejected", rule, lab, "Dealer.__init__", structures(p), pred))

        def sizes(bad):
            for c in configs_for(ctx, 2)[: 800 if ctx.thorough else 150]:
                d2 = dict(c)
                d2["raise_sizes"] = list(c["raise_sizes"])
                want = None
                if bad:
                    d2["raise_sizes"][rng.randrange(len(c["raise_sizes"]))] = rng.choice(["nope", "Pot", "", None, 1.5, "2", "pott"])
                    want = "InvalidRaiseSizeError"
                m = Model(dealer_syms(d2, {}))
                m.want = want
                yield f"raise_sizes={d2['raise_sizes']!r}", m
        out.append(sweep(ctx, "unknown raise sizes are rejected", rule, lab, "Dealer.__init__", sizes(True), pred))
        out.append(sweep(ctx, "documented raise sizes are accepted", rule, lab, "Dealer.__init__", sizes(False), pred))
        return out
    obs += guarded(ctx, "constructor", rule, dist)

    def single_size():
        lab, d, args = dealer_lab(ctx, "lists", scalar=("raise_sizes",))
        lab.done()

        def structures():
            for c in configs_for(ctx, 3)[:20]:
                for v in ("pot", "inf", INF, 3, "nope", "Inf", 2.5, None):
                    d2 = one_config(c, ())
                    d2["raise_sizes"] = v
                    m = Model(dealer_syms(d2, {"raise_sizes": "one_raise_sizes"}))
                    m.want = None if v in ("pot", "inf", INF, 3) else "InvalidRaiseSizeError"
                    yield f"raise_sizes={v!r}", m

        def pred(m):
            got = lab.raised(m)
            need(got == m.want, f"raises {got or 'nothing'} instead of {m.want or 'nothing'}")
        return sweep(ctx, "a single raise size is accepted or rejected like those of a list", rule, lab, "Dealer.__init__", structures(), pred)
    obs += guarded(ctx, "single raise size", rule, single_size)

    def fresh():
        """step on a table that was never reset"""
        base = [c for c in get_cases(ctx) if c.kind == "reset"]
        cs = []
        seen = set()
        for c in base:
            key = (c.pre["num_players"], c.pre["num_streets"])
            for bet in (0, 1, -1, 2.5):
                d = copy.copy(c)
                d.kind, d.args = "after", {"bet": bet}
                d.pre = {**c.pre, **ref.fresh_state(c.pre)}
                d.post = None
                d.prev, d.cut, d.own = None, False, None
                cs.append(d)
            seen.add(key)
        sub = copy.copy(ctx)
        sub.cache = dict(ctx.cache)
        sub.cache["cases"] = cs[: 4000 if ctx.thorough else 300]

        def rejects(c, o):
            r = o.raised()[0]
            need(r == "TableResetError", f"step before the first reset raises {r or 'nothing'}", "action")

        def untouched(c, o):
            if o.raised()[0] is None:
                return
            for f in ref.STATE:
                got = o.at_raise(f)
                need(got == c.pre[f], f"{f} changes from {c.pre[f]!r} to {got!r} although the call is rejected", f)
        return decide_many(sub, [("step before the first reset is rejected", ("after",), rejects, rule),
                                 ("the rejected step changes nothing", ("after",), untouched, "state at the raise statement")])
    obs += guarded(ctx, "step before reset", rule, fresh)

    def accepts():
        def pred(c, o):
            r = o.raised()[0]
            need(r is None, f"raises {r} although a hand is in progress or finished")
        return decide_many(ctx, [("step on a table that was reset is not rejected", ("step", "after"), pred, rule)])
    obs += guarded(ctx, "step after reset", rule, accepts)

    def modes():
        out = []
        for state in ("first", "later"):
            t, w = render_table(ctx, state)
            lab = Lab.__new__(Lab)
            lab.ctx, lab.prog, lab.I = ctx, ctx.prog, t.I
            base = next(c for c in get_cases(ctx) if c.kind == "step")

            def structures():
                for mode in ("ascii", "human", "ASCII", "Human", "", "rgb_array", "asci", "human ", "svg"):
                    m = Model({**base.pre, "action?": base.pre["action"], "mode": mode, "sleep": 0, "host": "h"}, base.funcs)
                    m.mode = mode
                    yield f"mode={mode!r}", m

            def pred(m):
                got = lab.raised(m)
                want = None if m.mode in ("ascii", "human") else "InvalidRenderModeError"
                need(got == want, f"render raises {got or 'nothing'} instead of {want or 'nothing'}")
                acts = [e for e in t.I.events if e[0].startswith("init-") and holds(m, e[2])]
                if want:
                    need(not acts, "a viewer is used although the mode is rejected")
            o = sweep(ctx, f"unknown render modes are rejected ({state} call)", rule, lab, [], structures(), pred)
            o.where = [w]
            out.append(o)
        return out
    obs += guarded(ctx, "render modes", rule, modes)
    return obs


def holds(m, pc):
    try:
        return bool(m(tm.and_(*pc) if pc else tm.TRUE))
    except Bot:
        return False


def c22(ctx):
    obs = []
    rule = "value of the attribute compared with the argument it documents"

    def expanded(c, p):
        v = c[p]
        if not isinstance(v, list):
            v = [v] * c[DIST[p]]
        if p == "num_raises":
            return [float(x) for x in v]
        if p == "raise_sizes":
            return [float(x) if x in ("inf", INF) else x for x in v]
        return v

    def attrs(scalar, title, order=False):
        lab, d, args = dealer_lab(ctx, "lists", scalar=scalar, order=order)
        lab.settle()
        lab.done()
        out = []
        vals = {}
        names = named_syms(scalar)
        plain = ["num_players", "num_streets", "num_suits", "num_ranks", "num_hole_cards", "num_cards_for_hand", "mandatory_num_hole_cards", "start_stack"]
        for f in plain + list(DIST) + ["big_blind"]:
            vals[f] = lab.attr(d, f)

        def structures(k):
            for c in configs_for(ctx, 10 + k)[: 1500 if ctx.thorough else 100]:
                c = one_config(c, scalar)
                c["order"] = [["sf", "fk", "fh", "fl", "st", "tk", "tp", "pa", "hc"][(i * 4 + c["num_suits"] + k) % 9] for i in range(9)] if order else None
                m = Model(dealer_syms(c, names))
                m.c = c
                yield repr({k: c[k] for k in ("num_players", "num_streets", *DIST, "low_end_straight", "order")}), m

        def same(m):
            for f in plain:
                need(m(vals[f]) == m.c[f], f"{f} is {m(vals[f])!r} but {m.c[f]!r} was passed")
            for f in DIST:
                got, want = list(m(vals[f])), expanded(m.c, f)
                need(got == want and [type(x) == str for x in got] == [type(x) == str for x in want], f"{f} is {got!r} but {m.c[f]!r} was passed")
            need(m(vals["big_blind"]) == expanded(m.c, "blinds")[1], f"big_blind is {m(vals['big_blind'])!r} with blinds {m.c['blinds']!r}")

        def limits(m):
            for got, want in zip(m(vals["raise_sizes"]), expanded(m.c, "raise_sizes")):
                need(isinstance(got, int) == isinstance(want, int), f"raise size {want!r} is kept as {got!r}: fixed and no limit are told apart by the type")
        out.append(sweep(ctx, f"attributes hold the configuration ({title})", rule, lab, "Dealer.__init__", structures(0), same))
        out.append(sweep(ctx, f"fixed, pot and no limit raise sizes stay apart ({title})", rule, lab, "Dealer.__init__", structures(1), limits))

        # a new table holds no hand
        ini = {f: lab.attr(d, f) for f in ref.STATE}

        def fresh(m):
            c = m.c
            want = ref.fresh_state({**c, "num_players": c["num_players"], "start_stack": c["start_stack"]})
            for f in ref.STATE:
                if f in ("active", "street_option", "button", "largest_raise"):
                    continue
                got = m(ini[f])
                need(got == want[f], f"a new table has {f} {got!r}")
            need(m(ini["active"]) == [False] * c["num_players"], "a new table has active seats")
            need(0 <= m(ini["button"]) < c["num_players"], "the button is at no seat")
        out.append(sweep(ctx, f"a new table holds no hand ({title})", "initial values of the state attributes", lab, "Dealer.__init__", structures(2), fresh))

        # the parts get the same configuration
        parts = {}
        for kind, where, pc, pl in lab.I.events:
            if kind.startswith("init-"):
                parts.setdefault(kind[5:], []).append((where, pl))
        for part, params, want in (
                ("Deck", ["num_suits", "num_ranks"], lambda c: [c["num_suits"], c["num_ranks"]]),
                ("Evaluator", ["suits", "ranks", "cards_for_hand", "mandatory_hole_cards", "low_end_straight", "order"],
                 lambda c: [c["num_suits"], c["num_ranks"], c["num_cards_for_hand"], c["mandatory_num_hole_cards"], c["low_end_straight"], c["order"]]),
                ("ASCIIViewer", ["num_players", "num_hole_cards", "num_community_cards"],
                 lambda c: [c["num_players"], c["num_hole_cards"], sum(expanded(c, "num_community_cards"))])):
            key = f"the {part} is built from the configuration ({title})"
            if part not in parts:
                out.append(Ob(key, rule, UNDECIDED, [lab.at("Dealer.__init__")], f"no construction of {part} seen"))
                continue
            where, (a, kw) = parts[part][-1]
            names2 = param_names(ctx, part) or params
            bound = dict(zip(names2, a))
            bound.update(kw)
            terms = [lab.pure(bound[p]) if p in bound else default_of(ctx, part, p) for p in params]

            def pred(m, terms=terms, params=params, want=want, part=part):
                for p, t, w in zip(params, terms, want(m.c)):
                    if t is None:
                        continue
                    got = m(t)
                    need(got == w, f"{part} gets {p}={got!r} instead of {w!r}")
            o = sweep(ctx, key, rule, lab, "Dealer.__init__", structures(3), pred)
            o.where = [where]
            out.append(o)
        return out
    for title, scalar, _ in shapes():
        obs += guarded(ctx, f"configuration ({title})", rule, lambda scalar=scalar, title=title: attrs(scalar, title))
    obs += guarded(ctx, "configuration (custom order)", rule, lambda: attrs((), "custom order", True))

    def order():
        lab, d, args = dealer_lab(ctx, "lists", order=True)
        lab.done()
        for kind, where, pc, pl in lab.I.events:
            if kind == "init-Evaluator":
                names2 = param_names(ctx, "Evaluator")
                bound = dict(zip(names2, pl[0]))
                bound.update(pl[1])
                got = bound.get("order")
                key = "the custom order reaches the evaluator"
                if lab_broken(lab):
                    return Ob(key, rule, UNDECIDED, [where], "")
                if got is not None and lab.pure(got) is lab.pure(args["order"]):
                    return Ob(key, rule, PROVED, [where], "", 1, how="the argument itself is passed on")
                if got is None:
                    return Ob(key, rule, REFUTED, [where], "order is not passed to the evaluator")
                m = Model({"order": ["sf", "fk"], "len_order": 2})
                if m(lab.pure(got)) == ["sf", "fk"]:
                    return Ob(key, rule, CONSISTENT, [where], "", 1)
                return Ob(key, rule, REFUTED, [where], f"the evaluator gets {lab.pure(got)} instead of the order")
        return Ob("the custom order reaches the evaluator", rule, UNDECIDED, [], "no construction seen")
    obs += guarded(ctx, "custom order", rule, order)
    return obs


def param_names(ctx, cls):
    r = ctx.prog.method(ctx.prog.find_class(cls).qual, "__init__")
    if not r:
        return None
    return [a.arg for a in r[1].args.args][1:]


def default_of(ctx, cls, p):
    import ast
    r = ctx.prog.method(ctx.prog.find_class(cls).qual, "__init__")
    a = r[1].args
    names = [x.arg for x in a.args]
    dfl = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    for x, v in zip(a.kwonlyargs, a.kw_defaults):
        dfl[x.arg] = v
    if p in dfl and isinstance(dfl[p], ast.Constant):
        return tm.const(dfl[p].value)
    return None


# ------------------------------------------------------------------ C35


def c35(ctx):
    obs = []
    rule = "construction and use of the viewer on every path of render"

    def first():
        out = []
        t, w = render_table(ctx, "first")
        lab = Lab.__new__(Lab)
        lab.ctx, lab.prog, lab.I = ctx, ctx.prog, t.I
        cs = [c for c in get_cases(ctx) if c.kind == "step"][: 400 if ctx.thorough else 40]

        def structures():
            for i, c in enumerate(cs):
                for mode in ("ascii", "human"):
                    m = Model({**c.pre, "action?": c.pre["action"], "mode": mode, "sleep": [0, 2, 0.5][i % 3], "host": "example.org"}, c.funcs)
                    m.mode, m.c = mode, c
                    yield f"mode={mode!r}", m

        def made(m):
            acts = [e for e in t.I.events if e[0].startswith("init-") and e[0].endswith("__init__") and holds(m, e[2])]
            want = {"ascii": "ASCIIViewer", "human": "GraphicViewer"}[m.mode]
            got = [e[0][5:].split(".")[0] for e in acts]
            need(got == [want], f"render creates {got} instead of one {want}")
            a, kw = acts[0][3]
            names = param_names(ctx, want) or []
            bound = {**dict(zip(names, a)), **kw}
            for p, v in (("num_players", m.c.pre["num_players"]), ("num_hole_cards", m.c.pre["num_hole_cards"]), ("num_community_cards", sum(m.c.pre["num_community_cards"]))):
                need(p in bound, f"{want} gets no {p}")
                need(m(t.I.purify(bound[p])) == v, f"{want} gets {p}={m(t.I.purify(bound[p]))!r} instead of {v!r}")
            need("host" in bound and m(bound["host"]) == "example.org", f"keyword arguments are not passed on to {want}")

        def used(m):
            acts = [e for e in t.I.events if e[0].startswith("init-") and e[0].endswith(".render") and holds(m, e[2])]
            want = {"ascii": "ASCIIViewer", "human": "GraphicViewer"}[m.mode]
            got = [e[0][5:].split(".")[0] for e in acts]
            need(got == [want], f"render uses the viewers {got} instead of {want} once")
            shown(t, m, acts[0])
        for key, pred in (("the first render creates the viewer of the mode for this table", made), ("the first render shows the table once", used)):
            o = sweep(ctx, key, rule, lab, [], structures(), pred)
            o.where = [w]
            out.append(o)
        return out

    def later():
        t, w = render_table(ctx, "later")
        lab = Lab.__new__(Lab)
        lab.ctx, lab.prog, lab.I = ctx, ctx.prog, t.I
        cs = [c for c in get_cases(ctx) if c.kind == "step"][: 400 if ctx.thorough else 40]

        def structures():
            for i, c in enumerate(cs):
                for mode in ("ascii",):
                    m = Model({**c.pre, "action?": c.pre["action"], "mode": mode, "sleep": [0, 2, 0.5][i % 3], "host": "example.org"}, c.funcs)
                    m.mode, m.c = mode, c
                    yield f"mode={mode!r}", m

        def used(m):
            acts = [e for e in t.I.events if e[0].startswith("init-") and holds(m, e[2])]
            need([e[0] for e in acts] == ["init-ASCIIViewer.render"], f"a later render does {[e[0][5:] for e in acts]}")
            shown(t, m, acts[0])
        o = sweep(ctx, "a later render shows the table with the same viewer", rule, lab, [], structures(), used)
        o.where = [w]
        return o

    def shown(t, m, ev):
        a, kw = ev[3]
        bound = {**dict(zip(["config", "sleep"], a)), **kw}
        need("config" in bound, "the viewer gets no configuration")
        cfg = m(t.I.purify(bound["config"]))
        pre = m.c.pre
        for f in ("action", "active", "button", "community_cards", "hole_cards", "pot", "street_commits", "stacks"):
            need(cfg[f] == pre[f], f"the viewer is shown {f} {cfg[f]!r} instead of {pre[f]!r}")
        need("sleep" in bound and m(bound["sleep"]) == m.syms["sleep"], "the sleep time does not reach the viewer")

    obs += guarded(ctx, "first render", rule, first)
    obs += guarded(ctx, "later render", rule, later)
    rule = "render configuration compared with the table"

    def config():
        cs = []
        for c in get_cases(ctx):
            if c.kind in ("step", "after") or c.kind == "reset" and c.post is not None:
                d = copy.copy(c)
                d.kind, d.args = "config", {}
                if c.kind == "step" and c.post and c.post["over"]:
                    d.pre = {**c.pre, **{k: v for k, v in c.post.items() if k in c.pre}}
                    d.prev, d.cut, d.own = c, False, None
                d.post = {}
                if d.pre["hole_cards"]:
                    cs.append(d)
        sub = copy.copy(ctx)
        sub.cache = dict(ctx.cache)
        sub.cache["cases"] = cs
        from ..spec import table as spec

        def plain(c, o):
            d = o.ret()
            for f in ("action", "active", "button", "community_cards", "hole_cards", "pot", "street_commits", "stacks"):
                need(d[f] == c.pre[f], f"{f} is shown as {d[f]!r} instead of {c.pre[f]!r}")
            h = c.pre["history"]
            need(d["prev_action"] == (h[-1] if h else None), f"prev_action is {d['prev_action']!r}")

        def derived(c, o):
            d = o.ret()
            p = c.pre
            need(list(d["all_in"]) == [bool(a and s == 0) for a, s in zip(p["active"], p["stacks"])], f"all_in is {d['all_in']!r} with stacks {p['stacks']} and active {p['active']}")
            end = p["street"] >= p["num_streets"] or sum(p["active"]) <= 1
            # everybody all in by the blinds: nobody can act, but the board is still to come
            if end or any(a and s for a, s in zip(p["active"], p["stacks"])):
                need(bool(d["done"]) == end, f"done is {d['done']!r}")
            if end == bool(d["done"]):
                spec.hand = c.funcs["hand"]
                want = spec.payouts(ref.ns(p), p["active"], p["pot_commits"], p["community_cards"], end)
                need(list(d["payouts"]) == list(want), f"payouts are shown as {d['payouts']!r} instead of {want!r}")
        return decide_many(sub, [("viewers are shown the table's own values", ("config",), plain, rule),
                                 ("viewers are shown who is all in, whether the hand is over and who is paid", ("config",), derived, rule)])
    obs += guarded(ctx, "render configuration", rule, config)
    return obs
