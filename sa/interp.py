"""Abstract interpreter: maps the source of a function to a gated value graph.

Every reachable statement is visited once (loops: to a fixpoint of the set of
modified locations, then one transfer pass); control-flow joins build `ite`
gates, loops become closed forms (tabulations, reductions, first-index searches,
permutation-invariant sums, scatters, slices ...) or, when no closed form is
recognised, a recursive `mu` node.  Nothing of the analysed package is executed
and no path is handed to a solver.
"""
import ast
import math
from fractions import Fraction

from . import terms as tm
from .terms import (
    EMPTY, FALSE, INF, NONE, ONE, T, TRUE, UNDEF, ZERO, add, and_, const, cval,
    eq, ftab_close, index, is_const, is_listy, is_num_const, is_numeric, ite,
    length, lst, lt, mk, mul, neg, not_, or_, sub, subst, sym, tab_close,
)
from .source import AnalysisBroken


class Unsupported(Exception):
    pass


class State:
    __slots__ = ("vars", "heap", "pc", "dead")

    def __init__(self):
        self.vars, self.heap, self.pc, self.dead = {}, {}, (), False

    def copy(self):
        s = State()
        s.vars, s.heap, s.pc, s.dead = dict(self.vars), dict(self.heap), self.pc, self.dead
        return s


class Exit:
    __slots__ = ("kind", "st", "val", "node")

    def __init__(self, kind, st, val=None, node=None):
        self.kind, self.st, self.val, self.node = kind, st, val, node


def own_yields(node):
    """does the function itself (not one nested in it) yield?"""
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            todo.extend(ast.iter_child_nodes(n))
    return False


class LocInfo:
    __slots__ = ("kind", "cls", "origin", "label", "site", "default")

    def __init__(self, kind, cls, origin, label, site=None):
        self.kind, self.cls, self.origin, self.label, self.site = kind, cls, origin, label, site
        self.default = None


class Frame:
    __slots__ = ("fid", "module", "cls", "self_", "parent", "func", "returns", "loops", "nonlocals", "site", "gen", "ycount")

    def __init__(self, fid, module, cls, func, parent=None):
        self.fid, self.module, self.cls, self.func, self.parent = fid, module, cls, func, parent
        self.returns, self.loops, self.nonlocals = [], [], set()
        self.site = ""
        self.gen = None


BUILTINS = {
    "len", "range", "sum", "max", "min", "any", "all", "zip", "enumerate", "sorted", "abs",
    "round", "int", "float", "bool", "str", "list", "tuple", "dict", "set", "frozenset",
    "isinstance", "issubclass", "map", "filter", "reversed", "iter", "next", "print", "chr",
    "ord", "id", "repr", "super", "open", "divmod", "pow", "hasattr", "getattr", "setattr",
    "type", "object", "format", "bin", "hash", "callable", "vars", "slice", "bytes",
    "NotImplemented", "Ellipsis", "property", "staticmethod", "classmethod",
}
BUILTIN_EXC = {
    "Exception": None, "KeyError": "LookupError", "IndexError": "LookupError",
    "LookupError": "Exception", "ValueError": "Exception", "TypeError": "Exception",
    "NotImplementedError": "RuntimeError", "RuntimeError": "Exception",
    "AssertionError": "Exception", "OSError": "Exception", "IOError": "OSError",
    "ConnectionRefusedError": "ConnectionError", "ConnectionError": "OSError",
    "BrokenPipeError": "ConnectionError", "ConnectionResetError": "ConnectionError",
    "ConnectionAbortedError": "ConnectionError", "TimeoutError": "OSError", "URLError": "OSError",
    "HTTPError": "URLError", "ModuleNotFoundError": "ImportError",
    "EOFError": "Exception", "AttributeError": "Exception",
    "NameError": "Exception", "ImportError": "Exception", "StopIteration": "Exception",
    "ZeroDivisionError": "Exception", "OverflowError": "Exception", "BaseException": None,
    "KeyboardInterrupt": "BaseException", "FileNotFoundError": "OSError",
    "ArithmeticError": "Exception", "UnicodeDecodeError": "ValueError",
}

MAX_UNROLL = 70
MAX_DEPTH = 40


class Interp:
    def __init__(self, prog, contracts=None, opaque_calls=()):
        self.prog = prog
        self.contracts = dict(contracts or {})
        self.opaque_calls = set(opaque_calls)
        self.st = State()
        self.loc = {}
        self.nloc = 0
        self.nfid = 0
        self.frames = []
        self.raises = []  # innermost sink last
        self.root_raises = []
        self.missing_raises = False  # reading an attribute that was never assigned: raise, or a symbol
        self.raises.append(self.root_raises)
        self.events = []
        self.clos = {}
        self.gens = {}
        self.closkey = {}
        self.static_heap = {}
        self.static_done = {}
        self.functions_seen = {}
        self.loops_seen = []
        self.active_sites = []
        self.calls_seen = set()
        self.catching = []   # implicit exceptions the enclosing handlers catch
        self.unknown = []
        self.copied = {}  # containers stored by value: a later change of them would be lost
        self.hook = None  # library calls given a meaning by a rule
        self.unroll_whiles = 0  # loops of a scenario are unrolled up to here
        self.stmts = 0
        self.initing_static = 0
        self.entry_mark = 0

    # ------------------------------------------------------------ heap

    def alloc(self, kind, cls=None, origin="alloc", label=None, node=None, content=None):
        self.nloc += 1
        loc = self.nloc
        self.loc[loc] = LocInfo(kind, cls, origin, label or kind, self.site(node))
        if content is not None:
            self.st.heap[(loc, "")] = content
        return mk("ref", loc, ty=("obj", cls) if kind == "obj" else kind)

    def site(self, node):
        if node is None or not self.frames:
            return ""
        m = self.frames[-1].module
        return f"{m.name}:{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}"

    def where(self, node):
        if not self.frames:
            return "?"
        return self.prog.where(self.frames[-1].module, node)

    def hget(self, loc, field):
        v = self.st.heap.get((loc, field))
        if v is None:
            v = self.static_heap.get((loc, field))
        return v

    def info(self, ref):
        return self.loc[ref.args[0]]

    def is_ref(self, v, kind=None):
        return v.op == "ref" and (kind is None or self.info(v).kind == kind)

    def deref(self, v):
        """content term of a list/dict/set value"""
        if v.op == "ref":
            i = self.info(v)
            if i.kind == "obj":
                return v
            c = self.hget(v.args[0], "")
            if c is None:
                c = sym(f"{i.label}", ty="any")
                self.st.heap[(v.args[0], "")] = c
            return c
        if v.op == "inner":
            return index(self.deref(v.args[0]), v.args[1])
        if v.op == "ite" and (self.has_ref(v)):
            return ite(v.args[0], self.deref(v.args[1]), self.deref(v.args[2]))
        return v

    def has_ref(self, v, d=0):
        if v.op in ("ref", "inner"):
            return True
        if v.op == "ite" and d < 12:
            return self.has_ref(v.args[1], d + 1) or self.has_ref(v.args[2], d + 1)
        return False

    def purify(self, v, depth=0, keep=0):
        """value term with every heap reference replaced by its content;
        references inside containers to locations up to `keep` stay"""
        if depth > 12:
            return v
        op = v.op
        if op == "ref":
            if depth and v.args[0] <= keep:
                return v
            i = self.info(v)
            if i.kind == "obj":
                if i.origin in ("self", "param", "sym", "field"):
                    return v
                fields = []
                for (l, f), x in self.st.heap.items():
                    if l == v.args[0]:
                        fields.append((const(f), self.purify(x, depth + 1, keep)))
                fields.sort(key=lambda p: p[0].args[1])
                return mk("objval", i.cls, tuple(fields), ty=("obj", i.cls))
            return self.purify(self.deref(v), depth + 1, keep)
        if op == "inner":
            return self.purify(self.deref(v), depth + 1, keep)
        if op in ("const", "sym", "fv", "bv", "lv", "func", "class", "closure", "ext"):
            return v
        if op in ("tuple", "list", "cat", "ite", "upd", "tab", "ftab", "dict", "odict", "setof", "dupd", "sorted", "rev", "slice", "tmap", "idx", "objval", "assignall", "repeat", "flatten"):
            if not any(x.op in ("ref", "inner") for x in tm.subterms(v)):
                return v
            mp = {}
            for x in list(tm.subterms(v)):
                if x.op in ("ref", "inner"):
                    y = self.purify(x, depth + 1, keep)
                    if y is not x:
                        mp[x] = y
            return subst(v, mp) if mp else v
        return v

    def mutated(self, ref, node, what):
        i = self.info(ref)
        self.events.append(("mutate", self.where(node), self.st.pc, (ref, what)))

    def set_content(self, v, fn, node, what="item"):
        """in-place update of the list/dict behind v: new = fn(old)"""
        if v.op == "ref":
            if v.args[0] in self.copied:
                self.unknown.append(f"the container stored at {self.copied[v.args[0]]} is changed through another name at {self.where(node)}")
            old = self.deref(v)
            self.st.heap[(v.args[0], "")] = fn(old)
            self.mutated(v, node, what)
        elif v.op == "inner":
            i = v.args[1]
            self.set_content(v.args[0], lambda c: tm.upd(c, i, fn(index(c, i))) if is_listy(c) else self.dict_set(c, i, fn(self.dict_get(c, i))), node, what)
        elif v.op == "ite":
            c = v.args[0]
            self.set_content(v.args[1], lambda o: self.gate(c, fn(o), o), node, what)
            self.set_content(v.args[2], lambda o: self.gate(c, o, fn(o)), node, what)
        else:
            self.events.append(("mutate-value", self.where(node), self.st.pc, (v, what)))

    def doubts(self):
        """constructs met that have no sound abstraction"""
        return [str(u) for u in self.unknown] + [f"in-place change of a value at {e[1]}" for e in self.events if e[0] == "mutate-value"]

    # ------------------------------------------------------------ forking

    def literals(self, c):
        if c.op == "and":
            return c.args
        return (c,)

    def assume(self, st, c):
        if c is TRUE:
            return
        if c is FALSE:
            st.dead = True
            return
        known = set(st.pc)
        new = []
        for x in self.literals(c):
            if x in known:
                continue
            if not_(x) in known:
                st.dead = True
                return
            new.append(x)
        st.pc = st.pc + tuple(new)

    def known(self, c):
        """simplify a condition under the facts of the current path"""
        if c is TRUE or c is FALSE:
            return c
        pcs = set(self.st.pc)
        if c in pcs:
            return TRUE
        if not_(c) in pcs:
            return FALSE
        if c.op == "and":
            xs = []
            for x in c.args:
                y = self.known(x)
                if y is FALSE:
                    return FALSE
                xs.append(y)
            return and_(*xs)
        if c.op == "or":
            xs = []
            for x in c.args:
                y = self.known(x)
                if y is TRUE:
                    return TRUE
                xs.append(y)
            return or_(*xs)
        if c.op == "not":
            return not_(self.known(c.args[0]))
        return c

    def rel(self, base, pc):
        b = set(base)
        return [x for x in pc if x not in b]

    def merge(self, base, items):
        """items: [(state, value)] mutually exclusive; -> (state, value)"""
        items = [(s, v) for s, v in items if not s.dead]
        if not items:
            s = State()
            s.dead = True
            return s, UNDEF
        if len(items) == 1:
            return items[0]
        gates = []
        earlier = set()
        for s, v in items:
            r = self.rel(base, s.pc)
            full = and_(*r)
            c = and_(*[x for x in r if not_(x) not in earlier])
            gates.append((c, full))
            earlier.add(full)
        allpc = or_(*[g[1] for g in gates])
        st, val = items[-1]
        st = st.copy()
        for (s, v), (c, _) in zip(reversed(items[:-1]), reversed(gates[:-1])):
            st, val = self.merge2(c, s, v, st, val)
        st.pc = tuple(base) + (tuple(self.literals(allpc)) if allpc is not TRUE else ())
        st.dead = False
        return st, val

    def merge2(self, c, s1, v1, s2, v2):
        st = State()
        for attr in ("vars", "heap"):
            d1, d2 = getattr(s1, attr), getattr(s2, attr)
            out = {}
            for k in d1.keys() | d2.keys():
                a, b = d1.get(k), d2.get(k)
                if a is b:
                    out[k] = a
                    continue
                if a is None or b is None:
                    x = a if a is not None else b
                    if attr == "heap":
                        # allocated on one side only, or lazily read initial
                        sv = self.static_heap.get(k)
                        if sv is not None:
                            out[k] = ite(c, a if a is not None else sv, b if b is not None else sv)
                        else:
                            out[k] = x
                    else:
                        out[k] = self.gate(c, a if a is not None else UNDEF, b if b is not None else UNDEF)
                    continue
                out[k] = self.gate(c, a, b)
            setattr(st, attr, out)
        if v1 is None and v2 is None:
            v = None
        else:
            v = self.gate(c, v1 if v1 is not None else NONE, v2 if v2 is not None else NONE)
        return st, v

    def gate(self, c, a, b):
        if a is b:
            return a
        if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
            return mk("tuple", *[self.gate(c, x, y) for x, y in zip(a.args, b.args)], ty=a.ty)
        if a.op == "dict" and b.op == "dict":
            ka = [k for k, _ in a.args[0]]
            kb = [k for k, _ in b.args[0]]
            if ka == kb:
                return mk("dict", tuple((k, self.gate(c, x, y)) for (k, x), (_, y) in zip(a.args[0], b.args[0])), ty="dict")
        if a.op in ("dict", "odict") and b.op in ("dict", "odict"):
            r = self.gate_odict(c, a, b)
            if r is not None:
                return r
        return ite(c, a, b)

    def optional(self, d):
        """entries (key, present, value) of a dict with known keys"""
        if d.op == "dict":
            return [(k, TRUE, v) for k, v in d.args[0]]
        return list(d.args[0])

    def gate_odict(self, c, a, b):
        pa, pb = self.optional(a), self.optional(b)
        n = min(len(pa), len(pb))
        # one key list is a prefix of the other: the order of keys is known
        if [k for k, _, _ in pa[:n]] != [k for k, _, _ in pb[:n]] or not all(is_const(k) for k, _, _ in pa + pb):
            return None
        out = []
        for i in range(max(len(pa), len(pb))):
            if i < n:
                (k, p, x), (_, q, y) = pa[i], pb[i]
                v = y if p is FALSE else x if q is FALSE else self.gate(c, x, y)
                out.append((k, ite(c, p, q), v))
            elif i < len(pa):
                out.append((pa[i][0], and_(c, pa[i][1]), pa[i][2]))
            else:
                out.append((pb[i][0], and_(not_(c), pb[i][1]), pb[i][2]))
        return self.mk_odict(out)

    def mk_odict(self, out):
        if all(p is TRUE for _, p, _ in out):
            return mk("dict", tuple((k, v) for k, _, v in out), ty="dict")
        return mk("odict", tuple(out), ty="dict")

    def fork(self, c, f, g):
        """evaluate f under c and g under not c, merge"""
        c = self.known(c)
        if c is TRUE:
            return f()
        if c is FALSE:
            return g()
        s0 = self.st
        s1, s2 = s0.copy(), s0.copy()
        self.assume(s1, c)
        self.assume(s2, not_(c))
        v1 = v2 = UNDEF
        if not s1.dead:
            self.st = s1
            v1 = f()
            s1 = self.st
        if not s2.dead:
            self.st = s2
            v2 = g()
            s2 = self.st
        self.st, v = self.merge(s0.pc, [(s1, v1), (s2, v2)])
        return v if v is not None else UNDEF

    # ------------------------------------------------------------ functions

    def enter(self, module, cls, func, parent=None):
        self.nfid += 1
        fr = Frame(self.nfid, module, cls, func, parent)
        self.frames.append(fr)
        return fr

    def gen_next(self, g):
        """value of the next element of a generator object: its body is
        summarised up to the yield whose number is the generator's position"""
        pos = self.deref(g)
        a = self.gens[g.args[0]]
        v = self.call_func(a[0], a[1], a[2], a[3], a[4], a[5], a[6], gen=("at", pos))
        self.st.heap[(g.args[0], "")] = add(pos, ONE)
        return v

    def ungen(self, v):
        if v.op == "ref" and v.args[0] in self.gens:
            r = self.gen_all(v)
            return r if r is not None else self.opaque("partly consumed generator", [], [v], ty="list")
        return v

    def gen_all(self, g):
        """all elements of a generator object that nothing has been taken from"""
        a = self.gens[g.args[0]]
        if self.deref(g) is not ZERO:
            return None
        v = self.call_func(a[0], a[1], a[2], a[3], a[4], a[5], a[6], gen=("all",))
        self.st.heap[(g.args[0], "")] = length(v)
        return v

    def e_YieldFrom(self, e):
        v = self.eval(e.value)
        fr = self.frames[-1]
        if fr.gen is None or self.st.dead or fr.gen[0] != "all":
            return self.opaque("yield from")
        k = (fr.fid, "#yield")
        self.st.vars[k] = tm.cat(self.st.vars[k], self.purify(self.seq(v)))
        return NONE

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else NONE
        fr = self.frames[-1]
        if fr.gen is None or self.st.dead:
            return self.opaque("yield")
        k = (fr.fid, "#yield")
        if fr.gen[0] == "all":
            self.st.vars[k] = tm.cat(self.st.vars[k], lst(self.purify(v)))
            return NONE
        cnt = self.st.vars[k]
        hit = self.known(tm.eq(cnt, fr.gen[1]))
        s1 = self.st.copy()
        self.assume(s1, hit)
        if not s1.dead:
            fr.returns.append(Exit("return", s1, v, e))
        self.assume(self.st, not_(hit))
        if not self.st.dead:
            self.st.vars[k] = add(cnt, ONE)
        return NONE

    def call_func(self, node, module, cls, args, kwargs, parent=None, site=None, gen=None):
        """inline a user function (FunctionDef or Lambda)"""
        if self.st.dead:
            return UNDEF
        if len(self.frames) > MAX_DEPTH:
            return self.opaque("deep", [node.name if hasattr(node, "name") else "lambda"], args)
        depth = sum(1 for f in self.frames if f.func is node)
        if depth > 2:
            return self.opaque("recursive:" + getattr(node, "name", "lambda"), [], args)
        name = getattr(node, "name", "<lambda>")
        self.functions_seen[f"{module.name}.{cls.name + '.' if cls else ''}{name}"] = self.prog.where(module, node)
        if not isinstance(node, ast.Lambda) and own_yields(node):
            if gen is None:
                g = self.alloc("gen", origin="gen", label=name, content=ZERO)
                self.gens[g.args[0]] = (node, module, cls, list(args), dict(kwargs), parent, site)
                return g
        fr = self.enter(module, cls, node, parent)
        fr.gen = gen
        if gen is not None:
            fr.ycount = ("y", fr.fid)
            self.st.vars[(fr.fid, "#yield")] = ZERO if gen[0] == "at" else EMPTY
        base = self.st.pc
        self.bind_params(fr, node, args, kwargs)
        if isinstance(node, ast.Lambda):
            v = self.eval(node.body)
            self.frames.pop()
            return v
        self.exec_block(node.body)
        self.frames.pop()
        if not self.st.dead:
            fr.returns.append(Exit("return", self.st, NONE, node))
        if gen is not None and gen[0] == "all":
            for x in fr.returns:
                x.val = x.st.vars[(fr.fid, "#yield")]
        if gen is not None and gen[0] == "at":
            for x in fr.returns:
                if x.node is node or isinstance(x.node, ast.Return):
                    self.raises[-1].append(Exit("raise", x.st, mk("exc", "StopIteration", ()), (self.where(node), ())))
            fr.returns = [x for x in fr.returns if not (x.node is node or isinstance(x.node, ast.Return))]
        if len(fr.returns) == 0:
            v = UNDEF
            self.kill()
        elif len(fr.returns) == 1:
            self.st = fr.returns[0].st
            v = fr.returns[0].val
        else:
            self.st, v = self.merge(base, [(e.st, e.val) for e in fr.returns])
        # locals of the finished frame are gone (closures keep theirs)
        if not any(c[3] == fr.fid for c in self.clos.values()):
            for k in [k for k in self.st.vars if k[0] == fr.fid]:
                del self.st.vars[k]
        return v

    def bind_params(self, fr, node, args, kwargs):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vars_ = self.st.vars
        args = list(args)
        kwargs = dict(kwargs)
        star = None
        if args and isinstance(args[-1], tuple) and args[-1][0] == "*":
            star = args.pop()[1]
        defaults = a.defaults
        off = len(names) - len(defaults)
        for i, n in enumerate(names):
            if i < len(args):
                vars_[(fr.fid, n)] = args[i]
            elif n in kwargs:
                vars_[(fr.fid, n)] = kwargs.pop(n)
            elif star is not None:
                vars_[(fr.fid, n)] = index(star, const(i - len(args)))
            elif "**" in kwargs:
                vars_[(fr.fid, n)] = self.dict_get(self.deref(kwargs["**"]), const(n))
            elif i >= off:
                vars_[(fr.fid, n)] = self.eval_default(fr, defaults[i - off])
            else:
                vars_[(fr.fid, n)] = UNDEF
        if any(isinstance(x, tuple) for x in args):
            raise Unsupported("several unpacked arguments of unknown length")
        if a.vararg:
            rest_ = mk("tuple", *args[len(names):])
            if star is not None:
                star = self.purify(star)
                used = max(0, len(names) - len(args))
                rest_ = tm.cat(lst(*rest_.args), tm.slice_(star, const(used), NONE) if used else star)
            vars_[(fr.fid, a.vararg.arg)] = rest_
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kwargs:
                vars_[(fr.fid, x.arg)] = kwargs.pop(x.arg)
            else:
                vars_[(fr.fid, x.arg)] = self.eval_default(fr, d) if d is not None else UNDEF
        if a.kwarg:
            rest = kwargs.pop("**", None)
            pairs = tuple((const(k), v) for k, v in kwargs.items())
            content = mk("dict", pairs, ty="dict")
            if rest is not None and not pairs:
                content = self.deref(rest)
            vars_[(fr.fid, a.kwarg.arg)] = self.alloc("dict", label="kwargs", content=content)

    def eval_default(self, fr, d):
        if isinstance(d, ast.Constant):
            return const(d.value)
        # evaluated once at definition: shared object
        key = ("default", id(d))
        return self.static_value(key, fr.module, fr.cls, d, "default argument")

    def opaque(self, what, extra=(), args=(), ty="any"):
        self.unknown.append(what)
        a = tuple(self.purify(x) for x in args if isinstance(x, T))
        return mk("opq", what, *extra, a, ty=ty)

    # ------------------------------------------------------------ statements

    def exec_block(self, body):
        for s in body:
            if self.st.dead:
                return
            self.exec(s)

    def exec(self, s):
        self.stmts += 1
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} at {self.where(s)}")
        m(s)

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def x_Pass(self, s):
        pass

    def x_Import(self, s):
        for a in s.names:
            if self.hook is not None:
                self.hook(None, "__import__", [const(a.name)], {}, s)
                if self.st.dead:
                    return
            self.assign_name(a.asname or a.name.split(".")[0], mk("ext", a.name if a.asname else a.name.split(".")[0]))

    def x_ImportFrom(self, s):
        base = self.frames[-1].module.resolve_rel(s.module, s.level)
        if self.hook is not None:
            self.hook(None, "__import__", [const(base)], {}, s)
            if self.st.dead:
                return
        for a in s.names:
            r = self.prog.lookup(base, a.name)
            self.assign_name(a.asname or a.name, self.from_lookup(r, a.name))

    def x_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        if self.st.dead:
            return
        self.frames[-1].returns.append(Exit("return", self.st, v, s))
        self.kill()

    def kill(self):
        st = State()
        st.dead = True
        st.pc = self.st.pc
        self.st = st

    def x_Raise(self, s):
        exc = mk("exc", "reraise") if s.exc is None else self.eval(s.exc)
        if self.st.dead:
            return
        if s.exc is None and self.frames[-1].__class__ and getattr(self, "cur_exc", None):
            exc = self.cur_exc[-1]
        self.raise_(exc, s)

    def raise_(self, exc, node):
        if exc.op in ("class", "ext", "builtin"):
            exc = mk("exc", self.exc_name(exc), ())
        self.raises[-1].append(Exit("raise", self.st, exc, (self.where(node), tuple(f"{f.module.name}.{getattr(f.func, 'name', '')}" for f in self.frames))))
        self.kill()

    def exc_name(self, c):
        return c.args[0]

    def x_Assert(self, s):
        c = self.truth(self.eval(s.test))
        self.events.append(("assert", self.where(s), self.st.pc, c))
        self.assume(self.st, self.known(c))
        if self.st.dead:
            self.st.dead = True

    def x_If(self, s):
        c = self.truth(self.eval(s.test))
        if self.st.dead:
            return
        self.fork(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def x_Break(self, s):
        self.frames[-1].loops[-1][0].append(Exit("break", self.st, None, s))
        self.kill()

    def x_Continue(self, s):
        self.frames[-1].loops[-1][1].append(Exit("continue", self.st, None, s))
        self.kill()

    def x_Global(self, s):
        self.events.append(("global", self.where(s), self.st.pc, tuple(s.names)))

    def x_Nonlocal(self, s):
        self.frames[-1].nonlocals |= set(s.names)

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.eval(t.value)
                if isinstance(t.slice, ast.Slice):
                    lo = self.eval(t.slice.lower) if t.slice.lower else NONE
                    hi = self.eval(t.slice.upper) if t.slice.upper else NONE
                    self.set_content(base, lambda c: self.list_del_slice(c, lo, hi), t, "del")
                else:
                    k = self.eval(t.slice)
                    self.set_content(base, lambda c: mk("delitem", c, k, ty=c.ty) if not is_listy(c) else self.list_del(c, k), t, "del")
            elif isinstance(t, ast.Name):
                self.st.vars.pop((self.frames[-1].fid, t.id), None)

    def list_del(self, c, k):
        if is_num_const(k) and cval(k) == 0:
            return tm.slice_(c, ONE, NONE)
        return tm.cat(tm.slice_(c, NONE, k), tm.slice_(c, add(k, ONE), NONE))

    def list_del_slice(self, c, lo, hi):
        a = EMPTY if lo in (NONE, ZERO) else tm.slice_(c, NONE, lo)
        b = EMPTY if hi is NONE else tm.slice_(c, hi, NONE)
        return tm.cat(a, b)

    def x_FunctionDef(self, s):
        fr = self.frames[-1]
        c = self.closure(s, fr)
        self.assign_name(s.name, c)
        for d in s.decorator_list:
            self.events.append(("decorate", self.where(s), self.st.pc, (self.eval(d), c)))

    def closure(self, node, fr):
        key = (id(node), fr.fid)
        if key not in self.closkey:
            cid = len(self.clos)
            self.closkey[key] = cid
            self.clos[cid] = (node, fr.module, fr.cls, fr.fid, fr)
        return mk("closure", self.closkey[key])

    def x_ClassDef(self, s):
        self.assign_name(s.name, self.opaque("local class"))

    def x_Assign(self, s):
        v = self.eval(s.value)
        if self.st.dead:
            return
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is None:
            return
        v = self.eval(s.value)
        if not self.st.dead:
            self.assign(s.target, v)

    def x_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, t)
            r = self.eval(s.value)
            self.assign(t, self.inplace(s.op, cur, r, s))
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value)
            cur = self.getattr(obj, t.attr, t)
            r = self.eval(s.value)
            self.setattr(obj, t.attr, self.inplace(s.op, cur, r, s), t)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value)
            k = self.eval_index(t.slice)
            cur = self.getitem(obj, k, t)
            r = self.eval(s.value)
            self.setitem(obj, k, self.inplace(s.op, cur, r, s), t)
        else:
            raise Unsupported("augmented target")

    def inplace(self, op, cur, r, node):
        if isinstance(op, ast.Add) and self.has_ref(cur) and (is_listy(self.deref(cur))):
            rc = self.seq(r)
            self.set_content(cur, lambda c: tm.cat(c, rc), node, "extend")
            return cur
        return self.binop(op, cur, r, node)

    def x_For(self, s):
        it = self.eval(s.iter)
        if self.st.dead:
            return
        again = None
        if it.op == "ref" and it.args[0] in self.gens and self.deref(it) is ZERO:
            a = self.gens[it.args[0]]
            again = lambda: self.call_func(a[0], a[1], a[2], a[3], a[4], a[5], a[6], gen=("all",))
            st0 = self.st.copy()
            want = again()
            self.st = st0
        n, elem = self.view(it, s)
        self.loop(n, elem, lambda v: self.assign(s.target, v), lambda: self.exec_block(s.body), s, s.orelse)
        if again and not self.st.dead:
            # the generator runs interleaved with the body: its elements must
            # not depend on what the body changes
            st0 = self.st.copy()
            if again() is not want:
                self.unknown.append("generator interleaved with its loop")
            self.st = st0

    def x_While(self, s):
        self.while_loop(s)

    def x_With(self, s):
        if len(s.items) == 1 and isinstance(s.items[0].context_expr, ast.Call):
            c = s.items[0].context_expr
            f = self.eval(c.func)
            if f.op == "ext" and f.args[0] == "contextlib.suppress":
                h = ast.ExceptHandler(type=ast.Tuple(elts=list(c.args), ctx=ast.Load()), name=None, body=[ast.Pass()])
                t = ast.Try(body=s.body, handlers=[h], orelse=[], finalbody=[])
                for x in (h, h.type, h.body[0], t):
                    ast.copy_location(x, s)
                return self.x_Try(t)
        v = None
        if self.hook is not None:
            v = self.eval(s.items[0].context_expr)
            if v.op == "lib":
                # the library's own context manager: leaving it is a call
                w = f"with@{s.lineno}:{s.col_offset}:{len(s.items)}"
                self.assign_name(w, v)
                if s.items[0].optional_vars is not None:
                    self.assign(s.items[0].optional_vars, v)
                none = ast.Constant(None)
                ex = ast.Expr(ast.Call(ast.Attribute(ast.Name(w, ast.Load()), "__exit__", ast.Load()), [none, none, none], []))
                body = s.body if len(s.items) == 1 else [ast.With(items=s.items[1:], body=s.body)]
                t = ast.Try(body=body, handlers=[], orelse=[], finalbody=[ex])
                for x in [t] + list(ast.walk(ex)) + body[:1]:
                    ast.copy_location(x, s)
                return self.x_Try(t)
        first = v
        for i in s.items:
            v = first if first is not None and i is s.items[0] else self.eval(i.context_expr)
            self.events.append(("with", self.where(s), self.st.pc, v))
            if i.optional_vars is not None:
                self.assign(i.optional_vars, mk("entered", v) if v.op != "opq" else v)
        self.exec_block(s.body)

    def handler_names(self, h):
        if h.type is None:
            return [None]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            v = self.eval(t)
            n = v.args[0] if v.op in ("class", "ext", "builtin") else None
            out.append("OSError" if n in ("socket.error", "IOError", "EnvironmentError", "select.error") else n)
        return out

    def exc_matches(self, exc, names):
        """True / False / None (unknown)"""
        if exc.op != "exc" or exc.args[0] == "any":
            return None
        n = exc.args[0]
        if n.startswith("__"):
            return False
        chain = self.exc_chain(n)
        for h in names:
            if h is None or h in chain:
                return True
            if h.split(".")[-1] in ("Exception", "BaseException"):
                return True
        return False

    def exc_chain(self, n):
        out = {n}
        if n in self.prog.classes:
            for c in self.prog.mro(n):
                out.add(c.qual)
            bs = self.prog.base_names(n)
            todo = [b for b in bs if b in BUILTIN_EXC]
        else:
            todo = [n.split(".")[-1]]
        while todo:
            b = todo.pop()
            out.add(b)
            p = BUILTIN_EXC.get(b)
            if p:
                todo.append(p)
        return out

    def x_Try(self, s):
        base = self.st.pc
        fr = self.frames[-1]
        nret = len(fr.returns)
        nbr = [(len(b), len(c)) for b, c in fr.loops]
        hn = []
        for h in s.handlers:
            hn.append(self.handler_names(h))
        flat = {n.split(".")[-1] for ns in hn for n in ns if n} | ({"Exception"} if any(None in ns for ns in hn) else set())
        sink = []
        self.raises.append(sink)
        if flat & {"Exception", "BaseException"}:
            flat |= {"KeyError", "IndexError", "ValueError", "ZeroDivisionError"}
        if "LookupError" in flat:
            flat |= {"KeyError", "IndexError"}
        if "ArithmeticError" in flat:
            flat |= {"ZeroDivisionError"}
        self.catching.append(flat & {"KeyError", "IndexError", "ValueError", "ZeroDivisionError"})
        if not self.catching[-1]:
            self.catching.pop()
            self.exec_block(s.body)
        else:
            self.exec_block(s.body)
            self.catching.pop()
        self.raises.pop()
        outer = []
        if s.finalbody:
            self.raises.append(outer)
        ends = []
        if not self.st.dead and s.orelse:
            self.exec_block(s.orelse)
        ends.append((self.st, NONE))
        for e in sink:
            handled = False
            for h, ns in zip(s.handlers, hn):
                m = self.exc_matches(e.val, ns)
                if m is False:
                    continue
                self.st = e.st
                if h.name:
                    self.assign_name(h.name, e.val)
                self.cur_exc = getattr(self, "cur_exc", []) + [e.val]
                if m is None:
                    self.raises[-1].append(Exit("raise", e.st.copy(), e.val, e.node))
                self.exec_block(h.body)
                self.cur_exc = self.cur_exc[:-1]
                ends.append((self.st, NONE))
                handled = True
                break
            if not handled:
                self.raises[-1].append(e)
        self.st, _ = self.merge(base, ends)
        if s.finalbody:
            self.raises.pop()
            if not self.st.dead:
                self.exec_block(s.finalbody)
            st = self.st
            for e in fr.returns[nret:]:
                self.st = e.st
                self.exec_block(s.finalbody)
                e.st = self.st
            for (nb, nc), (b, c) in zip(nbr, fr.loops):
                for e in b[nb:] + c[nc:]:
                    self.st = e.st
                    self.exec_block(s.finalbody)
                    e.st = self.st
            for e in outer:
                self.st = e.st
                self.exec_block(s.finalbody)
                if not self.st.dead:
                    e.st = self.st
                    self.raises[-1].append(e)
            self.st = st

    # ------------------------------------------------------------ assignment

    def owner_frame(self, name):
        fr = self.frames[-1]
        if name in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if (p.fid, name) in self.st.vars:
                    return p.fid
                p = p.parent
        return fr.fid

    def assign_name(self, name, v):
        self.st.vars[(self.owner_frame(name), name)] = v

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value)
            if isinstance(t.slice, ast.Slice):
                lo = self.eval(t.slice.lower) if t.slice.lower else NONE
                hi = self.eval(t.slice.upper) if t.slice.upper else NONE
                vs = self.seq(v)
                self.set_content(obj, lambda c: self.slice_assign(c, lo, hi, vs), t, "slice")
            else:
                self.setitem(obj, self.eval_index(t.slice), v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Unsupported("assignment target")

    def slice_assign(self, c, lo, hi, v):
        a = EMPTY if lo in (NONE, ZERO) else tm.slice_(c, NONE, lo)
        b = EMPTY if hi is NONE else tm.slice_(c, hi, NONE)
        return tm.cat(a, v, b)

    def unpack(self, elts, v):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        vals = self.parts(v)
        if star:
            i = star[0]
            after = len(elts) - i - 1
            if vals is not None:
                mid = vals[i: len(vals) - after]
                for e, x in zip(elts[:i], vals[:i]):
                    self.assign(e, x)
                self.assign(elts[i].value, self.alloc("list", content=lst(*mid)))
                for e, x in zip(elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(e, x)
                return
            L = self.seq(v)
            n = length(L)
            for j, e in enumerate(elts[:i]):
                self.assign(e, index(L, const(j)))
            lo, hi = const(i), sub(n, const(after)) if after else NONE
            if self.known(lt(n, const(len(elts) - 1))) is not FALSE:
                s2 = self.st.copy()
                self.assume(s2, lt(n, const(len(elts) - 1)))
                if not s2.dead:
                    self.raises[-1].append(Exit("raise", s2, mk("exc", "ValueError", ()), (self.where(elts[i]), ())))
                self.assume(self.st, not_(lt(n, const(len(elts) - 1))))
            self.assign(elts[i].value, self.alloc("list", content=tm.slice_(L, lo, hi)))
            for j, e in enumerate(elts[i + 1:]):
                self.assign(e, index(L, sub(n, const(after - j))))
            return
        if vals is not None and len(vals) == len(elts):
            for e, x in zip(elts, vals):
                self.assign(e, x)
            return
        for k, e in enumerate(elts):
            self.assign(e, self.getitem(v, const(k), e))

    def parts(self, v):
        """known element list of a sequence value, or None"""
        v = self.ungen(v)
        if v.op == "inner":
            c = self.deref(v)
            n = length(c)
            if is_num_const(n):
                return [self.getitem(v, const(k), None) for k in range(int(cval(n)))]
            return None
        p = self.record_parts(v)
        if p is not None:
            return p
        v = self.iterated(v)
        c = self.deref(v)
        if c.op in ("tuple", "list"):
            return list(c.args)
        if c.op == "const" and c.ty == "str":
            return [const(x) for x in cval(c)]
        if c.op == "dict":
            return [k for k, _ in c.args[0]]
        if c.op == "setof" and c.args[0].op in ("list", "tuple") and all(is_const(x) for x in c.args[0].args):
            out = []
            for x in c.args[0].args:
                if x not in out:
                    out.append(x)
            return out
        if c.op in ("slice", "tab", "upd", "sorted", "rev", "perm", "shuffled", "tmap", "ite", "cat", "sym", "keys"):
            n = length(c)
            if is_num_const(n) and 0 <= cval(n) <= MAX_UNROLL and c.op != "sym":
                return [index(c, const(k)) for k in range(int(cval(n)))]
        return None

    # ------------------------------------------------------------ loops

    def view(self, it, node):
        """(n, elem(i)) of an iterable; elem may return inner refs"""
        it = self.iterated(self.ungen(it))
        p = self.parts(it) if it.op != "inner" else None
        if p is not None:
            return len(p), lambda k, p=p: p[k]
        c = self.deref(it)
        if c.op == "range":
            lo, hi, stp = c.args
            n, f = self.range_view(lo, hi, stp)
            return n, f
        if c.op == "zip":
            vs = [self.view(x, node) for x in c.args[0]]
            ns = [const(n) if isinstance(n, int) else n for n, _ in vs]
            n = tm.minmax(True, ns) if ns else ZERO
            fin = [x for x in ns if x is not INF]
            n = tm.minmax(True, fin) if fin else INF
            f = lambda i: mk("tuple", *[self.elem_at(v, i) for v in vs])
            if is_num_const(n):
                return int(cval(n)), lambda k: f(const(k))
            return n, f
        if c.op == "enumerate":
            nn, f = self.view(c.args[0], node)
            st = c.args[1]
            if isinstance(nn, int):
                return nn, lambda k: mk("tuple", add(st, const(k)), f(k))
            return nn, lambda i: mk("tuple", add(st, i), f(i))
        if c.op == "cycle":
            L = self.purify(c.args[0])
            return INF, lambda i: index(L, tm.mod(i, length(L)))
        if c.op == "count":
            return INF, lambda i: add(c.args[0], mul(i, c.args[1]))
        if c.op == "items":
            d = self.deref(c.args[0])
            if d.op == "dict":
                p = [mk("tuple", k, v) for k, v in d.args[0]]
                return len(p), lambda k: p[k]
            c = mk("ditems", d, ty=("list", "tuple"))
        if c.op == "values":
            d = self.deref(c.args[0])
            if d.op == "dict":
                p = [v for k, v in d.args[0]]
                return len(p), lambda k: p[k]
            c = mk("dvalues", self.purify(d), ty="list")
        if c.op == "repeat" and c.args[0].op == "list" and len(c.args[0].args) == 1:
            return c.args[1], lambda i: c.args[0].args[0]
        if self.has_ref(it):
            if it.op in ("ref", "inner") and self.nested(c):
                return length(c), lambda i: mk("inner", it, i, ty=tm.elem_type(c))
            r = tm.as_tab(c)
            if r:
                return r
        if c.ty == "dict" and c.op != "dict":
            c = mk("keys", c, ty="list")
        r = tm.as_tab(c)
        if r:
            return r
        return length(c), lambda i: index(c, i)

    def nested(self, c):
        """list whose elements are mutable lists"""
        e = tm.elem_type(c)
        if e in ("list", "dict") or (isinstance(e, tuple) and e[0] in ("list", "dict")):
            return True
        if c.op == "tab":
            return c.args[2].op in ("list", "tab") or is_listy(c.args[2])
        if c.op == "sorted":
            return self.nested(c.args[0])
        if c.op in ("upd", "rev"):
            return self.nested(c.args[0])
        return False

    def elem_at(self, v, i):
        n, f = v
        if isinstance(n, int):
            if is_num_const(i):
                return f(int(cval(i)))
            vals = [f(k) for k in range(n)]
            return index(lst(*vals), i)
        return f(i)

    def range_view(self, lo, hi, stp):
        if is_num_const(stp):
            s = cval(stp)
            if s == 1:
                n = sub(hi, lo)
            elif s == -1:
                n = sub(lo, hi)
            elif s > 0:
                n = tm.fdiv(add(sub(hi, lo), const(s - 1)), const(s))
            elif s < 0:
                n = tm.fdiv(add(sub(lo, hi), const(-s - 1)), const(-s))
            else:
                n = ZERO
        else:
            n = mk("rangelen", lo, hi, stp, ty="int")
        if is_num_const(n):
            k = max(0, int(cval(n)))
            return k, lambda i: add(lo, mul(const(i), stp))
        b = tm.bounds(n)
        if b[0] is None or b[0] < 0:
            if not (n.op in ("sym", "attr", "len", "idx") or self.nonneg(n)):
                n = tm.minmax(False, [n, ZERO])
        return n, lambda i: add(lo, mul(i, stp))

    def nonneg(self, n):
        return tm.lt0(n) is FALSE

    def loop(self, n, elem, bind, body, node, orelse=()):
        if isinstance(n, int):
            if n <= MAX_UNROLL:
                return self.unroll(n, elem, bind, body, node, orelse)
            p = lst(*[elem(k) for k in range(n)])
            return self.sym_loop(const(n), lambda i: index(p, i), bind, body, node, orelse)
        return self.sym_loop(n, elem, bind, body, node, orelse)

    def unroll(self, n, elem, bind, body, node, orelse):
        fr = self.frames[-1]
        base = self.st.pc
        breaks = []
        for k in range(n):
            if self.st.dead:
                break
            conts = []
            b0 = self.st.pc
            bind(elem(k))
            fr.loops.append((breaks, conts))
            body()
            fr.loops.pop()
            if conts:
                self.st, _ = self.merge(b0, [(e.st, NONE) for e in conts] + [(self.st, NONE)])
        if orelse and not self.st.dead:
            self.exec_block(orelse)
        if breaks:
            self.st, _ = self.merge(base, [(e.st, NONE) for e in breaks] + [(self.st, NONE)])

    def while_unrolled(self, s):
        """at most so many iterations, for a scenario that fixes all conditions"""
        fr = self.frames[-1]
        base = self.st.pc
        breaks = []
        for _k in range(self.unroll_whiles):
            c = self.known(self.truth(self.eval(s.test)))
            if self.st.dead or c is FALSE:
                break
            if c is not TRUE:
                raise Unsupported(f"loop condition at {self.where(s)} is not fixed by the scenario")
            conts = []
            b0 = self.st.pc
            fr.loops.append((breaks, conts))
            self.exec_block(s.body)
            fr.loops.pop()
            if conts:
                self.st, _ = self.merge(b0, [(e.st, NONE) for e in conts] + [(self.st, NONE)])
            if self.st.dead:
                break
        else:
            self.raise_(mk("exc", "__endless__", ()), s)
        if s.orelse and not self.st.dead:
            self.exec_block(s.orelse)
        if breaks:
            self.st, _ = self.merge(base, [(e.st, NONE) for e in breaks] + [(self.st, NONE)])

    def while_loop(self, s):
        if self.unroll_whiles:
            return self.while_unrolled(s)
        if isinstance(s.test, ast.Constant) and s.test.value:
            test = None
        else:
            test = s.test
        # try bounded concrete unrolling first when the test folds to a constant
        if test is not None:
            st0 = self.st.copy()
            if self.try_concrete_while(s):
                return
            self.st = st0
            r = self.while_as_for(s)
            if r:
                return
        self.sym_loop(INF, lambda i: i, lambda v: None, lambda: self.exec_block(s.body), s, s.orelse, test=test)

    def try_concrete_while(self, s):
        k = 0
        st_save = (len(self.events), len(self.raises[-1]), len(self.frames[-1].returns))
        while k <= MAX_UNROLL:
            c = self.known(self.truth(self.eval(s.test)))
            if c is FALSE:
                if s.orelse:
                    self.exec_block(s.orelse)
                return True
            if c is not TRUE:
                break
            if any(isinstance(x, (ast.Break, ast.Continue, ast.Return)) for x in ast.walk(s)):
                break
            self.exec_block(s.body)
            if self.st.dead:
                break
            k += 1
        del self.events[st_save[0]:]
        del self.raises[-1][st_save[1]:]
        del self.frames[-1].returns[st_save[2]:]
        return False

    def while_as_for(self, s):
        """while i < n: ...; i += 1   (i only stepped at the end or start of the body)"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name)):
            return False
        var = t.left.id
        steps = [x for x in s.body if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == var
                 and isinstance(x.op, ast.Add) and isinstance(x.value, ast.Constant) and x.value.value == 1]
        if len(steps) != 1 or steps[0] is not s.body[-1]:
            return False
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and x.id == var and isinstance(x.ctx, ast.Store) and x is not steps[0].target:
                return False
            if isinstance(x, ast.Continue):
                return False
        names = {x.id for x in ast.walk(t.comparators[0]) if isinstance(x, ast.Name)}
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in names:
                return False
            if isinstance(x, (ast.Call, ast.Attribute)) and x in ast.walk(t.comparators[0]):
                if isinstance(x, ast.Attribute):
                    # bound must not be modified in the body
                    for y in ast.walk(s):
                        if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and y.attr == x.attr:
                            return False
        start = self.load_name(var, s)
        stop = self.eval(t.comparators[0])
        if isinstance(t.ops[0], ast.LtE):
            stop = add(stop, ONE)
        elif not isinstance(t.ops[0], (ast.Lt, ast.NotEq)):
            return False
        if not (is_numeric(start) and (is_numeric(stop) or stop.ty == "int")):
            return False
        n, elem = self.range_view(start, stop, ONE)
        body = s.body[:-1]
        step = s.body[-1]

        def run():
            self.exec_block(body)
            if not self.st.dead:
                self.exec(step)

        self.loop(n, elem, lambda v: self.assign_name(var, v), run, s, s.orelse)
        return True

    def key_label(self, k):
        if k[0] == "v":
            return "v:" + k[1][1]
        loc, f = k[1]
        return f"h:{self.loc[loc].label}.{f}"

    def sget(self, st, k):
        if k[0] == "v":
            return st.vars.get(k[1])
        v = st.heap.get(k[1])
        if v is None:
            v = self.static_heap.get(k[1])
        return v

    def sset(self, st, k, v):
        if k[0] == "v":
            st.vars[k[1]] = v
        else:
            st.heap[k[1]] = v

    def sym_loop(self, n, elem, bind, body, node, orelse=(), test=None):
        fr = self.frames[-1]
        site = f"{fr.module.name}:{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}"
        # a loop entered while the same loop is running (recursion, a helper
        # that calls itself) needs names of its own
        depth = self.active_sites.count(site)
        if depth:
            site += f"^{depth}"
        self.active_sites.append(site if not depth else site.rsplit("^", 1)[0])
        try:
            return self._sym_loop(n, elem, bind, body, node, orelse, test, fr, site)
        finally:
            self.active_sites.pop()

    def _sym_loop(self, n, elem, bind, body, node, orelse, test, fr, site):
        iv = mk("fv", "iv@" + site, ty="int")
        pre = self.st
        base = pre.pc
        mark_loc, mark_fid = self.nloc, self.nfid
        mod = []  # ordered keys
        modset = set()
        lvs = {}
        listcarried = {}
        noshape = set()
        nev = len(self.events)
        tys = {}
        for _round in range(24):
            del self.events[nev:]
            st = pre.copy()
            starts = {}
            for k in mod:
                p = self.sget(pre, k)
                if k in listcarried:
                    ref = listcarried[k]
                    self.sset(st, k, ref)
                    st.heap[(ref.args[0], "")] = lvs[k]
                    starts[k] = ref
                else:
                    self.sset(st, k, lvs[k])
                    starts[k] = lvs[k]
            if n is not INF:
                self.assume(st, lt(iv, n))
                st.dead = False
            b0 = st.pc
            self.st = st
            sink = []
            breaks, conts = [], []
            nret = len(fr.returns)
            self.raises.append(sink)
            exits = []
            if test is not None:
                c = self.truth(self.eval(test))
                c = self.known(c)
                s_out = self.st.copy()
                self.assume(s_out, not_(c))
                if not s_out.dead:
                    exits.append(Exit("end", s_out, None, node))
                self.assume(self.st, c)
            fr.loops.append((breaks, conts))
            if not self.st.dead:
                bind(elem(iv))
                body()
            fr.loops.pop()
            self.raises.pop()
            rets = fr.returns[nret:]
            del fr.returns[nret:]
            exits += breaks + rets + [Exit("raise", e.st, e.val, e.node) for e in sink]
            ends = [(e.st, NONE) for e in conts] + [(self.st, NONE)]
            nxt, _ = self.merge(b0, ends)
            # which keys changed?
            changed = False
            allstates = ([] if nxt.dead else [nxt]) + [e.st for e in exits if not e.st.dead]
            for s2 in allstates:
                for kind, d2, d1 in (("v", s2.vars, pre.vars), ("h", s2.heap, pre.heap)):
                    for key, val in d2.items():
                        if kind == "v" and key[0] > mark_fid:
                            continue
                        if kind == "h" and key[0] > mark_loc:
                            continue
                        k = (kind, key)
                        if k in modset:
                            continue
                        old = d1.get(key)
                        if old is None and kind == "h":
                            old = self.static_heap.get(key)
                        if old is val:
                            continue
                        if old is None and kind == "h":
                            # lazily created initial value, not a write
                            if val.op == "sym" or key not in [x for x in s2.heap]:
                                pre.heap[key] = val
                                continue
                        modset.add(k)
                        mod.append(k)
                        p = old if old is not None else UNDEF
                        nm = f"lv@{site}:{self.key_label(k)}"
                        ty = p.ty if p is not UNDEF else val.ty
                        if p is not UNDEF and p.ty != val.ty:
                            if is_numeric(p) and is_numeric(val):
                                ty = "float" if "float" in (p.ty, val.ty) else "int"
                            elif p.op == "const" and p.ty == "none":
                                ty = "any"
                        pc_, vc_ = p, val
                        ckind = self.container_kind(val)
                        if ckind and (p is UNDEF or self.container_kind(p) == ckind or p.op == "inner"):
                            self.nloc += 1
                            loc = self.nloc
                            self.loc[loc] = LocInfo(ckind, None, "loop", self.key_label(k), site)
                            listcarried[k] = mk("ref", loc, ty=ckind)
                            cont = self.content_in(s2, val)
                            ty = tm.full_type(cont)
                            if p is not UNDEF:
                                pc_ = self.content_in(pre, p)
                                t2 = tm.full_type(pc_)
                                if t2 != ty and pc_ is not EMPTY:
                                    ty = "list"
                        elif k[0] == "h" and k[1][1] == "" and self.loc[k[1][0]].kind == "list":
                            pc_ = self.content_in(pre, p) if p is not UNDEF else UNDEF
                            vc_ = self.content_in(s2, val)
                            ty = tm.full_type(vc_)
                            if pc_ not in (UNDEF, EMPTY) and tm.full_type(pc_) != ty:
                                ty = "list" if not self.nested(pc_) else ("list", "list")
                        nm += self.type_tag(ty)
                        if any(x.args[0] == nm for x in lvs.values()):
                            nm += f"#{len(mod)}"
                        l = mk("lv", nm, ty=ty if ty != "none" else "any")
                        tm.SHAPES.pop(l, None)
                        if pc_ is not UNDEF and is_listy(pc_) and k not in noshape:
                            tm.SHAPES[l] = length(pc_)
                        lvs[k] = l
                        # shape: list contents keep the pre length when the loop only updates items
                        changed = True
            # carried lists assumed to keep their length: drop the assumption
            # where the transfer pass does not confirm it
            if not changed:
                for k in mod:
                    l = lvs[k]
                    if l not in tm.SHAPES:
                        continue
                    for s2 in allstates:
                        v = self.sget(s2, k)
                        if v is None:
                            continue
                        v = self.content_in(s2, v)
                        if not is_listy(v) and v is not l or length(v) is not tm.SHAPES[l]:
                            noshape.add(k)
                            tm.SHAPES.pop(l, None)
                            changed = True
                            break
            if not changed:
                break
        else:
            raise Unsupported(f"loop at {site} does not reach a fixpoint")
        # a container that the loop both replaces and changes in place stands
        # for all it may be bound to: sound only without other names for it
        for k, ref in listcarried.items():
            p = self.sget(pre, k)
            if p is not None and any(e[0] == "mutate" and e[3][0] is ref for e in self.events[nev:]) and self.aliased(pre, k, p):
                self.unknown.append(f"a container with several names is replaced and changed in the loop at {site}")
            v = self.sget(nxt, k) if not nxt.dead else None
            if v is not None and any(e[0] == "mutate" and e[3][0] is ref for e in self.events[nev:]) and self.aliased_next(nxt, k, v):
                self.unknown.append(f"a container is stored, then changed by the next round of the loop at {site}")
        # typed shapes: length-preserving loops
        self.loops_seen.append(site)
        self.keep_mark = mark_loc
        return self.finish_loop(n, iv, mod, lvs, listcarried, pre, nxt, exits, b0, base, node, orelse, site)

    def container_kind(self, v, d=0):
        """list/dict/set if v is one of several containers of that kind"""
        if v.op == "ref":
            k = self.info(v).kind
            return k if k in ("list", "dict", "set") else None
        if v.op == "ite" and d < 12:
            a = self.container_kind(v.args[1], d + 1)
            return a if a is not None and a == self.container_kind(v.args[2], d + 1) else None
        return None

    def aliased(self, st, k, p):
        """is the container p of slot k reachable from another slot of st?"""
        locs = {x.args[0] for x in tm.subterms(p) if x.op == "ref"}
        for kind, d in (("v", st.vars), ("h", st.heap)):
            for key, v in d.items():
                if (kind, key) != k and any(x.op == "ref" and x.args[0] in locs for x in tm.subterms(v)):
                    return True
        return False

    def aliased_next(self, st, k, v, facts=()):
        """as aliased, case by case for the containers v may be"""
        if v.op == "ite":
            c = v.args[0]
            return self.aliased_next(st, k, v.args[1], facts + ((c, True),)) or self.aliased_next(st, k, v.args[2], facts + ((c, False),))

        def under(t, d=0):
            while t.op == "ite" and d < 40:
                d += 1
                for c, side in facts:
                    if t.args[0] is c:
                        t = t.args[1] if side else t.args[2]
                        break
                    if t.args[0] is not_(c):
                        t = t.args[2] if side else t.args[1]
                        break
                else:
                    break
            return t
        locs = {x.args[0] for x in tm.subterms(v) if x.op == "ref"}
        for kind, d in (("v", st.vars), ("h", st.heap)):
            for key, t in d.items():
                if (kind, key) != k and any(x.op == "ref" and x.args[0] in locs for x in tm.subterms(under(t))):
                    return True
        return False

    def type_tag(self, ty):
        return "~" + "".join(c for c in repr(ty) if c.isalnum())

    def content_in(self, st, v, keep=0):
        save = self.st
        self.st = st
        try:
            return self.purify(v, keep=keep)
        finally:
            self.st = save

    def finish_loop(self, n, iv, mod, lvs, listcarried, pre, nxt, exits, b0, base, node, orelse, site):
        exits = [e for e in exits if not e.st.dead]
        keep = self.keep_mark
        pres, nexts = {}, {}
        for k in mod:
            p = self.sget(pre, k)
            q = self.sget(nxt, k) if not nxt.dead else None
            q = None if q is None else self.content_in(nxt, q, keep)
            deep = q is not None and any(x.op in ("upd", "dupd") for x in tm.subterms(q))
            p = UNDEF if p is None else self.content_in(pre, p, 0 if deep else keep)
            pres[k] = p
            if nxt.dead:
                nexts[k] = p
            else:
                v = self.sget(nxt, k)
                nexts[k] = self.content_in(nxt, v, keep) if v is not None else UNDEF
        # stop condition and values
        guards = []
        for e in exits:
            guards.append(and_(*self.rel(b0, e.st.pc)))
        stop = or_(*guards) if guards else FALSE
        stopv = {}
        for k in mod:
            v = None
            for e, g in zip(reversed(exits), reversed(guards)):
                x = self.sget(e.st, k)
                x = self.content_in(e.st, x, keep) if x is not None else UNDEF
                v = x if v is None else ite(g, x, v)
            stopv[k] = v
        kinds = None
        if exits:
            kinds = ZERO
            for i, (e, g) in reversed(list(enumerate(zip(exits, guards)))):
                kinds = const(i + 1) if i == len(exits) - 1 else ite(g, const(i + 1), kinds)
        retv = None
        rets = [(i, e) for i, e in enumerate(exits) if e.kind in ("return", "raise")]
        from .loops import Summary
        extra = {}
        KIND, RETV = ("#", "kind"), ("#", "ret")
        keys = list(mod)
        if exits and len(exits) > 1 or any(e.kind in ("return", "raise", "break") for e in exits):
            keys.append(KIND)
            pres[KIND], nexts[KIND], stopv[KIND] = ZERO, ZERO, kinds
            lvs = dict(lvs)
            lvs[KIND] = mk("lv", f"lv@{site}:#kind", ty="int")
        if any(e.kind == "return" for e in exits):
            v = None
            for e, g in zip(reversed(exits), reversed(guards)):
                if e.kind != "return":
                    continue
                x = self.content_in(e.st, e.val, keep)
                v = x if v is None else ite(g, x, v)
            keys.append(RETV)
            lvs[RETV] = mk("lv", f"lv@{site}:#ret", ty=v.ty)
            pres[RETV], nexts[RETV], stopv[RETV] = UNDEF, UNDEF, v
        summ = Summary(n, iv, keys, lvs, pres, nexts, stop, stopv, site)
        final = summ.finals()
        self.last_summary = summ
        post = pre.copy()
        post.pc = base
        for k in mod:
            if k in listcarried:
                ref = listcarried[k]
                self.sset(post, k, ref)
                post.heap[(ref.args[0], "")] = final[k]
            else:
                self.sset(post, k, final[k])
        for (key, val) in (nxt.heap.items() if not nxt.dead else ()):
            if key not in post.heap and key[0] > 0 and self.loc[key[0]].origin not in ("alloc", "loop"):
                post.heap[key] = val
        self.st = post
        kind = final.get(KIND)
        ends = []
        if kind is not None:
            for i, e in enumerate(exits):
                s2 = post.copy()
                self.assume(s2, eq(kind, const(i + 1)))
                if s2.dead:
                    continue
                if e.kind == "return":
                    self.frames[-1].returns.append(Exit("return", s2, final[RETV], e.node))
                elif e.kind == "raise":
                    self.raises[-1].append(Exit("raise", s2, e.val, e.node))
            leave = [eq(kind, const(i + 1)) for i, e in enumerate(exits) if e.kind in ("return", "raise")]
            ok = not_(or_(*leave)) if leave else TRUE
            brk = or_(*[eq(kind, const(i + 1)) for i, e in enumerate(exits) if e.kind == "break"])
            self.assume(self.st, ok)
            if n is INF and not any(e.kind in ("break", "end") for e in exits):
                self.st.dead = True
            if orelse and not self.st.dead:
                self.fork(brk, lambda: None, lambda: self.exec_block(orelse))
        else:
            if n is INF and not exits:
                self.st.dead = True
            if orelse and not self.st.dead:
                self.exec_block(orelse)

    # ------------------------------------------------------------ expressions

    def eval(self, e):
        if self.st.dead:
            return UNDEF
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} at {self.where(e)}")
        return m(e)

    def e_Constant(self, e):
        return const(e.value)

    def e_Name(self, e):
        return self.load_name(e.id, e)

    def load_name(self, name, node):
        fr = self.frames[-1]
        f = fr
        while f is not None:
            v = self.st.vars.get((f.fid, name))
            if v is not None:
                return v
            f = f.parent
        r = self.prog.lookup(fr.module.name, name)
        if r is not None:
            return self.from_lookup(r, name)
        if name in BUILTINS or name in BUILTIN_EXC:
            return mk("builtin", name)
        if name == "__file__":
            return const(f"<{fr.module.name}>")
        if name == "__name__":
            return const(fr.module.name)
        return self.opaque("name:" + name)

    def from_lookup(self, r, name):
        if r is None:
            return self.opaque("import:" + name)
        kind, p, m = r
        if kind == "func":
            return mk("func", m.name, p.name)
        if kind == "class":
            return mk("class", p)
        if kind == "mod":
            return mk("ext", p) if p not in self.prog.modules else mk("module", p)
        if kind == "ext":
            return mk("ext", p)
        if kind == "built":
            v = self.module_run(m).get(p)
            return v if v is not None else self.opaque("global:" + name)
        # module level assignment: evaluated once, static
        return self.static_value(("mod", m.name, id(p)), m, None, p, f"{m.name}.{name}")

    def module_run(self, m):
        """values of the globals a module builds by more than one statement"""
        key = ("run", m.name)
        if key in self.static_done:
            return self.static_done[key]
        self.static_done[key] = {}
        save, self.st = self.st, State()
        fr = self.enter(m, None, None)
        mark, unk = self.nloc, len(self.unknown)
        for n in m.tree.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                continue
            if self.st.dead:
                break
            self.exec(n)
        self.frames.pop()
        self.static_heap.update(self.st.heap)
        for l in range(mark + 1, self.nloc + 1):
            if l in self.loc:
                self.loc[l].origin = "static"
                self.loc[l].label = m.name
        res = {k[1]: v for k, v in self.st.vars.items() if k[0] == fr.fid}
        self.st = save
        del self.unknown[unk:]
        self.static_done[key] = res
        return res

    def static_value(self, key, module, cls, expr, label):
        if key in self.static_done:
            return self.static_done[key]
        nunk = len(self.unknown)
        self.static_done[key] = self.opaque("cyclic static " + label)
        del self.unknown[nunk:]
        save, self.st = self.st, State()
        fr = self.enter(module, cls, None)
        if cls is not None:
            # class body names are visible in class level expressions
            for a, x in cls.attrs.items():
                if x is expr:
                    break
                if not isinstance(expr, (ast.Name, ast.Constant)):
                    self.st.vars[(fr.fid, a)] = self.static_value(("cls", cls.qual, a), cls.module, cls, x, f"{cls.name}.{a}")
        mark = self.nloc
        try:
            v = self.eval(expr)
        except Unsupported as ex:
            v = self.opaque("static:" + label)
        self.frames.pop()
        self.static_heap.update(self.st.heap)
        for l in range(mark + 1, self.nloc + 1):
            if l in self.loc:
                self.loc[l].origin = "static"
                self.loc[l].label = label
        self.st = save
        self.static_done[key] = v
        return v

    def e_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr, e)

    def class_attr(self, qual, name):
        for c in self.prog.mro(qual):
            if name in c.attrs:
                return self.static_value(("cls", c.qual, name), c.module, c, c.attrs[name], f"{c.name}.{name}")
        return None

    def obj_class(self, v):
        if v.op == "ref":
            i = self.info(v)
            return i.cls if i.kind == "obj" else None
        if isinstance(v.ty, tuple) and v.ty[0] == "obj":
            return v.ty[1]
        if v.op == "objval":
            return v.args[0]
        return None

    def getattr(self, o, name, node):
        if self.st.dead:
            return UNDEF
        op = o.op
        if op == "lib" and self.hook is not None:
            v = self.hook(o, "." + name, [], {}, node)
            if v is not None:
                return v
        if op == "ite" and (self.has_ref(o) or o.args[1].op in ("class", "objval", "func") or o.args[2].op in ("class", "objval", "func") or self.obj_class(o.args[1]) or self.obj_class(o.args[2])):
            return self.fork(o.args[0], lambda: self.getattr(o.args[1], name, node), lambda: self.getattr(o.args[2], name, node))
        if op == "module":
            r = self.prog.lookup(o.args[0], name)
            if r is None and name in ("__name__", "__file__"):
                return const(o.args[0])
            return self.from_lookup(r, name)
        if op == "ext":
            q = f"{o.args[0]}.{name}"
            if q == "math.inf":
                return INF
            return mk("ext", q)
        if op == "class":
            v = self.class_attr(o.args[0], name)
            if v is not None:
                return v
            r = self.prog.method(o.args[0], name)
            if r:
                c, fn = r
                if name in c.classm:
                    return mk("bound", o, mk("meth", c.qual, name))
                return mk("meth", c.qual, name)
            if name == "__name__":
                return const(o.args[0].split(".")[-1])
            return self.opaque(f"class attribute {name}")
        if op == "super":
            q, slf = o.args
            for c in self.prog.mro(q)[1:]:
                if name in c.methods:
                    return mk("bound", slf, mk("meth", c.qual, name))
            return mk("bound", slf, mk("objmeth", name))
        cls = self.obj_class(o)
        if cls is not None and cls in self.prog.classes:
            for c in self.prog.mro(cls):
                if name in c.props:
                    return self.call_func(c.props[name], c.module, c, [o], {}, site=node)
            if op == "objval":
                for k, v in o.args[1]:
                    if cval(k) == name:
                        return v
            if op == "ref":
                v = self.hget(o.args[0], name)
                if v is not None:
                    return v
            r = self.prog.method(cls, name)
            if r:
                c, fn = r
                if name in c.static:
                    return mk("meth", c.qual, name)
                if name in c.classm:
                    return mk("bound", mk("class", cls), mk("meth", c.qual, name))
                return mk("bound", o, mk("meth", c.qual, name))
            v = self.class_attr(cls, name)
            if v is not None:
                return v
            if name == "__class__":
                return mk("class", cls)
            if op == "ref":
                i = self.info(o)
                if i.origin in ("alloc", "loop") and name not in ("__dict__",):
                    # never assigned on this path
                    self.events.append(("missing-attr", self.where(node), self.st.pc, (o, name)))
                    if self.missing_raises:
                        self.raise_(mk("exc", "AttributeError", ()), node)
                        return UNDEF
                ty = self.field_type(cls, name)
                v = sym(f"{i.label}.{name}", ty=ty)
                self.st.heap[(o.args[0], name)] = v
                return v
            return mk("attr", o, name, ty=self.field_type(cls, name))
        return mk("bound", o, mk("vmeth", name))

    FIELD_TYPES = {}

    def field_type(self, cls, name):
        return self.FIELD_TYPES.get((cls.rsplit(".", 1)[-1], name), "any")

    def setattr(self, o, name, v, node):
        if self.st.dead:
            return
        if o.op == "ref" and self.info(o).kind == "obj":
            cls = self.info(o).cls
            if cls in self.prog.classes:
                for c in self.prog.mro(cls):
                    if name in c.setters:
                        self.call_func(c.setters[name], c.module, c, [o, v], {}, site=node)
                        return
            self.events.append(("setattr", self.where(node), self.st.pc, (o, name, v)))
            self.st.heap[(o.args[0], name)] = v
        elif o.op == "ite":
            c = o.args[0]
            self.fork(c, lambda: self.setattr(o.args[1], name, v, node), lambda: self.setattr(o.args[2], name, v, node))
        elif o.op == "lib" and self.hook is not None and self.hook(o, "=" + name, [v], {}, node) is not None:
            pass
        else:
            self.events.append(("setattr", self.where(node), self.st.pc, (o, name, v)))
            if o.op != "opq":
                self.events.append(("mutate-value", self.where(node), self.st.pc, (o, name)))

    # subscripts

    def eval_index(self, s):
        if isinstance(s, ast.Slice):
            return mk("slicespec", self.eval(s.lower) if s.lower else NONE, self.eval(s.upper) if s.upper else NONE,
                      self.eval(s.step) if s.step else NONE)
        return self.eval(s)

    def e_Subscript(self, e):
        o = self.eval(e.value)
        k = self.eval_index(e.slice)
        return self.getitem(o, k, e)

    def getitem(self, o, k, node):
        if self.st.dead:
            return UNDEF
        if k.op == "ite" and is_const(k.args[1]) and is_const(k.args[2]) and self.deref(o).op in ("tuple", "list", "dict"):
            return self.fork(k.args[0], lambda: self.getitem(o, k.args[1], node), lambda: self.getitem(o, k.args[2], node))
        cls = self.obj_class(o)
        if cls in self.prog.classes:
            r = self.prog.method(cls, "__getitem__")
            if r:
                return self.call_func(r[1], r[0].module, r[0], [o, k], {}, site=node)
            p = self.record_parts(o)
            if p is not None:
                o = mk("tuple", *p)
        c = self.deref(o)
        if k.op == "slicespec":
            lo, hi, stp = k.args
            if c.op == "range":
                c = self.seq(o)
            r = tm.slice_(c, lo, hi, stp)
            if c.ty == "str" or c.op == "tuple":
                return r
            if self.has_ref(o) or is_listy(c):
                return self.alloc("list", node=node, content=r)
            return r
        if c.op in ("dict", "dupd") or c.ty == "dict" or (isinstance(c.ty, tuple) and c.ty[0] == "dict"):
            dflt = self.info(o).default if o.op == "ref" else None
            if dflt is not None and not dflt[1]:
                return self.gate(self.known(self.dict_has(c, k)), self.dict_get(c, k), ZERO)
            if dflt is not None:
                has = self.known(self.dict_has(c, k))
                if has is TRUE:
                    return self.dict_get(c, k)
                d = self.call(dflt[0], [], {}, node)
                if has is not FALSE:
                    d = self.gate(has, self.dict_get(c, k), d)
                self.set_content(o, lambda l: self.dict_set(l, k, d), node, "setdefault")
                return d
            return self.dget(o, c, k, node)
        if c.op == "range":
            n, f = self.range_view(*c.args)
            return add(c.args[0], mul(k, c.args[2]))
        if o.op in ("ref", "inner") and is_listy(c) and c.op in ("tab", "cat", "rev", "slice") and self.shared_refs(c):
            r = index(c, k)
            if r.op == "ref":
                return r
        if o.op in ("ref", "inner") and self.nested(c) and c.op not in ("list",):
            return mk("inner", o, self.norm_idx(c, k), ty=tm.elem_type(c))
        if c.op in ("tuple", "list") and not is_num_const(k):
            # symbolic index into a known sequence
            if k.ty == "bool" and len(c.args) >= 2:
                return self.gate(k, c.args[1], c.args[0])
            if self.has_ref(lst(*c.args)) or any(self.has_ref(x) for x in c.args):
                r = c.args[-1]
                for j in range(len(c.args) - 2, -1, -1):
                    r = ite(eq(k, const(j)), c.args[j], r)
                return r
        if self.catching and any("IndexError" in x for x in self.catching) and (is_listy(c) or c.op == "tuple" or c.ty == "str") and is_numeric(k):
            n = length(c)
            self.must(and_(lt(k, n), not_(lt(add(k, n), ZERO))), "IndexError", node)
            if self.st.dead:
                return UNDEF
        return index(c, k)

    def shared_refs(self, c):
        return any(x.op == "ref" for x in tm.subterms(c))

    def norm_idx(self, c, k):
        if is_num_const(k) and cval(k) < 0:
            return add(length(c), k)
        return k

    def dict_get(self, d, k):
        if d.op == "dict":
            for kk, v in d.args[0]:
                if kk is k or (is_const(kk) and is_const(k) and eq(kk, k) is TRUE):
                    return v
            if is_const(k) and all(is_const(kk) for kk, _ in d.args[0]):
                return UNDEF
            if d.args[0] and not is_const(k):
                ps = d.args[0]
                r = UNDEF
                for kk, v in reversed(ps):
                    r = self.gate(eq(k, kk), v, r)
                return r
        if d.op == "odict":
            ps = [(kk, p, v) for kk, p, v in d.args[0]]
            if is_const(k):
                for kk, p, v in ps:
                    if eq(kk, k) is TRUE:
                        return self.gate(p, v, UNDEF)
                return UNDEF
            r = UNDEF
            for kk, p, v in reversed(ps):
                r = self.gate(and_(p, eq(k, kk)), v, r)
            return r
        if d.op == "dupd":
            b, kk, v = d.args
            e = eq(k, kk)
            if e is TRUE:
                return v
            if e is FALSE:
                return self.dict_get(b, k)
            return self.gate(e, v, self.dict_get(b, k))
        if d.op == "ite":
            return self.gate(d.args[0], self.dict_get(d.args[1], k), self.dict_get(d.args[2], k))
        ty = d.ty[2] if isinstance(d.ty, tuple) and d.ty[0] == "dict" and len(d.ty) > 2 else "any"
        return mk("dget", d, k, ty=ty)

    def dict_has(self, d, k):
        if d.op == "dict":
            cs = [eq(k, kk) for kk, _ in d.args[0]]
            return or_(*cs)
        if d.op == "odict":
            return or_(*[and_(p, eq(k, kk)) for kk, p, _ in d.args[0]])
        if d.op == "dupd":
            return or_(eq(k, d.args[1]), self.dict_has(d.args[0], k))
        if d.op == "ite":
            return ite(d.args[0], self.dict_has(d.args[1], k), self.dict_has(d.args[2], k))
        return mk("dhas", d, k, ty="bool")

    def must(self, cond, exc, node):
        """an operation that raises exc unless cond; followed only where some
        handler may catch it (elsewhere the value is simply missing)"""
        if not any(exc in c for c in self.catching):
            return
        cond = self.known(cond)
        if cond is TRUE:
            return
        s2 = self.st.copy()
        self.assume(s2, not_(cond))
        if not s2.dead:
            self.raises[-1].append(Exit("raise", s2, mk("exc", exc, ()), (self.where(node), ())))
        self.assume(self.st, cond)

    def dget(self, o, d, k, node):
        if any("KeyError" in c for c in self.catching):
            self.must(self.dict_has(d, k), "KeyError", node)
            if self.st.dead:
                return UNDEF
        v = self.dict_get(d, k)
        if o.op == "inner" and v.ty in ("list", "dict"):
            return mk("inner", o, k, ty=v.ty)
        return v

    def dict_set(self, d, k, v):
        if d.op == "dict":
            ps = list(d.args[0])
            for i, (kk, _) in enumerate(ps):
                if kk is k or (is_const(kk) and is_const(k) and eq(kk, k) is TRUE):
                    ps[i] = (kk, v)
                    return mk("dict", tuple(ps), ty=d.ty)
            if is_const(k) and all(is_const(kk) for kk, _ in ps):
                return mk("dict", tuple(ps) + ((k, v),), ty=d.ty)
        if d.op == "odict" and is_const(k):
            ps = list(d.args[0])
            for i, (kk, p, _) in enumerate(ps):
                if eq(kk, k) is TRUE:
                    ps[i] = (kk, TRUE, v)
                    return self.mk_odict(ps)
            return self.mk_odict(ps + [(k, TRUE, v)])
        if d.op == "dupd" and d.args[1] is k:
            return mk("dupd", d.args[0], k, v, ty=d.ty)
        if d.op == "ite":
            return self.gate(d.args[0], self.dict_set(d.args[1], k, v), self.dict_set(d.args[2], k, v))
        return mk("dupd", d, k, v, ty=d.ty)

    def setitem(self, o, k, v, node):
        if self.st.dead:
            return
        if self.has_ref(o):
            vv = v
            kind = None

            def fn(c):
                if c.op in ("dict", "dupd") or c.ty == "dict" or (isinstance(c.ty, tuple) and c.ty[0] == "dict"):
                    return self.dict_set(c, k, vv)
                kk = k
                if is_num_const(k) and cval(k) < 0 and not c.op == "list":
                    kk = add(length(c), k)
                x = vv
                if self.has_ref(x) and c.op != "list" and self.info_kind(x) != "obj":
                    for y in tm.subterms(x):
                        if y.op == "ref":
                            self.copied[y.args[0]] = self.where(node)
                    x = self.purify(x)
                return tm.upd(c, kk, x)

            self.set_content(o, fn, node, "item")
        else:
            self.events.append(("mutate-value", self.where(node), self.st.pc, (o, "item")))

    def info_kind(self, v):
        if v.op == "ref":
            return self.info(v).kind
        return None

    # displays

    def e_List(self, e):
        return self.alloc("list", node=e, content=self.display(e.elts))

    def display(self, elts):
        out = []
        cats = []
        for x in elts:
            if isinstance(x, ast.Starred):
                s = self.seq(self.eval(x.value))
                if s.ty == "str":
                    i = tm.fresh("i")
                    s = tab_close(length(s), i, index(s, i))
                if s.op in ("list", "tuple"):
                    out.extend(s.args)
                else:
                    cats.append(lst(*out))
                    cats.append(s)
                    out = []
            else:
                out.append(self.eval(x))
        if cats:
            return tm.cat(*cats, lst(*out))
        return lst(*out)

    def e_Tuple(self, e):
        d = self.display(e.elts)
        if d.op == "list":
            return mk("tuple", *d.args, ty="tuple")
        return d

    def e_Set(self, e):
        return self.alloc("set", node=e, content=mk("setof", self.display(e.elts), ty="set"))

    def e_Dict(self, e):
        d = mk("dict", (), ty="dict")
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.deref(self.eval(v))
                if o.op == "dict":
                    for kk, vv in o.args[0]:
                        d = self.dict_set(d, kk, vv)
                elif d.op == "dict" and not d.args[0]:
                    d = o
                else:
                    d = mk("dmerge", d, o, ty="dict")
            else:
                kk = self.eval(k)
                d = self.dict_set(d, kk, self.eval(v))
        return self.alloc("dict", node=e, content=d)

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.eval(v.value)
                spec = const("")
                if v.format_spec is not None:
                    spec = self.e_JoinedStr(v.format_spec)
                conv = chr(v.conversion) if v.conversion and v.conversion > 0 else ""
                parts.append(self.fmt(x, spec, conv))
        return self.strcat(parts)

    def e_FormattedValue(self, e):
        return self.e_JoinedStr(ast.JoinedStr(values=[e]))

    def fmt(self, x, spec, conv=""):
        if x.op == "ite" and spec.op == "const":
            return ite(x.args[0], self.fmt(x.args[1], spec, conv), self.fmt(x.args[2], spec, conv))
        if spec.op == "const" and cval(spec) == "" and conv in ("", "s"):
            return self.to_str(x)
        if x.op == "const" and spec.op == "const" and x.args[0] in ("int", "str", "bool") and not conv:
            try:
                return const(format(cval(x), cval(spec)))
            except (ValueError, TypeError):
                pass
        return mk("fmt", self.purify(x), spec, conv, ty="str")

    def strcat(self, parts):
        out = []
        for p in parts:
            for q in p.args if p.op == "strcat" else (p,):
                if q.op == "const" and q.ty == "str":
                    if cval(q) == "":
                        continue
                    if out and out[-1].op == "const":
                        out[-1] = const(cval(out[-1]) + cval(q))
                        continue
                out.append(q)
        if not out:
            return const("")
        if len(out) == 1:
            return out[0]
        # distribute short gates of constants
        gates = [i for i, q in enumerate(out) if q.op == "ite"]
        if len(gates) == 1 and len(out) <= 6:
            i = gates[0]
            q = out[i]
            return ite(q.args[0], self.strcat(out[:i] + [q.args[1]] + out[i + 1:]), self.strcat(out[:i] + [q.args[2]] + out[i + 1:]))
        return mk("strcat", *out, ty="str")

    def to_str(self, x):
        if x.ty == "str" or x.op in ("strcat", "fmt"):
            return x
        if x.op == "const":
            v = cval(x)
            if x.args[0] in ("int", "str", "none", "bool", "float"):
                if x.args[0] == "int" and x.ty == "float":
                    return const(str(float(v)))
                return const(str(v))
        cls = self.obj_class(x)
        if cls in self.prog.classes:
            for nm in ("__str__", "__repr__"):
                r = self.prog.method(cls, nm)
                if r:
                    return self.call(mk("bound", x, mk("meth", r[0].qual, nm)), [], {}, None)
        if x.op == "ite":
            return ite(x.args[0], self.to_str(x.args[1]), self.to_str(x.args[2]))
        return mk("str", self.purify(x), ty="str")

    # operators

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if self.st.dead:
            return UNDEF
        if isinstance(e.op, ast.Not):
            return not_(self.known(self.truth(v)))
        if isinstance(e.op, ast.USub):
            if v.op == "const" and v.args[0] == "float":
                return const(-cval(v))
            return neg(self.num(v))
        if isinstance(e.op, ast.UAdd):
            return v
        if is_num_const(v):
            return const(~int(cval(v)))
        return sub(neg(v), ONE)

    def num(self, v):
        return v

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        if self.st.dead:
            return UNDEF
        return self.binop(e.op, a, b, e)

    DUNDER = {
        ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.BitAnd: "and", ast.BitOr: "or",
        ast.LShift: "lshift", ast.RShift: "rshift", ast.BitXor: "xor", ast.Mod: "mod",
        ast.FloorDiv: "floordiv", ast.Div: "truediv", ast.Pow: "pow",
    }

    def binop(self, op, a, b, node=None):
        nm = self.DUNDER.get(type(op))
        for x, y, pre in ((a, b, "__"), (b, a, "__r")):
            cls = self.obj_class(x)
            if cls in self.prog.classes and nm:
                r = self.prog.method(cls, pre + nm + "__")
                if r:
                    return self.call_func(r[1], r[0].module, r[0], [x, y], {}, site=node)
        if isinstance(op, ast.Add):
            return self.plus(a, b, node)
        if isinstance(op, ast.Mult):
            ca, cb = self.deref(a), self.deref(b)
            for x, y, r in ((ca, cb, a), (cb, ca, b)):
                if x.ty == "str" and x.op == "const":
                    if is_num_const(y):
                        return const(cval(x) * int(cval(y)))
                    return mk("strrep", x, y, ty="str")
                if x.ty == "str":
                    return mk("strrep", x, y, ty="str")
                if (is_listy(x) or x.op == "tuple") and (self.has_ref(r) or is_listy(x) or x.op == "tuple"):
                    return self.repeat(x, y, node)
            return mul(a, b)
        if isinstance(op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)):
            ca, cb = self.deref(a), self.deref(b)
            if ca.ty == "set" or cb.ty == "set":
                return self.alloc("set", node=node, content=self.set_op(nm, ca, cb))
            if isinstance(op, ast.BitOr) and ca.ty == "dict" and cb.ty == "dict":
                return self.alloc("dict", node=node, content=self.dict_merge(ca, cb))
        if isinstance(op, ast.Sub):
            return sub(a, b)
        if isinstance(op, ast.FloorDiv):
            return self.gated2(tm.fdiv, a, b, node)
        if isinstance(op, ast.Mod):
            if a.ty == "str":
                return mk("pctfmt", a, self.purify(b), ty="str")
            return self.gated2(tm.mod, a, b, node)
        if isinstance(op, ast.Div):
            return self.gated2(tm.tdiv, a, b, node)
        if isinstance(op, ast.Pow):
            return tm.power(a, b)
        return self.bitop(nm, a, b)

    def gated2(self, f, a, b, node=None):
        if self.catching and is_numeric(b):
            self.must(not_(tm.eq0(b)), "ZeroDivisionError", node)
            if self.st.dead:
                return UNDEF
        return f(a, b)

    def set_op(self, nm, ca, cb):
        ca, cb = (x if x.ty == "set" else mk("setof", self.purify(x), ty="set") for x in (ca, cb))
        if nm == "or" and ca.op == cb.op == "setof":
            return mk("setof", tm.cat(ca.args[0], cb.args[0]), ty="set")
        return mk({"sub": "setdiff", "and": "setand", "or": "setor", "xor": "setxor"}[nm], ca, cb, ty="set")

    def dict_merge(self, d, o):
        if o.op == "dict":
            for kk, vv in o.args[0]:
                d = self.dict_set(d, kk, vv)
            return d
        if d.op == "dict" and not d.args[0] and o.ty == "dict":
            return o
        return mk("dmerge", d, self.purify(o), ty="dict")

    def bitop(self, nm, a, b):
        if is_num_const(a) and is_num_const(b):
            x, y = int(cval(a)), int(cval(b))
            if nm == "and":
                return const(x & y)
            if nm == "or":
                return const(x | y)
            if nm == "xor":
                return const(x ^ y)
            if nm == "lshift" and 0 <= y < 4096:
                return const(x << y)
            if nm == "rshift" and 0 <= y:
                return const(x >> y)
        if nm == "and" and a.ty == "bool" and b.ty == "bool":
            return and_(a, b)
        if nm == "or" and a.ty == "bool" and b.ty == "bool":
            return or_(a, b)
        if nm == "lshift" and is_num_const(b):
            return mul(a, const(2 ** int(cval(b))))
        if nm == "lshift" and is_num_const(a) and cval(a) == 1:
            return tm.power(const(2), b)
        if nm == "rshift" and is_num_const(b):
            return tm.fdiv(a, const(2 ** int(cval(b))))
        if nm in ("and", "or", "xor"):
            o = {}
            for x in (a, b):
                for y in x.args if x.op == "bit" + nm else (x,):
                    o[y.id] = y
            xs = sorted(o.values(), key=lambda z: z.id)
            if len(xs) == 1 and nm != "xor":
                return xs[0]
            return mk("bit" + nm, *xs, ty="int")
        if nm is None:
            return self.opaque("operator", [], [a, b])
        return mk("bit" + nm, a, b, ty="int")

    def plus(self, a, b, node):
        ca, cb = self.deref(a), self.deref(b)
        if ca.ty == "str" or cb.ty == "str":
            return self.strcat([a, b])
        if ca.op == "tuple" and cb.op == "tuple":
            return mk("tuple", *(ca.args + cb.args), ty="tuple")
        if is_listy(ca) or is_listy(cb) or self.has_ref(a) or self.has_ref(b):
            sa, sb = self.seq(a), self.seq(b)
            if (ca.op == "tuple" or ca.ty == "tuple") and (cb.op == "tuple" or cb.ty == "tuple"):
                return tm.cat(sa, sb)
            return self.alloc("list", node=node, content=tm.cat(sa, sb))
        if any((x.ty[0] if isinstance(x.ty, tuple) else x.ty) in ("tuple", "list") for x in (ca, cb)):
            return tm.cat(ca, cb)
        return add(a, b)

    def repeat(self, x, y, node):
        if is_num_const(y):
            k = max(0, int(cval(y)))
            if k * len(x.args if x.op in ("list", "tuple") else ()) <= 4096 and x.op in ("list", "tuple"):
                r = mk(x.op, *(x.args * k), ty=x.ty)
                return self.alloc("list", node=node, content=r) if x.op == "list" else r
        if x.op == "list" and len(x.args) == 1:
            v = tm.fresh("i")
            el = x.args[0]
            if self.has_ref(el) and self.info_kind(el) != "obj":
                self.events.append(("shared-rows", self.where(node), self.st.pc, el))
                el = self.purify(el)
            # negative counts give the empty list; the analysed counts are sizes
            return self.alloc("list", node=node, content=tab_close(self.size(y), v, el))
        r = mk("repeat", x, y, ty="list")
        return self.alloc("list", node=node, content=r)

    def size(self, n):
        b = tm.bounds(n)
        if b[0] is not None and b[0] >= 0:
            return n
        if n.op in ("sym", "attr", "len"):
            return n
        return tm.minmax(False, [n, ZERO])

    def seq(self, v):
        """sequence term (list content) of any iterable value"""
        if v.op == "lib" and self.hook is not None:
            x = self.hook(v, "=iter", [], {}, None)
            v = v if x is None else x
        v = self.iterated(self.ungen(v))
        p = self.record_parts(v)
        if p is not None:
            return lst(*p)
        c = self.deref(v)
        if c.ty == "dict" and c.op != "dict":
            return mk("keys", c, ty="list")
        if c.op == "setof":
            return c
        if c.op in ("range", "zip", "enumerate", "items", "values", "dict", "count") or (c.op == "const" and c.ty == "str"):
            n, f = self.view(v, None)
            if isinstance(n, int):
                return lst(*[f(k) for k in range(n)])
            if n is INF:
                return c
            i = tm.fresh("i")
            return tab_close(n, i, self.purify(f(i)))
        if c.op == "tuple":
            return lst(*c.args)
        return c

    def e_BoolOp(self, e):
        return self.boolop(isinstance(e.op, ast.And), e.values)

    def boolop(self, is_and, vals):
        a = self.eval(vals[0])
        if self.st.dead or len(vals) == 1:
            return a
        c = self.known(self.truth(a))
        rest = lambda: self.boolop(is_and, vals[1:])
        if c is TRUE:
            return rest() if is_and else a
        if c is FALSE:
            return a if is_and else rest()
        if is_and:
            return self.fork(c, rest, lambda: a if a.ty != "bool" else FALSE)
        return self.fork(c, lambda: a if a.ty != "bool" else TRUE, rest)

    def e_Compare(self, e):
        left = self.eval(e.left)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            if self.st.dead:
                return UNDEF
            out.append(self.compare(op, left, right, e))
            left = right
        if len(out) == 1:
            return out[0]
        return and_(*[self.truth(x) for x in out])

    def compare(self, op, a, b, node):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.equal(a, b, node)
            return r if isinstance(op, ast.Eq) else not_(self.truth(r))
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.same(a, b)
            return r if isinstance(op, ast.Is) else not_(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else not_(r)
        ca, cb = self.deref(a), self.deref(b)
        if ca.ty == "set" and cb.ty == "set":
            if isinstance(op, (ast.Gt, ast.GtE)):
                ca, cb = cb, ca
            return self.known(self.set_less(ca, cb, isinstance(op, (ast.Lt, ast.Gt))))
        if isinstance(op, ast.Lt):
            return self.known(self.less(a, b))
        if isinstance(op, ast.Gt):
            return self.known(self.less(b, a))
        if isinstance(op, ast.LtE):
            return self.known(not_(self.less(b, a)))
        return self.known(not_(self.less(a, b)))

    def set_less(self, ca, cb, strict):
        sub_ = mk("subset", ca, cb, ty="bool")
        return and_(sub_, not_(mk("subset", cb, ca, ty="bool"))) if strict else sub_

    def less(self, a, b):
        if is_const(a) and is_const(b) and "none" not in (a.ty, b.ty):
            try:
                return const(cval(a) < cval(b))
            except TypeError:
                pass
        for x, y, nm in ((a, b, "__lt__"), (b, a, "__gt__")):
            cls = self.obj_class(x)
            if cls in self.prog.classes:
                r = self.prog.method(cls, nm)
                if r:
                    return self.truth(self.call_func(r[1], r[0].module, r[0], [x, y], {}))
        if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args) and a.args:
            r = self.less(a.args[-1], b.args[-1])
            for x, y in reversed(list(zip(a.args[:-1], b.args[:-1]))):
                r = or_(self.less(x, y), and_(eq(x, y), r))
            return r
        ca, cb = self.deref(a), self.deref(b)
        if is_listy(ca) or is_listy(cb) or a.ty == "str" or b.ty == "str":
            return mk("ltx", ca, cb, ty="bool")
        return tm.lt0(sub(a, b))

    def equal(self, a, b, node=None):
        for x, y in ((a, b), (b, a)):
            cls = self.obj_class(x)
            if cls in self.prog.classes:
                r = self.prog.method(cls, "__eq__")
                if r:
                    return self.call_func(r[1], r[0].module, r[0], [x, y], {}, site=node)
        if a.op == "ref" and b.op == "ref" and a is b:
            return TRUE
        pa, pb = self.purify(a), self.purify(b)
        if is_listy(pa) and is_listy(pb):
            return self.known(self.list_eq(pa, pb))
        return self.known(eq(pa, pb))

    def list_eq(self, a, b):
        if a is b:
            return TRUE
        if a.op == "list" and b.op == "list":
            if len(a.args) != len(b.args):
                return FALSE
            return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
        for x, y in ((a, b), (b, a)):
            if x.op == "list" and not x.args:
                return tm.eq0(length(y))
        x, y = sorted((a, b), key=lambda z: z.id)
        return mk("eq", x, y, ty="bool")

    def same(self, a, b):
        if a is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if x is NONE:
                if y.op in ("ref", "inner", "tuple", "func", "class", "closure", "bound", "objval", "lib") or is_listy(y):
                    return FALSE
                return self.known(eq(y, NONE))
        if is_const(a) and is_const(b):
            return eq(a, b)
        if a.op == "ref" and b.op == "ref":
            return FALSE
        if a.ty == "bool" or b.ty == "bool":
            return self.known(eq(a, b)) if a.ty == b.ty else mk("is", a, b, ty="bool")
        return mk("is", a, b, ty="bool")

    def iterated(self, v):
        """an object of the package as the iterable its __iter__ returns"""
        cls = self.obj_class(v)
        if cls in self.prog.classes:
            r = self.prog.method(cls, "__iter__")
            if r:
                return self.ungen(self.call_func(r[1], r[0].module, r[0], [v], {}))
        return v

    def contains(self, cont, x):
        cls = self.obj_class(cont)
        if cls in self.prog.classes:
            r = self.prog.method(cls, "__contains__")
            if r:
                return self.truth(self.call_func(r[1], r[0].module, r[0], [cont, x], {}))
            cont = self.iterated(cont)
        c = self.deref(cont)
        if c.op == "dict":
            return self.known(self.dict_has(c, x))
        if c.op in ("list", "tuple"):
            return self.known(or_(*[self.truth(self.equal(x, y)) for y in c.args]))
        if c.op == "setof":
            return self.contains(c.args[0], x)
        if c.op == "const" and c.ty == "str" and x.op == "const":
            return const(cval(x) in cval(c))
        if c.op == "keys":
            return self.contains(c.args[0], x)
        if c.op == "range":
            lo, hi, stp = c.args
            if stp is ONE:
                return self.known(and_(not_(lt(x, lo)), lt(x, hi)))
        if c.op in ("dupd", "dget") or c.ty == "dict":
            return self.known(self.dict_has(c, x))
        if is_listy(c) or c.op == "tab":
            r = tm.as_tab(c)
            if r and is_numeric(x) and tm.elem_type(c) in ("int", "bool", "float"):
                v = tm.fresh("q")
                return not_(tm.all_close(r[0], v, not_(eq(r[1](v), x))))
        return self.known(mk("in", self.purify(x), self.purify(c), ty="bool"))

    def truth(self, v):
        cls = self.obj_class(v)
        if cls in self.prog.classes:
            for nm in ("__bool__", "__len__"):
                r = self.prog.method(cls, nm)
                if r:
                    return self.truth(self.call_func(r[1], r[0].module, r[0], [v], {}))
            return TRUE
        if v.op == "lib":
            return TRUE
        c = self.deref(v)
        if c.op in ("setof", "setdiff"):
            if c.op == "setof":
                return tm.truth(c.args[0]) if is_listy(c.args[0]) else mk("truth", c, ty="bool")
        return tm.truth(c)

    def e_IfExp(self, e):
        c = self.truth(self.eval(e.test))
        if self.st.dead:
            return UNDEF
        return self.fork(c, lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def e_Lambda(self, e):
        return self.closure(e, self.frames[-1])

    def e_Starred(self, e):
        return self.eval(e.value)

    def e_Await(self, e):
        return self.opaque("await")

    # comprehensions: hidden accumulator loops

    def e_ListComp(self, e):
        return self.comp(e.generators, lambda: self.eval(e.elt), e, "list")

    def e_GeneratorExp(self, e):
        return self.comp(e.generators, lambda: self.eval(e.elt), e, "list")

    def e_SetComp(self, e):
        r = self.comp(e.generators, lambda: self.eval(e.elt), e, "list")
        return self.alloc("set", node=e, content=mk("setof", self.deref(r), ty="set"))

    def e_DictComp(self, e):
        return self.comp(e.generators, lambda: (self.eval(e.key), self.eval(e.value)), e, "dict")

    def comp(self, gens, elt, node, kind):
        fr = self.frames[-1]
        sub_fr = self.enter(fr.module, fr.cls, fr.func, fr)
        acc = f"#acc{node.lineno}:{node.col_offset}"
        content = EMPTY if kind == "list" else mk("dict", (), ty="dict")
        ref = self.alloc(kind, node=node, content=content)
        self.st.vars[(sub_fr.fid, acc)] = ref
        nl0 = self.nloc

        def level(i):
            if i == len(gens):
                v = elt()
                if self.st.dead:
                    return
                if kind == "dict":
                    self.st.heap[(ref.args[0], "")] = self.dict_set(self.deref(ref), v[0], v[1])
                else:
                    # elements allocated inside a symbolic comprehension are values
                    if self.has_ref(v) and self.in_sym > 0 and self.fresh_since(v, nl0):
                        v = self.purify(v)
                    self.st.heap[(ref.args[0], "")] = tm.cat(self.deref(ref), lst(v))
                return
            g = gens[i]
            it = self.eval(g.iter)
            if self.st.dead:
                return
            n, elem = self.view(it, node)

            def body():
                for c in g.ifs:
                    t = self.known(self.truth(self.eval(c)))
                    if t is TRUE:
                        continue
                    conds.append(t)
                    s_skip = self.st.copy()
                    self.assume(s_skip, not_(t))
                    if not s_skip.dead:
                        self.frames[-1].loops[-1][1].append(Exit("continue", s_skip, None, node))
                    self.assume(self.st, t)
                    if self.st.dead:
                        return
                level(i + 1)

            conds = []
            sy = not isinstance(n, int) or n > MAX_UNROLL
            self.in_sym += sy
            self.loop(n, elem, lambda v: self.assign(g.target, v), body, g.target)
            self.in_sym -= sy

        level(0)
        self.frames.pop()
        for k in [k for k in self.st.vars if k[0] == sub_fr.fid]:
            if not any(c[3] == sub_fr.fid for c in self.clos.values()):
                del self.st.vars[k]
        return ref

    in_sym = 0

    def fresh_since(self, v, mark):
        if v.op == "ref":
            return v.args[0] > mark
        if v.op == "ite":
            return self.fresh_since(v.args[1], mark) or self.fresh_since(v.args[2], mark)
        return False

    # calls

    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            r = self.prog.lookup(self.frames[-1].module.name, "super")
            if r is None:
                fr = self.frames[-1]
                f = fr
                while f.cls is None or f.func is None or not isinstance(f.func, ast.FunctionDef):
                    f = f.parent
                first = f.func.args.args[0].arg
                return mk("super", f.cls.qual, self.st.vars[(f.fid, first)])
        fn = self.eval(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                p = self.parts(v)
                if p is not None:
                    args.extend(p)
                else:
                    args.append(("*", self.seq(v)))
            else:
                args.append(self.eval(a))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value)
                dd = self.deref(d)
                if dd.op == "dict" and all(is_const(kk) for kk, _ in dd.args[0]):
                    for kk, vv in dd.args[0]:
                        kwargs[cval(kk)] = vv
                else:
                    kwargs["**"] = d
            else:
                kwargs[k.arg] = self.eval(k.value)
        if self.st.dead:
            return UNDEF
        return self.call(fn, args, kwargs, e)

    def call(self, fn, args, kwargs, node):
        if self.st.dead:
            return UNDEF
        op = fn.op
        if op == "ite":
            return self.fork(fn.args[0], lambda: self.call(fn.args[1], args, kwargs, node), lambda: self.call(fn.args[2], args, kwargs, node))
        if op == "func":
            q = f"{fn.args[0]}.{fn.args[1]}"
            m = self.prog.modules[fn.args[0]]
            if q in self.contracts:
                return self.contracts[q](self, None, args, kwargs, node)
            return self.call_func(m.globals[fn.args[1]][1], m, None, args, kwargs, site=node)
        if op == "closure":
            nd, m, cls, fid, fr = self.clos[fn.args[0]]
            return self.call_func(nd, m, cls, args, kwargs, parent=fr, site=node)
        if op == "meth":
            q = f"{fn.args[0].rsplit('.', 1)[-1]}.{fn.args[1]}"
            c = self.prog.classes[fn.args[0]]
            if q in self.contracts:
                recv = args[0] if args and fn.args[1] not in c.static else None
                return self.contracts[q](self, recv, args[1:] if recv is not None else args, kwargs, node)
            return self.call_func(c.methods[fn.args[1]], c.module, c, args, kwargs, site=node)
        if op == "bound":
            recv, m = fn.args
            if m.op == "meth":
                q = f"{m.args[0].rsplit('.', 1)[-1]}.{m.args[1]}"
                c = self.prog.classes[m.args[0]]
                if q in self.contracts:
                    return self.contracts[q](self, recv, args, kwargs, node)
                return self.call_func(c.methods[m.args[1]], c.module, c, [recv] + list(args), kwargs, site=node)
            return self.method(recv, m.args[0], args, kwargs, node)
        if op == "class":
            return self.construct(fn.args[0], args, kwargs, node)
        if op == "builtin":
            return self.builtin(fn.args[0], args, kwargs, node)
        if op == "ext":
            return self.external(fn.args[0], args, kwargs, node)
        if op == "partial":
            f, a0, k0 = fn.args
            return self.call(f, list(a0) + list(args), {**{k: v for k, v in k0}, **kwargs}, node)
        if op == "itemgetter":
            x = args[0]
            vs = [self.getitem(x, k, node) for k in fn.args]
            return vs[0] if len(vs) == 1 else mk("tuple", *vs, ty="tuple")
        if op == "attrgetter":
            return self.getattr(args[0], cval(fn.args[0]), node)
        if op == "opfn":
            return self.opfn(fn.args[0], args, node)
        cls = self.obj_class(fn)
        if cls in self.prog.classes:
            r = self.prog.method(cls, "__call__")
            if r:
                return self.call_func(r[1], r[0].module, r[0], [fn] + list(args), kwargs, site=node)
        self.events.append(("call-unknown", self.where(node), self.st.pc, (fn, tuple(a for a in args if isinstance(a, T)))))
        return self.opaque("call", [fn], args)

    def construct(self, q, args, kwargs, node):
        if q in self.contracts:
            return self.contracts[q](self, None, args, kwargs, node)
        cls = self.prog.cls(q)
        if self.prog.base_names(q) & set(BUILTIN_EXC):
            return mk("exc", q, tuple(self.purify(a) for a in args if isinstance(a, T)))
        if "TypedDict" in self.prog.base_names(q):
            return self.alloc("dict", node=node, content=mk("dict", tuple((const(k), v) for k, v in kwargs.items()), ty="dict"))
        ref = self.alloc("obj", cls=q, label=cls.name.lower(), node=node)
        r = self.prog.method(q, "__init__")
        if f"{cls.name}.__init__" in self.contracts:
            self.contracts[f"{cls.name}.__init__"](self, ref, args, kwargs, node)
        elif r:
            self.call_func(r[1], r[0].module, r[0], [ref] + list(args), kwargs, site=node)
        else:
            self.init_record(q, ref, list(args), dict(kwargs), node)
        return ref

    def init_record(self, q, ref, args, kwargs, node):
        fields = {}
        for c in reversed(self.prog.mro(q)):
            for f in c.record_fields() or ():
                fields[f] = c
        if any(isinstance(a, tuple) for a in args) or "**" in kwargs:
            raise Unsupported("unpacked arguments to a record")
        for f, c in fields.items():
            if args:
                v = args.pop(0)
            elif f in kwargs:
                v = kwargs.pop(f)
            elif f in c.attrs:
                d = c.attrs[f]
                if isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] == "field":
                    kw = {k.arg: k.value for k in d.keywords}
                    if "default_factory" in kw:
                        v = self.call(self.eval_in(c, kw["default_factory"]), [], {}, node)
                    elif "default" in kw:
                        v = self.eval_in(c, kw["default"])
                    else:
                        v = UNDEF
                else:
                    v = self.class_attr(q, f)
            else:
                v = UNDEF
            self.st.heap[(ref.args[0], f)] = v
        r = self.prog.method(q, "__post_init__")
        if r and fields:
            self.call_func(r[1], r[0].module, r[0], [ref], {}, site=node)

    def eval_in(self, c, e):
        self.enter(c.module, c, None)
        try:
            return self.eval(e)
        finally:
            self.frames.pop()

    def record_parts(self, v):
        """elements of a named tuple object"""
        cls = self.obj_class(v)
        if cls in self.prog.classes and "NamedTuple" in self.prog.base_names(cls):
            fs = []
            for c in reversed(self.prog.mro(cls)):
                fs += [f for f in c.record_fields() or () if f not in fs]
            return [self.getattr(v, f, None) for f in fs]
        return None

    # the library: builtins, external functions, methods of values

    def builtin(self, name, args, kwargs, node):
        from . import lib
        return lib.builtin(self, name, args, kwargs, node)

    def external(self, name, args, kwargs, node):
        from . import lib
        return lib.external(self, name, args, kwargs, node)

    def method(self, recv, name, args, kwargs, node):
        from . import lib
        return lib.method(self, recv, name, args, kwargs, node)

    def opfn(self, name, args, node):
        from . import lib
        return lib.opfn(self, name, args, node)
