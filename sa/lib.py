"""Models of builtins, library functions and methods of built-in values."""
from . import terms as tm
from .terms import (
    EMPTY, FALSE, INF, NONE, ONE, T, TRUE, UNDEF, ZERO, add, and_, const, cval, eq,
    ftab_close, index, is_const, is_listy, is_num_const, is_numeric, ite, length,
    lst, lt, mk, mul, neg, not_, or_, sub, tab_close,
)
from .interp import BUILTIN_EXC, MAX_UNROLL


def tick(I):
    t = getattr(I, "tick", None)
    return () if t is None else (const(t),)


def _fold(I, xs, f, init):
    r = init
    for x in xs:
        r = x if r is None else f(r, x)
    return r


def seq_of(I, v):
    c = I.deref(v)
    if c.op in ("setof",):
        return c
    return I.seq(v)


def to_list(I, v, node):
    c = I.deref(v)
    if c.op == "setof":
        return mk("listofset", c, ty="list")
    if c.ty == "set":
        return mk("listofset", c, ty="list")
    return I.seq(v)


def builtin(I, name, args, kwargs, node):
    if name in BUILTIN_EXC:
        return mk("exc", name, tuple(I.purify(a) for a in args if isinstance(a, T)))
    f = globals().get("b_" + name)
    if f is None:
        I.events.append(("call-ext", I.where(node), I.st.pc, ("builtins." + name, tuple(a for a in args if isinstance(a, T)))))
        return I.opaque("builtin:" + name, [], args)
    if name in ("sum", "min", "max", "any", "all", "sorted", "list", "tuple", "set", "frozenset", "dict"):
        args = [I.ungen(a) if isinstance(a, T) else a for a in args]
    return f(I, args, kwargs, node)


def _conv(c):
    """gate-aware map over constants"""
    return c


def b_len(I, args, kw, node):
    v = args[0]
    cls = I.obj_class(v)
    if cls in I.prog.classes:
        r = I.prog.method(cls, "__len__")
        if r:
            return I.call_func(r[1], r[0].module, r[0], [v], {}, site=node)
    c = I.deref(v)
    if c.op == "setof":
        p = I.parts(c)
        if p is not None:
            return const(len(p))
        return mk("lenset", c.args[0], ty="int")
    if c.op == "dict":
        return const(len(c.args[0]))
    if c.op == "range":
        n, _ = I.range_view(*c.args)
        return const(n) if isinstance(n, int) else n
    return length(I.seq(v))


def b_range(I, args, kw, node):
    a = list(args)
    if len(a) == 1:
        lo, hi, st = ZERO, a[0], ONE
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], ONE
    else:
        lo, hi, st = a
    return mk("range", lo, hi, st)


def b_sum(I, args, kw, node):
    start = args[1] if len(args) > 1 else kw.get("start", ZERO)
    if start.op == "tuple" or is_listy(I.deref(start)):
        p = I.parts(args[0])
        if p is not None:
            r = start
            for x in p:
                r = I.plus(r, x, node)
            return r
        return tm.cat(I.seq(start), mk("flatten", I.seq(args[0]), ty="list"))
    p = I.parts(args[0])
    if p is not None:
        r = start
        for x in p:
            r = I.binop(__import__("ast").Add(), r, x, node)
        return r
    return add(start, tm.total(I.purify(I.seq(args[0]))))


def _extremum(I, args, kw, node, is_min):
    if any(isinstance(a, tuple) for a in args):
        # *list among the arguments: the extremum of the concatenation
        t = lst()
        for a in args:
            t = tm.cat(t, I.purify(I.seq(a[1])) if isinstance(a, tuple) else lst(a))
        args = [I.alloc("list", content=t)]
    if "key" in kw:
        L = args[0] if len(args) == 1 else I.alloc("list", content=lst(*args))
        p = I.parts(L)
        if p is not None:
            best, bk = p[0], I.call(kw["key"], [p[0]], {}, node)
            for x in p[1:]:
                k = I.call(kw["key"], [x], {}, node)
                c = I.less(k, bk) if is_min else I.less(bk, k)
                best, bk = I.gate(c, x, best), I.gate(c, k, bk)
            return best
        kt = key_term(I, kw["key"], I.seq(L), node)
        return mk("argext", const(is_min), I.seq(L), kt, ty=tm.elem_type(I.seq(L)))
    if len(args) == 1:
        p = I.parts(args[0])
        if p is not None:
            if not p:
                return kw.get("default", UNDEF)
            if all(is_numeric(x) or x.op in ("idx", "ite", "attr", "sym", "const") for x in p):
                return _mm(is_min, p)
            return _fold(I, p, lambda a, b: I.gate(I.less(b, a) if is_min else I.less(a, b), b, a), None)
        L = I.purify(I.seq(args[0]))
        r = tm.minmax_of(is_min, L)
        if "default" in kw:
            return ite(tm.eq0(length(L)), kw["default"], r)
        return r
    if any(x.op == "tuple" for x in args):
        return _fold(I, args, lambda a, b: I.gate(I.less(b, a) if is_min else I.less(a, b), b, a), None)
    return _mm(is_min, args)


def _mm(is_min, xs):
    xs = list(xs)
    infs = [x for x in xs if tm._inf(x)]
    for x in infs:
        if (cval(x) > 0) == is_min and len(xs) > 1:
            xs.remove(x)
        elif (cval(x) > 0) != is_min:
            return x
    return tm.minmax(is_min, xs)


def b_min(I, args, kw, node):
    return _extremum(I, args, kw, node, True)


def b_max(I, args, kw, node):
    return _extremum(I, args, kw, node, False)


def b_any(I, args, kw, node):
    p = I.parts(args[0])
    if p is not None:
        return I.known(or_(*[I.truth(x) for x in p]))
    return I.known(tm.any_(I.purify(I.seq(args[0]))))


def b_all(I, args, kw, node):
    p = I.parts(args[0])
    if p is not None:
        return I.known(and_(*[I.truth(x) for x in p]))
    return I.known(tm.all_(I.purify(I.seq(args[0]))))


def b_zip(I, args, kw, node):
    return mk("zip", tuple(args))


def b_enumerate(I, args, kw, node):
    return mk("enumerate", args[0], args[1] if len(args) > 1 else kw.get("start", ZERO))


def key_term(I, key, L, node):
    """the sort key as a function of an element: (fv, term)"""
    if key is None:
        return NONE
    et = tm.elem_type(L)
    v = mk("fv", f"keyarg~{et}", ty=et)
    el = _proto(I, L, v)
    I.st = I.st.copy()
    k = I.purify(I.call(key, [el], {}, node))
    return mk("keyfn", v, k)


def _proto(I, L, v):
    return v


def sort_term(I, L, kw, node):
    key = kw.get("key")
    if key is NONE:
        key = None
    kt = key_term(I, key, L, node)
    rev_ = kw.get("reverse", FALSE)
    if L.op == "sorted" and False:
        pass
    if L.op == "list" and key is None and all(is_const(x) for x in L.args):
        xs = sorted(L.args, key=cval, reverse=bool(cval(rev_)) if is_const(rev_) else False)
        return lst(*xs)
    if L.op == "list" and len(L.args) <= 1:
        return L
    return mk("sorted", L, kt, rev_, ty=L.ty if isinstance(L.ty, tuple) else "list")


def b_sorted(I, args, kw, node):
    L = I.purify(to_list(I, args[0], node))
    return I.alloc("list", node=node, content=sort_term(I, L, kw, node))


def b_reversed(I, args, kw, node):
    p = I.parts(args[0])
    if p is not None:
        return lst(*reversed(p))
    c = I.deref(args[0])
    if c.op == "range":
        lo, hi, st = c.args
        if st is ONE:
            return mk("range", sub(hi, ONE), sub(lo, ONE), const(-1))
    L = I.seq(args[0])
    r = tm.as_tab(L)
    if r:
        n, f = r
        i = tm.fresh("i")
        return tab_close(n, i, I.purify(f(sub(sub(n, ONE), i))))
    return tm.rev(L)


def b_abs(I, args, kw, node):
    x = args[0]
    return ite(tm.lt0(x), neg(x), x)


def b_round(I, args, kw, node):
    x = args[0]
    if x.op == "ite":
        return ite(x.args[0], b_round(I, [x.args[1]] + list(args[1:]), kw, node), b_round(I, [x.args[2]] + list(args[1:]), kw, node))
    if len(args) > 1 or kw:
        return mk("roundn", x, args[1] if len(args) > 1 else kw["ndigits"], ty="float")
    if x.ty in ("int",):
        return x
    if x.ty == "bool":
        return to_int(x)
    if x.op in ("min", "max") :
        return tm.minmax(x.op == "min", [b_round(I, [y], {}, node) for y in x.args])
    if x.op == "const" and x.args[0] == "int":
        return const(int(cval(x)))
    if x.op == "round":
        return x
    return mk("round", x, ty="int")


def to_int(x):
    if x.op == "const":
        return const(int(cval(x)))
    return x


def b_int(I, args, kw, node):
    if not args:
        return ZERO
    x = args[0]
    if len(args) == 2:
        if x.op == "const" and is_const(args[1]):
            try:
                return const(int(cval(x), int(cval(args[1]))))
            except ValueError:
                return UNDEF
        return mk("intbase", x, args[1], ty="int")
    if x.ty in ("int", "bool"):
        return to_int(x)
    if x.op == "const":
        if x.args[0] == "int":
            return const(int(cval(x)))
        try:
            return const(int(cval(x)))
        except (ValueError, TypeError, OverflowError):
            return UNDEF
    if x.op == "ite":
        return ite(x.args[0], b_int(I, [x.args[1]], {}, node), b_int(I, [x.args[2]], {}, node))
    cls = I.obj_class(x)
    if cls in I.prog.classes:
        r = I.prog.method(cls, "__int__")
        if r:
            return I.call_func(r[1], r[0].module, r[0], [x], {}, site=node)
    if x.ty == "str":
        I.must(mk("intable", x, ty="bool"), "ValueError", node)
    return mk("trunc", x, ty="int")


def b_float(I, args, kw, node):
    if not args:
        return ZERO
    x = args[0]
    if x.op == "const":
        v = cval(x)
        try:
            return const(float(v))
        except (ValueError, TypeError):
            return UNDEF
    if x.op == "ite":
        return ite(x.args[0], b_float(I, [x.args[1]], {}, node), b_float(I, [x.args[2]], {}, node))
    if x.ty in ("int", "float", "bool"):
        return x
    return mk("float", x, ty="float")


def b_bool(I, args, kw, node):
    return I.truth(args[0]) if args else FALSE


def b_str(I, args, kw, node):
    return I.to_str(args[0]) if args else const("")


def b_repr(I, args, kw, node):
    x = args[0]
    cls = I.obj_class(x)
    if cls in I.prog.classes:
        r = I.prog.method(cls, "__repr__")
        if r:
            return I.call_func(r[1], r[0].module, r[0], [x], {})
    if x.op == "const":
        return const(repr(cval(x)))
    return mk("repr", I.purify(x), ty="str")


def b_list(I, args, kw, node):
    if not args:
        return I.alloc("list", node=node, content=EMPTY)
    return I.alloc("list", node=node, content=to_list(I, args[0], node))


def b_tuple(I, args, kw, node):
    if not args:
        return mk("tuple", ty="tuple")
    p = I.parts(args[0])
    if p is not None:
        return mk("tuple", *p, ty="tuple")
    return I.seq(args[0])


def b_dict(I, args, kw, node):
    d = mk("dict", (), ty="dict")
    if args:
        c = I.deref(args[0])
        if c.op == "dict":
            d = c
        else:
            p = I.parts(args[0])
            if p is None:
                n, f = I.view(args[0], node)
                if isinstance(n, int):
                    p = [f(k) for k in range(n)]
            if p is not None:
                for kv in p:
                    k, v = I.getitem(kv, ZERO, node), I.getitem(kv, ONE, node)
                    d = I.dict_set(d, k, v)
            else:
                d = I.dict_merge(d, c if c.ty == "dict" else I.seq(args[0]))
    for k, v in kw.items():
        if k != "**":
            d = I.dict_set(d, const(k), v)
    return I.alloc("dict", node=node, content=d)


def b_set(I, args, kw, node):
    L = to_list(I, args[0], node) if args else EMPTY
    return I.alloc("set", node=node, content=mk("setof", L, ty="set"))


b_frozenset = b_set


def type_name(v):
    return v.args[0] if v.op in ("class", "builtin", "ext") else None


def isinst(I, x, c):
    """True/False/None"""
    n = type_name(c)
    cls = I.obj_class(x)
    if cls is not None:
        if c.op == "class":
            return n in {k.qual for k in I.prog.mro(cls)}
        return n == "object"
    if x.op == "ref":
        return I.info(x).kind == n
    if x.op == "inner":
        return x.ty == n if isinstance(x.ty, str) else x.ty[0] == n
    ty = x.ty[0] if isinstance(x.ty, tuple) else x.ty
    if x.op == "tuple":
        return n == "tuple"
    if is_listy(x):
        return n == "list"
    if ty == "any":
        return None
    n = (n or "").split(".")[-1]
    if n in ("Number", "Real"):
        return ty in ("int", "bool", "float")
    if n == "Integral":
        return ty in ("int", "bool")
    table = {"int": ("int", "bool"), "bool": ("bool",), "float": ("float",), "str": ("str",), "list": ("list",), "tuple": ("tuple",), "dict": ("dict",), "set": ("set",)}
    if n in table:
        if x.op == "const" and x.args[0] == "int" and ty == "float":
            return n == "float"
        return ty in table[n]
    return False


def b_isinstance(I, args, kw, node):
    x, c = args
    cs = I.parts(c) if c.op == "tuple" else [c]
    out = []
    if x.op == "ite":
        return ite(x.args[0], b_isinstance(I, [x.args[1], c], kw, node), b_isinstance(I, [x.args[2], c], kw, node))
    for k in cs:
        r = isinst(I, x, k)
        if r is None:
            # on a path where x is known to equal a constant its type is known
            for f in I.st.pc:
                if f.op == "eq" and x in f.args:
                    o = f.args[0] if f.args[1] is x else f.args[1]
                    if is_const(o):
                        r = isinst(I, o, k)
        out.append(const(r) if r is not None else mk("isinst", x, type_name(k) or "?", ty="bool"))
    return I.known(or_(*out))


def b_issubclass(I, args, kw, node):
    return I.opaque("issubclass", [], args, ty="bool")


def b_map(I, args, kw, node):
    f, its = args[0], args[1:]
    it = its[0] if len(its) == 1 else mk("zip", tuple(its))
    n, elem = I.view(it, node)
    app = lambda x: I.call(f, list(x.args) if len(its) > 1 else [x], {}, node)
    return comp_call(I, n, elem, app, node)


def comp_call(I, n, elem, app, node, cond=None):
    ref = I.alloc("list", node=node, content=EMPTY)
    box = {}
    mark = I.nloc
    sy = not isinstance(n, int) or n > MAX_UNROLL

    def bind(v):
        box["x"] = v

    def body():
        x = box["x"]
        if cond is not None:
            t = I.known(I.truth(cond(x)))
            if t is not TRUE:
                s = I.st.copy()
                I.assume(s, not_(t))
                if not s.dead:
                    from .interp import Exit
                    I.frames[-1].loops[-1][1].append(Exit("continue", s, None, node))
                I.assume(I.st, t)
                if I.st.dead:
                    return
        v = app(x)
        if I.st.dead:
            return
        if sy and I.fresh_since(v, mark):
            v = I.purify(v)
        I.st.heap[(ref.args[0], "")] = tm.cat(I.deref(ref), lst(v))

    I.in_sym += sy
    I.loop(n, elem, bind, body, node)
    I.in_sym -= sy
    return ref


def b_filter(I, args, kw, node):
    f, it = args
    n, elem = I.view(it, node)
    return comp_call(I, n, elem, lambda x: x, node, cond=(lambda x: x) if f is NONE else (lambda x: I.call(f, [x], {}, node)))


def b_iter(I, args, kw, node):
    return args[0]


def b_next(I, args, kw, node):
    if args[0].op == "ref" and args[0].args[0] in I.gens and len(args) == 1:
        return I.gen_next(args[0])
    c = I.deref(args[0])
    dflt = args[1] if len(args) > 1 else None
    if c.op == "ftab":
        n, bv, cond, body = c.args
        v = tm.fresh("n")
        P = tm.subst(cond, {bv: v})
        K = first(n, v, P)
        val = tm.subst(body, {bv: K})
        found = lt(K, n)
        if dflt is not None:
            return I.gate(I.known(found), val, dflt)
        return val
    if c.op in ("list", "tuple") or is_listy(c):
        if c.op in ("list", "tuple"):
            if c.args:
                return c.args[0]
            return dflt if dflt is not None else UNDEF
        v = index(c, ZERO)
        if c.op == "cat" or c.op == "ite" or True:
            if dflt is not None:
                return I.gate(I.known(tm.eq0(length(c))), dflt, v)
            return v
    if c.op == "gen":
        # state of a user generator is not modelled
        return I.opaque("next:" + c.args[0], [], args, ty="int")
    return I.opaque("next", [], args)


def first(n, v, P):
    """least index v < n satisfying P, n when there is none"""
    if P is FALSE:
        return n
    if P is TRUE:
        return tm.minmax(True, [n, ZERO]) if n is not INF else ZERO
    if is_num_const(n) and cval(n) <= MAX_UNROLL:
        r = n
        for k in range(int(cval(n)) - 1, -1, -1):
            r = ite(tm.subst(P, {v: const(k)}), const(k), r)
        return r
    return tm.close("first", n, v, P, ty="int")


tm.REBUILD["first"] = tm._binder_rb(first)
_old_ab = tm.atom_bounds


def b_print(I, args, kw, node):
    I.events.append(("output", I.where(node), I.st.pc, tuple(I.purify(a) for a in args if isinstance(a, T))))
    return NONE


def b_chr(I, args, kw, node):
    if is_num_const(args[0]):
        return const(chr(int(cval(args[0]))))
    return mk("chr", args[0], ty="str")


def b_ord(I, args, kw, node):
    if is_const(args[0]):
        return const(ord(cval(args[0])))
    return mk("ord", args[0], ty="int")


def b_id(I, args, kw, node):
    return mk("id", args[0], ty="int")


def b_bin(I, args, kw, node):
    if is_num_const(args[0]):
        return const(bin(int(cval(args[0]))))
    return mk("bin", args[0], ty="str")


def b_format(I, args, kw, node):
    return I.fmt(args[0], args[1] if len(args) > 1 else const(""))


def b_divmod(I, args, kw, node):
    a, b = args
    return mk("tuple", tm.fdiv(a, b), tm.mod(a, b), ty="tuple")


def b_pow(I, args, kw, node):
    return tm.power(args[0], args[1])


def b_hasattr(I, args, kw, node):
    o, n = args
    if o.op == "ref" and is_const(n) and I.info(o).kind == "obj":
        if I.hget(o.args[0], cval(n)) is not None:
            return TRUE
        if I.info(o).origin == "alloc":
            r = I.prog.method(I.info(o).cls, cval(n))
            return TRUE if r else FALSE
    return mk("hasattr", o, n, ty="bool")


def b_getattr(I, args, kw, node):
    o, n = args[0], args[1]
    if is_const(n):
        if len(args) > 2 and o.op == "ref" and I.info(o).kind == "obj" and I.hget(o.args[0], cval(n)) is None:
            if I.class_attr(I.info(o).cls, cval(n)) is None and I.prog.method(I.info(o).cls, cval(n)) is None:
                if I.info(o).origin == "alloc":
                    return args[2]
        return I.getattr(o, cval(n), node)
    return I.opaque("getattr", [], args)


def b_setattr(I, args, kw, node):
    o, n, v = args
    if is_const(n):
        I.setattr(o, cval(n), v, node)
        return NONE
    I.events.append(("setattr-dynamic", I.where(node), I.st.pc, (o, n)))
    return NONE


def b_type(I, args, kw, node):
    c = I.obj_class(args[0])
    if c:
        return mk("class", c)
    return mk("typeof", I.purify(args[0]))


def b_open(I, args, kw, node):
    I.events.append(("open", I.where(node), I.st.pc, tuple(I.purify(a) for a in args)))
    return mk("file", *[I.purify(a) for a in args])


def b_slice(I, args, kw, node):
    a = list(args)
    if len(a) == 1:
        a = [NONE] + a
    while len(a) < 3:
        a.append(NONE)
    return mk("slicespec", *a)


def b_callable(I, args, kw, node):
    return TRUE if args[0].op in ("func", "closure", "bound", "class", "meth") else mk("callable", args[0], ty="bool")


def b_hash(I, args, kw, node):
    return mk("hash", I.purify(args[0]), ty="int")


def b_object(I, args, kw, node):
    return I.alloc("obj", cls="object", node=node)


# ---------------------------------------------------------------- operator module

OPS = {
    "add": "Add", "sub": "Sub", "mul": "Mult", "and_": "BitAnd", "or_": "BitOr", "xor": "BitXor",
    "lshift": "LShift", "rshift": "RShift", "mod": "Mod", "floordiv": "FloorDiv", "truediv": "Div", "pow": "Pow",
}


def opfn(I, name, args, node):
    import ast
    if name in OPS:
        return I.binop(getattr(ast, OPS[name])(), args[0], args[1], node)
    if name in ("eq", "ne", "lt", "le", "gt", "ge"):
        o = {"eq": ast.Eq, "ne": ast.NotEq, "lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE}[name]()
        return I.compare(o, args[0], args[1], node)
    if name == "not_":
        return not_(I.truth(args[0]))
    if name == "truth":
        return I.truth(args[0])
    if name == "getitem":
        return I.getitem(args[0], args[1], node)
    if name == "contains":
        return I.contains(args[0], args[1])
    if name == "neg":
        return neg(args[0])
    if name == "index":
        return args[0]
    return I.opaque("operator." + name, [], args)


# ---------------------------------------------------------------- external functions


def reduce_(I, f, it, init, node):
    p = I.parts(it)
    if p is not None:
        r = init
        for x in p:
            r = x if r is None else I.call(f, [r, x], {}, node)
        return r if r is not None else UNDEF
    n, elem = I.view(it, node)
    if init is None:
        init = elem(ZERO) if not isinstance(n, int) else elem(0)
        inner = elem
        n2 = sub(n, ONE) if not isinstance(n, int) else n - 1
        elem2 = (lambda i: inner(add(i, ONE))) if not isinstance(n, int) else (lambda k: inner(k + 1))
        n, elem = n2, elem2
    fr = I.frames[-1]
    key = (fr.fid, f"#red{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}")
    if I.obj_class(init) and f.op == "opfn":
        init0 = init
        init = I.getattr(init, "_int", node) if I.obj_class(init) else init
    I.st.vars[key] = init
    box = {}
    I.loop(n, elem, lambda v: box.__setitem__("x", v),
           lambda: I.st.vars.__setitem__(key, I.call(f, [I.st.vars[key], box["x"]], {}, node)), node)
    return I.st.vars.pop(key, UNDEF)


PURE_PREFIX = ("math.", "os.path.", "operator.", "itertools.", "functools.", "copy.", "string.", "re.")


def external(I, name, args, kw, node):
    if I.hook is not None:
        v = I.hook(None, name, args, kw, node)
        if v is not None:
            return v
    mod, _, fn = name.rpartition(".")
    if mod == "operator":
        if fn == "itemgetter":
            return mk("itemgetter", *args)
        if fn == "attrgetter":
            return mk("attrgetter", *args)
        return opfn(I, fn, args, node)
    if name.startswith(("itertools.", "functools.", "math.", "collections.", "random.")):
        args = [I.ungen(a) if isinstance(a, T) else a for a in args]
    if name == "functools.reduce":
        f = args[0]
        if f.op == "ext" and f.args[0].startswith("operator."):
            f = mk("opfn", f.args[0].split(".")[1])
        init = args[2] if len(args) > 2 else kw.get("initial")
        return reduce_(I, f, args[1], init, node)
    if name == "functools.partial":
        return mk("partial", args[0], tuple(args[1:]), tuple((k, v) for k, v in kw.items()))
    if name in ("itertools.combinations", "itertools.permutations"):
        r = args[1] if len(args) > 1 else kw.get("r", NONE)
        L = I.purify(I.seq(args[0]))
        return mk("combs" if fn == "combinations" else "perms", L, r, ty=("list", ("tuple", tm.elem_type(L))))
    if name == "itertools.product":
        if "repeat" in kw:
            return mk("prodrep", I.purify(I.seq(args[0])), kw["repeat"], ty="list")
        ps = [I.parts(a) for a in args]
        if all(p is not None for p in ps):
            import itertools
            out = list(itertools.product(*ps))
            if len(out) <= 256:
                return lst(*[mk("tuple", *x, ty="tuple") for x in out])
        qs = tuple(I.purify(I.seq(a)) for a in args)
        ts = {tm.elem_type(q) for q in qs}
        return mk("product", qs, ty=("list", ("tuple", ts.pop()) if len(ts) == 1 else "tuple"))
    if name == "itertools.chain":
        return tm.cat(*[I.seq(a) for a in args])
    if name == "itertools.chain.from_iterable":
        p = I.parts(args[0])
        if p is not None:
            return tm.cat(*[I.seq(a) for a in p])
        return mk("flatten", I.purify(I.seq(args[0])), ty="list")
    if name == "itertools.islice":
        if I.deref(args[0]).op in ("cycle", "count"):
            n, el = I.view(args[0], node)
            lo, hi = (ZERO, args[1]) if len(args) == 2 else (ZERO if args[1] is NONE else args[1], args[2])
            v = tm.fresh("i")
            return tab_close(I.size(sub(hi, lo)), v, I.purify(el(add(lo, v))))
        L = I.seq(args[0])
        if len(args) == 2:
            return tm.slice_(L, NONE, args[1])
        return tm.slice_(L, args[1], args[2])
    if name == "itertools.repeat":
        if len(args) == 2:
            return mk("repeat", lst(args[0]), args[1], ty="list")
    if name == "itertools.count":
        return mk("count", args[0] if args else ZERO, args[1] if len(args) > 1 else ONE)
    if name == "itertools.accumulate" and len(args) == 1:
        L = I.purify(I.seq(args[0]))
        r = tm.as_tab(L)
        p = I.parts(args[0])
        if p is not None:
            out, acc = [], ZERO
            for x in p:
                acc = add(acc, x)
                out.append(acc)
            return lst(*out)
        if r:
            i, j = tm.fresh("i"), tm.fresh("j")
            return tab_close(r[0], i, tm.sum_close(add(i, ONE), j, r[1](j)))
    if name == "itertools.cycle":
        L = I.seq(args[0])
        return mk("cycle", L, ty="list")
    if name in ("copy.copy", "copy.deepcopy"):
        x = args[0]
        if x.op == "lib" and I.hook is not None:
            v = I.hook(x, f"__{fn}__", [], {}, node)
            return x if v is None else v
        if x.op in ("ref", "inner"):
            kind = I.info(x).kind if x.op == "ref" else "list"
            if kind == "obj":
                return copy_obj(I, x, node) if fn == "copy" else deep_copy(I, x, node, {})
            c = I.deref(x)
            if fn == "deepcopy" and c.op in ("list", "dict", "odict"):
                return deep_copy(I, x, node, {})
            return I.alloc(kind, node=node, content=I.purify(c) if fn == "deepcopy" else c)
        return x
    if name == "random.shuffle":
        v = args[0]
        # analyses that tell one shuffle from the next number them
        I.set_content(v, lambda c: mk("shuffled", c, *tick(I), ty=c.ty), node, "shuffle")
        return NONE
    if name in ("random.sample",):
        L = I.seq(args[0])
        k = args[1] if len(args) > 1 else kw.get("k")
        if k is length(L):
            return I.alloc("list", node=node, content=mk("shuffled", L, *tick(I), ty=L.ty))
        return I.alloc("list", node=node, content=mk("sample", L, k, ty=L.ty))
    if name == "math.comb":
        return mk("comb", *args, ty="int")
    if name == "math.prod":
        p = I.parts(args[0])
        if p is not None:
            r = ONE
            for x in p:
                r = mul(r, x)
            return r
        import ast
        return reduce_(I, mk("opfn", "mul"), args[0], ONE, node)
    if name == "math.factorial":
        return mk("factorial", args[0], ty="int")
    if name in ("math.floor",):
        if args[0].ty == "int":
            return args[0]
        if args[0].op == "div":
            return tm.fdiv(*args[0].args)
        return mk("floor", args[0], ty="int")
    if name == "math.ceil":
        if args[0].ty == "int":
            return args[0]
        return mk("ceil", args[0], ty="int")
    if name == "math.isinf":
        return or_(eq(args[0], INF), eq(args[0], const(float("-inf"))))
    if name.startswith("math."):
        return mk("mathfn", name, *args, ty="float")
    if name.startswith("os.path."):
        return mk("pathfn", name, *[I.purify(a) for a in args], ty="str")
    if name in ("itertools.takewhile", "itertools.dropwhile"):
        L = I.purify(I.seq(args[1]))
        r = tm.as_tab(L)
        n, el = r if r else (length(L), lambda i: index(L, i))
        v = mk("fv", "while@" + I.where(node), ty="int")
        s0 = I.st
        I.st = I.st.copy()
        k = first(n, v, not_(I.purify(I.truth(I.call(args[0], [el(v)], {}, node)))))
        I.st = s0
        return tm.slice_(L, NONE, k) if fn == "takewhile" else tm.slice_(L, k, NONE)
    if name == "itertools.compress":
        L, S = I.purify(I.seq(args[0])), I.purify(I.seq(args[1]))
        v = tm.fresh("i")
        return tm.ftab_close(tm.minmax(True, [length(L), length(S)]), v, I.truth(index(S, v)), index(L, v))
    if name == "itertools.zip_longest":
        Ls = [I.purify(I.seq(a)) for a in args]
        fill = kw.get("fillvalue", NONE)
        v = tm.fresh("i")
        n = tm.minmax(False, [length(L) for L in Ls])
        return tab_close(n, v, mk("tuple", *[ite(lt(v, length(L)), index(L, v), fill) for L in Ls]))
    if name == "collections.Counter" and len(args) == 1:
        r = I.alloc("dict", node=node, content=mk("counter", I.purify(I.seq(args[0])), ty="dict"))
        I.info(r).default = (None, False)
        return r
    if name == "collections.defaultdict":
        r = I.alloc("dict", node=node, content=mk("dict", (), ty="dict"))
        if args and args[0] is not NONE:
            I.info(r).default = (args[0], True)
        return r
    if name == "collections.deque":
        return I.alloc("list", node=node, content=I.seq(args[0]) if args else EMPTY)
    if name == "timeit.default_timer" or name.startswith("time."):
        I.events.append(("time", I.where(node), I.st.pc, name))
        return mk("clock", name, I.site(node), ty="float")
    if name.startswith("typing."):
        if fn == "cast":
            return args[1]
        return I.opaque(name)
    I.events.append(("call-ext", I.where(node), I.st.pc, (name, tuple(a for a in args if isinstance(a, T)), kw)))
    return I.opaque("ext:" + name, [], list(args) + [v for v in kw.values()])


def deep_copy(I, x, node, memo):
    if x.op == "inner":
        return I.alloc("list", node=node, content=I.purify(I.deref(x)))
    if x.op != "ref":
        if x.op == "tuple":
            return mk("tuple", *[deep_copy(I, y, node, memo) for y in x.args], ty=x.ty)
        if x.op == "lib" and I.hook is not None:
            if x not in memo:
                v = I.hook(x, "__deepcopy__", [], {}, node)
                memo[x] = x if v is None else v
            return memo[x]
        return x if not I.has_ref(x) else I.purify(x)
    if x.args[0] in memo:
        return memo[x.args[0]]
    i = I.info(x)
    if i.kind == "obj":
        n = memo[x.args[0]] = I.alloc("obj", cls=i.cls, label=i.label, node=node)
        for (l, f), v in list(I.st.heap.items()):
            if l == x.args[0]:
                I.st.heap[(n.args[0], f)] = deep_copy(I, v, node, memo)
        return n
    c = I.deref(x)
    n = memo[x.args[0]] = I.alloc(i.kind, node=node, content=EMPTY if i.kind == "list" else c)
    if c.op == "list":
        c = lst(*[deep_copy(I, y, node, memo) for y in c.args])
    elif c.op == "dict":
        c = mk("dict", tuple((k, deep_copy(I, y, node, memo)) for k, y in c.args[0]), ty=c.ty)
    else:
        c = I.purify(c)
    I.st.heap[(n.args[0], "")] = c
    return n


def copy_obj(I, x, node):
    i = I.info(x)
    n = I.alloc("obj", cls=i.cls, label=i.label, node=node)
    for (l, f), v in list(I.st.heap.items()):
        if l == x.args[0]:
            I.st.heap[(n.args[0], f)] = v
    return n


# ---------------------------------------------------------------- methods of values


def method(I, o, name, args, kw, node):
    if name in ("__init__", "__init_subclass__"):
        return NONE
    if o.op == "ite" and (I.has_ref(o)):
        return I.fork(o.args[0], lambda: method(I, o.args[1], name, args, kw, node), lambda: method(I, o.args[2], name, args, kw, node))
    if I.hook is not None:
        v = I.hook(o, name, args, kw, node)
        if v is not None:
            return v
    args = [I.ungen(a) if isinstance(a, T) else a for a in args]
    c = I.deref(o)
    ty = c.ty[0] if isinstance(c.ty, tuple) else c.ty
    if c.ty == "str" or c.op in ("strcat", "fmt"):
        return str_method(I, o, c, name, args, kw, node)
    if o.op == "builtin" and o.args[0] == "dict" and name == "fromkeys":
        v = args[1] if len(args) > 1 else NONE
        p = I.parts(args[0])
        d = mk("dict", (), ty="dict")
        if p is not None:
            for k in p:
                d = I.dict_set(d, k, v)
        else:
            L = I.purify(I.seq(args[0]))
            i = tm.fresh("i")
            d = I.dict_merge(d, tab_close(length(L), i, mk("tuple", index(L, i), I.purify(v))))
        return I.alloc("dict", node=node, content=d)
    if o.op == "builtin" and o.args[0] in ("str", "list", "dict", "set", "tuple", "int") and args and o.args[0] != "int":
        return method(I, args[0], name, args[1:], kw, node)
    if ty == "dict" or c.op in ("dict", "dupd"):
        r = dict_method(I, o, c, name, args, kw, node)
        if r is not None:
            return r
    if ty == "set" or c.op in ("setof", "setdiff"):
        r = set_method(I, o, c, name, args, kw, node)
        if r is not None:
            return r
    if I.has_ref(o) or is_listy(c) or c.op in ("tuple", "range"):
        r = list_method(I, o, c, name, args, kw, node)
        if r is not None:
            return r
    if c.op == "file" and name in ("read", "readlines"):
        return mk("fileread", *c.args, ty="str")
    if c.op == "entered":
        return method(I, c.args[0], name, args, kw, node)
    if name in STR_ONLY and not I.has_ref(o) and c.ty in ("any", None):
        # methods only texts have
        return str_method(I, o, c, name, args, kw, node)
    I.events.append(("method-unknown", I.where(node), I.st.pc, (o, name, tuple(a for a in args if isinstance(a, T)))))
    return I.opaque("method:" + name, [], [o] + list(args))


STR_ONLY = ("upper", "lower", "strip", "lstrip", "rstrip", "title", "zfill", "rjust", "ljust", "center", "capitalize", "startswith", "endswith")


def list_method(I, o, c, name, args, kw, node):
    if name == "append":
        x = args[0]
        I.set_content(o, lambda l: tm.cat(l, lst(x)), node, "append")
        return NONE
    if name == "extend":
        s = I.seq(args[0])
        I.set_content(o, lambda l: tm.cat(l, s), node, "extend")
        return NONE
    if name == "insert":
        i, x = args
        I.set_content(o, lambda l: tm.cat(lst(x), l) if i is ZERO else tm.cat(tm.slice_(l, NONE, i), lst(x), tm.slice_(l, i, NONE)), node, "insert")
        return NONE
    if name == "pop":
        i = args[0] if args else const(-1)
        v = index(c, i) if not (is_num_const(i) and cval(i) == -1) else index(c, sub(length(c), ONE))

        def f(l):
            if i is ZERO:
                return tm.slice_(l, ONE, NONE)
            if is_num_const(i) and cval(i) == -1:
                return tm.slice_(l, NONE, sub(length(l), ONE)) if l.op == "list" else tm.slice_(l, NONE, const(-1))
            return I.list_del(l, i)

        I.set_content(o, f, node, "pop")
        return v
    if name == "appendleft":
        x = args[0]
        I.set_content(o, lambda l: tm.cat(lst(x), l), node, "insert")
        return NONE
    if name == "extendleft":
        s = tm.rev(I.purify(I.seq(args[0])))
        I.set_content(o, lambda l: tm.cat(s, l), node, "insert")
        return NONE
    if name == "rotate":
        k = args[0] if args else ONE

        def f(l):
            n = length(l)
            i = tm.fresh("i")
            l = I.purify(l)
            return tab_close(n, i, index(l, tm.mod(sub(i, k), n)))

        I.set_content(o, f, node, "rotate")
        return NONE
    if name == "popleft":
        v = index(c, ZERO)
        I.set_content(o, lambda l: tm.slice_(l, ONE, NONE), node, "pop")
        return v
    if name == "remove":
        x = args[0]

        def f(l):
            if l.op == "list" and is_const(x) and all(is_const(y) for y in l.args):
                out = list(l.args)
                for j, y in enumerate(out):
                    if y is x:
                        del out[j]
                        break
                return lst(*out)
            return mk("removed", l, I.purify(x), ty=l.ty)

        I.set_content(o, f, node, "remove")
        return NONE
    if name == "index":
        x = args[0]
        if c.op in ("list", "tuple"):
            if is_const(x) and all(is_const(y) for y in c.args):
                for j, y in enumerate(c.args):
                    if eq(x, y) is TRUE:
                        return const(j)
                return UNDEF
            r = UNDEF
            for j in range(len(c.args) - 1, -1, -1):
                e = I.truth(I.equal(c.args[j], x))
                r = ite(e, const(j), r) if r is not UNDEF else const(j)
            return r if r is not UNDEF else UNDEF
        r = tm.as_tab(c)
        if r:
            v = tm.fresh("x")
            k = first(r[0], v, I.truth(I.equal(r[1](v), x)))
            I.must(lt(k, r[0]), "ValueError", node)
            return k
        if I.catching:
            I.must(I.contains(c, x), "ValueError", node)
        return mk("indexof", I.purify(c), I.purify(x), ty="int")
    if name == "count":
        x = args[0]
        if c.op in ("list", "tuple"):
            r = ZERO
            for y in c.args:
                r = add(r, I.truth(I.equal(y, x)))
            return r
        r = tm.as_tab(c)
        if r:
            v = tm.fresh("x")
            return tm.sum_close(r[0], v, I.truth(I.equal(r[1](v), x)))
        return mk("countof", c, x, ty="int")
    if name == "reverse":
        I.set_content(o, tm.rev, node, "reverse")
        return NONE
    if name == "sort":
        L = I.purify(c)
        r = sort_term(I, L, kw, node)
        I.set_content(o, lambda l: r, node, "sort")
        return NONE
    if name == "copy":
        return I.alloc("list", node=node, content=c)
    if name == "clear":
        I.set_content(o, lambda l: EMPTY, node, "clear")
        return NONE
    if name == "__getitem__":
        return I.getitem(o, args[0], node)
    if name == "__len__":
        return length(c)
    return None


def dict_method(I, o, c, name, args, kw, node):
    if name == "get":
        has = I.known(I.dict_has(c, args[0]))
        d = args[1] if len(args) > 1 else NONE
        return I.gate(has, I.dict_get(c, args[0]), d) if has is not FALSE else d
    if name == "keys":
        if c.op == "dict":
            return mk("list", *[k for k, _ in c.args[0]], ty="list")
        return mk("keys", c, ty="list")
    if name == "values":
        return mk("values", o)
    if name == "items":
        return mk("items", o)
    if name == "copy":
        return I.alloc("dict", node=node, content=c)
    if name == "update":
        pairs = []
        if args:
            d = I.deref(args[0])
            if d.op == "dict":
                pairs = list(d.args[0])
            else:
                p = I.parts(args[0])
                if p is not None:
                    pairs = [(I.getitem(x, ZERO, node), I.getitem(x, ONE, node)) for x in p]
                else:
                    q = d if d.ty == "dict" else I.seq(args[0])
                    I.set_content(o, lambda l: I.dict_merge(l, q), node, "update")
        pairs += [(const(k), v) for k, v in kw.items()]

        def f(l):
            for k, v in pairs:
                l = I.dict_set(l, k, v)
            return l

        I.set_content(o, f, node, "update")
        return NONE
    if name == "pop":
        k = args[0]
        v = I.dict_get(c, k)

        def f(l):
            if l.op == "dict":
                return mk("dict", tuple((a, b) for a, b in l.args[0] if a is not k), ty="dict")
            return mk("delitem", l, k, ty="dict")

        I.set_content(o, f, node, "pop")
        return v
    if name == "setdefault":
        k = args[0]
        d = args[1] if len(args) > 1 else NONE
        has = I.known(I.dict_has(c, k))
        if has is TRUE:
            return I.dget(o, c, k, node)
        if has is FALSE:
            I.set_content(o, lambda l: I.dict_set(l, k, d), node, "setdefault")
            return d
        v = I.gate(has, I.dict_get(c, k), d)
        I.set_content(o, lambda l: I.dict_set(l, k, I.gate(has, I.dict_get(l, k), d)), node, "setdefault")
        return v
    if name == "clear":
        I.set_content(o, lambda l: mk("dict", (), ty="dict"), node, "clear")
        return NONE
    return None


def set_method(I, o, c, name, args, kw, node):
    if name in ("issubset", "issuperset", "isdisjoint", "intersection", "symmetric_difference", "union"):
        r = c
        for x in args:
            b = I.deref(x)
            b = b if b.ty == "set" else mk("setof", I.purify(I.seq(x)), ty="set")
            if name == "issubset":
                return I.known(mk("subset", r, b, ty="bool"))
            if name == "issuperset":
                return I.known(mk("subset", b, r, ty="bool"))
            if name == "isdisjoint":
                return I.known(not_(I.truth(mk("setand", r, b, ty="set"))))
            r = I.set_op({"intersection": "and", "symmetric_difference": "xor", "union": "or"}[name], r, b)
        return I.alloc("set", node=node, content=r)
    if name == "difference":
        other = I.deref(args[0])
        if other.op not in ("setof", "setdiff"):
            other = mk("setof", I.seq(args[0]), ty="set")
        return I.alloc("set", node=node, content=mk("setdiff", c, other, ty="set"))
    if name == "add":
        x = args[0]
        I.set_content(o, lambda l: mk("setof", tm.cat(l.args[0], lst(x)), ty="set") if l.op == "setof" else mk("setadd", l, x, ty="set"), node, "add")
        return NONE
    if name == "update":
        other = I.deref(args[0])
        L = other.args[0] if other.op == "setof" else I.seq(args[0])
        I.set_content(o, lambda l: mk("setof", tm.cat(l.args[0], L), ty="set") if l.op == "setof" else mk("setadd", l, L, ty="set"), node, "add")
        return NONE
    if name == "copy":
        return I.alloc("set", node=node, content=c)
    if name in ("discard", "remove"):
        x = args[0]
        I.set_content(o, lambda l: mk("setdiff", l, mk("setof", lst(x), ty="set"), ty="set"), node, "discard")
        return NONE
    if name in ("difference_update",):
        other = I.deref(args[0])
        if other.op not in ("setof", "setdiff"):
            other = mk("setof", I.seq(args[0]), ty="set")
        I.set_content(o, lambda l: mk("setdiff", l, other, ty="set"), node, "difference_update")
        return NONE
    return None


def str_method(I, o, c, name, args, kw, node):
    if name == "format":
        if c.op == "const" and "**" not in kw:
            r = fmt_const(I, cval(c), args, kw)
            if r is not None:
                return r
        if c.op == "ite":
            return ite(c.args[0], str_method(I, c.args[1], c.args[1], name, args, kw, node), str_method(I, c.args[2], c.args[2], name, args, kw, node))
        d = kw.get("**")
        kws = mk("dict", tuple((const(k), I.purify(v)) for k, v in kw.items() if k != "**"), ty="dict")
        if d is not None:
            kws = I.purify(I.deref(d))
        return mk("strformat", c, tuple(I.purify(a) for a in args), kws, ty="str")
    if name == "format_map":
        return mk("strformat", c, (), I.purify(I.deref(args[0])), ty="str")
    if name == "join":
        p = I.parts(args[0])
        if p is not None and all(not isinstance(x, tuple) for x in p):
            out = []
            for i, x in enumerate(p):
                if i:
                    out.append(c)
                out.append(I.to_str(x))
            return I.strcat(out)
        return mk("join", c, I.purify(I.seq(args[0])), ty="str")
    if c.op == "const" and all(is_const(a) for a in args):
        try:
            r = getattr(cval(c), name)(*[cval(a) for a in args])
            if isinstance(r, (str, int, bool)):
                return const(r)
            if isinstance(r, list):
                return I.alloc("list", node=node, content=lst(*[const(x) for x in r]))
        except Exception:
            pass
    if name in ("upper", "lower", "strip", "lstrip", "rstrip", "title", "replace", "zfill", "rjust", "ljust", "center", "capitalize"):
        return mk("strm", name, c, *[I.purify(a) for a in args], ty="str")
    if name in ("startswith", "endswith", "isdigit", "isalpha"):
        return mk("strp", name, c, *[I.purify(a) for a in args], ty="bool")
    if name in ("index", "find", "count"):
        return mk("stri", name, c, *[I.purify(a) for a in args], ty="int")
    if name == "split":
        return I.alloc("list", node=node, content=mk("strsplit", c, *[I.purify(a) for a in args], ty=("list", "str")))
    return mk("strm", name, c, *[I.purify(a) for a in args], ty="str")


def fmt_const(I, template, args, kw):
    import string
    try:
        parsed = list(string.Formatter().parse(template))
    except ValueError:
        return None
    parts = []
    auto = 0
    for lit, field, spec, conv in parsed:
        if lit:
            parts.append(const(lit))
        if field is None:
            continue
        if field == "":
            key = auto
            auto += 1
        elif field.isdigit():
            key = int(field)
        elif field.isidentifier():
            key = field
        else:
            return None
        if isinstance(key, int):
            if key >= len(args) or isinstance(args[key], tuple):
                return None
            v = args[key]
        else:
            if key not in kw:
                return None
            v = kw[key]
        if "{" in (spec or ""):
            return None
        parts.append(I.fmt(v, const(spec or ""), conv or ""))
    return I.strcat(parts)
