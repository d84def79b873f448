"""Value-number terms: a hash-consed DAG with a normalising constructor for
every operation.  Two expressions of the analysed program that denote the same
value by one of the algebraic laws below become the *same* object.

Numbers are kept as polynomials over atoms, comparisons as sign tests on
canonical polynomials, sequences as tabulations (length, element-of-index),
point updates, concatenations and slices.  Control-flow joins are `ite` gates.
"""
from fractions import Fraction
from math import gcd
import sys

sys.setrecursionlimit(100000)


class T:
    __slots__ = ("op", "args", "ty", "id", "fvs", "bvh", "lvs", "__weakref__")

    def __repr__(self):
        return show(self)


_tab = {}
_fresh = [0]


def mk(op, *args, ty="any"):
    key = (op, args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.ty = op, args, ty
        t.id = len(_tab)
        t.fvs = None
        t.bvh = None
        t.lvs = None
        _tab[key] = t
    elif t.ty == "any" and ty != "any":
        t.ty = ty
    return t


def walk_args(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from walk_args(a)


def subterms(t, seen=None):
    """every distinct subterm, pre-order"""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(walk_args(x.args))


def free_vars(t):
    """set of fv/bv terms occurring in t (bound occurrences of bv included
    only when free)"""
    if t.fvs is None:
        if t.op in ("fv", "bv"):
            t.fvs = frozenset([t])
        else:
            s = set()
            for a in walk_args(t.args):
                s |= free_vars(a)
            if t.op in BINDERS:
                s.discard(t.args[1])
            t.fvs = frozenset(s)
    return t.fvs


LEAF_OPS = ("fv", "bv", "lv", "mv")
_NOLEAF = frozenset()


def leaves(t):
    """ids of the variable leaves below t"""
    r = t.lvs
    if r is None:
        if t.op in LEAF_OPS:
            r = frozenset([t.id])
        else:
            s = set()
            for a in walk_args(t.args):
                s |= leaves(a)
            r = frozenset(s) if s else _NOLEAF
        t.lvs = r
    return r


def bv_height(t):
    """1 + greatest bv index used as a binder inside t (0 when none)"""
    if t.bvh is None:
        h = 0
        for a in walk_args(t.args):
            h = max(h, bv_height(a))
        if t.op in BINDERS:
            h = max(h, t.args[1].args[0] + 1)
        t.bvh = h
    return t.bvh


BINDERS = {"tab", "ftab", "sum", "all", "first", "maxof", "minof", "joinof", "prodof", "nest"}

# ---------------------------------------------------------------- constants


def const(v):
    if v is True or v is False:
        return mk("const", "bool", v, ty="bool")
    if v is None:
        return NONE
    if isinstance(v, float) and v == v and v not in (float("inf"), float("-inf")) and v == int(v):
        return mk("const", "int", int(v), ty="float")
    if isinstance(v, Fraction) and v.denominator == 1:
        v = int(v)
    if isinstance(v, int):
        return mk("const", "int", v, ty="int")
    if isinstance(v, Fraction):
        return mk("const", "frac", v, ty="float")
    if isinstance(v, float):
        return mk("const", "float", repr(v), ty="float")
    if isinstance(v, str):
        return mk("const", "str", v, ty="str")
    if isinstance(v, bytes):
        return mk("const", "bytes", v, ty="bytes")
    return mk("const", "obj", repr(v))


NONE = mk("const", "none", None, ty="none")
TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)
INF = const(float("inf"))
UNDEF = mk("undef")


def is_const(t):
    return t.op == "const"


def cval(t):
    if t.args[0] == "float":
        return float(t.args[1])
    return t.args[1]


def is_num_const(t):
    return t.op == "const" and t.args[0] in ("int", "frac", "bool")


def fresh(name="v", ty="int"):
    _fresh[0] += 1
    return mk("fv", f"{name}#{_fresh[0]}", ty=ty)


def sym(name, ty="any"):
    return mk("sym", name, ty=ty)


def is_numeric(t):
    return t.ty in ("int", "bool", "float") or t.op == "poly"


# ---------------------------------------------------------------- polynomials


VERSION = [0]


class _Facts(dict):
    """a table of facts about terms; results computed under other facts are dropped"""

    def __setitem__(self, k, v):
        if self.get(k) != v:
            VERSION[0] += 1
            dict.__setitem__(self, k, v)

    def pop(self, k, *d):
        if k in self:
            VERSION[0] += 1
        return dict.pop(self, k, *d)


def memo(f):
    tab, ver = {}, [0]

    def g(*a):
        if ver[0] != VERSION[0]:
            tab.clear()
            ver[0] = VERSION[0]
        r = tab.get(a)
        if r is None:
            v0 = VERSION[0]
            r = f(*a)
            if VERSION[0] == v0 and ver[0] == v0:
                tab[a] = r
        return r
    g.__name__ = f.__name__
    g.__doc__ = f.__doc__
    return g


def to_poly(t):
    if t.op == "const":
        if t.args[0] in ("int", "frac", "bool"):
            v = Fraction(int(t.args[1]) if t.args[0] == "bool" else t.args[1])
            return {(): v} if v else {}
        return {((t, 1),): Fraction(1)}
    if t.op == "poly":
        return {m: c for m, c in t.args[0]}
    return {((t, 1),): Fraction(1)}


def _mono_key(m):
    return (len(m), tuple((a.id, e) for a, e in m))


def from_poly(d, ty=None):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    if ty is None:
        ty = "int"
        for m, c in d.items():
            if c.denominator != 1:
                ty = "float"
            for a, _ in m:
                if a.ty == "float":
                    ty = "float"
    items = tuple(sorted(d.items(), key=lambda kv: _mono_key(kv[0])))
    return mk("poly", items, ty=ty)


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mono_mul(m1, m2):
    """product of monomials -> (monomial) handling idempotent bools and pow"""
    e = {}
    order = {}
    for a, k in m1 + m2:
        e[a] = e.get(a, 0) + k
        order[a.id] = a
    # merge pow(b, x) factors that share a base
    pows = {}
    for a in list(e):
        if a.op == "pow":
            b, x = a.args
            pows.setdefault(b, []).append((x, e.pop(a)))
    for b, xs in pows.items():
        tot = ZERO
        for x, k in xs:
            tot = add(tot, mul(x, const(k)))
        if b in e:
            tot = add(tot, const(e.pop(b)))
        p = power(b, tot)
        if p.op in ("poly", "const"):
            return None, p, e
        e[p] = e.get(p, 0) + 1
    for a in e:
        if a.ty == "bool" and e[a] > 1:
            e[a] = 1
    for a in list(e):
        # x * not(x) = 0
        if a.op == "not" and a.args[0] in e:
            return "zero", None, None
        if a.op == "eq0" and a.ty == "bool":
            pass
    return tuple(sorted(e.items(), key=lambda kv: (kv[0].id, kv[1]))), None, None


def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m, p, rest = _mono_mul(m1, m2)
            if m == "zero":
                continue
            if m is None:
                q = pmul(to_poly(p), {tuple(sorted(rest.items(), key=lambda kv: (kv[0].id, kv[1]))): c1 * c2})
                r = padd(r, q)
                continue
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def _inf(t):
    return t.op == "const" and t.args[0] == "float" and t.args[1] in ("inf", "-inf")


def add(a, b):
    if a.op == "ite" and (is_const(b)) and is_const(a.args[1]) and is_const(a.args[2]):
        return ite(a.args[0], add(a.args[1], b), add(a.args[2], b))
    if b.op == "ite" and (is_const(a)) and is_const(b.args[1]) and is_const(b.args[2]):
        return ite(b.args[0], add(a, b.args[1]), add(a, b.args[2]))
    if _inf(a) and is_num_const(b):
        return a
    if _inf(b) and is_num_const(a):
        return b
    return from_poly(padd(to_poly(a), to_poly(b)))


def neg(a):
    return from_poly({m: -c for m, c in to_poly(a).items()})


def sub(a, b):
    return from_poly(padd(to_poly(a), to_poly(b), -1))


def mul(a, b):
    return from_poly(pmul(to_poly(a), to_poly(b)))


def power(b, e):
    if is_num_const(e) and cval(e) == int(cval(e)) and 0 <= cval(e) <= 8:
        r = ONE
        for _ in range(int(cval(e))):
            r = mul(r, b)
        return r
    if is_const(b) and cval(b) in (0, 1) and is_numeric(b) and cval(b) == 1:
        return ONE
    return mk("pow", b, e, ty=b.ty if b.ty != "any" else "int")


def fdiv(a, b):
    if b is ONE:
        return a
    if is_num_const(a) and is_num_const(b) and cval(b):
        return const(cval(a) // cval(b))
    return mk("fdiv", a, b, ty="int" if a.ty != "float" else "float")


def mod(a, n):
    if is_num_const(a) and is_num_const(n) and cval(n):
        return const(cval(a) % cval(n))
    d = to_poly(a)
    r = {}
    for m, c in d.items():
        # drop integer multiples of n
        if c.denominator == 1 and any(x is n for x, _ in m):
            continue
        if c.denominator == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "mod" and m[0][0].args[1] is n:
            r = padd(r, to_poly(m[0][0].args[0]), c)
            continue
        r = padd(r, {m: c})
    a2 = from_poly(r)
    if a2 is ZERO:
        return ZERO
    if is_num_const(a2) and is_num_const(n) and cval(n):
        return const(cval(a2) % cval(n))
    if a2 is not a:
        return mod(a2, n)
    return mk("mod", a, n, ty="int")


def tdiv(a, b):
    if is_num_const(b) and cval(b):
        return mul(a, const(Fraction(1, 1) / Fraction(cval(b))))
    return mk("div", a, b, ty="float")


# ---------------------------------------------------------------- booleans


def _content(d):
    g = 0
    den = 1
    for c in d.values():
        den = den * c.denominator // gcd(den, c.denominator)
    for c in d.values():
        g = gcd(g, int(c * den))
    return Fraction(g, den) if g else Fraction(1)


def _int_poly(d):
    return all(a.ty in ("int", "bool") for m in d for a, _ in m)


@memo
def lt0(p):
    """p < 0"""
    if p.op == "const":
        if p.args[0] == "float":
            return const(cval(p) < 0)
        if is_num_const(p):
            return const(cval(p) < 0)
    if p.op == "ite" and (is_const(p.args[1]) or is_const(p.args[2])):
        return ite(p.args[0], lt0(p.args[1]), lt0(p.args[2]))
    d = to_poly(p)
    it = _one_ite(d)
    if it is not None:
        i, k, rest = it
        x = lt0(from_poly(padd(rest, to_poly(i.args[1]), k)))
        y = lt0(from_poly(padd(rest, to_poly(i.args[2]), k)))
        if is_const(x) and is_const(y):
            return ite(i.args[0], x, y)
    # comparison against infinity
    for m, c in d.items():
        if len(m) == 1 and m[0][1] == 1 and _inf(m[0][0]):
            others = [a for mm in d for a, _ in mm if a is not m[0][0]]
            if all(a.ty in ("int", "bool") for a in others):
                return const((cval(m[0][0]) * float(c)) < 0)
    b = poly_bounds(d)
    if b[1] is not None and b[1] < 0:
        return TRUE
    if b[0] is not None and b[0] >= 0:
        return FALSE
    c = _content(d)
    d = {m: v / c for m, v in d.items()}
    if _int_poly(d):
        # sign-canonical: leading coefficient positive
        lead = d[max((m for m in d if m != ()), key=_mono_key)]
        if lead < 0:
            q = padd({m: -v for m, v in d.items()}, {(): Fraction(1)}, -1)
            return not_(_lt0_int(q))
        return _lt0_int(d)
    return mk("lt0", from_poly(d), ty="bool")


def _lt0_int(d):
    """canonical for integers: divide non-constant part, floor the constant"""
    k = d.get((), Fraction(0))
    nc = {m: v for m, v in d.items() if m != ()}
    g = _content(nc)
    nc = {m: v / g for m, v in nc.items()}
    # g*X + k < 0  <=>  X < -k/g  <=> X <= ceil(-k/g)-1 <=> X - ceil(-k/g) < 0
    q = -k / g
    ceil = -((-q.numerator) // q.denominator)
    if ceil:
        nc[()] = Fraction(-ceil)
    return mk("lt0", from_poly(nc), ty="bool")


def _one_ite(d):
    ites = [m for m in d if len(m) == 1 and m[0][0].op == "ite" and m[0][1] == 1]
    if len(ites) == 1:
        m = ites[0]
        rest = {k: v for k, v in d.items() if k != m}
        return m[0][0], d[m], rest
    return None


@memo
def eq0(p):
    if p.op == "const":
        return const(is_num_const(p) and cval(p) == 0)
    if p.ty == "bool":
        return not_(p)
    if p.op == "ite" and (is_const(p.args[1]) or is_const(p.args[2])):
        return ite(p.args[0], eq0(p.args[1]), eq0(p.args[2]))
    d = to_poly(p)
    it = _one_ite(d)
    if it is not None:
        i, k, rest = it
        x = eq0(from_poly(padd(rest, to_poly(i.args[1]), k)))
        y = eq0(from_poly(padd(rest, to_poly(i.args[2]), k)))
        if is_const(x) or is_const(y):
            return ite(i.args[0], x, y)
    for m in d:
        if len(m) == 1 and _inf(m[0][0]):
            others = [a for mm in d for a, _ in mm if a is not m[0][0]]
            if all(a.ty in ("int", "bool") for a in others):
                return FALSE
    b = poly_bounds(d)
    if (b[1] is not None and b[1] < 0) or (b[0] is not None and b[0] > 0):
        return FALSE
    c = _content(d)
    lead = d[max((m for m in d if m != ()), key=_mono_key)]
    if lead < 0:
        c = -c
    d = {m: v / c for m, v in d.items()}
    if _int_poly(d) and any(v.denominator != 1 for v in d.values()):
        return FALSE
    # single bool atom == const
    if set(map(len, d)) <= {0, 1} and len([m for m in d if m]) == 1:
        (m,) = [m for m in d if m]
        if m[0][0].ty == "bool" and m[0][1] == 1:
            v = -d.get((), Fraction(0)) / d[m]
            return m[0][0] if v == 1 else not_(m[0][0]) if v == 0 else FALSE
    return mk("eq0", from_poly(d), ty="bool")


# bounds known from the shape of an atom (never from the program state)
BOUNDS = _Facts()


def atom_bounds(a, depth=0):
    if a.ty == "bool":
        return (0, 1)
    if a in BOUNDS:
        return BOUNDS[a]
    if a.op == "mod":
        n = a.args[1]
        if is_num_const(n):
            return (0, cval(n) - 1)
        return (0, None)
    if a.op == "len" or a.op == "bv":
        return (0, None)
    if a.op == "idx":
        base = a.args[0]
        while base.op in ("idx", "sorted", "perm", "rev"):
            if base in ELEM_BOUNDS:
                break
            base = base.args[0]
        if base in ELEM_BOUNDS:
            return ELEM_BOUNDS[base]
    if a.op == "ite" and depth < 6:
        x, y = bounds(a.args[1], depth + 1), bounds(a.args[2], depth + 1)
        lo = None if x[0] is None or y[0] is None else min(x[0], y[0])
        hi = None if x[1] is None or y[1] is None else max(x[1], y[1])
        return (lo, hi)
    if a.op == "min" and depth < 6:
        bs = [bounds(x, depth + 1) for x in a.args]
        los = [b[0] for b in bs]
        his = [b[1] for b in bs if b[1] is not None]
        return (None if any(x is None for x in los) else min(los), min(his) if his else None)
    if a.op == "max" and depth < 6:
        bs = [bounds(x, depth + 1) for x in a.args]
        los = [b[0] for b in bs if b[0] is not None]
        his = [b[1] for b in bs]
        return (max(los) if los else None, None if any(x is None for x in his) else max(his))
    if a.op == "fdiv" and depth < 6:
        x, y = bounds(a.args[0], depth + 1), bounds(a.args[1], depth + 1)
        if x[0] is not None and x[0] >= 0 and y[0] is not None and y[0] >= 0:
            return (0, None)
    if a.op == "sum":
        b = bounds(a.args[2], depth + 1)
        if b[0] is not None and b[0] >= 0:
            return (0, None)
    if a.op in ("maxof", "minof"):
        b = bounds(a.args[2], depth + 1)
        return b
    return (None, None)


ELEM_BOUNDS = _Facts()


def poly_bounds(d, depth=0):
    lo = hi = Fraction(0)
    for m, c in d.items():
        if m == ():
            if lo is not None:
                lo += c
            if hi is not None:
                hi += c
            continue
        ml, mh = Fraction(1), Fraction(1)
        for a, e in m:
            al, ah = atom_bounds(a, depth)
            if al is None or al < 0:
                if e % 2 == 0:
                    al, ah = 0, None
                elif len(m) == 1 and e == 1:
                    ml, mh = al, ah
                    break
                else:
                    ml = mh = None
                    break
            ml = ml * (al ** e) if ml is not None else None
            mh = None if mh is None or ah is None else mh * ah ** e
        if c < 0:
            ml, mh = mh, ml
        lo = None if lo is None or ml is None else lo + ml * c
        hi = None if hi is None or mh is None else hi + mh * c
        if lo is None and hi is None:
            return (None, None)
    return (lo, hi)


def bounds(t, depth=0):
    if is_num_const(t):
        v = Fraction(int(cval(t)) if t.ty == "bool" else cval(t))
        return (v, v)
    if t.op == "poly":
        return poly_bounds(to_poly(t), depth)
    if t.op == "const":
        return (None, None)
    return atom_bounds(t, depth)


def not_(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.args[0]
    return mk("not", b, ty="bool")


def and_(*xs):
    out = {}
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        for y in x.args if x.op == "and" else (x,):
            out[y.id] = y
    for y in list(out.values()):
        if not_(y).id in out:
            return FALSE
        if y.op == "not" and y.args[0].op == "and":
            # a and not (a and b) = a and not b
            rest = [z for z in y.args[0].args if z.id not in out]
            if not rest:
                return FALSE
            if len(rest) < len(y.args[0].args):
                out.pop(y.id)
                return and_(*out.values(), not_(and_(*rest)))
    # absorb: a and (a or b) = a ; a and (not a or b) = a and b
    vals = list(out.values())
    for y in vals:
        if y.op == "or":
            if any(z.id in out for z in y.args):
                out.pop(y.id, None)
            else:
                keep = [z for z in y.args if not_(z).id not in out]
                if len(keep) < len(y.args):
                    out.pop(y.id, None)
                    return and_(*out.values(), or_(*keep))
    if not out:
        return TRUE
    if len(out) == 1:
        return next(iter(out.values()))
    alls = [y for y in out.values() if y.op == "all"]
    if len(alls) > 1:
        byn = {}
        for y in alls:
            byn.setdefault(y.args[0], []).append(y)
        for n, ys in byn.items():
            if len(ys) > 1:
                v = fresh("a")
                body = and_(*[inst(y, v) for y in ys])
                for y in ys:
                    out.pop(y.id)
                return and_(*out.values(), close("all", n, v, body, ty="bool"))
    return mk("and", *sorted(out.values(), key=lambda z: z.id), ty="bool")


def or_(*xs):
    out = {}
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        for y in x.args if x.op == "or" else (x,):
            out[y.id] = y
    for y in list(out.values()):
        if not_(y).id in out:
            return TRUE
        if y.op == "not" and y.args[0].op == "or":
            # a or not (a or b) = a or not b
            rest = [z for z in y.args[0].args if z.id not in out]
            if not rest:
                return TRUE
            if len(rest) < len(y.args[0].args):
                out.pop(y.id)
                return or_(*out.values(), not_(or_(*rest)))
    vals = list(out.values())
    for y in vals:
        if y.op == "and":
            if any(z.id in out for z in y.args):
                out.pop(y.id, None)
            else:
                keep = [z for z in y.args if not_(z).id not in out]
                if len(keep) < len(y.args):
                    out.pop(y.id, None)
                    return or_(*out.values(), and_(*keep))
    if not out:
        return FALSE
    if len(out) == 1:
        return next(iter(out.values()))
    return mk("or", *sorted(out.values(), key=lambda z: z.id), ty="bool")


@memo
def lt(a, b):
    if is_numeric(a) or is_numeric(b):
        return lt0(sub(a, b))
    return mk("ltx", a, b, ty="bool")


def le(a, b):
    return not_(lt(b, a))


NOT_EQUAL_KINDS = {"none", "str", "bytes"}


@memo
def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "ite" and (is_const(a.args[1]) or is_const(a.args[2])) and (is_const(b)):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "ite" and (is_const(b.args[1]) or is_const(b.args[2])) and (is_const(a)):
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if is_const(a) and is_const(b):
        if is_num_const(a) and is_num_const(b):
            return const(cval(a) == cval(b))
        return const(cval(a) == cval(b) and (a.ty == b.ty or {a.ty, b.ty} <= {"int", "float", "bool"}))
    an, bn = is_numeric(a), is_numeric(b)
    if (an and b.ty in ("str", "none", "list", "tuple")) or (bn and a.ty in ("str", "none", "list", "tuple")):
        return FALSE
    if (a.ty == "none" and b.ty not in ("any", "none") and b.op != "ite") or (
        b.ty == "none" and a.ty not in ("any", "none") and a.op != "ite"
    ):
        return FALSE
    if {a.ty, b.ty} in ({"str", "list"}, {"str", "tuple"}):
        return FALSE
    if (is_const(a) and b.op in ("dict", "list", "tuple")) or (is_const(b) and a.op in ("dict", "list", "tuple")):
        return FALSE
    if a.op == b.op == "tuple":
        if len(a.args) != len(b.args):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if an and bn:
        return eq0(sub(a, b))
    x, y = sorted((a, b), key=lambda z: z.id)
    return mk("eq", x, y, ty="bool")


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if (a.ty == "bool" or a.op == "undef") and b.ty == "bool":
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
        if a is c:
            return or_(c, b)
        if b is c:
            return and_(c, a)
        if a is not_(c):
            return and_(not_(c), b)
        if b is not_(c):
            return or_(not_(c), a)
        return mk("ite", c, a, b, ty="bool")
    # c = p ? x : ite(d, x, y) -> (c or d) ? x : y
    if b.op == "ite" and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if a.op == "ite" and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    # equality gates: x == k ? k : x
    if c.op == "eq0" and is_numeric(a) and is_numeric(b):
        p = to_poly(c.args[0])
        if sub(a, b) is c.args[0] or sub(b, a) is c.args[0]:
            return b
    if is_listy(a) and is_listy(b):
        m = _ite_lists(c, a, b)
        if m is not None:
            return m
    ty = a.ty if a.ty == b.ty else ("float" if {a.ty, b.ty} <= {"int", "bool", "float"} and "float" in (a.ty, b.ty) else "int" if {a.ty, b.ty} <= {"int", "bool"} else "any")
    if ty in ("int", "float") and (a.op == "poly" or b.op == "poly") and not (is_const(a) or is_const(b)):
        # factor the common part:  ite(c, p+r, q+r) = r + ite(c, p, q)
        da, db = to_poly(a), to_poly(b)
        com = {m: v for m, v in da.items() if db.get(m) == v}
        if com:
            return add(from_poly(com), ite(c, from_poly(padd(da, com, -1)), from_poly(padd(db, com, -1))))
    return mk("ite", c, a, b, ty=ty)


LISTY = {"list", "tab", "ftab", "upd", "cat", "slice", "perm", "sorted", "rev", "repeat", "shuffled", "scatter", "assignall", "flatten", "product", "combs", "perms", "listofset", "sample", "removed"}


def is_listy(t):
    return t.op in LISTY or t.ty == "list" or (isinstance(t.ty, tuple) and t.ty[0] == "list")


def total_index(i):
    """an index that always has a value (no search, loop or lookup below)"""
    return not any(x.op in ("first", "mu", "idx", "mv", "fdiv", "dget") for x in subterms(i))


def _ite_lists(c, a, b):
    # pull common updates / appends through the gate
    if a.op == "upd" and a.args[0] is b and total_index(a.args[1]):
        return upd(b, a.args[1], ite(c, a.args[2], index(b, a.args[1])))
    if b.op == "upd" and b.args[0] is a and total_index(b.args[1]):
        return upd(a, b.args[1], ite(c, index(a, b.args[1]), b.args[2]))
    if a.op == "upd" and b.op == "upd" and a.args[0] is b.args[0] and a.args[1] is b.args[1]:
        return upd(a.args[0], a.args[1], ite(c, a.args[2], b.args[2]))
    if a.op == "cat" and b.op == "cat" and len(a.args) == len(b.args) and a.args[:-1] == b.args[:-1]:
        x, y = a.args[-1], b.args[-1]
        if x.op == y.op == "list" and len(x.args) == len(y.args):
            return cat(*a.args[:-1], lst(*[ite(c, p, q) for p, q in zip(x.args, y.args)]))
    if a.op == "list" and b.op == "list" and len(a.args) == len(b.args):
        return lst(*[ite(c, p, q) for p, q in zip(a.args, b.args)])
    if a.op == "tab" and b.op == "tab" and a.args[0] is b.args[0]:
        v = fresh("i")
        return close("tab", a.args[0], v, ite(c, inst(a, v), inst(b, v)), ty="list")
    la, lb = as_tab(a), as_tab(b)
    if la and lb and la[0] is lb[0] and (a.op in ("tab", "upd") or b.op in ("tab", "upd")):
        v = fresh("i")
        return close("tab", la[0], v, ite(c, la[1](v), lb[1](v)), ty="list")
    return None


# ---------------------------------------------------------------- substitution


def rebuild(t, args):
    """re-normalise node t with new args"""
    op = t.op
    f = REBUILD.get(op)
    if f:
        return f(t, args)
    return mk(op, *args, ty=t.ty)


def _poly_rebuild(t, args):
    # args[0]: tuple of (mono, coef) with substituted atoms
    r = {}
    for m, c in args[0]:
        p = {(): Fraction(c)}
        for a, e in m:
            q = to_poly(a)
            for _ in range(e):
                p = pmul(p, q)
        r = padd(r, p)
    return from_poly(r)


def subst(t, mp, memo=None):
    """replace terms (keys of mp, any terms) bottom-up"""
    memo = {} if memo is None else memo
    if not mp:
        return t
    lo = min(k.id for k in mp)
    keys = frozenset(k.id for k in mp) if all(k.op in LEAF_OPS for k in mp) else None

    def go(x):
        if x.id < lo:
            return x
        r = mp.get(x)
        if r is not None:
            return r
        if keys is not None and keys.isdisjoint(leaves(x)):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        na = tuple(goarg(a) for a in x.args)
        if na == x.args:
            r = x
        else:
            r = rebuild(x, na)
            # one more chance for a rewritten node
            r = mp.get(r, r)
        memo[x.id] = r
        return r

    def goarg(a):
        if isinstance(a, T):
            return go(a)
        if isinstance(a, tuple):
            return tuple(goarg(b) for b in a)
        return a

    return go(t)


def inst(binder, val):
    """body of a binder node with its variable replaced"""
    bv, body = binder.args[1], binder.args[-1]
    return subst(body, {bv: val})


def inst2(binder, val):
    bv = binder.args[1]
    return tuple(subst(x, {bv: val}) for x in binder.args[2:])


def close(op, n, v, *bodies, ty="any"):
    h = max([bv_height(b) for b in bodies] + [0])
    bv = mk("bv", h, ty="int")
    # v's occurrences -> bv
    bodies = tuple(subst(b, {v: bv}) for b in bodies)
    hh = max([bv_height(b) for b in bodies] + [0])
    if hh != h:
        # normalisation during substitution introduced binders: redo with a
        # higher name
        w = fresh("r")
        bodies = tuple(subst(b, {bv: w}) for b in bodies)
        h = max([bv_height(b) for b in bodies] + [h])
        bv2 = mk("bv", h, ty="int")
        bodies = tuple(subst(b, {w: bv2}) for b in bodies)
        bv = bv2
    return mk(op, n, bv, *bodies, ty=ty)


# ---------------------------------------------------------------- sequences

SHAPES = _Facts()  # symbolic list -> its length term


def lst(*xs):
    return mk("list", *xs, ty="list")


EMPTY = lst()


def tab(n, fn):
    v = fresh("i")
    body = fn(v)
    return tab_close(n, v, body)


def tab_close(n, v, body):
    # eta: tab(n, L[i]) with len(L)=n  is L
    if body.op == "idx" and body.args[0].ty != "str" and body.args[1] is v and v not in free_vars(body.args[0]) and length(body.args[0]) is n:
        return body.args[0]
    if is_num_const(n) and 0 <= cval(n) <= 16:
        return lst(*[subst(body, {v: const(i)}) for i in range(int(cval(n)))])
    return close("tab", n, v, body, ty="list")


def ftab_close(n, v, cond, body):
    if cond is TRUE:
        return tab_close(n, v, body)
    if cond is FALSE:
        return EMPTY
    return close("ftab", n, v, cond, body, ty="list")


@memo
def length(L):
    if L in SHAPES:
        return SHAPES[L]
    if L.op in ("list", "tuple"):
        return const(len(L.args))
    if L.op == "const" and L.ty == "str":
        return const(len(cval(L)))
    if L.op == "tab":
        return L.args[0]
    if L.op in ("upd", "perm", "sorted", "rev", "shuffled"):
        return length(L.args[0])
    if L.op == "cat":
        r = ZERO
        for x in L.args:
            r = add(r, length(x))
        return r
    if L.op == "ite":
        a, b = length(L.args[1]), length(L.args[2])
        return ite(L.args[0], a, b)
    if L.op in ("scatter", "assignall"):
        return length(L.args[-1])
    if L.op == "set" and not L.args:
        return ZERO
    if L.op == "mu" and L.args[7] is not NONE:
        return L.args[7]
    return mk("len", L, ty="int")


def as_tab(L):
    """(length, element function) or None"""
    if L.op == "tab":
        return L.args[0], (lambda i, L=L: inst(L, i))
    if L.op == "upd":
        r = as_tab(L.args[0])
        if r:
            n, f = r
            return n, (lambda i, L=L: index(L, i))
        return None
    if L.op == "ite" and is_listy(L.args[1]) and is_listy(L.args[2]):
        a, b = as_tab(L.args[1]), as_tab(L.args[2])
        if a and b and a[0] is b[0]:
            return a[0], (lambda i, c=L.args[0], a=a, b=b: ite(c, a[1](i), b[1](i)))
        return None
    if L.op in ("list", "tuple", "ftab", "cat"):
        return None
    if L.op in ("sym", "idx", "sorted", "perm", "rev", "lv", "lo", "sub", "attr", "call", "dget", "slice", "fv", "scatter", "opq", "keys", "values", "items", "ite", "setof", "combs", "seqdiff", "shuffled", "mu", "mv", "assignall", "product", "perms", "flatten", "sample", "listofset", "opq", "removed", "mathfn"):
        return length(L), (lambda i, L=L: index(L, i))
    if is_listy(L):
        return length(L), (lambda i, L=L: index(L, i))
    return None


def join_type(a, b):
    if a == b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 2 and {a[0], b[0]} <= {"list", "tuple"}:
        e = join_type(a[1], b[1])
        return ("list", e) if e != "any" else "any"
    return "any"


def elem_type(L):
    ty = L.ty
    if isinstance(ty, tuple) and ty[0] in ("list", "set", "iter", "tuple") and len(ty) > 1:
        return ty[1]
    if L.op == "flatten":
        t = elem_type(L.args[0])
        return t[1] if isinstance(t, tuple) and t[0] in ("list", "tuple") else "any"
    if L.op in ("sorted", "perm", "rev", "slice", "upd", "setof", "shuffled", "cat"):
        return elem_type(L.args[0])
    if L.op in ("scatter", "assignall"):
        return elem_type(L.args[-1])
    if L.op == "tab":
        return full_type(L.args[2])
    if L.op == "ftab":
        return full_type(L.args[3])
    if L.op == "list" and L.args:
        t0 = full_type(L.args[0])
        return t0 if all(full_type(x) == t0 for x in L.args[1:]) else "any"
    if L.op == "ite":
        return join_type(elem_type(L.args[1]), elem_type(L.args[2]))
    if ty == "str":
        return "str"
    return "any"


def full_type(L):
    """type with the element type filled in where it is known"""
    if L.ty in ("list", "tab") or (L.ty == "any" and is_listy(L)):
        e = elem_type(L)
        return ("list", e) if e != "any" else "list"
    return L.ty


@memo
def index(L, i):
    if L.op in ("list", "tuple"):
        if is_num_const(i):
            k = int(cval(i))
            if -len(L.args) <= k < len(L.args):
                return L.args[k]
            return UNDEF
        return mk("idx", L, i, ty=elem_type(L))
    if L.op == "const" and L.ty == "str" and is_num_const(i):
        s = cval(L)
        k = int(cval(i))
        return const(s[k]) if -len(s) <= k < len(s) else UNDEF
    if is_num_const(i) and cval(i) < 0 and L.op not in ("sym", "idx", "dget", "sub", "call", "attr", "opq"):
        return index(L, add(length(L), i))
    if L.op == "tab":
        return inst(L, i)
    if L.op == "upd":
        b, j, v = L.args
        e = eq0(sub(i, j))
        if e is TRUE:
            return v
        if e is FALSE:
            return index(b, i)
        return ite(e, v, index(b, i))
    if L.op == "ite" and is_listy(L.args[1]) and is_listy(L.args[2]):
        return ite(L.args[0], index(L.args[1], i), index(L.args[2], i))
    if L.op == "cat":
        off = i
        pos = ZERO
        if is_num_const(i):
            for p in L.args:
                n = length(p)
                if is_num_const(n):
                    if cval(off) < cval(n):
                        return index(p, off)
                    off = sub(off, n)
                else:
                    break
    if L.op == "slice":
        b, lo, hi = L.args
        if lo is NONE:
            lo = ZERO
        bl = bounds(lo)
        if bl[0] is not None and bl[0] >= 0:
            return index(b, add(lo, i))
    return mk("idx", L, i, ty=elem_type(L))


def upd(L, i, v):
    if L.op == "list" and is_num_const(i):
        k = int(cval(i))
        if -len(L.args) <= k < len(L.args):
            a = list(L.args)
            a[k] = v
            return lst(*a)
    if L.op == "upd" and L.args[1] is i:
        return upd(L.args[0], i, v)
    if index(L, i) is v and L.op != "list":
        return L
    return mk("upd", L, i, v, ty=L.ty)


def cat(*parts):
    out = []
    for p in parts:
        for q in p.args if p.op == "cat" else (p,):
            if q.op == "list" and not q.args:
                continue
            if length(q) is ZERO:
                continue
            if out and out[-1].op == "list" and q.op == "list":
                out[-1] = lst(*(out[-1].args + q.args))
            else:
                out.append(q)
    # adjacency of slices of one list
    i = 0
    while i + 1 < len(out):
        m = _join(out[i], out[i + 1])
        if m is not None:
            out[i: i + 2] = [m]
            i = max(0, i - 1)
        else:
            i += 1
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    if len(out) == 2 and out[0].op == out[1].op == "slice":
        (a, lo1, hi1), (b, lo2, hi2) = out[0].args, out[1].args
        n = length(a)
        if a is b and lo1 is hi2 and hi1 is NONE and (lo2 is NONE or lo2 is ZERO) and _nonneg(lo1) and _nonneg(sub(n, lo1)):
            return tab(n, lambda k: index(a, mod(add(k, lo1), n)))
    return mk("cat", *out, ty=out[0].ty if isinstance(out[0].ty, tuple) else "list")


def _as_slice(x):
    """view of a piece as (base, lo, hi)"""
    if x.op == "slice":
        b, lo, hi = x.args
        return b, (ZERO if lo is NONE else lo), hi
    if x.op == "list" and len(x.args) == 1 and x.args[0].op == "idx":
        b, i = x.args[0].args
        return b, i, add(i, ONE)
    return None


def _join(x, y):
    if x.op == "list" and len(x.args) > 1 and x.args[-1].op == "idx":
        pre, last = lst(*x.args[:-1]), lst(x.args[-1])
        j = _join(last, y)
        if j is not None:
            return mk("cat", pre, j, ty="list") if pre.args else j
    a, b = _as_slice(x), _as_slice(y)
    if a and b and a[0] is b[0] and a[2] is b[1] and (a[1] is ZERO and b[2] is NONE or _nonneg(a[1]) and _nonneg(sub(b[1], a[1])) and (b[2] is NONE or _nonneg(sub(b[2], b[1])))):
        return slice_(a[0], a[1], b[2])
    return None


def _nonneg(t):
    if is_num_const(t):
        return cval(t) >= 0
    b = bounds(t)[0]
    if b is not None and b >= 0:
        return True
    if t.op == "poly":
        # len - (x mod len)
        ps = to_poly(t)
        if all(c > 0 and all(_nonneg(a) for a, _ in m) for m, c in ps.items()):
            return True
        for m, c in ps.items():
            if c == -1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "mod":
                q = m[0][0].args[1]
                return sub(add(t, m[0][0]), q) is ZERO or _nonneg(sub(add(t, m[0][0]), q))
    return False


def slice_(L, lo, hi, step=NONE):
    if step is not NONE and step is not ONE:
        if is_num_const(step) and cval(step) == -1 and lo is NONE and hi is NONE and L.ty != "str":
            return rev(L)
        return mk("slice3", L, lo, hi, step, ty="list" if L.ty != "str" else "str")
    if lo is ZERO:
        lo = NONE
    if hi is not NONE and L.op != "sym" and hi is length(L):
        hi = NONE
    if hi is not NONE and hi is SHAPES.get(L):
        hi = NONE
    if lo is NONE and hi is NONE:
        return L
    cl = lo is NONE or is_num_const(lo)
    ch = hi is NONE or is_num_const(hi)
    if cl and ch:
        a = None if lo is NONE else int(cval(lo))
        b = None if hi is NONE else int(cval(hi))
        if L.op in ("list", "tuple"):
            return mk(L.op, *L.args[a:b], ty=L.ty)
        if L.op == "const" and L.ty == "str":
            return const(cval(L)[a:b])
    if L.op == "slice":
        b0, l0, h0 = L.args
        l0 = ZERO if l0 is NONE else l0
        if hi is NONE and bounds(l0)[0] is not None and bounds(l0)[0] >= 0 and (lo is NONE or (bounds(lo)[0] is not None and bounds(lo)[0] >= 0)):
            return slice_(b0, add(l0, ZERO if lo is NONE else lo), h0)
        if h0 is NONE and hi is not NONE and bounds(l0)[0] is not None and bounds(l0)[0] >= 0:
            lo_ = ZERO if lo is NONE else lo
            if bounds(lo_)[0] is not None and bounds(lo_)[0] >= 0 and bounds(hi)[0] is not None and bounds(hi)[0] >= 0:
                return slice_(b0, add(l0, lo_), add(l0, hi))
    if L.op == "cat" and hi is NONE and is_num_const(lo) and cval(lo) >= 0:
        n0 = length(L.args[0])
        if is_num_const(n0):
            if cval(n0) <= cval(lo):
                return slice_(cat(*L.args[1:]), sub(lo, n0), NONE)
            return cat(slice_(L.args[0], lo, NONE), *L.args[1:])
    return mk("slice", L, lo, hi, ty=L.ty if (isinstance(L.ty, tuple) or L.ty == "str") else "list")


def rev(L):
    if L.op == "list":
        return lst(*reversed(L.args))
    if L.op == "rev":
        return L.args[0]
    return mk("rev", L, ty=L.ty)


def _perm_invariant(n, v, body):
    """replace sorted(L)/perm(L) by L under a permutation-invariant reduction
    whose body uses v only to index that list"""
    for _ in range(4):
        cand = None
        for s in subterms(body):
            if s.op == "idx" and s.args[1] is v and s.args[0].op in ("sorted", "perm", "rev") and v not in free_vars(s.args[0]):
                cand = s.args[0]
                break
        if cand is None:
            return body
        w = fresh("p")
        probe = subst(body, {mk("idx", cand, v, ty=elem_type(cand)): w})
        if v in free_vars(probe):
            return body
        body = subst(probe, {w: index(cand.args[0], v)})
    return body


def expand(t):
    """polynomial of a numeric term with gates multiplied out"""
    return _expand(t, {})


class TooLarge(Exception):
    pass


EXPAND_LIMIT = 160


def _expand(t, memo):
    r = memo.get(t.id)
    if r is not None:
        if len(r) > EXPAND_LIMIT:
            raise TooLarge
        return r
    if t.op == "ite":
        c = _expand_b(t.args[0], memo)
        a, b = _expand(t.args[1], memo), _expand(t.args[2], memo)
        r = padd(b, pmul(c, padd(a, b, -1)))
    elif t.op == "min":
        r = _expand(_minmax_ite(t, True), memo)
    elif t.op == "max":
        r = _expand(_minmax_ite(t, False), memo)
    elif t.op == "poly":
        r = {}
        for m, c in t.args[0]:
            p = {(): c}
            for a, e in m:
                for _ in range(e):
                    p = pmul(p, _expand(a, memo))
            r = padd(r, p)
    elif t.op in ("and", "or", "not") or (t.ty == "bool"):
        r = _expand_b(t, memo)
    else:
        r = to_poly(t)
    memo[t.id] = r
    if len(r) > EXPAND_LIMIT:
        raise TooLarge
    return r


def _expand_b(t, memo):
    r = _expand_b1(t, memo)
    if len(r) > EXPAND_LIMIT:
        raise TooLarge
    return r


def _expand_b1(t, memo):
    if t.op == "const":
        return {(): Fraction(1)} if cval(t) else {}
    if t.op == "not":
        return padd({(): Fraction(1)}, _expand_b(t.args[0], memo), -1)
    if t.op == "and":
        p = {(): Fraction(1)}
        for a in t.args:
            p = pmul(p, _expand_b(a, memo))
            if len(p) > EXPAND_LIMIT:
                raise TooLarge
        return p
    if t.op == "or":
        p = {(): Fraction(1)}
        for a in t.args:
            p = pmul(p, padd({(): Fraction(1)}, _expand_b(a, memo), -1))
            if len(p) > EXPAND_LIMIT:
                raise TooLarge
        return padd({(): Fraction(1)}, p, -1)
    if t.op == "ite":
        c = _expand_b(t.args[0], memo)
        a, b = _expand_b(t.args[1], memo), _expand_b(t.args[2], memo)
        return padd(b, pmul(c, padd(a, b, -1)))
    return {((t, 1),): Fraction(1)}


def _minmax_ite(t, is_min):
    r = t.args[0]
    for x in t.args[1:]:
        r = ite(lt(r, x), r, x) if is_min else ite(lt(x, r), r, x)
    return r


def delta_of(a, v):
    """k when the atom a says v == k"""
    p = to_poly(a.args[0])
    cv = p.get(((v, 1),))
    if cv in (1, -1) and sum(1 for mm in p for x, _ in mm if v in free_vars(x)) == 1:
        return from_poly({mm: -cc / cv for mm, cc in p.items() if mm != ((v, 1),)})
    return None


def sum_close(n, v, body):
    """sum over v in range(n) of body, linear normal form"""
    if is_num_const(n) and 0 <= cval(n) <= 16:
        r = ZERO
        for k in range(int(cval(n))):
            r = add(r, subst(body, {v: const(k)}))
        return r
    body = _perm_invariant(n, v, body)
    # one distinguished index: take that element out of the sum
    for a in sorted((x for x in subterms(body) if x.op == "eq0" and v in free_vars(x)), key=lambda x: x.id):
        k = delta_of(a, v)
        if k is not None and not any(x.op == "bv" for x in free_vars(a)):
            off = subst(body, {a: FALSE})
            on = subst(subst(body, {a: TRUE}), {v: k})
            if off is not body:
                return add(sum_close(n, v, off), sub(on, subst(off, {v: k})))
    try:
        d = expand(body)
    except TooLarge:
        if v not in free_vars(body):
            return mul(n, body)
        return close("sum", n, v, body, ty="int")
    out = {}
    for m, c in d.items():
        dep = [(a, e) for a, e in m if v in free_vars(a)]
        ind = tuple((a, e) for a, e in m if v not in free_vars(a))
        # delta: an eq0(v - k) factor selects one element
        delta = None
        for a, e in dep:
            if a.op == "eq0":
                p = to_poly(a.args[0])
                cv = p.get(((v, 1),))
                if cv in (1, -1) and sum(1 for mm in p for x, _ in mm if v in free_vars(x)) == 1:
                    k = from_poly({mm: -cc / cv for mm, cc in p.items() if mm != ((v, 1),)})
                    delta = (a, k)
                    break
        if delta:
            rest = from_poly({tuple((a, e) for a, e in dep if a is not delta[0]): Fraction(1)})
            val = subst(rest, {v: delta[1]})
            out = padd(out, pmul({ind: c}, expand(val)))
            continue
        if not dep:
            out = padd(out, pmul({ind: c}, to_poly(n)))
            continue
        if len(dep) == 1 and dep[0][1] == 1 and dep[0][0] is v:
            # sum of indices
            tri = tdiv(mul(n, sub(n, ONE)), const(2))
            out = padd(out, pmul({ind: c}, to_poly(tri)))
            continue
        t = close("sum", n, v, from_poly({tuple(dep): Fraction(1)}), ty="int")
        out = padd(out, pmul({ind: c}, {((t, 1),): Fraction(1)}))
    return from_poly(out)


@memo
def total(L):
    """sum(L)"""
    if L.op in ("list", "tuple"):
        r = ZERO
        for x in L.args:
            r = add(r, x)
        return r
    if L.op == "upd":
        b, i, v = L.args
        return add(total(b), sub(v, index(b, i)))
    if L.op == "cat":
        r = ZERO
        for x in L.args:
            r = add(r, total(x))
        return r
    if L.op == "ftab":
        v = fresh("s")
        c, b = inst2(L, v)
        return sum_close(L.args[0], v, ite(c, b, ZERO))
    if L.op in ("sorted", "perm", "rev"):
        return total(L.args[0])
    if L.op == "scatter":
        n, bv, i, val, b = L.args
        # L with L[i_k] += val_k for k<n
        v = fresh("s")
        return add(total(b), sum_close(n, v, subst(val, {bv: v})))
    if L.op == "ite":
        return ite(L.args[0], total(L.args[1]), total(L.args[2]))
    r = as_tab(L)
    if r:
        v = fresh("s")
        return sum_close(r[0], v, r[1](v))
    return mk("total", L, ty="int")


def all_close(n, v, body):
    if is_num_const(n) and 0 <= cval(n) <= 16:
        return and_(*[subst(body, {v: const(k)}) for k in range(int(cval(n)))])
    if v not in free_vars(body):
        # all of a constant over a (possibly empty) range: players >= 1
        return or_(eq0(n), body)
    if body.op == "and":
        ind = [x for x in body.args if v not in free_vars(x)]
        if ind:
            dep = [x for x in body.args if v in free_vars(x)]
            return and_(*[or_(eq0(n), x) for x in ind], all_close(n, v, and_(*dep)))
    if body.op == "or":
        ind = [x for x in body.args if v not in free_vars(x)]
        if ind:
            return or_(*ind, all_close(n, v, or_(*[x for x in body.args if v in free_vars(x)])))
    body = _perm_invariant(n, v, body)
    return close("all", n, v, body, ty="bool")


@memo
def truth(t):
    """bool(t)"""
    if t.ty == "bool":
        return t
    if t.op == "const":
        return const(bool(cval(t)))
    if t.op == "ite":
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if is_numeric(t):
        return not_(eq0(t))
    if is_listy(t) or t.op in ("tuple", "setof", "dict"):
        if t.op == "dict":
            return const(bool(t.args[0]))
        return not_(eq0(length(t)))
    if t.op in ("obj", "func", "class", "closure", "bound", "mod"):
        return TRUE
    if t.ty == "str":
        return not_(eq(t, const("")))
    if isinstance(t.ty, tuple) and t.ty[0] == "obj":
        return TRUE
    return mk("truth", t, ty="bool")


def all_(L):
    if L.op in ("list", "tuple"):
        return and_(*[truth(x) for x in L.args])
    if L.op == "cat":
        return and_(*[all_(x) for x in L.args])
    if L.op == "ftab":
        v = fresh("q")
        c, b = inst2(L, v)
        return all_close(L.args[0], v, or_(not_(c), truth(b)))
    if L.op == "ite":
        return ite(L.args[0], all_(L.args[1]), all_(L.args[2]))
    if L.op == "upd" and False:
        pass
    r = as_tab(L)
    if r:
        v = fresh("q")
        return all_close(r[0], v, truth(r[1](v)))
    return mk("allx", L, ty="bool")


def any_(L):
    if L.op in ("list", "tuple"):
        return or_(*[truth(x) for x in L.args])
    if L.op == "cat":
        return or_(*[any_(x) for x in L.args])
    if L.op == "ftab":
        v = fresh("q")
        c, b = inst2(L, v)
        return not_(all_close(L.args[0], v, not_(and_(c, truth(b)))))
    if L.op == "ite":
        return ite(L.args[0], any_(L.args[1]), any_(L.args[2]))
    r = as_tab(L)
    if r:
        v = fresh("q")
        return not_(all_close(r[0], v, not_(truth(r[1](v)))))
    return mk("anyx", L, ty="bool")


def minmax(is_min, xs):
    op = "min" if is_min else "max"
    out = {}
    for x in xs:
        for y in x.args if x.op == op else (x,):
            out[y.id] = y
    xs = list(out.values())
    consts = [x for x in xs if is_num_const(x)]
    if len(consts) > 1:
        k = (min if is_min else max)(consts, key=lambda c: cval(c))
        xs = [x for x in xs if not is_num_const(x)] + [k]
    # drop dominated operands by shape bounds
    keep = []
    for i, x in enumerate(xs):
        dom = False
        for j, y in enumerate(xs):
            if i == j:
                continue
            d = bounds(sub(x, y)) if is_numeric(x) and is_numeric(y) else (None, None)
            if is_min and d[0] is not None and d[0] >= 0 and not (d == (0, 0) and j > i):
                dom = True
            if not is_min and d[1] is not None and d[1] <= 0 and not (d == (0, 0) and j > i):
                dom = True
        if not dom:
            keep.append(x)
    xs = keep or xs
    if len(xs) == 1:
        return xs[0]
    ty = "float" if any(x.ty == "float" for x in xs) else "int"
    return mk(op, *sorted(xs, key=lambda z: z.id), ty=ty)


def minmax_of(is_min, L):
    if L.op in ("list", "tuple"):
        return minmax(is_min, L.args)
    if L.op in ("sorted", "perm", "rev"):
        return minmax_of(is_min, L.args[0])
    r = as_tab(L)
    if r:
        v = fresh("m")
        body = _perm_invariant(r[0], v, r[1](v))
        if v not in free_vars(body):
            return body
        return close("minof" if is_min else "maxof", r[0], v, body, ty=body.ty if body.ty in ("int", "float") else "any")
    return mk("minx" if is_min else "maxx", L)


def _rb(f):
    return lambda t, a: f(*a)


REBUILD = {
    "poly": _poly_rebuild,
    "pow": _rb(power),
    "fdiv": _rb(fdiv),
    "mod": _rb(mod),
    "div": _rb(tdiv),
    "lt0": _rb(lt0),
    "eq0": _rb(eq0),
    "not": _rb(not_),
    "and": _rb(and_),
    "or": _rb(or_),
    "ite": _rb(ite),
    "eq": _rb(eq),
    "ltx": _rb(lt),
    "list": _rb(lst),
    "upd": _rb(upd),
    "cat": _rb(cat),
    "slice": _rb(lambda L, lo, hi: slice_(L, lo, hi)),
    "idx": _rb(index),
    "len": _rb(length),
    "truth": _rb(truth),
    "min": lambda t, a: minmax(True, a),
    "max": lambda t, a: minmax(False, a),
    "total": _rb(total),
    "rev": _rb(rev),
}


def _binder_rb(closef):
    def f(t, a):
        v = fresh("b")
        n, bv = a[0], a[1]
        bodies = [subst(x, {bv: v}) for x in a[2:]]
        return closef(n, v, *bodies)
    return f


REBUILD["tab"] = _binder_rb(tab_close)
REBUILD["ftab"] = _binder_rb(ftab_close)
REBUILD["sum"] = _binder_rb(sum_close)
REBUILD["all"] = _binder_rb(all_close)


# ---------------------------------------------------------------- printing


def show(t, depth=0):
    if depth > 14:
        return "…"
    s = lambda x: show(x, depth + 1)
    op, a = t.op, t.args
    if op == "const":
        return repr(cval(t)) if a[0] != "frac" else str(a[1])
    if op in ("sym",):
        return a[0]
    if op in ("fv",):
        return a[0]
    if op == "bv":
        return f"i{a[0]}"
    if op == "poly":
        out = []
        for m, c in a[0]:
            f = "*".join(s(x) + (f"^{e}" if e > 1 else "") for x, e in m)
            if not f:
                out.append(str(c))
            elif c == 1:
                out.append(f)
            elif c == -1:
                out.append("-" + f)
            else:
                out.append(f"{c}*{f}")
        return "(" + " + ".join(out) + ")"
    if op == "lt0":
        return f"({s(a[0])} < 0)"
    if op == "eq0":
        return f"({s(a[0])} == 0)"
    if op == "idx":
        return f"{s(a[0])}[{s(a[1])}]"
    if op == "not":
        return "!" + s(a[0])
    if op in ("and", "or"):
        return "(" + f" {op} ".join(s(x) for x in a) + ")"
    if op == "ite":
        return f"[{s(a[0])} ? {s(a[1])} : {s(a[2])}]"
    if op == "list":
        return "[" + ", ".join(s(x) for x in a) + "]"
    if op in BINDERS:
        return f"{op}<{s(a[1])}<{s(a[0])}>(" + " | ".join(s(x) for x in a[2:]) + ")"
    return op + "(" + ", ".join(s(x) if isinstance(x, T) else repr(x) if not isinstance(x, tuple) else "(..)" for x in a) + ")"
