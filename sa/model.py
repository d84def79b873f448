"""Finite interpretation of value-number terms.

A rule first compares normal forms.  Where two normal forms differ the rule must
tell a real difference from a mere difference in writing: the two *terms* (never
the program) are interpreted in small finite structures; only a structure that
separates them makes the difference a violation.  `Undecided` is raised when a
term contains an operation without an interpretation.
"""
import itertools
import math
import os
from fractions import Fraction

from . import terms as tm
from .source import REPO
from .terms import T


class Undecided(Exception):
    pass


class Bot(Exception):
    """the operation has no value (the program would raise)"""


class Obj:
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def __eq__(self, o):
        return isinstance(o, Obj) and self.cls == o.cls and self.f == o.f

    def __hash__(self):
        return hash(self.cls)

    def __repr__(self):
        return f"<{self.cls.split('.')[-1]} {self.f}>"

    # what operators mean for objects of the class, where the translation did not
    # know that an operand is one: (class, method) -> term over "x" (self) and "y"
    DUNDER = {}

    def dunder(self, name, *a):
        t = Obj.DUNDER.get((self.cls, name))
        if t is None:
            return NotImplemented
        return Model(dict(zip("xy", (self,) + a)))(t)

    def __and__(self, o):
        return self.dunder("__and__", o)

    def __rand__(self, o):
        return self.dunder("__rand__", o)

    def __or__(self, o):
        return self.dunder("__or__", o)

    def __ror__(self, o):
        return self.dunder("__ror__", o)

    def __lshift__(self, o):
        return self.dunder("__lshift__", o)

    def __rshift__(self, o):
        return self.dunder("__rshift__", o)

    def __int__(self):
        r = self.dunder("__int__")
        if not isinstance(r, int):
            raise TypeError("no integer")
        return r


def cv(t):
    return tm.cval(t)


class Atom:
    """uninterpreted value"""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Atom) and self.n == o.n

    def __lt__(self, o):
        return self.n < o.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return f"@{self.n}"


class Ufn:
    """deterministic uninterpreted functions into small ranges"""

    def __init__(self, seed=0):
        self.seed = seed

    def __call__(self, name, args, k):
        import hashlib
        h = hashlib.blake2b(repr((self.seed, name, args)).encode(), digest_size=8).digest()
        return int.from_bytes(h, "big") % k


def norm(v):
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    return v


class Model:
    LIMIT = 400000

    def __init__(self, syms, funcs=None):
        self.syms = syms      # sym name -> value
        self.keep = {}
        self.paths = {}
        self.funcs = funcs or {}
        self.memo = {}
        self.steps = 0

    def __call__(self, t, env=None):
        return self.ev(t, env or {})

    def ev(self, t, env):
        op = t.op
        if op == "const":
            return const_value(t)
        if op == "sym":
            n = t.args[0]
            if n not in self.syms:
                raise Undecided(f"symbol {n}")
            return self.syms[n]
        if t.id in env:
            v = env[t.id]
            return v
        if env:
            lv = tm.leaves(t)
            key = (t.id,) + tuple((i, _k(env[i], self.keep)) for i in env if i in lv)
        else:
            key = (t.id,)
        if key in self.memo:
            r = self.memo[key]
            if isinstance(r, Exception):
                raise r
            return r
        self.steps += 1
        if self.steps > self.LIMIT:
            raise Undecided("too large")
        f = getattr(self, "m_" + op, None)
        if f is None:
            raise Undecided(f"operation {op}")
        try:
            r = f(t, env)
        except Bot as b:
            self.memo[key] = b
            raise
        except (TypeError, AttributeError) as ex:
            # the value is not of the kind the operation was modelled for
            raise Undecided(f"{type(ex).__name__} in {op}: {ex}")
        except ValueError as ex:
            e = Bot(f"{type(ex).__name__} in {op}: {ex}")
            self.memo[key] = e
            raise e
        r = norm(r)
        self.memo[key] = r
        return r

    # scalars

    def m_poly(self, t, env):
        # a gate multiplied out leaves a 0/1 factor: a missing value under a
        # zero factor is not demanded
        r = 0
        for m, c in t.args[0]:
            bot, vals, zero = None, [], False
            for a, e in m:
                try:
                    v = self.ev(a, env)
                except Bot as b:
                    bot = bot or b
                    continue
                if isinstance(v, (list, tuple, str)) and len(t.args[0]) > 1:
                    # concatenation of values not known to be sequences when
                    # the term was built: the order of the operands is gone
                    raise Undecided("concatenation of values of unknown type")
                if isinstance(v, (list, tuple, str, dict)) or v is None:
                    bot = bot or Bot("arithmetic on a non number")
                    continue
                if v == 0:
                    zero = True
                    break
                vals.append(v ** e if e != 1 else v)
            if zero:
                continue
            if bot:
                raise bot
            p = c.numerator if c.denominator == 1 else c
            for v in vals:
                p = float(p) * v if isinstance(v, float) else p * v
            r = float(r) + p if isinstance(p, float) else r + p if not isinstance(r, float) else r + float(p)
        return r

    def m_pow(self, t, env):
        b, e = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if e < 0:
            if not b:
                raise Bot("0 ** negative")
            return Fraction(1) / Fraction(b) ** (-e)
        if e > 4096:
            raise Undecided("power")
        return b ** e

    def m_fdiv(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if b == 0:
            raise Bot("division by zero")
        return a // b

    def m_mod(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if b == 0:
            raise Bot("modulo by zero")
        return a % b

    def m_div(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if b == 0:
            raise Bot("division by zero")
        if isinstance(a, float) or isinstance(b, float):
            return a / b
        return Fraction(a) / Fraction(b)

    def m_round(self, t, env):
        return round(self.fin(self.ev(t.args[0], env)))

    def fin(self, v):
        if isinstance(v, float) and (math.isinf(v) or math.isnan(v)):
            raise Bot("conversion of infinity")
        return v

    def m_roundn(self, t, env):
        return Fraction(round(self.fin(self.ev(t.args[0], env)), self.ev(t.args[1], env)))

    def m_trunc(self, t, env):
        v = self.ev(t.args[0], env)
        return int(self.fin(v))

    def m_float(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError:
                raise Bot("float()")
        return v

    def m_floor(self, t, env):
        return math.floor(self.fin(self.ev(t.args[0], env)))

    def m_ceil(self, t, env):
        return math.ceil(self.fin(self.ev(t.args[0], env)))

    def m_comb(self, t, env):
        a, b = [self.ev(x, env) for x in t.args]
        if a < 0 or b < 0:
            raise Bot("comb")
        return math.comb(a, b)

    def m_factorial(self, t, env):
        a = self.ev(t.args[0], env)
        if a < 0:
            raise Bot("factorial")
        return math.factorial(a)

    def m_chr(self, t, env):
        return chr(self.ev(t.args[0], env))

    def m_ord(self, t, env):
        return ord(self.ev(t.args[0], env))

    def m_bin(self, t, env):
        return bin(self.ev(t.args[0], env))

    def m_intbase(self, t, env):
        return int(self.ev(t.args[0], env), self.ev(t.args[1], env))

    def _bits(self, t, env, f):
        vs = [self.ev(x, env) for x in t.args]
        r = vs[0]
        for v in vs[1:]:
            r = f(r, v)
        return int(r)

    def m_bitand(self, t, env):
        return self._bits(t, env, lambda a, b: a & b)

    def m_bitor(self, t, env):
        return self._bits(t, env, lambda a, b: a | b)

    def m_bitxor(self, t, env):
        return self._bits(t, env, lambda a, b: a ^ b)

    def m_bitlshift(self, t, env):
        return self._bits(t, env, lambda a, b: a << self.small(b))

    def m_bitrshift(self, t, env):
        return self._bits(t, env, lambda a, b: a >> self.small(b))

    def small(self, b):
        if b < 0:
            raise Bot("negative shift")
        if b > 100000:
            raise Undecided("shift")
        return b

    def m_bitinv(self, t, env):
        return ~self.ev(t.args[0], env)

    # booleans

    def m_lt0(self, t, env):
        return self.ev(t.args[0], env) < 0

    def m_eq0(self, t, env):
        return self.ev(t.args[0], env) == 0

    def m_ltx(self, t, env):
        return self.ev(t.args[0], env) < self.ev(t.args[1], env)

    def m_eq(self, t, env):
        return self.ev(t.args[0], env) == self.ev(t.args[1], env)

    def m_is(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        return a is b or a == b

    def m_not(self, t, env):
        return not self.ev(t.args[0], env)

    def m_and(self, t, env):
        # operands come in canonical order: a missing value only matters when
        # every other operand holds
        bot = None
        for a in t.args:
            try:
                if not self.ev(a, env):
                    return False
            except Bot as b:
                bot = bot or b
        if bot:
            raise bot
        return True

    def m_or(self, t, env):
        bot = None
        for a in t.args:
            try:
                if self.ev(a, env):
                    return True
            except Bot as b:
                bot = bot or b
        if bot:
            raise bot
        return False

    def m_ite(self, t, env):
        return self.ev(t.args[1] if self.ev(t.args[0], env) else t.args[2], env)

    def m_truth(self, t, env):
        return bool(self.ev(t.args[0], env))

    def m_isinst(self, t, env):
        v, n = self.ev(t.args[0], env), t.args[1].split(".")[-1]
        tbl = {"int": (int,), "bool": (bool,), "float": (float, Fraction), "str": (str,), "list": (list,), "tuple": (tuple,), "dict": (dict,), "set": (set, frozenset)}
        if n not in tbl:
            if isinstance(v, Obj):
                return v.cls.split(".")[-1] == n
            return False
        return isinstance(v, tbl[n])

    def m_min(self, t, env):
        return min(self.ev(a, env) for a in t.args)

    def m_max(self, t, env):
        return max(self.ev(a, env) for a in t.args)

    def nonempty(self, v):
        v = list(v)
        if not v:
            raise Bot("empty reduction")
        return v

    def m_minx(self, t, env):
        return min(self.nonempty(self.ev(t.args[0], env)))

    def m_maxx(self, t, env):
        return max(self.nonempty(self.ev(t.args[0], env)))

    def m_allx(self, t, env):
        return all(self.ev(t.args[0], env))

    def m_anyx(self, t, env):
        return any(self.ev(t.args[0], env))

    # binders

    def count(self, t, env):
        n = self.ev(t, env)
        if isinstance(n, float):
            raise Undecided("unbounded range")
        if n > 20000:
            raise Undecided("range too large")
        return max(0, int(n))

    def each(self, t, env, bodies):
        n, bv = t.args[0], t.args[1]
        for k in range(self.count(n, env)):
            e = dict(env)
            e[bv.id] = k
            yield tuple(self.ev(b, e) for b in bodies)

    def m_tab(self, t, env):
        return [x for x, in self.each(t, env, (t.args[2],))]

    def m_ftab(self, t, env):
        out = []
        n, bv, c, b = t.args
        for k in range(self.count(n, env)):
            e = dict(env)
            e[bv.id] = k
            if self.ev(c, e):
                out.append(self.ev(b, e))
        return out

    def m_sum(self, t, env):
        r = 0
        for x, in self.each(t, env, (t.args[2],)):
            r = r + x
        return r

    def m_prodof(self, t, env):
        r = 1
        for x, in self.each(t, env, (t.args[2],)):
            r = r * x
        return r

    def m_all(self, t, env):
        n, bv, b = t.args
        for k in range(self.count(n, env)):
            e = dict(env)
            e[bv.id] = k
            if not self.ev(b, e):
                return False
        return True

    def m_first(self, t, env):
        n, bv, b = t.args
        N = self.ev(n, env)
        lim = 5000 if isinstance(N, float) else max(0, int(N))
        for k in range(lim):
            e = dict(env)
            e[bv.id] = k
            if self.ev(b, e):
                return k
        if isinstance(N, float):
            raise Undecided("unbounded search")
        return N

    def m_maxof(self, t, env):
        return max(self.nonempty(x for x, in self.each(t, env, (t.args[2],))))

    def m_minof(self, t, env):
        return min(self.nonempty(x for x, in self.each(t, env, (t.args[2],))))

    def m_scatter(self, t, env):
        n, bv, i, g, pre = t.args
        L = list(self.ev(pre, env))
        for k in range(self.count(n, env)):
            e = dict(env)
            e[bv.id] = k
            j = self.ev(i, e)
            if not -len(L) <= j < len(L):
                raise Bot("IndexError")
            L[j] = norm(L[j] + self.ev(g, e))
        return L

    def m_assignall(self, t, env):
        n, bv, i, c, v, pre = t.args
        L = list(self.ev(pre, env))
        for k in range(self.count(n, env)):
            e = dict(env)
            e[bv.id] = k
            if self.ev(c, e):
                j = self.ev(i, e)
                if not -len(L) <= j < len(L):
                    raise Bot("IndexError")
                L[j] = self.ev(v, e)
        return L

    def m_mu(self, t, env):
        n, h, pres, nexts, stop, sv, which, shape, mvs = t.args
        base = tm.mk("muall", n, h, pres, nexts, stop, sv, mvs)
        lv = tm.leaves(t)
        key = (base.id,) + tuple((i, _k(env[i], self.keep)) for i in env if i in lv)
        r = self.memo.get(key)
        if r is None:
            r = self.run_mu(n, mvs, pres, nexts, stop, sv, env)
            self.memo[key] = r
        v = r[which]
        if isinstance(v, Bot):
            raise v
        return v

    def lazy(self, t, env):
        try:
            return self.ev(t, env)
        except Bot as b:
            return b

    def run_mu(self, n, mvs, pres, nexts, stop, sv, env):
        vals = [self.lazy(p, env) for p in pres]
        N = self.ev(n, env)
        lim = 5000 if isinstance(N, float) else max(0, int(N))
        ids = [x.id for x in mvs]
        # loops over the same body share the states they pass through
        lv = set()
        for x in nexts:
            lv |= tm.leaves(x)
        key = (tuple(x.id for x in nexts), tuple(_k(v, self.keep) for v in vals),
               tuple((i, _k(env[i], self.keep)) for i in env if i in lv and i not in ids))
        path = self.paths.setdefault(key, [vals])
        for k in range(lim):
            if path is not None and k < len(path):
                vals = path[k]
            e = dict(env)
            e[ids[0]] = k
            for j, v in enumerate(vals):
                e[ids[j + 1]] = v
            m = _Guard(self, e)
            if stop is not tm.FALSE and m.ev(stop):
                return [m.lazy(x) for x in sv]
            if path is not None and k + 1 < len(path):
                vals = path[k + 1]
                continue
            vals = [m.lazy(x) for x in nexts]
            if path is not None:
                if any(isinstance(v, (list, tuple, dict, str)) and len(v) > 64 for v in vals):
                    self.paths.pop(key, None)
                    path = None
                elif len(path) == k + 1:
                    path.append(vals)
        if isinstance(N, float):
            raise Undecided("unbounded loop")
        return vals

    # sequences

    def m_list(self, t, env):
        return [self.ev(a, env) for a in t.args]

    def m_tuple(self, t, env):
        return tuple(self.ev(a, env) for a in t.args)

    def seq(self, t, env):
        v = self.ev(t, env)
        if isinstance(v, (list, tuple, str)):
            return v
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, (set, frozenset)):
            return sorted(v)
        raise Bot("not a sequence")

    def m_idx(self, t, env):
        L = self.ev(t.args[0], env)
        i = self.ev(t.args[1], env)
        if isinstance(L, dict):
            if i not in L:
                raise Bot("KeyError")
            return L[i]
        if not isinstance(L, (list, tuple, str)):
            raise Bot("not subscriptable")
        if not isinstance(i, int):
            raise Bot("bad index")
        if not -len(L) <= i < len(L):
            raise Bot("IndexError")
        return L[i]

    def m_upd(self, t, env):
        L = list(self.seq(t.args[0], env))
        i = self.ev(t.args[1], env)
        if not -len(L) <= i < len(L):
            # merging states moves conditions inside the stored value
            if any(x.op == "ite" for x in tm.subterms(t.args[2])):
                raise Undecided("conditional store out of range")
            raise Bot("IndexError")
        L[i] = self.ev(t.args[2], env)
        return L

    def m_cat(self, t, env):
        out = []
        for a in t.args:
            out.extend(self.seq(a, env))
        return out

    def bound(self, t, env):
        v = self.ev(t, env)
        if v is not None and not isinstance(v, int):
            raise Bot("bad slice")
        return v

    def m_slice(self, t, env):
        L = self.seq(t.args[0], env)
        return L[self.bound(t.args[1], env):self.bound(t.args[2], env)]

    def m_slice3(self, t, env):
        L = self.seq(t.args[0], env)
        return L[self.bound(t.args[1], env):self.bound(t.args[2], env):self.bound(t.args[3], env)]

    def m_rev(self, t, env):
        return list(reversed(self.seq(t.args[0], env)))

    def m_len(self, t, env):
        return len(self.seq(t.args[0], env))

    def m_lenset(self, t, env):
        return len({_k(x, self.keep) for x in self.seq(t.args[0], env)})

    def m_repeat(self, t, env):
        return list(self.seq(t.args[0], env)) * max(0, self.ev(t.args[1], env))

    def m_strrep(self, t, env):
        return self.ev(t.args[0], env) * max(0, self.ev(t.args[1], env))

    def m_total(self, t, env):
        r = 0
        for x in self.seq(t.args[0], env):
            r = r + x
        return r

    def m_sorted(self, t, env):
        L, kt, rev = t.args
        v = list(self.seq(L, env))
        if kt.op == "keyfn":
            kv, kb = kt.args

            def key(x):
                e = dict(env)
                e[kv.id] = x
                return _Guard(self, e).ev(kb)
        else:
            key = None
        r = self.ev(rev, env) if isinstance(rev, T) else bool(rev)
        return sorted(v, key=key, reverse=bool(r))

    def m_indexof(self, t, env):
        L = self.seq(t.args[0], env)
        x = self.ev(t.args[1], env)
        for i, y in enumerate(L):
            if y == x:
                return i
        raise Bot("ValueError")

    def m_countof(self, t, env):
        x = self.ev(t.args[1], env)
        return sum(1 for y in self.seq(t.args[0], env) if y == x)

    def m_in(self, t, env):
        x = self.ev(t.args[0], env)
        c = self.ev(t.args[1], env)
        if isinstance(c, str) and not isinstance(x, str):
            raise Bot("in str")
        return x in c

    def m_flatten(self, t, env):
        return [y for x in self.seq(t.args[0], env) for y in x]

    def m_combs(self, t, env):
        L, r = self.seq(t.args[0], env), self.ev(t.args[1], env)
        if r < 0:
            raise Bot("combinations")
        if math.comb(len(L), r) > 3000:
            raise Undecided("combinations")
        return [tuple(c) for c in itertools.combinations(L, r)]

    def m_perms(self, t, env):
        L = self.seq(t.args[0], env)
        r = self.ev(t.args[1], env)
        r = len(L) if r is None else r
        if math.perm(len(L), r) > 3000:
            raise Undecided("permutations")
        return [tuple(c) for c in itertools.permutations(L, r)]

    def m_product(self, t, env):
        ls = [self.seq(a, env) for a in t.args[0]]
        if math.prod(len(l) for l in ls) > 3000:
            raise Undecided("product")
        return [tuple(c) for c in itertools.product(*ls)]

    def m_setof(self, t, env):
        return set(self.seq(t.args[0], env))

    def m_setdiff(self, t, env):
        return set(self.seq(t.args[0], env)) - set(self.seq(t.args[1], env))

    def m_setand(self, t, env):
        return set(self.seq(t.args[0], env)) & set(self.seq(t.args[1], env))

    def m_setor(self, t, env):
        return set(self.seq(t.args[0], env)) | set(self.seq(t.args[1], env))

    def m_setxor(self, t, env):
        return set(self.seq(t.args[0], env)) ^ set(self.seq(t.args[1], env))

    def m_subset(self, t, env):
        return set(self.seq(t.args[0], env)) <= set(self.seq(t.args[1], env))

    def m_intable(self, t, env):
        try:
            int(self.ev(t.args[0], env))
        except (ValueError, TypeError):
            return False
        return True

    def m_counter(self, t, env):
        d = {}
        for x in self.seq(t.args[0], env):
            d[x] = d.get(x, 0) + 1
        return d

    def m_dvalues(self, t, env):
        return list(self.ev(t.args[0], env).values())

    def m_ditems(self, t, env):
        return list(self.ev(t.args[0], env).items())

    def m_dmerge(self, t, env):
        d = dict(self.ev(t.args[0], env))
        o = self.ev(t.args[1], env)
        d.update(o if isinstance(o, dict) else [tuple(x) for x in o])
        return d

    def m_argext(self, t, env):
        L = self.seq(t.args[1], env)
        kv, kb = t.args[2].args
        if not L:
            raise Bot("empty sequence")
        best = None
        for x in L:
            e = dict(env)
            e[kv.id] = x
            k = _Guard(self, e).ev(kb)
            if best is None or (k < best[0] if cv(t.args[0]) else best[0] < k):
                best = (k, x)
        return best[1]

    def m_setadd(self, t, env):
        return set(self.seq(t.args[0], env)) | {self.ev(t.args[1], env)}

    def m_listofset(self, t, env):
        return sorted(self.seq(t.args[0], env))

    def m_removed(self, t, env):
        L = list(self.seq(t.args[0], env))
        x = self.ev(t.args[1], env)
        if x not in L:
            raise Bot("ValueError")
        L.remove(x)
        return L

    def m_keys(self, t, env):
        return list(self.ev(t.args[0], env))

    # dicts / objects

    def m_dict(self, t, env):
        return {self.ev(k, env): self.ev(v, env) for k, v in t.args[0]}

    def m_odict(self, t, env):
        return {self.ev(k, env): self.ev(v, env) for k, p, v in t.args[0] if self.ev(p, env)}

    def m_dget(self, t, env):
        d, k = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if not isinstance(d, dict) or k not in d:
            raise Bot("KeyError")
        return d[k]

    def m_dhas(self, t, env):
        d, k = self.ev(t.args[0], env), self.ev(t.args[1], env)
        return k in d

    def m_dupd(self, t, env):
        d = dict(self.ev(t.args[0], env))
        d[self.ev(t.args[1], env)] = self.ev(t.args[2], env)
        return d

    def m_objval(self, t, env):
        return Obj(t.args[0], {tm.cval(k): self.ev(v, env) for k, v in t.args[1]})

    def m_attr(self, t, env):
        o = self.ev(t.args[0], env)
        if isinstance(o, Obj) and t.args[1] in o.f:
            return o.f[t.args[1]]
        raise Undecided(f"attribute {t.args[1]}")

    def m_ref(self, t, env):
        k = ("ref", t.args[0])
        if k in self.syms:
            return self.syms[k]
        return Atom(("ref", t.args[0]))

    def m_class(self, t, env):
        return Atom(t.args)

    def m_undef(self, t, env):
        raise Bot("undefined")

    # strings

    def m_str(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, (int, str, bool)) or v is None:
            return str(v)
        if isinstance(v, float):
            return str(v)
        if isinstance(v, Atom):
            return f"«{v.n}»"
        raise Undecided("str()")

    def m_strcat(self, t, env):
        out = []
        for a in t.args:
            v = self.ev(a, env)
            if not isinstance(v, str):
                raise Bot("string concatenation")
            out.append(v)
        return "".join(out)

    def m_fmt(self, t, env):
        v = self.ev(t.args[0], env)
        spec = t.args[1] if len(t.args) > 1 else ""
        if isinstance(spec, T):
            spec = self.ev(spec, env)
        if isinstance(v, Atom):
            return f"«{v.n}:{spec}»"
        if isinstance(v, Fraction):
            v = float(v)
        return format(v, spec)

    def m_join(self, t, env):
        s = self.ev(t.args[0], env)
        return s.join(self.seq(t.args[1], env))

    def m_strformat(self, t, env):
        c, args, kws = t.args
        f = self.ev(c, env)
        a = [self.ev(x, env) for x in args]
        d = self.ev(kws, env)
        try:
            return f.format(*a, **d)
        except (KeyError, IndexError) as ex:
            raise Bot(f"format: {type(ex).__name__} {ex}")

    def m_pathfn(self, t, env):
        name = t.args[0].rsplit(".", 1)[-1]
        a = [self.ev(x, env) for x in t.args[1:]]
        a = [self.file_of(x) for x in a]
        if name in ("join", "dirname", "basename"):
            return getattr(os.path, name)(*a)
        if name in ("realpath", "abspath", "normpath"):
            return os.path.normpath(a[0])
        raise Undecided("os.path." + name)

    def file_of(self, x):
        if x.startswith("<") and x.endswith(">"):
            x = os.path.join(REPO, *x[1:-1].split(".")) + ".py"
        return x

    def m_fileread(self, t, env):
        p = os.path.normpath(self.file_of(self.ev(t.args[0], env)))
        if not p.startswith(os.path.join(REPO, "clubs") + os.sep):
            raise Undecided("file outside the package")
        try:
            with open(p) as f:
                return f.read()
        except OSError:
            raise Bot(f"no file {os.path.relpath(p, REPO)}")

    def m_strm(self, t, env):
        name, c = t.args[0], self.ev(t.args[1], env)
        if name not in ("upper", "lower", "strip", "lstrip", "rstrip", "capitalize", "title", "replace", "center", "ljust", "rjust", "zfill"):
            raise Undecided("str." + name)
        if not isinstance(c, str):
            raise Undecided(f"str.{name} of {type(c).__name__}")
        return getattr(c, name)(*[self.ev(a, env) for a in t.args[2:]])

    def m_strp(self, t, env):
        name, c = t.args[0], self.ev(t.args[1], env)
        if not isinstance(c, str):
            raise Undecided(f"str.{name} of {type(c).__name__}")
        return getattr(c, name)(*[self.ev(a, env) for a in t.args[2:]])

    m_stri = m_strp

    # dealer primitives

    def m_hand(self, t, env):
        f = self.funcs.get("hand")
        if f is None:
            raise Undecided("hand")
        return f(*[self.ev(a, env) for a in t.args])

    def m_drawn(self, t, env):
        c, n = self.ev(t.args[0], env), self.ev(t.args[1], env)
        return list(c[:max(0, n)])

    def m_rest(self, t, env):
        c, n = self.ev(t.args[0], env), self.ev(t.args[1], env)
        return list(c[max(0, n):])

    def m_freshdeck(self, t, env):
        return list(self.funcs["freshdeck"])

    def m_shuffled(self, t, env):
        f = self.funcs.get("shuffle")
        if len(t.args) > 1:
            f = self.funcs.get(("shuffle", tm.cval(t.args[1])), f)
        if f is None:
            raise Undecided("shuffled")
        return f(self.seq(t.args[0], env))


class _Guard:
    """evaluation in an environment that may hold missing values"""

    def __init__(self, m, env):
        self.m = m
        self.bots = {i: v for i, v in env.items() if isinstance(v, Bot)}
        self.env = env

    def ev(self, t):
        if self.bots:
            return _BotModel(self.m, self.bots).ev(t, self.env)
        return self.m.ev(t, self.env)

    def lazy(self, t):
        try:
            return self.ev(t)
        except Bot as b:
            return b


class _BotModel(Model):
    def __init__(self, m, bots):
        self.syms, self.funcs = m.syms, m.funcs
        self.memo = {}
        self.keep = {}
        self.paths = {}
        self.steps = 0
        self.bots = bots

    def ev(self, t, env):
        if t.id in self.bots:
            raise self.bots[t.id]
        return Model.ev(self, t, env)


def const_value(t):
    k = t.args[0]
    if k == "obj":
        return Atom(t.args[1])
    v = tm.cval(t)
    return v


def _k(v, keep):
    t = type(v)
    if t is int or t is str:
        return v
    if t in (list, tuple, dict) and len(v) > 8:
        # values are never changed in place: identity is a sound memo key
        keep[id(v)] = v
        return ("I", id(v))
    if isinstance(v, list):
        return ("L",) + tuple(_k(x, keep) for x in v)
    if isinstance(v, tuple):
        return ("T",) + tuple(_k(x, keep) for x in v)
    if isinstance(v, dict):
        return ("D",) + tuple((_k(a, keep), _k(b, keep)) for a, b in v.items())
    if isinstance(v, (set, frozenset)):
        return ("S",) + tuple(sorted(map(repr, v)))
    if isinstance(v, bool):
        return ("B", v)
    if isinstance(v, Bot):
        return ("BOT",)
    return v
