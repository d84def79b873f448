"""Closed forms for loop-carried values.

A loop is given by: trip count n, iteration variable iv, for each carried
location its value before the loop (pre), a symbol for its value at the start
of an iteration (lv), the value at the end of the iteration (next), the
condition under which the iteration leaves the loop (stop) and the values it
leaves with.  `form[k](j)` is the value of k at the start of iteration j.
"""
from . import terms as tm
from .terms import (
    EMPTY, FALSE, INF, NONE, ONE, TRUE, UNDEF, ZERO, add, and_, const, cval, eq0,
    ftab_close, index, is_listy, is_num_const, is_numeric, ite, length, lst, lt,
    mk, mul, not_, or_, sub, subst, tab_close,
)


def occurs(x, t):
    if x.op in tm.LEAF_OPS:
        return x.id in tm.leaves(t)
    return any(s is x for s in tm.subterms(t))


def has_any(xs, t):
    xs = set(x.id for x in xs)
    if True:
        return not xs.isdisjoint(tm.leaves(t))
    return any(s.id in xs for s in tm.subterms(t))


class Summary:
    def __init__(self, n, iv, keys, lvs, pres, nexts, stop, stopv, site):
        self.n, self.iv, self.keys, self.lvs = n, iv, list(keys), lvs
        self.pres, self.nexts, self.stop, self.stopv, self.site = pres, nexts, stop, stopv, site
        self.form = {}
        self.kind = {}
        self.solve()

    # ------------------------------------------------------------ solving

    def solve(self):
        todo = [k for k in self.keys]
        while True:
            progress = False
            S = {self.lvs[k]: f(self.iv) for k, f in self.form.items()}
            for k in list(todo):
                N = subst(self.nexts[k], S) if S else self.nexts[k]
                others = [self.lvs[o] for o in todo if o != k]
                if others and has_any(others, N):
                    continue
                f = self.match(k, N)
                if f is not None:
                    self.form[k] = f
                    todo.remove(k)
                    progress = True
                    break
            if not progress:
                break
        self.unresolved = todo
        S = {self.lvs[k]: f(self.iv) for k, f in self.form.items()}
        self.S = S
        self.stopP = subst(self.stop, S) if S else self.stop
        self.resolved = not has_any([self.lvs[k] for k in todo], self.stopP) if todo else True
        self.K = None
        if self.stop is not FALSE and self.resolved:
            from .lib import first
            self.K = first(self.n, self.iv, self.stopP)
            self.found = TRUE if self.n is INF else lt(self.K, self.n)

    def at(self, t, j):
        """instantiate a body term at iteration j using the closed forms"""
        t = subst(t, self.S) if self.S else t
        return subst(t, {self.iv: j})

    def match(self, k, N):
        L, iv, pre = self.lvs[k], self.iv, self.pres[k]
        if N is L or N is UNDEF and pre is UNDEF:
            self.kind[k] = "const"
            return lambda j: pre
        if not occurs(L, N):
            self.kind[k] = "last"

            def last(j, N=N):
                b = tm.bounds(j)
                v = subst(N, {iv: sub(j, ONE)})
                if b[0] is not None and b[0] >= 1:
                    return v
                if pre is UNDEF:
                    return v
                return ite(eq0(j), pre, v)
            return last
        for pat in (self.p_sum, self.p_append, self.p_update, self.p_minmax, self.p_bool, self.p_prod, self.p_slice, self.p_mod, self.p_cat):
            f = pat(k, L, N, pre)
            if f is not None:
                self.kind[k] = pat.__name__[2:]
                return f
        return None

    def p_sum(self, k, L, N, pre):
        if not (is_numeric(N) or is_numeric(L)) or L.ty == "bool":
            return None
        if L.ty not in ("int", "float", "any"):
            return None
        D = sub(N, L)
        if occurs(L, D):
            try:
                D = tm.from_poly(tm.padd(tm.expand(N), tm.to_poly(L), -1))
            except tm.TooLarge:
                return None
            if occurs(L, D):
                return None
        if pre is UNDEF:
            return None
        iv = self.iv

        def f(j):
            if not occurs(iv, D):
                return add(pre, mul(D, j))
            w = tm.fresh("s")
            return add(pre, tm.sum_close(j, w, subst(D, {iv: w})))
        return f

    def _append(self, L, N):
        """(cond, element) with N = L + [element] if cond else L"""
        if N is L:
            return FALSE, UNDEF
        if N.op == "cat" and N.args[0] is L:
            rest = N.args[1:]
            if len(rest) == 1 and rest[0].op == "list" and len(rest[0].args) == 1 and not occurs(L, rest[0]):
                return TRUE, rest[0].args[0]
            return None
        if N.op == "ite":
            if occurs(L, N.args[0]):
                return None
            a, b = self._append(L, N.args[1]), self._append(L, N.args[2])
            if a is None or b is None:
                return None
            c = N.args[0]
            e = a[1] if b[1] is UNDEF else b[1] if a[1] is UNDEF else ite(c, a[1], b[1])
            return or_(and_(c, a[0]), and_(not_(c), b[0])), e
        return None

    def p_append(self, k, L, N, pre):
        r = self._append(L, N)
        if r is None or r[0] is FALSE:
            return None
        c, e = r
        iv = self.iv

        def f(j):
            w = tm.fresh("a")
            return tm.cat(pre, ftab_close(j, w, subst(c, {iv: w}), subst(e, {iv: w})))
        return f

    def p_cat(self, k, L, N, pre):
        if N.op == "cat" and N.args[0] is L:
            rest = tm.cat(*N.args[1:])
            if occurs(L, rest):
                return None
            iv = self.iv

            def f(j):
                w = tm.fresh("a")
                return tm.cat(pre, flatten(tab_close(j, w, subst(rest, {iv: w}))))
            return f
        return None

    def _updates(self, L, N):
        """N as a single guarded update: (cond, index, value)"""
        if N.op == "upd" and N.args[0] is L:
            return TRUE, N.args[1], N.args[2]
        if N.op == "ite":
            c, a, b = N.args
            if occurs(L, c):
                return None
            if a is L:
                r = self._updates(L, b)
                return r and (and_(not_(c), r[0]), r[1], r[2])
            if b is L:
                r = self._updates(L, a)
                return r and (and_(c, r[0]), r[1], r[2])
            x, y = self._updates(L, a), self._updates(L, b)
            if x and y and x[1] is y[1] and x[0] is TRUE and y[0] is TRUE:
                return TRUE, x[1], ite(c, x[2], y[2])
        return None

    def p_update(self, k, L, N, pre):
        r = self._updates(L, N)
        if r is None:
            return None
        c, i, v = r
        iv = self.iv
        if occurs(L, i) or occurs(L, c):
            return None
        cell = index(L, i)
        w = tm.fresh("cell")
        vv = subst(v, {cell: w})
        if occurs(L, vv):
            return None
        n0 = length(pre)
        off = sub(i, iv)
        if not occurs(iv, off):
            def f(j, off=off):
                q = tm.fresh("q")
                it = sub(q, off)
                base = index(pre, q)
                val = subst(subst(vv, {iv: it}), {w: base})
                val = ite(subst(c, {iv: it}), val, base)
                conds = []
                if off is not ZERO:
                    conds.append(not_(tm.lt0(it)))
                if j is not n0 or off is not ZERO:
                    conds.append(lt(it, j))
                return tab_close(n0, q, ite(and_(*conds), val, base))
            return f
        g = sub(vv, w) if is_numeric(vv) or vv.op == "poly" else None
        if g is not None and not occurs(w, g):
            g = ite(c, g, ZERO)

            def f(j):
                q = tm.fresh("q")
                return scatter(j, q, subst(i, {iv: q}), subst(g, {iv: q}), pre)
            return f
        if not occurs(w, vv):
            def f(j):
                q = tm.fresh("q")
                return tm.close("assignall", j, q, subst(i, {iv: q}), subst(c, {iv: q}), subst(vv, {iv: q}), pre, ty=pre.ty)
            return f
        return None

    def p_minmax(self, k, L, N, pre):
        op = N.op
        rest = None
        if op in ("min", "max"):
            if L in N.args:
                rest = [a for a in N.args if a is not L]
        elif op == "ite":
            c, a, b = N.args
            for x, y in ((a, b), (b, a)):
                if x is L and not occurs(L, y):
                    # ite(y < L, y, L) etc.
                    for is_min in (True, False):
                        l = lt(y, L) if is_min else lt(L, y)
                        l2 = not_(lt(L, y)) if is_min else not_(lt(y, L))
                        take = c if y is a else not_(c)
                        if take is l or take is l2:
                            op, rest = ("min" if is_min else "max"), [y]
        if not rest or any(occurs(L, a) for a in rest):
            return None
        g = tm.minmax(op == "min", rest)
        iv = self.iv

        def f(j):
            q = tm.fresh("m")
            m = tm.close("minof" if op == "min" else "maxof", j, q, tm._perm_invariant(j, q, subst(g, {iv: q})), ty=g.ty)
            if tm._inf(pre) and (cval(pre) > 0) == (op == "min"):
                b = tm.bounds(j)
                return m if b[0] is not None and b[0] >= 1 else ite(eq0(j), pre, m)
            b = tm.bounds(j)
            r = tm.minmax(op == "min", [pre, m])
            return r if b[0] is not None and b[0] >= 1 else ite(eq0(j), pre, r)
        return f

    def p_bool(self, k, L, N, pre):
        if N.ty != "bool":
            return None
        iv = self.iv
        Lb = L
        if N.op == "and" and Lb in N.args:
            g = and_(*[a for a in N.args if a is not Lb])
            if occurs(Lb, g):
                return None

            def f(j):
                q = tm.fresh("q")
                return and_(tm.truth(pre), tm.all_close(j, q, subst(g, {iv: q})))
            return f
        if N.op == "or" and Lb in N.args:
            g = or_(*[a for a in N.args if a is not Lb])
            if occurs(Lb, g):
                return None

            def f(j):
                q = tm.fresh("q")
                return or_(tm.truth(pre), not_(tm.all_close(j, q, not_(subst(g, {iv: q})))))
            return f
        return None

    def p_prod(self, k, L, N, pre):
        if not is_numeric(N) and N.op != "poly":
            return None
        try:
            d = tm.expand(N)
        except tm.TooLarge:
            return None
        g = {}
        for m, c in d.items():
            e = dict(m)
            if e.get(L) != 1:
                return None
            del e[L]
            g[tuple(sorted(e.items(), key=lambda kv: (kv[0].id, kv[1])))] = c
        G = tm.from_poly(g)
        if occurs(L, G):
            return None
        iv = self.iv

        def f(j):
            q = tm.fresh("q")
            if not occurs(iv, G):
                return mul(pre, tm.power(G, j))
            return mul(pre, tm.close("prodof", j, q, subst(G, {iv: q}), ty="int"))
        return f

    def p_slice(self, k, L, N, pre):
        if N.op == "slice" and N.args[0] is L and N.args[2] is NONE:
            s = N.args[1]
            if s is NONE or occurs(L, s) or occurs(self.iv, s):
                return None
            b = tm.bounds(s)
            return lambda j: tm.slice_(pre, mul(s, j), NONE)
        return None

    def p_mod(self, k, L, N, pre):
        if N.op == "mod" and not occurs(L, N.args[1]) and not occurs(self.iv, N.args[1]):
            d = sub(N.args[0], L)
            if occurs(L, d) or occurs(self.iv, d):
                return None
            m = N.args[1]

            def f(j):
                return ite(eq0(j), pre, tm.mod(add(pre, mul(d, j)), m))
            return f
        return None

    # ------------------------------------------------------------ results

    def end(self, k):
        """value when the loop runs to completion"""
        if k in self.form:
            return self.form[k](self.n)
        return None

    def needed(self, k):
        seen, todo = [], [k]
        # the stop condition is always needed
        for o in self.unresolved:
            if occurs(self.lvs[o], self.stopP):
                todo.append(o)
        while todo:
            x = todo.pop(0)
            if x in seen:
                continue
            seen.append(x)
            ts = [subst(self.nexts[x], self.S)] if x not in self.form or x == k else [subst(self.nexts[x], self.S)]
            if self.stop is not FALSE:
                ts.append(subst(self.stopv[x], self.S))
            for o in self.unresolved:
                if o not in seen and any(occurs(self.lvs[o], t) for t in ts):
                    todo.append(o)
        return seen

    def mu(self, k):
        keys = self.needed(k)
        first_ = keys.index(k)
        S = self.S
        own = {self.lvs[x] for x in keys}
        S2 = {a: b for a, b in S.items() if a not in own}
        nx = [subst(self.nexts[x], S2) for x in keys]
        stop = subst(self.stop, S2)
        sv = [subst(self.stopv[x], S2) if self.stop is not FALSE else ZERO for x in keys]
        h = 0
        for t in nx + sv + [stop]:
            for s in tm.subterms(t):
                if s.op == "mv":
                    h = max(h, s.args[0] + 1)
        mp = {self.iv: mk("mv", h, 0, "int", ty="int")}
        for j, x in enumerate(keys):
            l = self.lvs[x]
            mp[l] = mk("mv", h, j + 1, repr(l.ty), ty=l.ty)
        shape = tm.SHAPES.get(self.lvs[k], NONE)
        return mk("mu", self.n, h, tuple(self.pres[x] for x in keys), tuple(subst(t, mp) for t in nx),
                  subst(stop, mp), tuple(subst(t, mp) for t in sv), first_, shape,
                  (mp[self.iv],) + tuple(mp[self.lvs[x]] for x in keys), ty=self.lvs[k].ty)

    def finals(self):
        """one value per key (gated on early exit)"""
        out = {}
        for k in self.keys:
            if self.stop is FALSE:
                v = self.end(k)
                if v is None:
                    v = self.mu(k)
            elif self.resolved and not has_any([self.lvs[o] for o in self.unresolved], subst(self.stopv[k], self.S)) and k in self.form:
                sv = self.at(self.stopv[k], self.K)
                v = sv if self.n is INF else ite(self.found, sv, self.end(k))
            else:
                v = self.mu(k)
            out[k] = v
        return out


def flatten(L):
    if L.op == "list" and all(x.op in ("list", "tuple") for x in L.args):
        return lst(*[y for x in L.args for y in x.args])
    if L.op == "tab":
        b = L.args[2]
        if b.op == "list" and len(b.args) == 1:
            v = tm.fresh("i")
            return tab_close(L.args[0], v, subst(b.args[0], {L.args[1]: v}))
    return mk("flatten", L, ty="list")


def scatter(n, q, i, g, pre):
    return tm.close("scatter", n, q, i, g, pre, ty=pre.ty)


def _scatter_rb(t, a):
    v = tm.fresh("b")
    n, bv = a[0], a[1]
    b = [subst(x, {bv: v}) for x in a[2:]]
    return tm.close(t.op, n, v, *b, ty=t.ty)


for _op in ("scatter", "assignall"):
    tm.BINDERS.add(_op)
    tm.REBUILD[_op] = _scatter_rb
tm.REBUILD["flatten"] = lambda t, a: flatten(*a)
tm.REBUILD["minof"] = tm._binder_rb(lambda n, v, b: tm.close("minof", n, v, tm._perm_invariant(n, v, b), ty=b.ty))
tm.REBUILD["maxof"] = tm._binder_rb(lambda n, v, b: tm.close("maxof", n, v, tm._perm_invariant(n, v, b), ty=b.ty))
tm.REBUILD["prodof"] = tm._binder_rb(lambda n, v, b: tm.close("prodof", n, v, b, ty="int"))
