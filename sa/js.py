"""A script of the web page, translated to the syntax tree the abstract
interpreter reads.  Operations whose meaning differs from Python's, or that
concern the page, become calls of a runtime (`jsrt.*`) a rule gives meaning to."""
import ast
import json
import os
import subprocess

from .core import ROOT
from .source import AnalysisBroken, Module

TS = "/opt/veriftools/node/node_modules/typescript"


class Untranslated(Exception):
    pass


def unlimited():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (resource.getrlimit(resource.RLIMIT_AS)[1],) * 2)


def parse(path):
    try:
        r = subprocess.run(["node", os.path.join(ROOT, "sa", "jsdump.cjs"), TS, path], capture_output=True, text=True, timeout=120, preexec_fn=unlimited)
    except (OSError, subprocess.TimeoutExpired) as e:
        raise Untranslated(f"no parser for scripts: {e}")
    if r.returncode == 3:
        raise SyntaxError(r.stderr.strip())
    if r.returncode:
        raise Untranslated("no parser for scripts: " + r.stderr.strip()[-200:])
    return json.loads(r.stdout)


class Scope:
    def __init__(self, fn, up):
        self.fn, self.up, self.names = fn, up, {}


class Fn:
    """one function of the script"""

    def __init__(self, up):
        self.up, self.taken, self.outer = up, set(), set()


def binding_names(n):
    if n["k"] == "Identifier":
        return [n["text"]]
    return [x for e in n.get("elements", []) if "name" in e for x in binding_names(e["name"])]


class Translate:
    def __init__(self):
        self.n = 0
        self.scope = None
        self.pre = []
        self.loops = []

    # ---------------------------------------------------------- helpers

    def at(self, x, n):
        for y in ast.walk(x):
            if isinstance(y, (ast.expr, ast.stmt, ast.arg)) and not hasattr(y, "lineno"):
                y.lineno = y.end_lineno = n.get("line", 1)
                y.col_offset = y.end_col_offset = self.tick()
        return x

    def tick(self):
        self.n += 1
        return self.n

    def rt(self, name, *args):
        return ast.Call(ast.Attribute(ast.Name("jsrt", ast.Load()), name, ast.Load()), list(args), [])

    def declare(self, name):
        s = self.scope
        if name in s.names:
            return s.names[name]
        py = "v_" + "".join(c if c.isalnum() else "_" for c in name)
        used = set()
        t = s
        while t is not None:
            used |= set(t.names.values())
            t = t.up
        used |= s.fn.taken & used
        k, base = 0, py
        while py in used:
            k += 1
            py = f"{base}_{k}"
        s.names[name] = py
        s.fn.taken.add(py)
        return py

    def find(self, name):
        s = self.scope
        while s is not None:
            if name in s.names:
                return s.names[name], s.fn
            s = s.up
        return None, None

    def store(self, name, n):
        py, fn = self.find(name)
        if py is None:
            raise Untranslated(f"assignment to global {name}")
        if fn is not self.scope.fn:
            self.scope.fn.outer.add(py)
        return ast.Name(py, ast.Store())

    # ---------------------------------------------------------- statements

    def block(self, stmts, fn=None, params=()):
        old = self.scope
        self.scope = Scope(fn or old.fn, old)
        for p in params:
            self.declare(p)
        out = []
        self.hoist(stmts)
        for s in stmts:
            if s["k"] == "FunctionDeclaration":
                out.append(self.function(s, self.find(s["name"]["text"])[0]))
        for s in stmts:
            if s["k"] != "FunctionDeclaration":
                out += self.stmt(s)
        self.scope = old
        return out or [self.at(ast.Pass(), {"line": 1})]

    def hoist(self, stmts):
        for s in stmts:
            if s["k"] == "FunctionDeclaration":
                self.declare(s["name"]["text"])
            elif s["k"] == "VariableStatement":
                for d in s["declarationList"]["declarations"]:
                    for nm in binding_names(d["name"]):
                        self.declare(nm)

    def function(self, n, py):
        fn = Fn(self.scope.fn if self.scope else None)
        ps = n.get("parameters", [])
        names = []
        for p in ps:
            if "dotDotDotToken" in p:
                raise Untranslated("rest parameter")
            names.append(p["name"]["text"] if p["name"]["k"] == "Identifier" else f"#{self.tick()}")
        save, self.loops = self.loops, []
        pre, self.pre = self.pre, []
        old = self.scope
        self.scope = Scope(fn, old)
        pys = [self.declare(x) for x in names]
        body = n["body"]
        unpack = []
        for p, py_ in zip(ps, pys):
            if p["name"]["k"] != "Identifier":
                for nm in binding_names(p["name"]):
                    self.declare(nm)
                unpack += self.bind(p["name"], ast.Name(py_, ast.Load()))
        if body["k"] == "Block":
            b = unpack + self.block(body["statements"], fn)
        else:
            e = self.expr(body)
            b = unpack + self.pre + [self.at(ast.Return(e), n)]
        defaults = [self.expr(p["initializer"]) if "initializer" in p else ast.Constant(None) for p in ps]
        self.scope = old
        self.loops, self.pre = save, pre
        if fn.outer:
            b = [ast.Nonlocal(sorted(fn.outer))] + b
            for o in fn.outer:
                if old is not None and not any(o in t.names.values() for t in self.scopes(old) if t.fn is old.fn):
                    old.fn.outer.add(o)
        a = ast.arguments(posonlyargs=[], args=[ast.arg(p) for p in pys], kwonlyargs=[], kw_defaults=[], defaults=defaults)
        return self.at(ast.FunctionDef(py, a, b, []), n)

    def scopes(self, s):
        while s is not None:
            yield s
            s = s.up

    def lift(self, n):
        """a function in an expression becomes a definition before it"""
        py = f"f_{self.tick()}"
        if n.get("name") is not None:
            old = self.scope
            self.scope = Scope(old.fn, old)
            self.scope.names[n["name"]["text"]] = py
            f = self.function(n, py)
            self.scope = old
        else:
            f = self.function(n, py)
        self.pre.append(f)
        return ast.Name(py, ast.Load())

    def stmt(self, n):
        k = n["k"]
        save, self.pre = self.pre, []
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise Untranslated(f"{k} (line {n['line']})")
        r = m(n)
        r = self.pre + r
        self.pre = save
        for x in r:
            self.at(x, n)
        return r

    def s_ExpressionStatement(self, n):
        return self.effect(n["expression"])

    def s_EmptyStatement(self, n):
        return []

    def s_VariableStatement(self, n):
        return self.decls(n["declarationList"])

    def decls(self, dl):
        out = []
        for d in dl["declarations"]:
            for nm in binding_names(d["name"]):
                self.declare(nm)
            v = self.expr(d["initializer"]) if "initializer" in d else ast.Constant(None)
            out += self.bind(d["name"], v)
        return out

    def bind(self, pat, v):
        if pat["k"] == "Identifier":
            return [ast.Assign([self.store(pat["text"], pat)], v)]
        if pat["k"] not in ("ArrayBindingPattern", "ObjectBindingPattern"):
            raise Untranslated(pat["k"])
        t = f"t_{self.tick()}"
        out = [ast.Assign([ast.Name(t, ast.Store())], v)]
        for i, e in enumerate(pat["elements"]):
            if e["k"] == "OmittedExpression":
                continue
            if "dotDotDotToken" in e or "initializer" in e:
                raise Untranslated("binding pattern")
            key = ast.Constant(i) if pat["k"] == "ArrayBindingPattern" else ast.Constant((e.get("propertyName") or e["name"])["text"])
            out += self.bind(e["name"], self.rt("item", ast.Name(t, ast.Load()), key))
        return out

    def s_Block(self, n):
        return self.block(n["statements"])

    def body(self, n):
        return self.block(n["statements"] if n["k"] == "Block" else [n])

    def s_IfStatement(self, n):
        t = self.test(n["expression"])
        return [ast.If(t, self.body(n["thenStatement"]), self.body(n["elseStatement"]) if "elseStatement" in n else [])]

    def s_ReturnStatement(self, n):
        return [ast.Return(self.expr(n["expression"]) if "expression" in n else None)]

    def s_BreakStatement(self, n):
        if "label" in n:
            raise Untranslated("label")
        return [ast.Break()]

    def s_ContinueStatement(self, n):
        if "label" in n or not self.loops:
            raise Untranslated("continue")
        up = self.loops[-1]
        return (self.effect(up) if up is not None else []) + [ast.Continue()]

    def s_ForStatement(self, n):
        old = self.scope
        self.scope = Scope(old.fn, old)
        out = []
        i = n.get("initializer")
        if i is not None:
            out += self.decls(i) if i["k"] == "VariableDeclarationList" else self.effect(i)
        pre, self.pre = self.pre, []
        t = self.test(n["condition"]) if "condition" in n else ast.Constant(True)
        if self.pre:
            raise Untranslated("function in a loop condition")
        self.pre = pre
        self.loops.append(n.get("incrementor"))
        b = self.body(n["statement"])
        self.loops.pop()
        if "incrementor" in n:
            b += self.effect(n["incrementor"])
        out.append(ast.While(t, b, []))
        self.scope = old
        return out

    def s_WhileStatement(self, n):
        t = self.test(n["expression"])
        self.loops.append(None)
        b = self.body(n["statement"])
        self.loops.pop()
        return [ast.While(t, b, [])]

    def s_ForOfStatement(self, n):
        return self.each(n, "iter")

    def s_ForInStatement(self, n):
        return self.each(n, "keys")

    def each(self, n, how):
        xs, k = f"t_{self.tick()}", f"t_{self.tick()}"
        old = self.scope
        self.scope = Scope(old.fn, old)
        out = [ast.Assign([ast.Name(xs, ast.Store())], self.rt(how, self.expr(n["expression"]))),
               ast.Assign([ast.Name(k, ast.Store())], ast.Constant(0))]
        i = n["initializer"]
        if i["k"] != "VariableDeclarationList":
            raise Untranslated("loop variable")
        pat = i["declarations"][0]["name"]
        for nm in binding_names(pat):
            self.declare(nm)
        b = self.bind(pat, self.rt("item", ast.Name(xs, ast.Load()), ast.Name(k, ast.Load())))
        b.append(ast.Assign([ast.Name(k, ast.Store())], ast.BinOp(ast.Name(k, ast.Load()), ast.Add(), ast.Constant(1))))
        self.loops.append(None)
        b += self.body(n["statement"])
        self.loops.pop()
        out.append(ast.While(ast.Compare(ast.Name(k, ast.Load()), [ast.Lt()], [self.rt("size", ast.Name(xs, ast.Load()))]), b, []))
        self.scope = old
        return out

    def s_SwitchStatement(self, n):
        v = f"t_{self.tick()}"
        out = [ast.Assign([ast.Name(v, ast.Store())], self.expr(n["expression"]))]
        groups, tests, default = [], [], None
        for c in n["caseBlock"]["clauses"]:
            if c["k"] == "DefaultClause":
                tests.append(None)
            else:
                tests.append(self.expr(c["expression"]))
            st = c["statements"]
            if len(st) == 1 and st[0]["k"] == "Block":
                st = st[0]["statements"]
            if not st:
                continue
            last = st[-1]["k"]
            if last == "BreakStatement":
                st = st[:-1]
            elif last not in ("ReturnStatement", "ThrowStatement") and c is not n["caseBlock"]["clauses"][-1]:
                raise Untranslated("switch case that falls through")
            groups.append((tests, self.block(st)))
            tests = []
        tail = []
        for ts, b in groups:
            if None in ts:
                tail = b
        for ts, b in reversed(groups):
            if None in ts:
                continue
            cs = [self.rt("same", ast.Name(v, ast.Load()), t) for t in ts]
            tail = [ast.If(cs[0] if len(cs) == 1 else ast.BoolOp(ast.Or(), cs), b, tail)]
        return out + (tail or [ast.Pass()])

    # ---------------------------------------------------------- expressions

    def effect(self, e):
        """an expression evaluated for its effect"""
        k = e["k"]
        while k == "ParenthesizedExpression":
            e = e["expression"]
            k = e["k"]
        if k in ("PostfixUnaryExpression", "PrefixUnaryExpression") and e["op"] in ("PlusPlusToken", "MinusMinusToken"):
            one = ast.Constant(1 if e["op"] == "PlusPlusToken" else -1)
            return self.put(e["operand"], ast.BinOp(self.expr(e["operand"]), ast.Add(), one))
        if k == "BinaryExpression":
            op = e["operatorToken"]["k"]
            if op == "EqualsToken":
                return self.put(e["left"], self.expr(e["right"]))
            if op == "CommaToken":
                return self.effect(e["left"]) + self.effect(e["right"])
            if op in ("PlusEqualsToken", "MinusEqualsToken"):
                r = self.expr(e["right"])
                v = self.rt("add", self.expr(e["left"]), r) if op[0] == "P" else ast.BinOp(self.expr(e["left"]), ast.Sub(), r)
                return self.put(e["left"], v)
            if op in ("AmpersandAmpersandToken", "BarBarToken"):
                t = self.test(e["left"])
                pre, self.pre = self.pre, []
                b = self.effect(e["right"])
                b, self.pre = self.pre + b, pre
                return [ast.If(t if op[0] == "A" else ast.UnaryOp(ast.Not(), t), b, [])]
        if k == "ConditionalExpression":
            return [ast.If(self.test(e["condition"]), self.effect(e["whenTrue"]), self.effect(e["whenFalse"]))]
        return [ast.Expr(self.expr(e))]

    def put(self, target, v):
        k = target["k"]
        if k == "Identifier":
            return [ast.Assign([self.store(target["text"], target)], v)]
        if k == "PropertyAccessExpression":
            return [ast.Expr(self.rt("put", self.expr(target["expression"]), ast.Constant(target["name"]["text"]), v))]
        if k == "ElementAccessExpression":
            return [ast.Expr(self.rt("put", self.expr(target["expression"]), self.expr(target["argumentExpression"]), v))]
        raise Untranslated(f"assignment to {k}")

    def test(self, e):
        k = e["k"]
        if k == "ParenthesizedExpression":
            return self.test(e["expression"])
        if k == "PrefixUnaryExpression" and e["op"] == "ExclamationToken":
            return ast.UnaryOp(ast.Not(), self.test(e["operand"]))
        if k == "BinaryExpression":
            op = e["operatorToken"]["k"]
            if op in ("AmpersandAmpersandToken", "BarBarToken"):
                return ast.BoolOp(ast.And() if op[0] == "A" else ast.Or(), [self.test(e["left"]), self.test(e["right"])])
            if op in COMPARE:
                return self.expr(e)
        return self.rt("truth", self.expr(e))

    def expr(self, e):
        k = e["k"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Untranslated(f"{k} (line {e['line']})")
        return self.at(m(e), e)

    def e_ParenthesizedExpression(self, e):
        return self.expr(e["expression"])

    def e_Identifier(self, e):
        if e["text"] == "undefined":
            return ast.Constant(None)
        py, _ = self.find(e["text"])
        return ast.Name(py, ast.Load()) if py else self.rt("glob", ast.Constant(e["text"]))

    def e_StringLiteral(self, e):
        return ast.Constant(e["text"])

    e_NoSubstitutionTemplateLiteral = e_StringLiteral

    def e_NumericLiteral(self, e):
        t = e["text"]
        return ast.Constant(int(t) if t.isdigit() else float(t))

    def e_NullKeyword(self, e):
        return ast.Constant(None)

    def e_TrueKeyword(self, e):
        return ast.Constant(True)

    def e_FalseKeyword(self, e):
        return ast.Constant(False)

    def e_TemplateExpression(self, e):
        parts = [ast.Constant(e["head"].get("text", ""))]
        for s in e["templateSpans"]:
            parts += [self.expr(s["expression"]), ast.Constant(s["literal"].get("text", ""))]
        return self.rt("text", *parts)

    def e_ArrayLiteralExpression(self, e):
        if any(x["k"] == "SpreadElement" for x in e["elements"]):
            if len(e["elements"]) == 1:
                return self.rt("iter", self.expr(e["elements"][0]["expression"]))
            raise Untranslated("spread")
        return ast.List([self.expr(x) for x in e["elements"]], ast.Load())

    def e_ObjectLiteralExpression(self, e):
        ks, vs = [], []
        for p in e["properties"]:
            if p["k"] == "ShorthandPropertyAssignment":
                ks.append(ast.Constant(p["name"]["text"]))
                vs.append(self.expr(p["name"]))
            elif p["k"] == "PropertyAssignment":
                nm = p["name"]
                ks.append(self.expr(nm["expression"]) if nm["k"] == "ComputedPropertyName" else ast.Constant(nm["text"]))
                vs.append(self.expr(p["initializer"]))
            else:
                raise Untranslated(p["k"])
        return ast.Dict(ks, vs)

    def e_PropertyAccessExpression(self, e):
        if "questionDotToken" in e:
            raise Untranslated("?.")
        return self.rt("get", self.expr(e["expression"]), ast.Constant(e["name"]["text"]))

    def e_ElementAccessExpression(self, e):
        return self.rt("item", self.expr(e["expression"]), self.expr(e["argumentExpression"]))

    def e_CallExpression(self, e):
        f = e["expression"]
        while f["k"] == "ParenthesizedExpression":
            f = f["expression"]
        args = [self.expr(a) for a in e["arguments"]]
        if f["k"] == "PropertyAccessExpression":
            if "questionDotToken" in f:
                raise Untranslated("?.")
            return self.rt("call", self.expr(f["expression"]), ast.Constant(f["name"]["text"]), *args)
        if f["k"] == "Identifier" and self.find(f["text"])[0] is None:
            return self.rt("fn", ast.Constant(f["text"]), *args)
        return self.rt("apply", self.expr(f), *args)

    def e_NewExpression(self, e):
        return self.rt("fn", ast.Constant("new " + e["expression"].get("text", "?")), *[self.expr(a) for a in e.get("arguments", [])])

    def e_FunctionExpression(self, e):
        return self.lift(e)

    e_ArrowFunction = e_FunctionExpression

    def e_PostfixUnaryExpression(self, e):
        if e["operand"]["k"] != "Identifier":
            raise Untranslated(e["op"])
        t = self.store(e["operand"]["text"], e)
        one = ast.Constant(1 if e["op"] == "PlusPlusToken" else -1)
        x = ast.NamedExpr(t, ast.BinOp(self.expr(e["operand"]), ast.Add(), one))
        return ast.BinOp(x, ast.Sub(), one)

    def e_ConditionalExpression(self, e):
        return ast.IfExp(self.test(e["condition"]), self.expr(e["whenTrue"]), self.expr(e["whenFalse"]))

    def e_PrefixUnaryExpression(self, e):
        if e["op"] == "ExclamationToken":
            return self.test(e)
        if e["op"] in ("PlusPlusToken", "MinusMinusToken") and e["operand"]["k"] == "Identifier":
            # the operand is a local number: its new value
            t = self.store(e["operand"]["text"], e)
            one = ast.Constant(1 if e["op"] == "PlusPlusToken" else -1)
            return ast.NamedExpr(t, ast.BinOp(self.expr(e["operand"]), ast.Add(), one))
        if e["op"] == "MinusToken":
            return ast.UnaryOp(ast.USub(), self.expr(e["operand"]))
        if e["op"] == "PlusToken":
            return self.rt("fn", ast.Constant("Number"), self.expr(e["operand"]))
        raise Untranslated(e["op"])

    def e_BinaryExpression(self, e):
        op = e["operatorToken"]["k"]
        if op in COMPARE:
            if op in EQUAL:
                c = self.rt("same" if op.count("Equals") == 3 or op.startswith("ExclamationEqualsEquals") else "eq", self.expr(e["left"]), self.expr(e["right"]))
                return ast.UnaryOp(ast.Not(), c) if op[0] == "E" and op.startswith("Excl") else c
            return ast.Compare(self.expr(e["left"]), [COMPARE[op]()], [self.expr(e["right"])])
        if op == "PlusToken":
            return self.rt("add", self.expr(e["left"]), self.expr(e["right"]))
        if op in ARITH:
            return ast.BinOp(self.expr(e["left"]), ARITH[op](), self.expr(e["right"]))
        if op in ("AmpersandAmpersandToken", "BarBarToken"):
            a, b = self.expr(e["left"]), self.expr(e["right"])
            t = self.test(e["left"])
            return ast.IfExp(t, b, a) if op[0] == "A" else ast.IfExp(t, a, b)
        if op == "InKeyword":
            return self.rt("has", self.expr(e["right"]), self.expr(e["left"]))
        raise Untranslated(op)


COMPARE = {"EqualsEqualsToken": ast.Eq, "EqualsEqualsEqualsToken": ast.Eq, "ExclamationEqualsToken": ast.NotEq, "ExclamationEqualsEqualsToken": ast.NotEq,
           "LessThanToken": ast.Lt, "LessThanEqualsToken": ast.LtE, "GreaterThanToken": ast.Gt, "GreaterThanEqualsToken": ast.GtE}
EQUAL = ("EqualsEqualsToken", "EqualsEqualsEqualsToken", "ExclamationEqualsToken", "ExclamationEqualsEqualsToken")
ARITH = {"MinusToken": ast.Sub, "AsteriskToken": ast.Mult, "PercentToken": ast.Mod}


def load(prog, name, path):
    """the script as a module with one function, `script`"""
    if not os.path.isfile(path):
        raise AnalysisBroken(f"script {path} is missing")
    t = Translate()
    t.scope = Scope(Fn(None), None)
    tree = parse(path)
    f = ast.FunctionDef("script", ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), t.block(tree), [])
    imp = ast.Import([ast.alias("jsrt")])
    mod = ast.Module([t.at(imp, {"line": 1}), t.at(f, {"line": 1})], [])
    m = Module(name, path, "", tree=mod)
    prog.modules[name] = m
    return m
