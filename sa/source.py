"""Source model of the analysed package: modules, classes, functions, import
resolution.  Nothing of the package is imported or executed."""
import ast
import hashlib
import os

REPO = os.environ.get("VERIF_REPO", "/repo")


class AnalysisBroken(Exception):
    """an anchor the analysis needs is gone (error exit, never a verdict)"""


class Module:
    def __init__(self, name, path, src, tree=None):
        self.name, self.path, self.src = name, path, src
        self.tree = ast.parse(src, path) if tree is None else tree
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.globals = {}  # name -> ("func"/"class"/"assign"/"import"/"from", payload)
        self.irregular = set()  # globals built by several statements
        self.todo = []          # their statements, in order
        self.assigned = {}
        for node in self.tree.body:
            self._top(node)
        self._irregular()

    def _irregular(self):
        def flat(body):
            for n in body:
                if isinstance(n, ast.If):
                    yield from flat(n.body)
                    yield from flat(n.orelse)
                elif isinstance(n, ast.Try):
                    for b in (n.body, n.orelse, n.finalbody, *[h.body for h in n.handlers]):
                        yield from flat(b)
                else:
                    yield n
        count, bad = {}, set()
        for n in flat(self.tree.body):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                continue
            targets = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) else None
            if targets is not None and all(isinstance(t, ast.Name) for t in targets):
                for t in targets:
                    count[t.id] = count.get(t.id, 0) + (0 if isinstance(n, ast.AnnAssign) and n.value is None else 1)
                continue
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            bad |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
        bad |= {k for k, v in count.items() if v > 1}
        known = set(count) | {x.id for n in flat(self.tree.body) if not isinstance(n, (ast.FunctionDef, ast.ClassDef))
                              for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        self.irregular = {b for b in bad & known if not b.startswith("__")}
        for b in self.irregular:
            self.globals.setdefault(b, ("assign", ast.Constant(None)))

    def _top(self, node):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if any(isinstance(d, ast.Name) and d.id == "overload" for d in node.decorator_list):
                return
            self.globals[node.name] = ("func", node)
        elif isinstance(node, ast.ClassDef):
            self.globals[node.name] = ("class", node)
        elif isinstance(node, ast.Assign):
            for t in node.targets:
                if isinstance(t, ast.Name):
                    self.globals[t.id] = ("assign", node.value)
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for i, e in enumerate(t.elts):
                        if isinstance(e, ast.Name):
                            v = node.value
                            if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                                v = v.elts[i]
                            else:
                                v = ast.copy_location(ast.Subscript(value=v, slice=ast.copy_location(ast.Constant(i), v), ctx=ast.Load()), v)
                            self.globals[e.id] = ("assign", v)
        elif isinstance(node, ast.AnnAssign):
            if isinstance(node.target, ast.Name) and node.value is not None:
                self.globals[node.target.id] = ("assign", node.value)
        elif isinstance(node, ast.Import):
            for a in node.names:
                if a.asname:
                    self.globals[a.asname] = ("import", a.name)
                else:
                    self.globals[a.name.split(".")[0]] = ("import", a.name.split(".")[0])
        elif isinstance(node, ast.ImportFrom):
            base = self.resolve_rel(node.module, node.level)
            for a in node.names:
                self.globals[a.asname or a.name] = ("from", (base, a.name))
        elif isinstance(node, (ast.If, ast.Try)):
            for part in ("body", "orelse", "finalbody"):
                for s in getattr(node, part, []):
                    self._top(s)
            for h in getattr(node, "handlers", []):
                for s in h.body:
                    self._top(s)

    def resolve_rel(self, module, level):
        if not level:
            return module
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (level - 1)]
        return ".".join(parts + ([module] if module else []))


class ClassInfo:
    def __init__(self, qual, module, node):
        self.qual, self.module, self.node = qual, module, node
        self.name = node.name
        self.methods, self.props, self.setters, self.attrs = {}, {}, {}, {}
        self.static, self.classm = set(), set()
        self.ann = {}
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                decs = []
                for d in n.decorator_list:
                    if isinstance(d, ast.Name):
                        decs.append(d.id)
                    elif isinstance(d, ast.Attribute):
                        decs.append(d.attr)
                if "overload" in decs:
                    continue
                if "setter" in decs:
                    self.setters[n.name] = n
                    continue
                if "property" in decs or "cached_property" in decs:
                    self.props[n.name] = n
                    continue
                if "staticmethod" in decs:
                    self.static.add(n.name)
                if "classmethod" in decs:
                    self.classm.add(n.name)
                self.methods[n.name] = n
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                self.ann[n.target.id] = n.annotation
                if n.value is not None:
                    self.attrs[n.target.id] = n.value


    def record_fields(self):
        """fields of a dataclass or named tuple, in order (None otherwise)"""
        decs = {ast.unparse(d.func if isinstance(d, ast.Call) else d).split(".")[-1] for d in self.node.decorator_list}
        bases = {ast.unparse(b).split(".")[-1] for b in self.node.bases}
        if "dataclass" in decs or "NamedTuple" in bases:
            return list(self.ann)
        return None


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        root = os.path.join(self.repo, "clubs")
        if not os.path.isdir(root):
            raise AnalysisBroken(f"package directory {root} is missing")
        h = hashlib.sha256()
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.repo)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[: -len(".__init__")]
                with open(p, encoding="utf8") as fh:
                    src = fh.read()
                h.update(rel.encode() + b"\0" + src.encode())
                self.modules[rel] = Module(rel, p, src)
        self.digest = h.hexdigest()[:16]
        self.classes = {}
        for m in self.modules.values():
            for node in ast.walk(m.tree):
                if isinstance(node, ast.ClassDef):
                    q = f"{m.name}.{node.name}"
                    self.classes[q] = ClassInfo(q, m, node)

    def add_module(self, name, path):
        """an additional (reference) module, analysed like the package's own"""
        if name in self.modules:
            return self.modules[name]
        with open(path, encoding="utf8") as fh:
            m = Module(name, path, fh.read())
        self.modules[name] = m
        for node in ast.walk(m.tree):
            if isinstance(node, ast.ClassDef):
                q = f"{m.name}.{node.name}"
                self.classes[q] = ClassInfo(q, m, node)
        return m

    # -------------------------------------------------------- resolution

    def lookup(self, modname, name, seen=()):
        """resolve a global name -> (kind, payload, module) following imports"""
        m = self.modules.get(modname)
        if m is None:
            return ("ext", f"{modname}.{name}", None)
        g = m.globals.get(name)
        if g is None:
            sub = f"{modname}.{name}"
            if sub in self.modules:
                return ("mod", sub, None)
            return None
        kind, p = g
        if kind == "func":
            return ("func", p, m)
        if kind == "class":
            return ("class", f"{m.name}.{name}", m)
        if kind == "assign":
            return ("built", name, m) if name in m.irregular else ("assign", p, m)
        if kind == "import":
            return ("mod", p, None)
        base, nm = p
        if (base, nm) in seen:
            return None
        if base in self.modules:
            r = self.lookup(base, nm, seen + ((base, nm),))
            if r is not None:
                return r
            sub = f"{base}.{nm}"
            if sub in self.modules:
                return ("mod", sub, None)
            return None
        return ("ext", f"{base}.{nm}", None)

    def cls(self, qual):
        c = self.classes.get(qual)
        if c is None:
            raise AnalysisBroken(f"class {qual} not found")
        return c

    def find_class(self, name):
        """class by bare name, wherever it lives"""
        c = [q for q in self.classes if q.rsplit(".", 1)[1] == name]
        if len(c) != 1:
            raise AnalysisBroken(f"class {name}: {len(c)} definitions")
        return self.classes[c[0]]

    def mro(self, qual):
        out, todo = [], [qual]
        while todo:
            q = todo.pop(0)
            c = self.classes.get(q)
            if c is None or c in out:
                continue
            out.append(c)
            for b in c.node.bases:
                r = self.resolve_expr(c.module, b)
                if r and r[0] == "class":
                    todo.append(r[1])
        return out

    def base_names(self, qual):
        """names of all (also external) bases"""
        out = set()
        for c in self.mro(qual):
            out.add(c.name)
            for b in c.node.bases:
                out.add(ast.unparse(b).split(".")[-1])
        return out

    def resolve_expr(self, module, e):
        if isinstance(e, ast.Name):
            return self.lookup(module.name, e.id)
        if isinstance(e, ast.Attribute):
            r = self.resolve_expr(module, e.value)
            if r and r[0] == "mod":
                if r[1] in self.modules:
                    return self.lookup(r[1], e.attr)
                return ("ext", f"{r[1]}.{e.attr}", None)
        return None

    def method(self, qual, name):
        for c in self.mro(qual):
            if name in c.methods:
                return c, c.methods[name]
        return None

    def where(self, module, node):
        p = os.path.relpath(module.path, self.repo)
        return f"{p}:{getattr(node, 'lineno', '?')}"
