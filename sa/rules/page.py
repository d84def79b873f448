"""The page of the web viewer: the drawing the server process builds, and what
the script of the page makes of the messages it receives.

The drawing is obtained by interpreting the construction of the viewer and the
route of the page; the script is translated (sa/js.py) and interpreted for a
message whose numbers and cards are symbols.  Nothing is started."""
import html.parser
import os
import re
import xml.etree.ElementTree as ET

from .. import terms as tm
from ..core import CONSISTENT, REFUTED, UNDECIDED, Ob
from ..js import Untranslated, load
from ..lab import Bot, Lab, Model, Undecided
from ..terms import NONE, T, TRUE, const, mk, sym
from ..transfer import Bad, need
from . import web


class El:
    """an element of the drawing"""

    def __init__(self, tag, attrs=None, text=None):
        self.tag, self.attrs, self.text, self.kids, self.up = tag, dict(attrs or {}), text, [], None

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()


def from_xml(e):
    r = El(e.tag.rsplit("}", 1)[-1], {k.rsplit("}", 1)[-1]: const(v) for k, v in e.attrib.items()}, const(e.text) if e.text is not None else None)
    r.kids = [from_xml(x) for x in e]
    return r


def to_xml(e, back):
    x = ET.Element(e.tag, {k: v.args[1] if tm.is_const(v) and isinstance(v.args[1], str) else "\0" for k, v in e.attrs.items()})
    x.text = e.text.args[1] if e.text is not None and tm.is_const(e.text) else None
    back[id(x)] = e
    back.setdefault("", []).append(x)
    x.extend([to_xml(k, back) for k in e.kids])
    return x


class Draw(web.World):
    """... and xml.etree, for the drawing"""

    def __init__(self, **kw):
        super().__init__(**kw)
        self.els, self.roots = {}, {}

    def el(self, e):
        for t, x in self.els.items():
            if x is e:
                return t
        t = self.lib("element")
        self.els[t] = e
        return t

    def text_of(self, t):
        try:
            v = Model({})(t)
        except (Bot, Undecided) as u:
            raise web.Unsure(f"text {str(t)[:60]}: {u}")
        if not isinstance(v, str):
            raise web.Unsure(f"text {str(t)[:60]}")
        return v

    def special(self, lab, o, kind, name, args, kw, node):
        I = lab.I
        if o is None:
            q, fn = name.rsplit(".", 1) if "." in name else ("", name)
            if not q.endswith(("ElementTree", "cElementTree")):
                return None
            if fn in ("fromstring", "XML"):
                return self.parse(self.text_of(I.purify(args[0])))
            if fn == "parse":
                f = self.text_of(mk("fileread", I.purify(args[0]), ty="str"))
                t = self.lib("tree")
                self.roots[t] = self.els[self.parse(f)]
                return t
            if fn in ("tostring", "tostringlist"):
                e = self.elem(args[0])
                t = self.lib("svg")
                self.roots[t] = snapshot(e)
                return t
            if fn in ("Element", "SubElement"):
                k = 1 if fn == "SubElement" else 0
                e = El(tm.cval(args[k]))
                for d in args[k + 1:k + 2]:
                    self.attrs(I, e, d)
                for a, v in kw.items():
                    e.attrs[a] = I.purify(v)
                if k:
                    self.attach(self.elem(args[0]), e)
                return self.el(e)
            if fn == "indent":
                return NONE
            return None
        if kind == "tree" and name in ("getroot", "find", "findall", "iter"):
            if name == "getroot":
                return self.el(self.roots[o])
            return self.special(lab, self.el(self.roots[o]), "element", name, args, kw, node)
        if kind == "svg" and name in ("decode", "strip", "__str__", "replace", "split"):
            return o if name in ("decode", "strip", "__str__") else None
        if o not in self.els:
            return None
        e = self.els[o]
        if name in ("__deepcopy__", "__copy__"):
            c = snapshot(e) if name == "__deepcopy__" else shallow(e)
            return self.el(c)
        if name == ".attrib":
            t = self.lib("attrib")
            self.els[t] = e
            return t
        if kind == "attrib":
            return self.attrib(I, e, name, args)
        if name == ".tag":
            return const(e.tag)
        if name == ".text":
            return e.text if e.text is not None else NONE
        if name == ".tail":
            return NONE
        if name == "=text":
            e.text = I.purify(args[0])
            return NONE
        if name == "=tail":
            return NONE
        if name == "=tag":
            e.tag = tm.cval(args[0])
            return NONE
        if name == "=iter" or name == "getchildren":
            return tm.lst(*[self.el(k) for k in e.kids])
        if name.startswith("."):
            return None
        if name == "set":
            e.attrs[tm.cval(args[0])] = I.purify(args[1])
            return NONE
        if name == "get":
            v = e.attrs.get(tm.cval(args[0]))
            return v if v is not None else args[1] if len(args) > 1 else kw.get("default", NONE)
        if name == "append":
            return self.attach(e, self.elem(args[0]))
        if name == "extend":
            for x in self.listed(I, args[0]):
                self.attach(e, self.elem(x))
            return NONE
        if name == "insert":
            x = self.elem(args[1])
            e.kids.insert(tm.cval(args[0]), x)
            return NONE
        if name == "remove":
            x = self.elem(args[0])
            if not any(k is x for k in e.kids):
                I.raise_(mk("exc", "ValueError", ()), node)
                return tm.UNDEF
            e.kids = [k for k in e.kids if k is not x]
            return NONE
        if name == "clear":
            e.kids, e.attrs, e.text = [], {}, None
            return NONE
        if name in ("find", "findall", "iterfind", "findtext", "iter"):
            back = {}
            x = to_xml(e, back)
            tag = None if not args else tm.cval(args[0])
            if name == "iter":
                found = list(x.iter(tag))
            elif name in ("findall", "iterfind"):
                found = x.findall(tag)
            else:
                found = x.find(tag)
                if found is None:
                    return NONE
                return self.el(back[id(found)]) if name == "find" else (back[id(found)].text or NONE)
            return tm.lst(*[self.el(back[id(y)]) for y in found])
        if name in ("keys", "items", "itertext"):
            return None
        return None

    def attrib(self, I, e, name, args):
        if name in ("get", "pop", "__getitem__"):
            v = e.attrs.get(tm.cval(args[0]))
            if name == "pop":
                e.attrs.pop(tm.cval(args[0]), None)
            return v if v is not None else args[1] if len(args) > 1 else NONE
        if name in ("__setitem__",):
            e.attrs[tm.cval(args[0])] = I.purify(args[1])
            return NONE
        if name == "update":
            self.attrs(I, e, args[0])
            return NONE
        return None

    def attrs(self, I, e, d):
        c = I.purify(d)
        if c.op != "dict":
            raise web.Unsure("attributes")
        for k, v in c.args[0]:
            e.attrs[tm.cval(k)] = v

    def listed(self, I, v):
        p = I.parts(I.seq(v))
        if p is None:
            raise web.Unsure("list of elements")
        return p

    def elem(self, t):
        if t not in self.els:
            raise web.Unsure(f"element {str(t)[:60]}")
        return self.els[t]

    def attach(self, e, x):
        e.kids.append(x)
        return NONE

    def parse(self, text):
        try:
            return self.el(from_xml(ET.fromstring(text)))
        except ET.ParseError as x:
            raise Bad(f"a drawing cannot be parsed: {x}")


def snapshot(e):
    r = El(e.tag, e.attrs, e.text)
    r.kids = [snapshot(k) for k in e.kids]
    for k in r.kids:
        k.up = r
    return r


def shallow(e):
    r = El(e.tag, e.attrs, e.text)
    r.kids = list(e.kids)
    return r


class Geo(Model):
    """numbers of the drawing"""

    def m_ext(self, t, env):
        import math
        v = getattr(math, t.args[0].rsplit(".", 1)[-1], None) if t.args[0].startswith("math.") else None
        if not isinstance(v, float):
            raise Undecided(f"operation ext {t.args[0]}")
        return v

    def m_mathfn(self, t, env):
        import math
        try:
            return getattr(math, t.args[0].rsplit(".", 1)[-1])(*[float(self.ev(a, env)) for a in t.args[1:]])
        except (AttributeError, ValueError, TypeError) as e:
            raise Undecided(str(e))

    def m_str(self, t, env):
        v = self.ev(t.args[0], env)
        return str(v if isinstance(v, (int, str, bool)) or v is None else float(v))


# ---------------------------------------------------------------- the document


class Template:
    """the page a template makes: what is loaded, and where the drawing goes"""

    def __init__(self, folder, static):
        self.folder, self.static, self.refs = folder, static, []

    def read(self, name):
        try:
            with open(os.path.join(self.folder, name), encoding="utf8") as f:
                return f.read()
        except OSError:
            raise Bad(f"template {name} is missing")

    def fill(self, name, values, blocks=None):
        src = self.read(name)
        blocks = dict(blocks or {})
        own = {}
        src = re.sub(r"\{#.*?#\}", "", src, flags=re.S)
        pat = re.compile(r"\{%-?\s*block\s+(\w+)\s*-?%\}((?:(?!\{%-?\s*block).)*?)\{%-?\s*endblock(?:\s+\w+)?\s*-?%\}", re.S)
        ext = re.search(r"\{%-?\s*extends\s+['\"]([^'\"]+)['\"]\s*-?%\}", src)
        for m in pat.finditer(src):
            own[m.group(1)] = m.group(2)
        if ext:
            return self.fill(ext.group(1), values, {**own, **blocks})
        src = pat.sub(lambda m: blocks.get(m.group(1), m.group(2)), src)
        src = re.sub(r"\{%-?\s*include\s+['\"]([^'\"]+)['\"]\s*-?%\}", lambda m: self.fill(m.group(1), values), src)
        if "{%" in src:
            raise web.Unsure(f"statement in template {name}")

        def value(m):
            e = m.group(1).strip()
            u = re.fullmatch(r"url_for\(\s*['\"]static['\"]\s*,\s*filename\s*=\s*['\"]([^'\"]+)['\"]\s*\)", e)
            if u:
                self.refs.append(u.group(1))
                return "static:" + u.group(1)
            v = re.fullmatch(r"(\w+)(\s*\|\s*safe)?", e)
            if not v:
                raise web.Unsure(f"expression {e} in template {name}")
            return values(v.group(1), bool(v.group(2)))
        return re.sub(r"\{\{-?(.*?)-?\}\}", value, src, flags=re.S)


class Html(html.parser.HTMLParser):
    """scripts of a page and the place of the drawing, in order"""

    def __init__(self, text):
        super().__init__()
        self.items, self.inline = [], None
        self.feed(text)

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag == "script":
            if a.get("type") not in (None, "", "text/javascript", "application/javascript", "module"):
                self.inline = ""
            elif "src" in a:
                self.items.append(("late" if "defer" in a or a.get("type") == "module" else "now", a["src"]))
                self.inline = ""
            else:
                self.items.append(("inline", ""))
                self.inline = None
        elif tag == "drawing":
            self.items.append(("drawing", a.get("n")))

    handle_startendtag = handle_starttag

    def handle_data(self, data):
        if self.items and self.items[-1][0] == "inline" and data.strip():
            self.items[-1] = ("inline", self.items[-1][1] + data)


# ---------------------------------------------------------------- the script


def js_text(v):
    """text of a value as a script writes it"""
    if v is None:
        return "undefined"
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, float) and v == int(v):
        return str(int(v))
    return str(v)


class Script(Model):
    def m_jstext(self, t, env):
        return "".join(js_text(self.ev(a, env)) for a in t.args)

    def m_idx(self, t, env):
        try:
            return super().m_idx(t, env)
        except Bot:
            return None


class Browser:
    """the runtime of a script: the document, arrays, strings, socket.io"""

    def __init__(self, ctx, root, events):
        self.ctx, self.root = ctx, root
        self.lab = Lab(ctx)
        self.I = self.lab.I
        self.I.unroll_whiles = 400
        self.I.hook = self.hook
        self.unsure, self.handlers, self.later = [], {}, []
        self.ready = False
        self.of, self.term, self.ref = {}, {}, {}
        for e in root.walk():
            self.add(e)
        self.seen = set()

    def add(self, e):
        t = mk("lib", f"element@{len(self.of)}", ty="any")
        self.of[t], self.term[e] = e, t
        r = self.I.alloc("obj", cls=None, label="element")
        self.ref[e] = r.args[0]
        for k in set(e.attrs) | {"fill", "stroke", "style", "class", "visibility", "display", "opacity", "x", "y"}:
            self.I.st.heap[(r.args[0], k)] = e.attrs.get(k, NONE)
        self.I.st.heap[(r.args[0], "#text")] = e.text if e.text is not None else const("")

    def field(self, e, k):
        return self.I.hget(self.ref[e], k)

    def write(self, e, k, v):
        if (self.ref[e], k) not in self.I.st.heap:
            if self.I.st.pc:
                self.unsure.append(f"attribute {k} is set under a condition")
            self.I.st.heap[(self.ref[e], k)] = NONE
        self.I.st.heap[(self.ref[e], k)] = v

    def fail(self, what, node):
        self.I.raise_(mk("exc", "TypeError", (const(what),)), node)
        return tm.UNDEF

    def open(self, why, node=None):
        self.unsure.append(why + (f" at {self.I.where(node)}" if node is not None else ""))
        return self.I.opaque(why) if hasattr(self.I, "opaque") else NONE

    # ---------------------------------------------------------- entry

    def hook(self, o, name, args, kw, node):
        I = self.I
        if I.st.dead:
            return tm.UNDEF
        if o is None:
            if not name.startswith("jsrt."):
                return None
            return getattr(self, "r_" + name[5:])(args, node)
        if o in self.of or o.op == "lib":
            if name in ("=iter",):
                return None
        return None

    def lib(self, name):
        return mk("lib", name, ty="any")

    def arr(self, xs):
        return self.I.alloc("list", content=tm.lst(*xs))

    def each(self, v, node):
        p = self.I.parts(self.I.seq(v)) if v.op != "const" or v.ty == "str" else None
        if v.op == "const" and v.ty == "str":
            return [const(c) for c in v.args[1]]
        return p

    def r_glob(self, args, node):
        n = tm.cval(args[0])
        if n in ("document", "window", "console", "Object", "Array", "String", "Number", "Math", "JSON", "parseInt", "io", "globalThis"):
            return self.lib("js:" + n)
        if n == "NaN":
            return self.open("NaN")
        return self.fail(f"{n} is not defined", node)

    def r_truth(self, args, node):
        v = args[0]
        I = self.I
        if v is NONE:
            return tm.FALSE
        if v.op in ("lib", "closure", "func", "bound") or v.op == "ref":
            return TRUE
        if v.op == "ite":
            a, b = self.r_truth([v.args[1]], node), self.r_truth([v.args[2]], node)
            return tm.ite(v.args[0], a, b)
        return I.truth(v)

    def r_eq(self, args, node):
        a, b = args
        kinds = []
        for x in (a, b):
            kinds.append("str" if x.ty == "str" else "num" if x.ty in ("int", "float") else "bool" if x.ty == "bool" else "none" if x is NONE else "?")
        if kinds[0] != kinds[1] and "?" not in kinds and "none" not in kinds:
            return self.open("comparison of different types", node)
        if "none" in kinds and kinds[0] != kinds[1]:
            o = a if b is NONE else b
            if o.op in ("lib", "ref", "closure") or kinds[0 if b is NONE else 1] != "?":
                return tm.FALSE
        return tm.eq(a, b)

    def r_same(self, args, node):
        a, b = args
        num = ("int", "float")
        if a.ty != b.ty and not {a.ty, b.ty} <= set(num) and a.ty in ("str", "bool", "none") + num and b.ty in ("str", "bool", "none") + num:
            return tm.FALSE
        return self.r_eq(args, node)

    def as_text(self, v):
        I = self.I
        if v.op == "ref":
            return self.open("text of an object")
        if tm.is_const(v) and v is not NONE:
            x = tm.cval(v)
            return const(js_text(x))
        if v is NONE:
            return const("undefined")
        return v if v.ty == "str" else mk("jstext", v, ty="str")

    def r_text(self, args, node):
        return self.concat([self.as_text(a) for a in args])

    def concat(self, ts):
        out = ""
        for t in ts:
            if not tm.is_const(t):
                break
            out += tm.cval(t)
        else:
            return const(out)
        return mk("jstext", *ts, ty="str")

    def r_add(self, args, node):
        a, b = args
        if a.ty == "str" or b.ty == "str" or a.op == "jstext" or b.op == "jstext":
            return self.r_text(args, node)
        if a.ty in ("int", "float") and b.ty in ("int", "float"):
            return tm.add(a, b)
        return self.open("+", node)

    def r_iter(self, args, node):
        v = args[0]
        if v is NONE:
            return self.fail("undefined is not iterable", node)
        return self.arr(self.each(v, node)) if self.each(v, node) is not None else self.open("iteration", node)

    def r_keys(self, args, node):
        v = args[0]
        c = self.I.deref(v)
        if c.op == "dict":
            return self.arr([k for k, _ in c.args[0]])
        p = self.each(v, node)
        return self.arr([const(str(i)) for i in range(len(p))]) if p is not None else self.open("for in", node)

    def r_size(self, args, node):
        p = self.each(args[0], node)
        return const(len(p)) if p is not None else self.open("size", node)

    def r_has(self, args, node):
        c = self.I.deref(args[0])
        if c.op == "dict" and tm.is_const(args[1]):
            return const(any(k is args[1] for k, _ in c.args[0]))
        return self.open("in", node)

    def r_item(self, args, node):
        v, k = args
        I = self.I
        if v is NONE:
            return self.fail(f"cannot read {k} of undefined", node)
        if v.op == "ite":
            return I.fork(v.args[0], lambda: self.r_item([v.args[1], k], node), lambda: self.r_item([v.args[2], k], node))
        if k.op == "ite":
            return I.fork(k.args[0], lambda: self.r_item([v, k.args[1]], node), lambda: self.r_item([v, k.args[2]], node))
        if tm.is_const(k) and isinstance(tm.cval(k), str) and not tm.cval(k).isdigit() and v.op == "lib":
            return self.r_get([v, k], node)
        c = I.deref(v)
        if c.op == "dict":
            if tm.is_const(k):
                s = js_text(tm.cval(k))
                for a, x in c.args[0]:
                    if js_text(tm.cval(a)) == s:
                        return x
                return NONE
            r = NONE
            for a, x in reversed(c.args[0]):
                r = tm.ite(tm.eq(k, a), x, r)
            return r
        if c.ty == "str" or c.op == "jstext":
            if tm.is_const(k) and isinstance(tm.cval(k), int):
                if tm.is_const(c):
                    s = tm.cval(c)
                    return const(s[tm.cval(k)]) if 0 <= tm.cval(k) < len(s) else NONE
                return mk("idx", c, k, ty="str") if tm.cval(k) >= 0 else NONE
            return mk("idx", c, k, ty="str")
        p = self.each(v, node)
        if p is not None:
            if tm.is_const(k):
                n = tm.cval(k)
                n = int(n) if isinstance(n, str) and n.isdigit() else n
                return p[n] if isinstance(n, int) and 0 <= n < len(p) else NONE if not isinstance(n, str) else self.r_get([v, k], node)
            r = NONE
            for i in range(len(p) - 1, -1, -1):
                if p[i].op in ("lib", "ref") or (r is NONE and k.ty not in ("int",)):
                    pass
                r = tm.ite(tm.eq(k, const(i)), p[i], r)
            return r
        return self.open("index", node)

    # ---------------------------------------------------------- properties

    def r_get(self, args, node):
        v, k = args
        n = tm.cval(k)
        I = self.I
        if v is NONE:
            return self.fail(f"cannot read {n} of null", node)
        if v.op == "ite":
            return I.fork(v.args[0], lambda: self.r_get([v.args[1], k], node), lambda: self.r_get([v.args[2], k], node))
        if v in self.of:
            return self.property(self.of[v], n, node)
        if v.op == "lib":
            if v.args[0] == "js:window" and n in ("document", "io"):
                return self.lib("js:" + n)
            if v.args[0] == "js:document" and n in ("body", "documentElement"):
                return self.term[self.root] if self.ready else NONE
            if v.args[0] == "js:document" and n == "readyState":
                return const("complete" if self.ready else "loading")
            if v.args[0].startswith("style:"):
                return self.open("style", node)
            return self.lib(v.args[0] + "." + n)
        c = I.deref(v)
        if n == "length":
            if c.ty == "str":
                return tm.length(c) if tm.is_const(c) else mk("len", c, ty="int")
            p = self.each(v, node)
            if p is not None:
                return const(len(p))
        if c.op == "dict":
            return self.r_item([v, k], node)
        return self.open(f"property {n}", node)

    def property(self, e, n, node):
        if n in ("innerHTML", "textContent", "innerText", "nodeValue"):
            return self.field(e, "#text")
        if n == "id":
            return self.field(e, "id") or const("")
        if n in ("children", "childNodes"):
            return self.arr([self.term[k] for k in e.kids])
        if n in ("parentElement", "parentNode"):
            return self.term[e.up] if e.up is not None else NONE
        if n in ("firstElementChild", "lastElementChild"):
            return self.term[e.kids[0 if n[0] == "f" else -1]] if e.kids else NONE
        if n in ("tagName", "nodeName"):
            return const(e.tag)
        if n == "style":
            return self.lib(f"style:{self.term[e].args[0]}")
        if n == "className":
            return self.open("className", node)
        return self.open(f"property {n}", node)

    def r_put(self, args, node):
        v, k, x = args
        I = self.I
        if v is NONE:
            return self.fail(f"cannot set {k} of null", node)
        if v.op == "ite":
            return I.fork(v.args[0], lambda: self.r_put([v.args[1], k, x], node), lambda: self.r_put([v.args[2], k, x], node))
        if v in self.of:
            e, n = self.of[v], tm.cval(k)
            if n in ("innerHTML", "textContent"):
                if e.kids:
                    self.open("text of a group is set", node)
                t = const("") if x is NONE and n == "textContent" else self.as_text(x)
                self.write(e, "#text", t)
            elif n == "id":
                self.open("id is changed", node)
            else:
                self.open(f"property {n} is set", node)
            return NONE
        if v.op == "lib":
            if v.args[0] == "js:window" and tm.cval(k) == "onload":
                self.later.append(x)
                return NONE
            self.open(f"{v.args[0]}.{tm.cval(k)} is set", node)
            return NONE
        c = I.deref(v)
        if c.op == "dict":
            I.set_content(v, lambda c: I.dict_set(c, k, x), node)
            return NONE
        p = self.each(v, node)
        if p is not None and tm.is_const(k) and v.op == "ref":
            I.set_content(v, lambda c: tm.upd(c, k, x), node)
            return NONE
        self.open("assignment", node)
        return NONE

    # ---------------------------------------------------------- calls

    def r_apply(self, args, node):
        f = args[0]
        if f.op == "lib":
            n = f.args[0]
            if n.startswith("js:") and "." not in n:
                return self.r_fn([const(n[3:])] + args[1:], node)
            return self.open("call of " + n, node)
        return self.invoke(f, args[1:], node)

    def invoke(self, f, args, node):
        if f is NONE:
            return self.fail("not a function", node)
        # a function may be called with more or fewer arguments than it names
        fn = self.I.clos[f.args[0]][0] if f.op == "closure" else None
        if fn is not None and hasattr(fn, "args"):
            n, d = len(fn.args.args), len(fn.args.defaults)
            args = list(args)[:n]
            args += [NONE] * max(0, n - d - len(args))
        return self.I.call(f, list(args), {}, node)

    def r_fn(self, args, node):
        n = tm.cval(args[0])
        a = args[1:]
        if n == "io":
            return self.lib("socket")
        if n in ("String", "Number", "parseInt", "Boolean"):
            if n == "String":
                return self.as_text(a[0])
            if a[0].ty in ("int", "float"):
                return a[0]
            if tm.is_const(a[0]) and isinstance(a[0].args[1], str) and a[0].args[1].isdigit():
                return const(int(a[0].args[1]))
            return self.open(n, node)
        if n == "new Set":
            return self.r_iter(a, node)
        if n in ("alert", "setTimeout", "requestAnimationFrame", "setInterval"):
            if n in ("requestAnimationFrame",) or (n == "setTimeout" and a and a[0].op == "closure"):
                self.open(n, node)
            return NONE
        return self.open(f"function {n}", node)

    def r_call(self, args, node):
        v, n, a = args[0], tm.cval(args[1]), list(args[2:])
        I = self.I
        if v is NONE:
            return self.fail(f"cannot call {n} of null", node)
        if v.op == "ite":
            return I.fork(v.args[0], lambda: self.r_call([v.args[1]] + args[1:], node), lambda: self.r_call([v.args[2]] + args[1:], node))
        if v in self.of:
            return self.element(self.of[v], n, a, node)
        if v.op == "lib":
            return self.object(v.args[0], n, a, node)
        c = I.deref(v)
        if c.ty == "str" or c.op == "jstext":
            return self.string(c, n, a, node)
        if c.op == "dict":
            if n == "hasOwnProperty":
                return self.r_has([v, a[0]], node)
            for k, x in c.args[0]:
                if tm.cval(k) == n:
                    return self.invoke(x, a, node)
            return self.fail(f"{n} is not a function", node)
        p = self.each(v, node)
        if p is not None:
            return self.array(v, p, n, a, node)
        if n == "toString" and v.ty in ("int", "float"):
            return self.as_text(v)
        return self.open(f"call of {n}", node)

    def object(self, o, n, a, node):
        if o == "js:document":
            if n in ("addEventListener",):
                self.later.append(a[1])
                return NONE
            if not self.ready:
                return NONE if n in ("getElementById", "querySelector") else self.arr([])
            return self.query(self.root, True, n, a, node)
        if o == "js:console":
            return NONE
        if o == "js:window" and n == "addEventListener":
            self.later.append(a[1])
            return NONE
        if o in ("js:window", "js:io") and n in ("io", "connect"):
            return self.lib("socket")
        if o == "socket" and n == "on":
            if self.I.st.pc:
                self.open("handler under a condition", node)
            if not (a[0].op == "const"):
                self.open("event name", node)
                return NONE
            self.handlers.setdefault(tm.cval(a[0]), []).append(a[1])
            return NONE
        if o == "socket":
            return NONE
        if o == "js:Object" and n in ("keys", "entries", "values"):
            c = self.I.deref(a[0])
            if c.op == "dict":
                ps = c.args[0]
            else:
                p = self.each(a[0], node)
                if p is None:
                    return self.open("Object." + n, node)
                ps = [(const(str(i)), x) for i, x in enumerate(p)]
            return self.arr([k if n == "keys" else x if n == "values" else self.arr([k, x]) for k, x in ps])
        if o == "js:Array" and n == "from":
            c = self.I.deref(a[0])
            if c.op == "dict":
                k = [x for y, x in c.args[0] if tm.cval(y) == "length"]
                if k and tm.is_const(k[0]):
                    p = [NONE] * tm.cval(k[0])
                else:
                    return self.open("Array.from", node)
            else:
                p = self.each(a[0], node)
            if p is None:
                return self.open("Array.from", node)
            return self.arr([self.invoke(a[1], [x, const(i)], node) for i, x in enumerate(p)] if len(a) > 1 else p)
        if o == "js:Array" and n == "isArray":
            return const(self.I.deref(a[0]).op == "list")
        if o == "js:Math" and n in ("max", "min"):
            return self.open("Math", node)
        return self.open(f"{o}.{n}", node)

    def element(self, e, n, a, node):
        if n in ("setAttribute", "setAttributeNS"):
            k, x = a[-2], a[-1]
            if not tm.is_const(k):
                return self.open("attribute name", node)
            if tm.cval(k) in ("id", "class"):
                self.open(f"{tm.cval(k)} is changed", node)
            self.write(e, tm.cval(k), self.as_text(x))
            return NONE
        if n in ("getAttribute", "hasAttribute", "removeAttribute"):
            if not tm.is_const(a[0]):
                return self.open("attribute name", node)
            k = tm.cval(a[0])
            if n == "removeAttribute":
                self.write(e, k, NONE)
                return NONE
            v = self.field(e, k)
            v = NONE if v is None else v
            return v if n == "getAttribute" else tm.not_(tm.eq(v, NONE))
        if n == "closest":
            while e is not None:
                if self.matches(e, tm.cval(a[0])):
                    return self.term[e]
                e = e.up
            return NONE
        if n == "hasOwnProperty":
            return self.open(n, node)
        return self.query(e, False, n, a, node)

    def below(self, e, whole):
        return [x for x in e.walk() if whole or x is not e]

    def query(self, e, whole, n, a, node):
        """elements found by id, class, tag or selector"""
        if not a:
            return self.open(f"call of {n}", node)
        if n in ("getElementById", "getElementsByClassName", "getElementsByTagName", "querySelector", "querySelectorAll"):
            k = a[0]
            if k.op == "ite":
                return self.I.fork(k.args[0], lambda: self.query(e, whole, n, [k.args[1]], node), lambda: self.query(e, whole, n, [k.args[2]], node))
            if not tm.is_const(k):
                return self.open("element looked up by a computed name", node)
            k = js_text(tm.cval(k))
            xs = self.below(e, whole)
            if n == "getElementById":
                if not whole and e.tag != "svg":
                    return self.fail("getElementById is not a function", node)
                for x in xs:
                    if x.attrs.get("id") is const(k):
                        return self.term[x]
                return NONE
            if n == "getElementsByClassName":
                want = set(k.split())
                return self.arr([self.term[x] for x in xs if want <= classes(x)])
            if n == "getElementsByTagName":
                return self.arr([self.term[x] for x in xs if k in ("*", x.tag)])
            try:
                found = [x for x in xs if self.matches(x, k)]
            except web.Unsure as u:
                return self.open(str(u), node)
            if n == "querySelector":
                return self.term[found[0]] if found else NONE
            return self.arr([self.term[x] for x in found])
        return self.open(f"call of {n}", node)

    def matches(self, e, sel):
        return any(self.chain(e, s.split()) for s in sel.split(","))

    def chain(self, e, parts):
        if not parts:
            return True
        if parts[-1] == ">":
            raise web.Unsure("selector")
        if not simple(e, parts[-1]):
            return False
        rest = parts[:-1]
        if not rest:
            return True
        if rest[-1] == ">":
            return e.up is not None and self.chain(e.up, rest[:-1])
        u = e.up
        while u is not None:
            if self.chain(u, rest):
                return True
            u = u.up
        return False

    def string(self, c, n, a, node):
        if n == "charAt":
            return self.r_item([c, a[0]], node)
        if n in ("toString", "trim", "valueOf"):
            return c
        if n in ("slice", "substring", "substr") and all(tm.is_const(x) for x in a):
            lo = tm.cval(a[0])
            hi = tm.cval(a[1]) if len(a) > 1 else None
            if n == "substr" and hi is not None:
                hi = lo + hi
            return tm.slice_(c, const(lo), const(hi) if hi is not None else NONE, NONE)
        if n in ("startsWith", "endsWith", "includes"):
            i = mk("idx", c, const(0 if n == "startsWith" else -1), ty="str")
            if n != "includes" and tm.is_const(a[0]) and len(tm.cval(a[0])) == 1:
                return tm.eq(i, a[0])
            return mk("in", a[0], c, ty="bool")
        if n == "split" and tm.is_const(a[0]) and tm.cval(a[0]) == "" and not tm.is_const(c):
            return self.arr([mk("idx", c, const(i), ty="str") for i in range(2)])
        if n == "replace" and all(tm.is_const(x) for x in a):
            return mk("strm", "replace", c, *a, ty="str")
        return self.open(f"string.{n}", node)

    def array(self, v, p, n, a, node):
        I = self.I
        if n == "forEach":
            for i, x in enumerate(p):
                self.invoke(a[0], [x, const(i), v], node)
                if I.st.dead:
                    return tm.UNDEF
            return NONE
        if n == "map":
            return self.arr([self.invoke(a[0], [x, const(i), v], node) for i, x in enumerate(p)])
        if n == "item":
            return self.r_item([v, a[0]], node)
        if n == "entries":
            return self.arr([self.arr([const(i), x]) for i, x in enumerate(p)])
        if n == "keys":
            return self.arr([const(i) for i in range(len(p))])
        if n in ("values", "concat") and not a:
            return self.arr(p)
        if n == "slice" and all(tm.is_const(x) for x in a):
            return self.arr(p[slice(*[tm.cval(x) for x in a])] if len(a) > 1 else p[tm.cval(a[0]):] if a else p)
        if n == "push" and v.op == "ref":
            for x in a:
                I.set_content(v, lambda c: tm.cat(c, tm.lst(x)), node)
            return const(len(p) + len(a))
        if n in ("includes", "indexOf", "some", "every", "filter", "find"):
            if n == "includes":
                return tm.or_(*[tm.eq(x, a[0]) for x in p])
            if n == "indexOf":
                r = const(-1)
                for i in range(len(p) - 1, -1, -1):
                    r = tm.ite(tm.eq(p[i], a[0]), const(i), r)
                return r
            ts = [self.r_truth([self.invoke(a[0], [x, const(i), v], node)], node) for i, x in enumerate(p)]
            if n == "some":
                return tm.or_(*ts)
            if n == "every":
                return tm.and_(*ts)
            if all(tm.is_const(t) for t in ts):
                xs = [x for x, t in zip(p, ts) if t is TRUE]
                return self.arr(xs) if n == "filter" else xs[0] if xs else NONE
        return self.open(f"array.{n}", node)


def classes(e):
    c = e.attrs.get("class")
    return set(tm.cval(c).split()) if c is not None and tm.is_const(c) else set()


def simple(e, s):
    toks = re.findall(r"([#.]?)([\w-]+)|\[([\w-]+)(?:([\^$*]?)=[\"']?([^\"'\]]*)[\"']?)?\]|(\*)|(:.*)", s)
    if "".join(a + b + ("[" if c else "") + f for a, b, c, d, v, f, g in toks) == "" or any(t[6] for t in toks):
        raise web.Unsure(f"selector {s}")
    for mark, name, attr, op, val, star, _ in toks:
        if star:
            continue
        if attr:
            v = e.attrs.get(attr)
            if v is None:
                return False
            if not tm.is_const(v):
                raise web.Unsure(f"selector {s}")
            v = str(tm.cval(v))
            if f"{attr}{op}=" in s and not {"": v == val, "^": v.startswith(val), "$": v.endswith(val), "*": val in v}[op]:
                return False
        elif mark == "#":
            if e.attrs.get("id") is not const(name):
                return False
        elif mark == ".":
            if name not in classes(e):
                return False
        elif e.tag != name:
            return False
    return True


# ---------------------------------------------------------------- obligations


SIZES = [(2, 2, 5), (3, 1, 0), (6, 2, 5), (4, 4, 3)]
SOME = [(n, 2, 5) for n in (3, 4, 5, 7, 8, 9, 10)] + [(2, 2, 7), (3, 6, 8)]   # fewer tables each
MORE = [(9, 2, 5), (10, 1, 2), (5, 3, 1), (8, 5, 5), (2, 1, 1), (7, 2, 0), (2, 4, 5)]
RANKS, SUITS = "23456789TJQKA", "shdc"


class Drawing:
    """the page a viewer of some size serves"""

    def __init__(self, ctx, size):
        self.size = size
        s = web.target(ctx, size, world=Draw, contracts=False)
        s.outcome_server()
        w = s.world
        p = w.page
        need(p is not None and p.op == "page", f"the page is {p}")
        self.events = sorted({e[1] for e in w.emitted})
        folder = [os.path.join(ctx.prog.repo, "clubs", "render", x) for x in ("templates", "static")]
        for c in w.calls("Flask"):
            for i, k in enumerate(("template_folder", "static_folder")):
                if k in c.kw:
                    folder[i] = w.text_of(c.kw[k])
        tpl = Template(*folder)
        vals = dict(p.args[1])
        self.root = None

        def value(name, safe):
            need(name in vals, f"the template shows {name}, which it is not given")
            t = vals[name]
            svg = [x for x in tm.subterms(t) if x in w.roots]
            if not svg:
                return w.text_of(t)
            need(t.op == "markup" or safe, "the picture would be escaped instead of shown")
            need(self.root is None, "the picture is shown twice")
            self.root = w.roots[svg[0]]
            return "<drawing n=0>"
        name = w.text_of(p.args[0])
        if not name.endswith((".html", ".htm", ".j2", ".jinja2")):
            raise web.Unsure("page without a template file")
        text = tpl.fill(name, value)
        need(self.root is not None, "the page does not show the table drawn")
        for r in tpl.refs:
            need(os.path.isfile(os.path.join(tpl.static, r)), f"the page refers to {r}, which is not there")
        self.items = Html(text).items
        self.scripts = {}
        for kind, src in self.items:
            if kind in ("now", "late") and src.startswith("static:"):
                path = os.path.join(tpl.static, src[7:])
                name = "script:" + src[7:]
                try:
                    load(ctx.prog, name, path)
                except SyntaxError as e:
                    raise Bad(f"{src[7:]} is no script: {e}")
                self.scripts[src] = name
            elif kind == "inline":
                raise web.Unsure("script inside the page")
        need(self.scripts, "the page loads no script of its own")

    def open(self, ctx):
        b = Browser(ctx, self.root, self.events)
        b.io = False
        late = []
        for kind, src in self.items:
            if kind == "drawing":
                b.ready = True
            elif src in self.scripts:
                if kind == "late":
                    late.append(src)
                else:
                    b.load(self.scripts[src])
            elif "socket.io" in src:
                b.io = True
        for src in late:
            b.load(self.scripts[src])
        b.ready = True
        for f in b.later:
            b.invoke(f, [NONE], None)
        return b


def b_load(self, module):
    self.lab.func(module, "script")
    self.settle("loading the page")


def b_settle(self, what):
    if self.unsure:
        raise web.Unsure(self.unsure[0])
    d = self.I.doubts()
    if d:
        raise web.Unsure(d[0])
    if self.I.st.dead:
        rs = self.I.root_raises
        r = rs[-1].val if rs else None
        raise Bad(f"{what}: the script fails" + (f" ({tm.cval(r.args[1][0]) if r.op == 'exc' and r.args[1] else r})" if r is not None else ""))


def b_tell(self, events, msg):
    for e in events:
        hs = self.handlers.get(e, [])
        need(hs, f"the script does not listen to {e!r}, which the server emits")
        for h in hs:
            self.invoke(h, [web.build(self.lab, msg)], None)
    self.settle("showing a table")


Browser.load, Browser.settle, Browser.tell = b_load, b_settle, b_tell


def table(size, tag, button, action, deal):
    """a message whose numbers, cards and flags are symbols"""
    n, h, c = size

    def s(name, ty):
        return sym(f"{tag}{name}", ty=ty)
    hole, board = deal
    return {"action": action, "active": [s(f"active{i}", "bool") for i in range(n)], "all_in": [s(f"all_in{i}", "bool") for i in range(n)],
            "community_cards": [s(f"board{i}", "str") for i in range(min(board, c))], "button": button, "done": s("done", "bool"),
            "hole_cards": [[s(f"card{i}_{j}", "str") for j in range(min(hole, h))] for i in range(n)],
            "pot": s("pot", "int"), "payouts": [s(f"pay{i}", "int") for i in range(n)], "prev_action": None,
            "street_commits": [s(f"commit{i}", "int") for i in range(n)], "stacks": [s(f"stack{i}", "int") for i in range(n)]}


def card_texts(ctx):
    """what str() of each card is, from the source"""
    out = {}
    lab = Lab(ctx)
    c = lab.new("Card", [sym("name", ty="str")])
    lab.settle()
    t = lab.pure(lab.call_value(mk("builtin", "str"), [c]))
    for r in RANKS:
        for s in SUITS:
            v = Model({"name": r + s})(t)
            if not isinstance(v, str) or len(v) < 2:
                raise web.Unsure(f"text of card {r + s}: {v!r}")
            out[r + s] = v
    return out


class Run:
    """the document after some messages"""

    def __init__(self, ctx, d, msgs):
        self.d, self.msgs = d, msgs
        b = d.open(ctx)
        self.base = set(b.I.st.pc)
        for m in msgs:
            b.tell(d.events, m)
        b.lab.done()
        self.raises = [e for e in b.I.root_raises]
        keys = {}
        for e in d.root.walk():
            keys[e] = {}
        inv = {r: e for e, r in b.ref.items()}
        for (loc, k), v in b.I.st.heap.items():
            if loc in inv and isinstance(k, str) and k:
                keys[inv[loc]][k] = b.I.purify(v)
        self.state = keys

    def see(self, env):
        """texts and attributes in one structure"""
        m = Script(env)
        for e in self.raises:
            if m(tm.and_(*e.st.pc)):
                r = e.val
                raise Bad(f"the script fails ({tm.cval(r.args[1][0]) if r.op == 'exc' and r.args[1] else r})")
        out = {}
        for e, ks in self.state.items():
            o = {}
            for k, v in ks.items():
                if k != "#text" and not any(x.op == "sym" for x in tm.subterms(v)) and not tm.is_const(v):
                    o[k] = v  # geometry
                    continue
                o[k] = m(v)
            o["#text"] = js_text(o["#text"]).strip() if o["#text"] is not None else "undefined"
            if e.tag == "text" and not o["#text"]:
                o = {"#text": ""}
            out[e] = {k: x for k, x in o.items() if x is not None}
        return out


def mentions(v, name):
    return any(x.op == "sym" and x.args[0] == name for x in tm.subterms(v))


def bare(e):
    """outside the definitions a drawing refers to"""
    while e is not None:
        if e.tag in ("pattern", "defs", "symbol", "clipPath", "mask"):
            return False
        e = e.up
    return True


def holder(e, group):
    """keys of `group` (key -> element) below the nearest ancestor that has any"""
    u = e
    while u is not None:
        inside = set(map(id, u.walk()))
        found = {k for k, x in group if id(x) in inside}
        if found:
            return found
        u = u.up
    return set()


def reddish(c):
    c = (c or "").strip().lower()
    if c in ("red", "crimson", "darkred", "firebrick", "tomato", "orangered", "maroon"):
        return True
    if c in ("black", "", "none", "dimgray", "dimgrey", "gray", "grey"):
        return False
    m = re.fullmatch(r"#([0-9a-f]{3}|[0-9a-f]{6})", c) or re.fullmatch(r"rgb\((\d+),\s*(\d+),\s*(\d+)\)", c)
    if m is None:
        return None
    g = m.groups()
    if len(g) == 1:
        h = g[0]
        k = len(h) // 3
        rgb = [int(h[i * k:(i + 1) * k] * (3 - k), 16) for i in range(3)]
    else:
        rgb = [int(x) for x in g]
    return rgb[0] > 100 and rgb[0] > 2 * max(rgb[1:]) if sum(rgb) else False


def place(e):
    """centre of an element in the drawing, or None"""
    def num(x, k, d=0.0):
        v = x.attrs.get(k)
        if v is None:
            return d
        try:
            s = str(Geo({})(v))
        except (Bot, Undecided):
            raise web.Unsure(f"{k} of {x.tag}")
        try:
            if s.endswith("%") and x.up is not None:
                return float(s[:-1]) / 100 * num(x.up, {"x": "width", "y": "height"}.get(k, k))
            return float(s)
        except ValueError:
            raise web.Unsure(f"{k}={s}")
    x, y = num(e, "x") + num(e, "width") / 2, num(e, "y") + num(e, "height") / 2
    u = e.up
    while u is not None:
        if u.tag == "svg":
            x, y = x + num(u, "x"), y + num(u, "y")
        elif "transform" in u.attrs:
            raise web.Unsure("transform")
        u = u.up
    return x, y


class Layout:
    """which element shows what: found by dependence, not by name"""

    def __init__(self, run, size, msg, env, texts_):
        self.run = run
        cards = list(texts_.values())

        def sensitive(xs, name, keys):
            """those whose value really depends on the symbol"""
            if len(xs) < 2:
                return xs
            env1 = {**env, **{k: True for k in env if k.startswith("active")}}
            docs = [run.see({**env1, name: v}) for v in (cards[::5] if isinstance(env[name], str) else (3, 17, 1001))]
            out = []
            for e in xs:
                ks = keys or [k for k in run.state[e] if k != "#text"]
                if any(d[e].get(k) != docs[0][e].get(k) for d in docs for k in ks):
                    out.append(e)
            return out
        n, h, c = size
        st = run.state
        texts = [e for e in st if e.tag in ("text", "tspan") and bare(e)]

        def text(name, what):
            xs = sensitive([e for e in texts if mentions(st[e]["#text"], name)], name, ["#text"])
            need(xs, f"{what} is not shown")
            need(len(xs) == 1, f"{what} is shown {len(xs)} times")
            return xs[0]

        def back(name, what):
            xs = [e for e in st if e.tag not in ("text", "tspan") and bare(e) and any(mentions(v, name) for k, v in st[e].items() if k != "#text")]
            xs = sensitive(xs, name, None)
            need(xs, f"the suit of {what} is not shown")
            need(len(xs) == 1, f"the suit of {what} is shown {len(xs)} times")
            return xs[0]
        self.stack = {i: text(f"stack{i}", f"the stack of seat {i}") for i in range(n)}
        self.commit = {i: text(f"commit{i}", f"the street commit of seat {i}") for i in range(n)}
        self.pot = text("pot", "the pot")
        self.card, self.back = {}, {}
        for i, cs in enumerate(msg["hole_cards"]):
            for j in range(len(cs)):
                self.card[i, j] = text(f"card{i}_{j}", f"hole card {j} of seat {i}")
                self.back[i, j] = back(f"card{i}_{j}", f"hole card {j} of seat {i}")
        self.board, self.ground = {}, {}
        for j in range(len(msg["community_cards"])):
            self.board[j] = text(f"board{j}", f"community card {j}")
            self.ground[j] = back(f"board{j}", f"community card {j}")
        used = [*self.stack.values(), *self.commit.values(), self.pot, *self.card.values(), *self.board.values()]
        need(len(set(map(id, used))) == len(used), "one text shows two things")
        self.other = [e for e in texts if not any(e is x for x in used)]
        seats = list(self.stack.items())
        self.seats = seats + list(self.commit.items())
        for (i, j), e in [*self.card.items(), *self.back.items()]:
            need(holder(e, seats) == {i}, f"hole card {j} of seat {i} is shown at seat {sorted(holder(e, seats))}")
        for j, e in [*self.board.items(), *self.ground.items(), ("pot", self.pot)]:
            need(n == 1 or len(holder(e, self.seats)) > 1, f"{'community card ' + str(j) if j != 'pot' else 'the pot'} is shown at a single seat")
        for j, a, b in [(k, self.card[k], self.back[k]) for k in self.card] + [(k, self.board[k], self.ground[k]) for k in self.board]:
            all_ = [(k, x) for k, x in [*self.card.items(), *self.board.items()]]
            need(holder(b, all_) == {j}, f"rank and suit of card {j} are shown at different places")


def check(d, lay, doc, env, texts, msg, init):
    n, h, c = d.size
    inv = {v: k for k, v in texts.items()}

    def txt(e):
        return doc[e]["#text"]
    for i in range(n):
        for e, k, what in ((lay.stack[i], f"stack{i}", "stack"), (lay.commit[i], f"commit{i}", "street commit")):
            need(txt(e) == str(env[k]), f"the {what} of seat {i} is shown as {txt(e)!r} instead of {env[k]}")
    need(txt(lay.pot) == str(env["pot"]), f"the pot is shown as {txt(lay.pot)!r} instead of {env['pot']}")
    suits = d.suits
    cards = [(f"hole card {j} of seat {i}", env[f"card{i}_{j}"], lay.card[i, j], lay.back[i, j], env[f"active{i}"]) for i, j in lay.card]
    cards += [(f"community card {j}", env[f"board{j}"], lay.board[j], lay.ground[j], True) for j in lay.board]
    for what, v, e, b, shown in cards:
        r, s = inv[v]
        fill = doc[b].get("fill")
        if not shown:
            need(txt(e) == "", f"{what} is shown as {txt(e)!r} although its player has folded")
            need(fill == init[b].get("fill"), f"{what} of a folded player has fill {fill} instead of {init[b].get('fill')}")
            continue
        want = "10" if r == "T" else r
        need(txt(e) == want, f"{what}, {v}, is shown with rank {txt(e)!r}")
        need(suits.setdefault(s, fill) == fill, f"the suit of {what}, {v}, is shown by {fill}, the same suit elsewhere by {suits[s]}")
        need(len(set(suits.values())) == len(suits), f"two suits are shown by {fill}")
        m = re.fullmatch(r"url\(['\"]?#([^'\"]+)['\"]?\)", fill or "")
        need(m and m.group(1) in d.patterns, f"{what}, {v}, is drawn with {fill}, which the page does not define")
        pat = d.patterns[m.group(1)]
        names = [k for k, nm in zip("cshd", ("club", "spade", "heart", "diamond")) if nm in m.group(1).lower()]
        need(not names or s in names, f"{what}, {v}, is drawn with the pattern {m.group(1)}")
        for colour in [x.attrs["fill"] for x in pat.walk() if x.tag in ("path", "polygon") and "fill" in x.attrs] + [doc[e].get("fill")]:
            x = colour if isinstance(colour, str) else tm.cval(colour) if colour is not None and tm.is_const(colour) else None
            need(reddish(x) in (None, s in "hd"), f"{what}, {v}, is drawn in {x}")
    used = {id(b) for _, _, _, b, _ in cards}
    for e in lay.other:
        need(txt(e) == init[e]["#text"], f"{txt(e)!r} is shown where nothing is to be shown")
    for e in doc:
        if bare(e) and id(e) not in used and e.tag == "rect":
            f = doc[e].get("fill")
            need(f not in suits.values() or len(suits) < 4, f"a card is drawn with {f} although none is dealt there")


def differ(a, b):
    for e in a:
        for k in sorted(a[e].keys() | b[e].keys()):
            if a[e].get(k) != b[e].get(k):
                return e, k, a[e].get(k), b[e].get(k)
    return None


def label(e):
    i = e.attrs.get("id")
    return f"{e.tag} {tm.cval(i) if i is not None and tm.is_const(i) else ''}".strip()


def envs(size, texts, tags, count, rng):
    n, h, c = size
    names = list(texts.values())
    off = {}
    out = []
    for t in range(count):
        env = {}
        for tag in tags:
            for i in range(n):
                env[f"{tag}active{i}"] = rng.random() < (0.85 if t % 3 else 0.5)
                env[f"{tag}all_in{i}"] = rng.random() < 0.3
                for k in ("stack", "commit", "pay"):
                    env[f"{tag}{k}{i}"] = rng.choice((0, rng.randint(1, 9), rng.randint(10, 10 ** 5), rng.randint(10, 10 ** 5)))
                for j in range(h):
                    k = f"{tag}card{i}_{j}"
                    env[k] = names[(t + off.setdefault(k, rng.randrange(52))) % 52]
            for j in range(c):
                k = f"{tag}board{j}"
                env[k] = names[(t + off.setdefault(k, rng.randrange(52))) % 52]
            env[f"{tag}pot"] = rng.choice((0, rng.randint(1, 99), rng.randint(0, 10 ** 6), rng.randint(0, 10 ** 6)))
            env[f"{tag}done"] = rng.random() < 0.3
        out.append(env)
    return out


def marks(docs):
    """what is special about the document of each choice"""
    out = {}
    for b, doc in docs.items():
        rest = [docs[x] for x in docs if x != b]
        out[b] = [(e, k, v) for e in doc for k, v in doc[e].items() if k != "#text" and isinstance(v, str) and all(r[e].get(k) != v for r in rest)]
    return out


def marked(what, docs, lay, n, none=None):
    ms = marks({b: d for b, d in docs.items()})
    for b in docs:
        if b == none:
            need(not ms[b] or n == 1, f"{what} is marked although there is none")
            continue
        if len(docs) == 2:
            # two choices: what is not there at one seat is special, too
            own = [x for x in ms[b] if holder(x[0], lay.seats) == {b}]
            seen = {(k, v) for e, k, v in own}
            need(all(holder(e, lay.seats) == {1 - b} and (k, v) not in seen for e, k, v in ms[b] if (e, k, v) not in own), f"{what} of seat {b} is marked elsewhere, too")
            ms[b] = own
        need(ms[b], f"{what} is not marked at seat {b}")
        for e, k, v in ms[b]:
            at = holder(e, lay.seats)
            need(at == {b}, f"{what} of seat {b} is marked at {'seat ' + str(sorted(at)[0]) if len(at) == 1 else 'no single seat'}")
            need(v not in ("transparent", "none"), f"{what} of seat {b} is marked by nothing visible")
    kinds = {b: sorted({(k, v) for _, k, v in ms[b]}) for b in docs if b != none}
    need(len(set(map(str, kinds.values()))) == 1, f"{what} is marked differently from seat to seat")
    if n < 2:
        return
    # where it is not, all other seats agree
    for b in docs:
        for e, k, v in ms[b]:
            need(len({docs[x][e].get(k) for x in docs if x != b}) == 1, f"{what}: {label(e)} depends on more than its own seat")
    if what == "the dealer button":
        for b in docs:
            for e, k, v in ms[b]:
                m = re.fullmatch(r"url\(['\"]?#([^'\"]+)['\"]?\)", v)
                if m:
                    need(m.group(1) in lay.run.d.patterns, f"the dealer button is drawn with {v}, which the page does not define")


def frame(lay, e, seat):
    """box of the largest group around e that shows nothing of another seat"""
    best, u = e, e.up
    while u is not None and u.up is not None:
        inside = set(map(id, u.walk()))
        if {k for k, x in lay.seats if id(x) in inside} <= {seat}:
            best = u
        u = u.up
    x, y = place(best)

    def size(k):
        v = best.attrs.get(k)
        try:
            return float(str(Geo({})(v))) if v is not None else 0.0
        except (ValueError, Bot, Undecided):
            raise web.Unsure(f"{k} of {best.tag}")
    w, h = size("width"), size("height")
    return x - w / 2, y - h / 2, x + w / 2, y + h / 2


def arranged(d, lay):
    """cards and seats lie in order"""
    import math
    n, h, c = d.size
    for i in range(n):
        xs = [place(lay.back[i, j]) for j in range(h) if (i, j) in lay.back]
        need(all(a[0] < b[0] for a, b in zip(xs, xs[1:])), f"the hole cards of seat {i} are not drawn side by side")
    xs = [place(lay.ground[j]) for j in sorted(lay.ground)]
    need(all(a[0] < b[0] for a, b in zip(xs, xs[1:])), "the community cards are not drawn side by side")
    seat = [place(lay.stack[i].up) for i in range(n)]
    chip = [place(lay.commit[i].up) for i in range(n)]
    need(len(set(seat)) == n, "two seats are drawn at the same place")
    boxes = [(f"seat {i}", frame(lay, lay.stack[i], i)) for i in range(n)] + [("the community cards", frame(lay, lay.pot, None))]
    for a, (p, x) in enumerate(boxes):
        for q, y in boxes[:a]:
            need(min(x[2], y[2]) - max(x[0], y[0]) < 1 or min(x[3], y[3]) - max(x[1], y[1]) < 1, f"{p} is drawn over {q}")
    mid = place(lay.pot.up)
    for i in range(n):
        near = min(range(n), key=lambda k: math.dist(seat[k], chip[i]))
        need(near == i, f"the street commit of seat {i} is drawn next to seat {near}")
    if n > 2:
        ang = [math.atan2(y - mid[1], x - mid[0]) for x, y in seat]
        turns = [(ang[(i + 1) % n] - ang[i]) % (2 * math.pi) for i in range(n)]
        total = sum(turns)
        ok = abs(total - 2 * math.pi) < 0.01 or abs(sum((-t) % (2 * math.pi) for t in turns) - 2 * math.pi) < 0.01
        need(ok, "the seats are not drawn in seating order around the table")


def shown(ctx, size, rng, full=True):
    n, h, c = size
    texts = card_texts(ctx)
    d = Drawing(ctx, size)
    ids = [tm.cval(e.attrs["id"]) for e in d.root.walk() if "id" in e.attrs and tm.is_const(e.attrs["id"])]
    for i in set(ids):
        need(ids.count(i) == 1, f"{ids.count(i)} elements of the page have the id {i}")
    need(d.events, "the server tells browsers nothing")
    d.patterns = {tm.cval(e.attrs["id"]): e for e in d.root.walk() if e.tag in ("pattern", "linearGradient", "radialGradient") and "id" in e.attrs}
    d.suits = {}
    for e in d.root.walk():
        for k in ("fill", "stroke"):
            m = re.fullmatch(r"url\(['\"]?#([^'\"]+)['\"]?\)", str(tm.cval(e.attrs[k]))) if k in e.attrs and tm.is_const(e.attrs[k]) else None
            need(m is None or m.group(1) in d.patterns, f"{label(e)} is drawn with {m and m.group(1)}, which the page does not define")
    init = {e: {**{k: tm.cval(v) for k, v in e.attrs.items() if tm.is_const(v)}, "#text": (tm.cval(e.text) if e.text is not None and tm.is_const(e.text) else "").strip()}
            for e in d.root.walk()}
    count = 0
    runs = []
    for button in range(n):
        runs.append((button, (button + 1) % n, (h, c)))
    for action in range(-1, n):
        runs.append((0, action, (h, c)))
    for board in range(c):
        runs.append((n - 1, 0, (h, board)))
    runs.append((0, 0, (0, 0)))
    if not full:
        runs = [(n - 1, 0, (h, c)), (0, n - 1, (h, c))]
    env0 = envs(size, texts, ("", "old"), 1, rng)[0]
    lay0 = None
    by_button, by_action = {}, {}
    for button, action, deal in runs:
        msg = table(size, "", button, action, deal)
        old = table(size, "old", (button + 1) % n, (action + 1) % n, (h, c))
        fresh = Run(ctx, d, [{}, msg])
        after = Run(ctx, d, [{}, old, msg])
        lay = Layout(fresh, size, msg, env0, texts)
        if lay0 is None:
            lay0 = lay
        many = 52 if button == 0 and action == min(1, n - 1) and deal == (h, c) else 6
        for env in envs(size, texts, ("", "old"), many, rng) + [env0]:
            doc = fresh.see(env)
            count += 1
            check(d, lay, doc, env, texts, msg, init)
            x = differ(after.see(env), doc)
            need(x is None, f"after an earlier table {x and label(x[0])} shows {x and x[1].strip('#')} {x and x[2]!r}, without it {x and x[3]!r}")
        if deal == (h, c):
            if action == (button + 1) % n:
                by_button.setdefault(button, Run(ctx, d, [{}, old, table(size, "", button, 0, deal)]))
            if button == 0:
                by_action.setdefault(action, after)
    if n > 1 and full:
        for env in [env0] + envs(size, texts, ("", "old"), 9, rng):
            # whatever else the table shows
            marked("the dealer button", {b: r.see(env) for b, r in by_button.items()}, lay0, n)
            marked("the acting player", {a: r.see(env) for a, r in by_action.items()}, lay0, n, none=-1)
    arranged(d, lay0)
    return count


def c29(ctx):
    if "clubs.render.graphic" not in ctx.prog.modules:
        from ..source import AnalysisBroken
        raise AnalysisBroken("clubs.render.graphic not found")
    import random
    rule = "the drawing and the script of the page, interpreted for messages of symbols"
    at = web.position(ctx, "_SVGPoker.__init__") + ["clubs/render/resources"]
    obs = []
    sizes = SIZES + (MORE if ctx.thorough else [])
    for size in sizes + [s for s in SOME if s not in sizes]:
        key = "the page shows the table it is sent: {} players, {} hole, {} community cards".format(*size)
        rng = random.Random(29 + ctx.seed if hasattr(ctx, "seed") else 29)
        try:
            k = shown(ctx, size, rng, size in sizes)
        except Bad as b:
            obs.append(Ob(key, rule, REFUTED, at, str(b), 1, {"size": size, "reason": str(b)}))
            break
        except (web.Unsure, Untranslated, Undecided, Bot) as u:
            obs.append(Ob(key, rule, UNDECIDED, at, str(u), 1))
        else:
            obs.append(Ob(key, rule, CONSISTENT, at, "", k, how="the document agrees with the message in every generated structure"))
    return obs


_ = T
