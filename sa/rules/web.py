"""The web viewer: its two processes, what they tell each other, and shutdown.

Library objects (process, sockets, flask, socket.io) get their meaning from a
scenario: the source is interpreted against it call by call, and the resulting
trace of library calls is what the obligations speak about.  Nothing is started.
"""
import random
from fractions import Fraction

from .. import terms as tm
from ..core import CONSISTENT, PROVED, REFUTED, UNDECIDED, Ob
from ..interp import Unsupported
from ..lab import Bot, Lab, Model, Undecided, guarded
from ..source import AnalysisBroken
from ..terms import FALSE, NONE, T, TRUE, const, mk
from ..transfer import Bad, need
from .effects import render_config
from .render import CARDS, table_cases

PURE = ("os.path.", "math.", "itertools.", "functools.", "operator.", "copy.", "collections.", "string.", "json.", "re.", "typing.", "contextlib.suppress",
        "clubs", "__future__")
PLAIN = {"flask", "flask_socketio", "gevent", "markupsafe", "socket", "multiprocessing", "threading", "time", "urllib", "imp", "importlib", "http"}
CLOCKS = ("time.time", "time.monotonic", "time.perf_counter", "timeit.default_timer", "time.process_time")


class Call:
    """one library call of a trace"""

    def __init__(self, where, obj, name, args, kw):
        self.where, self.obj, self.name, self.args, self.kw = where, obj, name, args, kw

    @property
    def fn(self):
        return self.name.rsplit(".", 1)[-1]

    def __str__(self):
        a = ", ".join([str(x) for x in self.args] + [f"{k}={v}" for k, v in self.kw.items()])
        return f"{self.obj + '.' if self.obj else ''}{self.name}({a})"


class World:
    """what the libraries do in one scenario"""

    def __init__(self, **kw):
        self.alive, self.send_fails, self.refusals, self.url_refusals = False, None, 0, 0
        self.missing, self.messages, self.step, self.refusal, self.dies = (), [], 0.02, "ConnectionRefusedError", False
        self.__dict__.update(kw)
        self.trace, self.unsure, self.nlib = [], [], 0
        self.clock = Fraction(100)
        self.kinds = {}
        self.tasks, self.handlers, self.routes, self.threads = [], {}, [], {}
        self.queue, self.polls, self.emitted = list(self.messages), 0, []
        self.in_server = False
        self.served = False
        self.page = None
        self.bad_calls = []

    # ------------------------------------------------------- scenario

    def lib(self, kind):
        self.nlib += 1
        t = mk("lib", f"{kind}#{self.nlib}", ty="any")
        self.kinds[t] = kind
        return t

    def hook(self, lab):
        I = lab.I
        base = set(I.st.pc)

        def fail(name, node):
            I.raise_(mk("exc", name, ()), node)
            return tm.UNDEF

        def fn(o, name, args, kw, node):
            if I.st.dead:
                return tm.UNDEF
            if o is not None and o.op != "lib":
                return None
            if o is None and name.startswith(PURE):
                return None
            if o is None and name == "__import__":
                mod = tm.cval(args[0])
                if mod.split(".")[0] in self.missing:
                    return fail("ModuleNotFoundError", node)
                return None
            kind = self.kinds.get(o, "") if o is not None else ""
            v = self.special(lab, o, kind, name, args, kw, node)
            if v is not None:
                return v
            if name.startswith("=") or name in ("__copy__", "__deepcopy__"):
                return None
            if name.startswith("."):
                return self.attribute(kind, name[1:])
            if set(I.st.pc) - base:
                self.unsure.append(f"library call at {I.where(node)} under a condition the scenario does not fix")
            pa = [I.purify(a) if isinstance(a, T) else a for a in args]
            pk = {k: I.purify(v) if isinstance(v, T) else v for k, v in kw.items()}
            c = Call(I.where(node) if node is not None else "?", kind, name, pa, pk)
            c.o = o
            self.trace.append(c)
            return self.result(lab, c, o, kind, args, kw, node, fail)
        return fn

    def special(self, lab, o, kind, name, args, kw, node):
        """library calls a subclass gives a meaning to"""

    def attribute(self, kind, name):
        if name in ("status", "code", "status_code"):
            return const(200)
        if kind.endswith("Process") and name == "exitcode":
            return NONE if self.alive else const(0)
        if kind == "socketio" and name == "server":
            return None
        return None

    def result(self, lab, c, o, kind, args, kw, node, fail):
        I = lab.I
        fn = c.fn
        if o is None:
            if fn == "find_module" or fn == "find_spec" or fn == "import_module":
                if args and args[0].op == "const" and tm.cval(args[0]).split(".")[0] in self.missing:
                    return NONE if fn == "find_spec" else fail("ModuleNotFoundError", node)
                return self.lib("module")
            if c.name in CLOCKS:
                self.clock += Fraction(self.step)
                return tm.const(self.clock)
            if fn == "sleep":
                return self.sleep(lab, args, node)
            if c.name.startswith("os."):
                self.unsure.append(f"{c.name} at {c.where}")
            if fn == "Client" or fn == "create_connection":
                if self.refusals:
                    self.refusals -= 1
                    return fail(self.refusal, node)
                return self.lib("Client")
            if fn == "urlopen":
                if self.url_refusals:
                    self.url_refusals -= 1
                    return fail("urllib.error.URLError", node)
                return self.lib("response")
            if fn == "Thread" and ("target" in kw or len(args) > 1):
                t = self.lib("Thread")
                self.threads[t] = (kw.get("target", args[1] if len(args) > 1 else None), kw.get("args"), kw.get("kwargs"))
                return t
            if fn in ("spawn", "spawn_later", "spawn_raw"):
                k = 1 if fn == "spawn_later" else 0
                self.tasks.append((args[k], list(args[k + 1:]), dict(kw)))
                return self.lib("task")
            if fn == "closing" and args:
                return args[0]
            if fn == "Markup" and args:
                return mk("markup", I.purify(args[0]), ty="any")
            if fn == "render_template":
                return mk("page", I.purify(args[0]), tuple(sorted((k, I.purify(v)) for k, v in kw.items())), ty="any")
            if fn == "emit":
                return self.emit(c)
            if fn == "getsockname":
                return mk("tuple", const("0.0.0.0"), const(54321), ty="tuple")
            return self.lib(fn)
        if fn == "is_alive":
            return const(self.alive)
        if fn == "Process":
            return self.lib("Process")
        if fn in ("terminate", "kill"):
            self.alive = False
            return NONE
        if kind == "Process" and fn == "start":
            self.alive = not self.dies
            return NONE
        if kind == "Thread" and fn == "start":
            f, a, k = self.threads[o]
            self.tasks.append((f, I.parts(a) or [] if a is not None else [], {}))
            return NONE
        if fn in ("join", "close", "bind", "settimeout", "setsockopt", "__exit__", "daemon", "disconnect", "stop"):
            return NONE
        if fn == "getsockname":
            return mk("tuple", const("0.0.0.0"), const(54321), ty="tuple")
        if fn in ("send", "sendall"):
            if self.send_fails:
                return fail(self.send_fails, node)
            if not self.alive and self.send_fails is not False:
                return fail("BrokenPipeError", node)
            return NONE
        if fn in ("on", "route", "event", "on_event", "add_url_rule"):
            d = self.lib("decorator")
            self.kinds[d] = ("decorator", fn, tuple(tm.cval(a) if tm.is_const(a) else None for a in args))
            if fn == "on_event" and len(args) > 1:
                self.handlers[tm.cval(args[0])] = args[1]
            if fn == "add_url_rule":
                f = kw.get("view_func", args[2] if len(args) > 2 else None)
                self.routes.append((tm.cval(args[0]), f))
            return d
        if isinstance(kind, tuple) and kind[0] == "decorator" and fn == "__call__":
            return args[0]
        if fn == "start_background_task":
            self.tasks.append((args[0], list(args[1:]), dict(kw)))
            return self.lib("task")
        if fn in ("sleep", "wait"):
            return self.sleep(lab, args, node)
        if fn == "poll":
            self.polls += 1
            if self.polls == 1:
                return FALSE
            if not self.queue:
                return fail("__stop__", node) if self.polls > 40 + 4 * len(self.messages) else FALSE
            return TRUE
        if fn in ("recv", "get"):
            if not self.queue:
                return fail("__stop__", node)
            m = self.queue.pop(0)
            return build(lab, m)
        if fn == "accept":
            return self.lib("conn")
        if fn == "emit":
            return self.emit(c)
        if fn == "run" or fn == "serve_forever":
            return self.serve(lab, c, node)
        return self.lib(f"{kind if isinstance(kind, str) else 'x'}.{fn}")

    def emit(self, c):
        name = c.args[0] if c.args else c.kw.get("event", NONE)
        data = c.args[1] if len(c.args) > 1 else c.kw.get("data", c.kw.get("args", NONE))
        room = [k for k in ("to", "room", "include_self", "skip_sid") if k in c.kw]
        self.emitted.append((self.phase, tm.cval(name) if tm.is_const(name) else None, data, room, c.where, len(self.messages) - len(self.queue)))
        return NONE

    phase = "server"

    def sleep(self, lab, args, node):
        if args and args[0].op == "const" and args[0].args[0] in ("int", "frac", "float"):
            self.clock += max(0, Fraction(args[0].args[1]))
        if self.in_server and self.phase == "task":
            self.connect(lab)
            if not self.queue and not self.closing:
                self.idle += 1
                if self.idle > 3:
                    lab.I.raise_(mk("exc", "__stop__", ()), node)
                    return tm.UNDEF
        return NONE

    idle = 0
    closing = False

    def connect(self, lab):
        """a browser connects now"""
        for name in ("connect",):
            h = self.handlers.get(name)
            if h is not None:
                save, self.phase = self.phase, "connect"
                lab.I.call(h, [], {}, None)
                self.phase = save

    def serve(self, lab, c, node):
        """the web server runs: its tasks run, browsers connect"""
        self.served = True
        self.in_server = True
        for e in lab.I.events:
            if e[0] == "decorate":
                d, f = e[3]
                k = self.kinds.get(d)
                if isinstance(k, tuple) and k[1] == "on" and k[2]:
                    self.handlers[k[2][0]] = f
                elif isinstance(k, tuple) and k[1] == "route" and k[2]:
                    self.routes.append((k[2][0], f))
                elif d.op == "bound" and d.args[0].op == "lib" and d.args[1].args[0] == "event":
                    self.handlers[getattr(lab.I.clos[f.args[0]][0], "name", "")] = f
        self.connect(lab)
        for path, f in self.routes:
            if path == "/":
                self.phase = "page"
                self.page = lab.I.purify(lab.I.call(f, [], {}, None))
        for f, a, k in list(self.tasks):
            self.phase = "task"
            lab.I.call(f, a, k, None)
            self.phase = "server"
        if not lab.I.st.dead:
            self.connect(lab)
        return NONE

    def calls(self, *names):
        return [c for c in self.trace if c.fn in names]


def build(lab, v):
    """a fresh copy of a message"""
    if isinstance(v, T):
        return v
    if isinstance(v, dict):
        return lab.I.alloc("dict", content=mk("dict", tuple((const(k), build(lab, x)) for k, x in v.items()), ty="dict"))
    if isinstance(v, list):
        return lab.I.alloc("list", content=tm.lst(*[build(lab, x) for x in v]))
    if isinstance(v, tuple):
        return mk("tuple", *[build(lab, x) for x in v], ty="tuple")
    return NONE if v is None else const(v)


def c_svg(I, recv, args, kw, node):
    for k, v in zip(("num_players", "num_hole_cards", "num_community_cards"), args):
        I.st.heap[(recv.args[0], k)] = v
    I.st.heap[(recv.args[0], "base_svg")] = mk("lib", "svg", ty="any")
    return NONE


class Scene:
    def __init__(self, ctx, what, world=World, contracts=True, **kw):
        self.what = what
        self.world = world(**kw)
        self.lab = Lab(ctx, {"_SVGPoker.__init__": c_svg} if contracts else {})
        self.lab.I.unroll_whiles = 400
        self.lab.I.hook = self.world.hook(self.lab)

    def viewer(self):
        return self.lab.blank("GraphicViewer", {"process": self.proc(), "socket": self.sock(), "host": const("somehost"), "port": const(4321)})

    def proc(self):
        t = mk("lib", "Process#0", ty="any")
        self.world.kinds[t] = "Process"
        return t

    def sock(self):
        t = mk("lib", "Client#0", ty="any")
        self.world.kinds[t] = "Client"
        return t

    def outcome(self):
        """name of the exception that ends the scenario, or None"""
        self.lab.done()
        if self.world.unsure:
            raise Unsure(self.world.unsure[0])
        d = self.lab.I.doubts()
        if d:
            raise Unsure("; ".join(d[:2]))
        rs = self.lab.I.root_raises
        if not rs:
            need(not self.lab.I.st.dead, "nothing is returned")
            return None
        if len(rs) > 1 or not self.lab.I.st.dead:
            raise Unsure("the scenario does not fix which exception is raised")
        return rs[0].val.args[0].rsplit(".", 1)[-1] if rs[0].val.op == "exc" else "?"

    def outcome_server(self):
        """as outcome; a scenario may end when its messages are used up"""
        exc = self.outcome()
        if exc == "__endless__":
            raise Unsure("the server loop does not end within the analysed number of rounds")
        return None if exc == "__stop__" else exc


class Unsure(Exception):
    pass


def decide(ctx, key, rule, at, scenes):
    """run every scenario; scenes: callables that raise Bad for a violation"""
    n = 0
    for f in scenes:
        n += 1
        try:
            f()
        except Bad as b:
            return [Ob(key, rule, REFUTED, at(), f"{b} [{f.__doc__}]", n, {"scenario": f.__doc__, "reason": str(b)})]
        except (Unsure, Undecided, Bot) as u:
            return [Ob(key, rule, UNDECIDED, at(), f"{f.__doc__}: {u}", n)]
        except Unsupported as u:
            return [Ob(key, rule, UNDECIDED, at(), f"{f.__doc__}: {u}", n)]
    ctx.count("scenarios", n)
    return [Ob(key, rule, PROVED, at(), "", n, how="holds for the trace of library calls of every scenario")]


def position(ctx, qual):
    for m in ctx.prog.modules.values():
        for k, c in getattr(ctx.prog, "classes", {}).items():
            if k.endswith("." + qual.split(".")[0]):
                fn = c.methods.get(qual.split(".")[1])
                if fn is not None:
                    return [ctx.prog.where(c.module, fn) + f" ({qual})"]
    return [qual]


def addr(t, what):
    p = t.args if t.op == "tuple" else None
    need(p is not None and len(p) == 2, f"{what} is {t}")
    return tuple(tm.cval(x) if tm.is_const(x) else x for x in p)


def closing(ctx):
    key = "closing or losing the viewer ends the server process"
    rule = "order of library calls in close and __del__"

    def run(method, alive, fails):
        def scene():
            s = Scene(ctx, method, alive=alive, send_fails=fails)
            v = s.viewer()
            s.lab.call(v, method)
            exc = s.outcome()
            w = s.world
            names = [c.fn for c in w.trace]
            if alive:
                need("terminate" in names or "kill" in names, f"{method}() does not end the running process")
                k = max(names.index(x) for x in ("terminate", "kill") if x in names)
                need("join" in names[k:], f"{method}() does not wait for the process after ending it")
                if fails is False:
                    need(exc is None, f"{method}() raises {exc}")
            else:
                need(exc is None, f"{method}() of a viewer whose process is gone raises {exc}")
            if exc is None:
                n = len(w.trace)
                s.lab.call(v, "close")
                need(s.outcome() is None, f"close() after {method}() raises {s.lab.I.root_raises and s.lab.I.root_raises[0].val.args[0]}")
                need(not any(c.fn in ("send", "sendall", "terminate", "kill") for c in w.trace[n:]), "a closed viewer is closed once more")
        scene.__doc__ = f"{method}, process {'running' if alive else 'gone'}, " + (f"sending raises {fails}" if fails else "sending succeeds" if fails is False else "nobody listens")
        return scene
    scenes = [run(m, a, f) for m in ("close", "__del__") for a, f in ((True, False), (True, "BrokenPipeError"), (True, "ConnectionResetError"), (True, "OSError"), (False, None))]
    return decide(ctx, key, rule, lambda: position(ctx, "GraphicViewer.close"), scenes)


def messages(ctx):
    """(message sent by render for a given content, message sent by close)"""
    s = Scene(ctx, "close", alive=True, send_fails=False)
    s.lab.call(s.viewer(), "close")
    s.outcome()
    bye = [c.args[0] for c in s.world.calls("send")]
    out = []
    for cfg in CONFIGS:
        s = Scene(ctx, "render", alive=True, send_fails=False)
        s.lab.call(s.viewer(), "render", [build(s.lab, cfg)])
        s.outcome()
        sent = [c.args[0] for c in s.world.calls("send")]
        if len(sent) != 1:
            raise Unsure("render does not send one message")
        out.append(sent[0])
    return out, bye


BASE = {"action": 0, "active": [True, True], "all_in": [False, False], "community_cards": [], "button": 1, "done": False, "hole_cards": [[], []],
        "pot": 12, "payouts": [0, 0], "prev_action": None, "street_commits": [4, 8], "stacks": [96, 92]}
CHANGES = [{}, {"pot": 31}, {"action": 1}, {"active": [False, True]}, {"all_in": [False, True]}, {"button": 0}, {"done": True}, {"payouts": [-7, 7]},
           {"prev_action": (0, 5, False)}, {"street_commits": [0, 3]}, {"stacks": [11, 0]}, {"pot": 12}, {"action": -1}]
# consecutive tables differ in a single value
CONFIGS = []
for _c in CHANGES:
    CONFIGS.append({**(CONFIGS[-1] if CONFIGS else BASE), **_c})


def dropped(s):
    """the viewer that could not be created is thrown away: its process ends with it"""
    I, w = s.lab.I, s.world
    w.alive = True
    r = I.root_raises[0]
    I.st = r.st
    I.st.dead = False
    I.root_raises[:] = []
    n = len(w.trace)
    procs = [k for k, kind in w.kinds.items() if kind == "Process"]
    own = [o for (o, a), x in list(I.st.heap.items()) if x in procs]
    if len(set(own)) != 1:
        raise Unsure("the process of the failed viewer is not found")
    v = mk("ref", own[0], ty=("obj", I.loc[own[0]].cls))
    I.missing_raises = True
    s.lab.call(v, "__del__")
    s.outcome()
    need(any(c.fn in ("terminate", "kill") for c in w.trace[n:]), "the process of a viewer that could not reach it goes on when the viewer is thrown away")


def starting(ctx):
    key = "creating a viewer starts one server process and waits for it"
    rule = "library calls of the constructor"

    def run(doc, port, **kw):
        def scene():
            s = Scene(ctx, doc, **kw)
            w = s.world
            args = {"host": const("somehost")}
            if port is not None:
                args["port"] = const(port)
            v = s.lab.new("GraphicViewer", [const(2), const(2), const(5)], args)
            exc = s.outcome()
            starts = [i for i, c in enumerate(w.trace) if c.fn == "start"]
            if kw.get("missing"):
                need(exc == "MissingImportsError", f"without {kw['missing'][0]} the constructor " + (f"raises {exc}" if exc else "does not fail"))
                need(not starts, "a process is started without the libraries it needs")
                return
            need(len(starts) == 1, f"{len(starts)} processes are started")
            if kw.get("refusals") == 10 ** 9 or kw.get("url_refusals") == 10 ** 9:
                need(exc == "RenderInitializationError", "a server that cannot be reached " + ("makes the constructor wait forever" if exc == "__endless__" else f"raises {exc}" if exc else "goes unnoticed"))
                dropped(s)
                return
            need(exc is None, f"the constructor raises {exc}")
            conns = [i for i, c in enumerate(w.trace) if c.fn == "Client" and c.obj == ""]
            need(len(conns) == kw.get("refusals", 0) + 1, f"{len(conns)} connections are opened")
            need(conns and conns[0] > starts[0], "the connection is opened before the process is started")
            opens = [i for i, c in enumerate(w.trace) if c.fn == "urlopen"]
            need(opens and opens[-1] > starts[0], "the web page is not waited for")
            sock = s.lab.I.hget(v.args[0], "socket") if v.op == "ref" else None
            need(sock is not None and w.kinds.get(sock) == "Client", "the connection is not kept for rendering")
            proc = s.lab.I.hget(v.args[0], "process")
            need(proc is not None and w.kinds.get(proc) == "Process", "the process is not kept for closing")
            host, p = s.lab.attr(v, "host"), s.lab.attr(v, "port")
            want = port if port else 54321
            need(host is const("somehost"), f"host is {host}")
            need(p is const(want), f"port is {p}" + ("" if port else " instead of the free port found"))
            svg = s.lab.attr(v, "svg_poker")
            dims = {tm.cval(k): x for k, x in svg.args[1]} if svg.op == "objval" else {}
            need([dims.get(k) for k in ("num_players", "num_hole_cards", "num_community_cards")] == [const(2), const(2), const(5)],
                 "the table drawn has not the size asked for")
        scene.__doc__ = doc
        return scene
    scenes = [run("server ready at once", 4321), run("no port given", None), run("port 0", 0), run("refused three times", 4321, refusals=3),
              run("not reachable three times", 4321, refusals=3, refusal="OSError"),
              run("the server ends at once", 4321, refusals=10 ** 9, step=1.5, dies=True),
              run("page not there three times", 4321, url_refusals=3),
              run("nobody listens", 4321, refusals=10 ** 9, step=1.5), run("no page", 4321, url_refusals=10 ** 9, step=1.5)]
    scenes += [run(f"{m} is not installed", 4321, missing=(m,)) for m in ("gevent", "flask", "flask_socketio")]
    return decide(ctx, key, rule, lambda: position(ctx, "GraphicViewer.__init__"), scenes)


def target(ctx, size=(2, 2, 5), **kw):
    """construct a viewer, then run what its process runs"""
    s = Scene(ctx, "server", **kw)
    w = s.world
    s.lab.new("GraphicViewer", [const(x) for x in size], {"host": const("somehost"), "port": const(4321)})
    exc = s.outcome()
    need(exc is None, f"creating the viewer raises {exc}")
    procs = [c for c in w.trace if c.fn == "Process"]
    if len(procs) != 1:
        raise Unsure(f"{len(procs)} processes")
    p = procs[0]
    f = p.kw.get("target", p.args[1] if len(p.args) > 1 else None)
    need(f is not None, "the process is given nothing to run")
    a = p.kw.get("args")
    s.client = [c for c in w.trace if c.fn == "Client" and c.obj == ""]
    s.urls = [c for c in w.trace if c.fn == "urlopen"]
    del w.trace[:]
    s.lab.call_value(f, list(a.args) if a is not None and a.op in ("tuple", "list") else [])
    return s


def serving(ctx):
    rule = "library calls of the server process"
    at = lambda: position(ctx, "GraphicViewer._run_flask")  # noqa: E731
    obs = []

    def addresses():
        "both processes use one address"
        s = target(ctx)
        w = s.world
        s.outcome_server()
        ls = [c for c in w.trace if c.fn == "Listener"]
        need(len(ls) == 1, f"{len(ls)} listeners")
        need(s.client, "no connection")
        la = addr(ls[0].args[0] if ls[0].args else ls[0].kw.get("address"), "the address listened on")
        ca = addr(s.client[0].args[0] if s.client[0].args else s.client[0].kw.get("address"), "the address connected to")
        need(la == ca, f"the viewer connects to {ca}, the server listens on {la}")
        runs = [c for c in w.trace if c.fn in ("run", "serve_forever")]
        need(len(runs) == 1, f"{len(runs)} web servers are run")
        r = runs[0]
        if r.fn == "run":
            host, port = r.kw.get("host", r.args[1] if len(r.args) > 1 else None), r.kw.get("port", r.args[2] if len(r.args) > 2 else None)
            need(host is const("somehost"), f"the web server is bound to {host} instead of the host given")
            need(port is const(4321), f"the web server is bound to port {port} instead of the port given")
        need(la[1] != 4321, "web server and connection use the same port")
        for u in s.urls:
            t = u.args[0]
            need(t.op == "const" and tm.cval(t).rstrip("/") == "http://somehost:4321", f"the page is expected at {t}")
    obs += decide(ctx, "viewer, connection and web server use the addresses given", rule, at, [addresses])

    def page():
        "a browser opens the table"
        s = target(ctx)
        s.outcome_server()
        p = s.world.page
        need(any(r[0] == "/" for r in s.world.routes), "no page is served at /")
        need(p is not None and p.op == "page", f"the page is {p}")
        svg = [v for k, v in p.args[1] if k == "svg"]
        need(svg, "the template gets no svg")
        need(any(x.op == "lib" and x.args[0] == "svg" for x in tm.subterms(svg[0])), "the page does not show the table drawn")
        need(svg[0].op == "markup", "the picture would be escaped instead of shown")
    obs += decide(ctx, "the page shows the table", rule, at, [page])

    def relay(k, close):
        def scene():
            msgs, bye = messages(ctx)
            need(len(bye) == 1, f"closing sends {len(bye)} messages")
            seq = [msgs[i % len(msgs)] for i in range(k)] + (bye if close else [])
            s = target(ctx, messages=seq, send_fails=False)
            s.world.closing = close
            exc = s.outcome_server()
            w = s.world
            for ph, name, data, room, where, _ in w.emitted:
                need(name == "config", f"event {name!r} is emitted, browsers listen to 'config'")
                need(not room or ph == "connect", f"not all browsers are told ({', '.join(room)})")
            told = [(data, where) for ph, name, data, room, where, _ in w.emitted if ph == "task"]
            want = [content(m) for m in seq[:k]]
            need(len(told) == k, f"{len(told)} updates are sent to the browsers for {k} rendered tables")
            for (d, where), x in zip(told, want):
                need(d is x, f"browsers get {str(d)[:80]} instead of the table rendered")
            late = [(data, n) for ph, name, data, room, where, n in w.emitted if ph == "connect"]
            need(late, "a browser that connects is told nothing")
            for data, n in late:
                if 1 <= n <= k:
                    need(data is want[n - 1], f"a browser that connects after table {n} is sent {str(data)[:80]}")
                elif n > k:
                    need(data is want[k - 1] if k else True, f"a browser that connects after closing is sent {str(data)[:80]}")
            if close:
                need(exc is None, f"the server fails with {exc} when the viewer is closed")
                need(not w.queue, "the message that closes the viewer is not read")
                for kind in ("conn", "Listener"):
                    need(any(c.obj == kind and c.fn in ("close", "__exit__") for c in w.trace), f"the {kind.lower()} is not closed")
        scene.__doc__ = f"{k} tables rendered" + (", then closed" if close else "")
        return scene
    obs += decide(ctx, "every rendered table is shown to all browsers, later ones included", rule, at,
                  [relay(k, c) for k in (0, 1, 2, 3, len(CONFIGS)) for c in (False, True)])
    return obs


def content(m):
    if m.op == "dict":
        for k, v in m.args[0]:
            if k is const("content"):
                return v
        if len(m.args[0]) == 1:
            return m.args[0][0][1]
    return m


def sending(ctx):
    """what render sends for a symbolic table"""
    rule = "value-graph translation of the message, interpreted in generated tables"
    at = position(ctx, "GraphicViewer.render")
    obs = []
    for sleep in (0, 2.5):
        def run(sleep=sleep):
            w = World(alive=True, send_fails=False)
            lab = Lab(ctx, {"Card.__str__": c_text})
            lab.I.hook = w.hook(lab)
            t, q = mk("lib", "Client#0", ty="any"), mk("lib", "Process#0", ty="any")
            w.kinds[t], w.kinds[q] = "Client", "Process"
            v = lab.blank("GraphicViewer", {"socket": t, "process": q})
            cfg, lists = render_config(lab)
            lab.call(v, "render", [cfg], {"sleep": const(sleep)} if sleep else {})
            lab.done()
            key = "render sends the table it is given" + (" and sleeps" if sleep else "")
            if w.unsure or lab.I.doubts():
                return Ob(key, rule, UNDECIDED, at, "; ".join((w.unsure + lab.I.doubts())[:2]), 1)
            written = [e for e in lab.I.events if e[0] == "mutate" and e[3][0].op == "ref" and (e[3][0].args[0] in lists or e[3][0] is cfg)]
            if written:
                return Ob(key, rule, REFUTED, [written[0][1]], "the configuration shown is changed by showing it", 1)
            sent = w.calls("send")
            naps = [c for c in w.calls("sleep")]
            where = [c.where for c in sent] or at
            n = 0
            if len(sent) != 1:
                return Ob(key, rule, REFUTED, where, f"render sends {len(sent)} messages", 1)
            if bool(naps) != bool(sleep) or any(c.args[0] is not const(sleep) for c in naps):
                return Ob(key, rule, REFUTED, where, f"sleeps {[str(c.args[0]) for c in naps]} instead of {sleep}", 1)
            if naps and w.trace.index(naps[0]) < w.trace.index(sent[0]):
                return Ob(key, rule, REFUTED, where, "the pause is made before the table is shown", 1)
            und = 0
            for d in edge_cases() + table_cases(ctx, 30, 240 if ctx.thorough else 60):
                m = Model(d)
                n += 1
                try:
                    msg = m(sent[0].args[0])
                except Undecided as u:
                    und += 1
                    continue
                except Bot as b:
                    return Ob(key, rule, REFUTED, where, f"nothing is sent: {b} [{d}]", n)
                if not isinstance(msg, dict) or len(msg) != 1:
                    return Ob(key, rule, UNDECIDED, where, f"message {str(msg)[:100]}", n)
                c = list(msg.values())[0]
                for k in KEYS:
                    want = text_cards(d[k]) if k in ("hole_cards", "community_cards") else d[k]
                    if k not in c or norm(c[k]) != norm(want):
                        return Ob(key, rule, REFUTED, where, f"{k} is sent as {c.get(k, 'missing')!r} instead of {want!r}", n, {"table": {x: repr(y) for x, y in d.items()}})
            if und * 2 > n:
                return Ob(key, rule, UNDECIDED, where, "the message is not interpreted", n)
            return Ob(key, rule, CONSISTENT, where, "", n - und, how="the message equals the table in every generated structure")
        obs += guarded(ctx, "render sends the table it is given", rule, run)
    return obs


def reading(ctx):
    """the web viewer only reads what it is shown"""
    key, rule = "the web viewer leaves the configuration as it is", "render writes nothing but objects it created"
    at = position(ctx, "GraphicViewer.render")
    w = World(alive=True, send_fails=False)
    lab = Lab(ctx, {"Card.__str__": c_text})
    lab.I.hook = w.hook(lab)
    t, q = mk("lib", "Client#0", ty="any"), mk("lib", "Process#0", ty="any")
    w.kinds[t], w.kinds[q] = "Client", "Process"
    v = lab.blank("GraphicViewer", {"socket": t, "process": q})
    cfg, lists = render_config(lab)
    lab.call(v, "render", [cfg])
    lab.done()
    n = sum(1 for e in lab.I.events if e[0] == "mutate")
    written = [e for e in lab.I.events if e[0] == "mutate" and e[3][0].op == "ref" and (e[3][0].args[0] in lists or e[3][0] is cfg)]
    if written:
        return Ob(key, rule, REFUTED, [written[0][1]], "the configuration shown is changed by showing it", n)
    if w.unsure or lab.I.doubts():
        return Ob(key, rule, UNDECIDED, at, "; ".join((w.unsure + lab.I.doubts())[:2]), 1)
    return Ob(key, rule, PROVED, at, "", max(n, 1), how="no write reaches the configuration or a list in it")


def edge_cases():
    base = dict(num_players=2, num_hole_cards=1, num_comm=0, active=[True, True], all_in=[False, False], community_cards=[], hole_cards=[["As"], ["Kd"]],
                payouts=[0, 0], street_commits=[0, 0], stacks=[5, 6], action=0, button=0, done=False, pot=1, prev_action=None, sleep=0)
    return [base, dict(base, hole_cards=[["As", "Td"], ["Kd", "2c"]]), dict(base, community_cards=["Th"]), dict(base, community_cards=["Th", "9c", "9d"], done=True)]


KEYS = ("active", "all_in", "community_cards", "hole_cards", "payouts", "street_commits", "stacks", "action", "button", "done", "pot", "prev_action")


def norm(v):
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return v


def text_cards(v):
    return [text_cards(x) if isinstance(x, list) else x for x in v]


def c_text(I, recv, args, kw, node):
    return mk("str", I.purify(recv), ty="str")


def c30(ctx):
    if "clubs.render.graphic" not in ctx.prog.modules:
        raise AnalysisBroken("clubs.render.graphic not found")
    obs = []
    for key, f in (("closing or losing the viewer ends the server process", closing),
                   ("creating a viewer starts one server process and waits for it", starting),
                   ("the server process", serving), ("render sends the table it is given", sending)):
        obs += guarded(ctx, key, "library calls of the web viewer", lambda f=f: f(ctx))
    return obs


_ = (random, CARDS, CONSISTENT)
