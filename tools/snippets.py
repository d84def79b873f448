"""Development aid: the abstract interpreter against CPython on small functions.

python3 tools/snippets.py FILE.py [name ...]

FILE.py holds functions whose parameter names give their types (xs, ys, zs
lists of ints; bs list of bools; n, m, k small ints; s string).  Every
function is interpreted once over symbolic arguments and the resulting term is
evaluated in random structures; each must agree with running the function.
This tests the analyser, not the code under analysis; no check uses it."""
import copy
import importlib.util
import inspect
import os
import random
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(40000)
from sa import terms as tm  # noqa: E402
from sa.core import Ctx  # noqa: E402
from sa.lab import Bot, Lab, Model, Undecided  # noqa: E402
from sa.source import Program  # noqa: E402


def norm(v):
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return ("set", sorted(map(repr, map(norm, v))))
    if isinstance(v, dict):
        return [(norm(a), norm(b)) for a, b in v.items()]
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, float) and v == int(v) if isinstance(v, float) and v == v and abs(v) < 1e9 else False:
        return int(v)
    return v


def gen(name, r):
    c = name[0]
    if name.startswith("xs") or name.startswith("ys") or name.startswith("zs"):
        return [r.randint(-2, 4) for _ in range(r.randint(0, 5))]
    if name.startswith("ps"):   # equal length pair with qs, see below
        return None
    if c == "b" and name.endswith("s"):
        return [r.random() < .5 for _ in range(r.randint(0, 5))]
    if c == "b":
        return r.random() < .5
    if name.startswith("s"):
        return r.choice(["", "a", "AS", "TdJh", "hello", "A"])
    return r.randint(0, 4)


def main():
    path = sys.argv[1]
    only = sys.argv[2:]
    spec = importlib.util.spec_from_file_location("snip", path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    d = tempfile.mkdtemp()
    try:
        os.makedirs(d + "/clubs")
        open(d + "/clubs/__init__.py", "w").write("")
        shutil.copy(path, d + "/clubs/snip.py")
        prog = Program(d)
        bad = und = good = 0
        for name, f in list(vars(mod).items()):
            if not inspect.isfunction(f) or name.startswith("_") or f.__module__ != "snip" or only and name not in only:
                continue
            ps = list(inspect.signature(f).parameters)
            ctx = Ctx("x", False, 1)
            ctx._prog = prog
            lab = Lab(ctx)
            args, syms = [], []
            for p in ps:
                v = gen(p, random.Random(0))
                if isinstance(v, list):
                    ty = ("list", "bool" if p[0] == "b" else "int")
                    t = tm.sym(p, ty=ty)
                    args.append(lab.I.alloc("list", origin="arg", label=p, content=t))
                else:
                    args.append(tm.sym(p, ty={int: "int", bool: "bool", str: "str"}[type(v)]))
            try:
                t = lab.pure(lab.func("clubs.snip", name, args))
                err = None
            except Exception as e:
                if os.environ.get("TB"):
                    raise
                print(f"UND {name}: {type(e).__name__}: {e}")
                und += 1
                continue
            if lab.shaky:
                print(f"UND {name}: shaky {[e for e in lab.I.events if e[0] in ('mutate-value',)][:1]} {lab.I.unknown[:2] if lab.I.unknown else ''}")
                und += 1
                continue
            r = random.Random(5)
            why = None
            for _ in range(60):
                vals = {p: gen(p, r) for p in ps}
                try:
                    want = norm(f(**copy.deepcopy(vals)))
                    wexc = None
                except Exception as e:
                    want, wexc = None, type(e).__name__
                m = Model(dict(vals))
                try:
                    gexc = lab.raised(m)
                    got = None if gexc else norm(m(t))
                except Bot as b:
                    got, gexc = None, f"Bot({b})"
                except Undecided as u:
                    why = ("UND", f"{u}")
                    break
                if wexc:
                    ok = bool(gexc) and (gexc == wexc or gexc.startswith("Bot"))
                else:
                    ok = not gexc and got == want
                if not ok:
                    why = ("BAD", f"{vals}: want {wexc or want} got {gexc or got}\n      {(t if os.environ.get("FULL") else tm.show(t)[:300])}")
                    break
            if why is None:
                good += 1
            else:
                und += why[0] == "UND"
                bad += why[0] == "BAD"
                print(why[0], name + ":", why[1])
        print(f"good={good} undecided={und} bad={bad}")
    finally:
        shutil.rmtree(d)


main()
