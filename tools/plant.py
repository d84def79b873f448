#!/usr/bin/env python3
"""Plant a bug: plant.py SPEC.py  (defines ID, PROP, NEEDS, BREAKS, FILE, OLD, NEW, DEMO)

Works on a scratch copy of /repo, keeps the bug under /verif/seeded/<id> only if
the stable tests pass, the demo passes on /repo and fails on the copy."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

PY = "/opt/pypyvenv/bin/python"


def run(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True)


def plant(specfile):
    s = runpy.run_path(specfile)
    tmp = tempfile.mkdtemp(prefix="plant")
    w = os.path.join(tmp, "repo")
    try:
        shutil.copytree("/repo", w, symlinks=True)
        edits = s["EDITS"] if "EDITS" in s else [(s["FILE"], s["OLD"], s["NEW"])]
        for f, old, new in edits:
            p = os.path.join(w, f)
            with open(p, newline="") as fh:
                src = fh.read()
            crlf = "\r\n" in src
            if crlf:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if src.count(old) != 1:
                return f"{s['ID']}: {src.count(old)} matches in {f}"
            with open(p, "w", newline="") as fh:
                fh.write(src.replace(old, new))
        d = run(["git", "diff"], w).stdout
        if crlf:
            d = subprocess.run(["git", "diff"], cwd=w, capture_output=True).stdout.decode()
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH="/opt/vp/plugin")
        t = run([PY, "-m", "pytest", "-q", "-p", "pypy_collect", "-p", "no:cacheprovider", "--timeout=120", "-x", "test"], w, env)
        if "49 passed" not in t.stdout or "failed" in t.stdout:
            return f"{s['ID']}: tests: {t.stdout.strip().splitlines()[-3:]}"
        out = os.path.join("/verif/seeded", s["ID"])
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, "demo.sh"), "w") as fh:
            fh.write("#!/bin/bash\n# run with cwd /repo\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/pypyvenv/bin/python - <<'EOF'\nimport os, sys\nsys.path.insert(0, os.getcwd())\n" + s["DEMO"].strip() + "\nEOF\n")
        with open(os.path.join(out, "patch.diff"), "w", newline="") as fh:
            fh.write(d)
        with open(os.path.join(out, "meta.json"), "w") as fh:
            json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, fh, indent=1)
            fh.write("\n")
        good = run(["bash", os.path.join(out, "demo.sh")], "/repo")
        bad = run(["bash", os.path.join(out, "demo.sh")], w)
        if good.returncode != 0 or bad.returncode == 0:
            shutil.rmtree(out)
            return f"{s['ID']}: demo: unchanged {good.returncode} {good.stderr[-300:]} / patched {bad.returncode} {bad.stderr[-300:]}"
        chk = run(["git", "apply", "--check", os.path.join(out, "patch.diff")], "/repo")
        if chk.returncode:
            return f"{s['ID']}: patch does not apply: {chk.stderr}"
        env = dict(os.environ, VERIF_REPO=w, VERIF_SEED="1", VERIF_TIER="quick")
        c = run([sys.executable, "-m", "sa.check", s["PROP"]], "/verif", env)
        return f"{s['ID']}: planted; check {s['PROP']} exit {c.returncode}: {c.stdout.strip().splitlines()[-2:]}"
    finally:
        shutil.rmtree(tmp)


for f in sys.argv[1:]:
    print(plant(f), flush=True)
