"""Decide one property: python3 -m sa.check C01 [--thorough]"""
import argparse
import os
import sys
import time
import traceback

from . import watch
from .core import UNDECIDED, Ctx, Ob, finish


def main():
    sys.setrecursionlimit(40000)
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--thorough", action="store_true")
    a = ap.parse_args()
    from .registry import RULES
    title, fn, assumptions = RULES[a.prop]
    thorough = a.thorough or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()

    def broken(why):
        return [Ob("analysis", "the analysis of the current tree completes", UNDECIDED, detail=why)]

    def run():
        ctx = Ctx(a.prop, thorough, seed)
        watch.begin(thorough)
        try:
            obs = fn(ctx) or broken("no obligation")
        except Exception as e:  # the analysis itself gave up: no verdict, no alarm
            watch.end()
            traceback.print_exc(file=sys.stdout)
            obs = broken(f"{type(e).__name__}: {e}")
        watch.end()
        return finish(ctx, title, obs, t0, assumptions)

    def give_up(why):
        return finish(Ctx(a.prop, thorough, seed), title, broken(why), t0, assumptions)
    return watch.supervised(run, give_up, thorough)


if __name__ == "__main__":
    sys.exit(main())
