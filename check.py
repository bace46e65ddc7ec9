#!/usr/bin/env python3
"""python3-vt check.py <property> [--tier quick|thorough]"""
import argparse
import importlib
import os
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from engine import harness, frontend          # noqa: E402
from claims import CLAIMS                     # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    c = CLAIMS[a.property]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    mod, fn = c["check"].split(".")
    rep = harness.Report(a.property)
    harness.TIER = a.tier

    def late(*_):
        harness.LATE = True
        raise harness.Undecided("out of time")
    # an answer in time: what is not examined by then stays undecided
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, 3000 if a.tier == "thorough" else 600, 15)
    try:
        try:
            f = getattr(importlib.import_module("checks." + mod), fn)
            harness.section(rep, c["check"], f, rep)
        except harness.Undecided as e:
            rep.und("analysis", c["check"], str(e))
        signal.setitimer(signal.ITIMER_REAL, 0)
        return harness.finish(rep, a.tier, seed, t0, c["level"], c["explanation"], c["floor"])
    except frontend.Broken as e:
        print("ANALYSIS-BROKEN: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN: internal error")
        return 2


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"       # (reproducible search order)
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.exit(main())
