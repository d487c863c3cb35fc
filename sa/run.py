#!/usr/bin/env python3-vt
"""run.py <property id>: decide one property from the current source of /repo."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import importlib
import threading
import traceback

from sa import report
from sa.terms import ControlFlow


def main(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module(f"sa.checks.{prop.lower()}")
    rep = report.Report(prop, tier)
    for k, v in mod.RULES.items():
        rep.rule(k, v)
    for a in getattr(mod, "ASSUMPTIONS", ()):
        rep.assume(a)
    broken = None
    try:
        mod.check(rep, tier)
    except report.Broken as e:
        broken = str(e)
    except ControlFlow as e:
        broken = f"{type(e).__name__}: {e}"
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()
    except Exception as e:
        broken = f"{type(e).__name__}: {e}"
        traceback.print_exc()
    if broken is not None and not any(k not in rep.known() for k in rep.findings):
        print(f"ANALYSIS-BROKEN property={prop}: {broken}")
        return 2
    if broken is not None:
        print(f"note: the analysis stopped early: {broken}")
    return rep.finish(mod.LEVEL, mod.EXPLANATION)


if __name__ == "__main__":
    rc = [2]

    def go():
        rc[0] = main(sys.argv[1])

    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(200000)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
