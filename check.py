#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property from the source under /repo."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
        args = [a for a in args if a != tier]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = args[0]
    from sa.report import Report
    from sa.interp import AnalysisError
    rep = Report(pid, tier, seed)
    mod = importlib.import_module("checks." + pid.lower())
    try:
        with rep.guard("walk", "pyoptmat", "preparation of the cases"):
            mod.run(rep)
    except AnalysisError as e:
        print(f"{pid}: analysis broken: {e}", file=sys.stderr)
        return 1 if rep.finish() == 1 else 2
    except Exception:
        traceback.print_exc()
        print(f"{pid}: analysis broken", file=sys.stderr)
        return 1 if rep.finish() == 1 else 2
    return rep.finish()


if __name__ == "__main__":
    sys.exit(main())
