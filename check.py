#!/opt/veriftools/pyvenv/bin/python
"""python check.py <PROPERTY> [--tier quick|thorough]  -- decide one property on /repo's current tree."""

import argparse
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from sa.program import Program  # noqa: E402
from sa.report import Report, finish  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    mod = importlib.import_module("checks." + a.property.lower())
    rep = Report(a.property, a.tier)
    try:
        prog = Program() if getattr(mod, "NEEDS_PYTHON", True) else None
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN: %s: the sources cannot be read" % a.property)
        return 2
    rep.part(mod.check, prog, rep)
    return finish(rep, "other", mod.TECHNIQUE, mod.EXPLANATION)


if __name__ == "__main__":
    sys.exit(main())
