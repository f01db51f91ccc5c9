#!/usr/bin/env python3
"""run_check.py <property> [--tier quick|thorough] [--root /repo]"""
import argparse
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from sa.program import AnalysisError
from sa.report import Check, finish


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--evidence", default=None, help="directory for the evidence file")
    a = ap.parse_args()
    try:
        mod = importlib.import_module("sa.checks." + a.property.lower())
        ck = Check(a.property, "thorough" if a.tier == "thorough" else "quick", a.root)
        mod.check(ck)
        return finish(ck, " ".join((mod.__doc__ or "").split()), a.evidence)
    except AnalysisError as e:
        print(f"{a.property}: analysis error: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 3


if __name__ == "__main__":
    sys.exit(main())
