"""Entry point of every check: run.py PROPERTY [--tier quick|thorough] [--budget S]"""
import argparse
import os
import sys
import warnings

ROOT = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python"
try:
    import z3  # noqa: F401
except ImportError:
    os.execv(VT, [VT, "-B"] + sys.argv)
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")
sys.path.insert(0, ROOT)

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--workers", type=int)
    a = ap.parse_args()
    from symx import runner
    sys.exit(runner.run_check(a.property, a.tier, a.workers, a.budget))
