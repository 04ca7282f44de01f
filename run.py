#!/usr/local/bin/python3-vt
"""Decide one property on /repo's current tree.

  run.py C03 [--tier quick|thorough] [--seed N]     decide the property; evidence in evidence/C03.json
  run.py --replay evidence/replays/C03-0.json       run a recorded counterexample on the real libraries again

Exit 0: every obligation that was decided holds.  Exit 1 with a VIOLATION line: a counterexample that fails on the real
code.  Exit 2: no verdict (see `no_verdict` in the evidence)."""
import argparse
import json
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from engine import driver  # noqa: E402

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=("quick", "thorough"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="comma separated numbers of configurations (for debugging)")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    if a.replay:
        sys.exit(driver.replay(a.replay))
    only = [int(x) for x in a.only.split(",")] if a.only else None
    sys.exit(driver.decide(a.id, a.tier, a.seed, only, a.verbose))
