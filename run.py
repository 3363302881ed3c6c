"""Solver-based checks of hdf5storage: run.py C01 [--tier quick|thorough] | --replay FILE"""
import argparse
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(5000)

from symx import runner  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--procs", type=int)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        return runner.replay(a.replay)
    return runner.main(a.prop, a.tier, a.only, a.budget, a.v, a.procs)


if __name__ == "__main__":
    sys.exit(main())
