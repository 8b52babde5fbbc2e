#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--only CASE] [-v] | --replay FILE"""
import argparse
import os
import sys

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    from engine import run
    if a.replay:
        return run.replay(a.replay)
    from checks import PROPS
    return run.run_check(a.prop, PROPS[a.prop], a.tier, a.only, a.v)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        print("no answer: the check itself failed, or the code does not build")
        rc = 2
    sys.exit(rc)
