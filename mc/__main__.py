"""python -m mc C05 [--tier quick|thorough] [--jobs N] [--only i,j] [-v]   |   python -m mc replay FILE"""
import argparse
import sys

from mc import core

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("what")
    ap.add_argument("path", nargs="?")
    ap.add_argument("--tier")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.what == "replay":
        sys.exit(core.replay(a.path))
    sys.exit(core.main(a.what, a.tier, a.jobs, [int(i) for i in a.only.split(",")] if a.only else None, a.v))
