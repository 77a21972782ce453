#!/opt/venv/bin/python
"""check.py --property C01 [--tier quick|thorough] [--seed N] [--runs N] | --replay FILE"""
import argparse
import os
import sys

os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import engine  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int, default=None)
    ap.add_argument("--workers", type=int, default=None)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return engine.replay(a.replay)
    return engine.check(a.property, a.tier, a.seed, a.workers, a.runs)


if __name__ == "__main__":
    sys.exit(main())
