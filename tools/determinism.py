#!/opt/venv/bin/python
"""determinism.py [-n N] [C01 ...]: the same seeds in two sets of processes (other batch sizes, worker counts and order) give
the same history digests"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import engine  # noqa: E402


def main():
    a = sys.argv[1:]
    n = 120
    if "-n" in a:
        k = a.index("-n")
        n = int(a[k + 1])
        del a[k:k + 2]
    props = a or ["C%02d" % i for i in range(1, 23)]
    rc = 0
    for pid in props:
        prop = engine.load_prop(pid)
        if hasattr(prop, "master"):
            one, b1 = prop.master(7, "quick", n, 8)
            two, b2 = prop.master(7, "quick", n, 3)
        else:
            one, b1 = engine.run_batches(pid, 7, "quick", n, 8, getattr(prop, "CHUNK", None), stop_on_violation=False)
            two, b2 = engine.run_batches(pid, 7, "quick", n, 3, 7, stop_on_violation=False, only=list(reversed(range(n))))
        diff = [i for i in range(n) if i not in one or i not in two or one[i]["digest"] != two[i]["digest"]]
        print("%s: %d runs, %d differ %s %s" % (pid, n, len(diff), diff[:8], [b["kind"] for b in b1 + b2]), flush=True)
        rc |= bool(diff)
    return rc


if __name__ == "__main__":
    sys.exit(main())
