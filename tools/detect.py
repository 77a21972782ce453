#!/opt/venv/bin/python
"""detect.py [-a] [ID ...]: apply each planted bug to a scratch copy of /repo, run its property's check (-a: all checks), print a table"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    every = "-a" in sys.argv
    for n in ids:
        d = os.path.join(ROOT, "seeded", n)
        meta = json.load(open(os.path.join(d, "meta.json")))
        tmp = tempfile.mkdtemp(prefix="detect")
        try:
            shutil.copytree("/repo", os.path.join(tmp, "r"), symlinks=True)
            subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=os.path.join(tmp, "r"), check=True)
            res = []
            for p in ["C%02d" % i for i in range(1, 23)] if every else [meta["property"]]:
                t = time.time()
                r = subprocess.run([sys.executable, "check.py", "--property", p], cwd=ROOT, stdout=subprocess.PIPE, text=True,
                                   stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_REPO=os.path.join(tmp, "r"), VERIF_OUT=os.path.join(tmp, "o")))
                cls = [l.split("replay=")[1].split("/")[-1].rsplit("-", 1)[0] for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                if r.returncode or not every:
                    res.append("%s %s (%.0f s)" % (p, ",".join(cls) if r.returncode == 1 else "MISSED" if not r.returncode else "rc %d" % r.returncode, time.time() - t))
            print("| %s | %s | %s |" % (n, meta["property"], "; ".join(res)), flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    main()
