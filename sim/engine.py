"""Seeds, worker processes, minimisation, replay files, evidence."""
import copy
import ctypes
import hashlib
import importlib
import json
import os
import random
import selectors
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable
OUT = os.environ.get("VERIF_OUT", os.path.join(ROOT, "out"))
TASK_TIMEOUT = 150
mono = time.monotonic


def seed_of(seed, prop, i, salt=""):
    h = hashlib.blake2b(("%s:%s:%s:%s" % (seed, prop, i, salt)).encode(), digest_size=8).digest()
    return int.from_bytes(h, "big")


def load_prop(pid):
    return importlib.import_module("props." + pid.lower())


class Violation(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, "%s: %s" % (cls, msg))
        self.cls = cls
        self.msg = msg


class Run(object):
    """Collects what one simulated run did."""

    def __init__(self):
        self.viol = []
        self.stats = {}
        self.keys = set()
        self.events = 0
        self.simtime = 0.0
        self.nontrivial = False
        self.explicit = None
        self._h = hashlib.blake2b(digest_size=12)
        self.log = []
        self.keep_log = False

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def ev(self, *a):
        """one event of the history (feeds the digest of the run)"""
        self.events += 1
        s = "|".join(x if isinstance(x, str) else repr(x) for x in a)
        self._h.update(s.encode("utf-8", "surrogatepass"))
        self._h.update(b"\n")
        if self.keep_log and len(self.log) < 4000:
            self.log.append(s)

    def violation(self, cls, msg):
        self.viol.append({"cls": cls, "msg": str(msg)[:1500]})

    def result(self):
        return {"viol": self.viol, "stats": self.stats, "keys": sorted(self.keys), "events": self.events,
                "simtime": self.simtime, "nontrivial": self.nontrivial, "digest": self._h.hexdigest()}


# -- worker side ----------------------------------------------------------------

def prepare_process(prop=None):
    import gc
    from . import world, lib, sched
    world.install()
    sched.install()
    lib.install()
    lib.prime("plain")
    lib.prime("instr")
    gc.disable()


def execute(prop, case, keep_log=False):
    """one simulated run; the seams are put in their start position first"""
    import gc
    from . import world
    world.reset(case.get("seed", 0) & 0x7fffffff)
    run = Run()
    run.keep_log = keep_log
    try:
        prop.run(case, run)
    except Violation as v:
        run.violation(v.cls, v.msg)
    except (MemoryError, OSError):
        raise
    except Exception as e:
        # the code under test answered with something no judge could make sense of; on the unchanged code there is no such run
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        run.violation("uninterpretable", "what the code did could not be interpreted: %s: %s (at %s line %d)" % (
            type(e).__name__, e, os.path.basename(tb.filename), tb.lineno or 0))
    world.reset(0)
    gc.collect()
    return run


def make_case(prop, seed, i, tier):
    s = seed_of(seed, prop.ID, i)
    rng = random.Random(s)
    case = prop.gen(rng, i, tier)
    case["seed"] = s
    return case


def explicit_case(case, run):
    c = copy.deepcopy(case)
    if run.explicit:
        c.update(copy.deepcopy(run.explicit))
    return c


def _get(c, path):
    for k in path:
        c = c[k]
    return c


def shrink(prop, case, cls, budget=60.0):
    """ddmin over the lists named by prop.SHRINK, then prop.simplify"""
    t0 = time.monotonic
    from .world import real_monotonic
    end = real_monotonic() + budget
    tried = [0]

    def fails(c):
        if real_monotonic() > end:
            return None
        tried[0] += 1
        try:
            r = execute(prop, c)
        except Exception:
            return None
        if any(v["cls"] == cls for v in r.viol):
            return explicit_case(c, r)
        return None

    best = fails(case)
    if best is None:
        return case, tried[0]
    paths = prop.SHRINK
    changed = True
    rounds = 0
    while changed and real_monotonic() < end and rounds < 4:
        changed = False
        rounds += 1
        for path in (paths(best) if callable(paths) else paths):
            path = [path] if isinstance(path, str) else list(path)
            try:
                cur = _get(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(cur, list):
                continue
            n = 2
            while len(cur) >= 1 and real_monotonic() < end:
                size = max(1, len(cur) // n)
                hit = False
                for a in range(0, len(cur), size):
                    cand = copy.deepcopy(best)
                    l = _get(cand, path)
                    del l[a:a + size]
                    got = fails(cand)
                    if got is not None:
                        best = got
                        cur = _get(best, path)
                        changed = True
                        hit = True
                        break
                if not hit:
                    if size == 1:
                        break
                    n = min(len(cur), n * 2)
                else:
                    n = max(2, n - 1)
        if hasattr(prop, "simplify"):
            for cand in prop.simplify(copy.deepcopy(best)):
                if real_monotonic() > end:
                    break
                got = fails(cand)
                if got is not None:
                    best = got
                    changed = True
    return best, tried[0]


SETUP_FAILED = 97


def worker_main(pid):
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    prop = load_prop(pid)
    prepare_process(prop)
    if hasattr(prop, "setup"):
        try:
            prop.setup()
        except BaseException:           # no run has begun
            import traceback
            traceback.print_exc()
            sys.stderr.flush()
            os._exit(SETUP_FAILED)
    from .world import real_perf
    for line in sys.stdin:
        t = json.loads(line)
        kind = t["kind"]
        if kind == "quit":
            break
        res = {"id": t["id"]}
        try:
            if kind == "batch":
                rs = []
                for i in t["idx"]:
                    t0 = real_perf()
                    case = make_case(prop, t["seed"], i, t["tier"])
                    run = execute(prop, case)
                    r = run.result()
                    r["i"] = i
                    r["wall"] = real_perf() - t0
                    if run.viol:
                        r["case"] = explicit_case(case, run)
                    elif i < 3:
                        r["sample"] = prop.describe(case, run) if hasattr(prop, "describe") else case
                    rs.append(r)
                res["runs"] = rs
            elif kind == "case":
                run = execute(prop, t["case"], keep_log=t.get("log", False))
                res["run"] = run.result()
                res["log"] = run.log
            elif kind == "seq":
                for c in t["cases"]:
                    run = execute(prop, make_case(prop, t["seed"], c, t["tier"]) if isinstance(c, int) else c)
                res["run"] = run.result()
            elif kind == "shrink":
                c, n = shrink(prop, t["case"], t["cls"], t.get("budget", 60.0))
                res["case"] = c
                res["tried"] = n
        except BaseException:
            import traceback
            res["error"] = traceback.format_exc()
        out.write(json.dumps(res) + "\n")
        out.flush()
    try:
        if hasattr(prop, "teardown"):
            prop.teardown()
    finally:
        os._exit(0)


# -- master side ------------------------------------------------------------------

def worker_env(hashseed="0"):
    e = dict(os.environ)
    e.update(OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", PYTHONHASHSEED=str(hashseed),
             PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=ROOT)
    e.pop("PYTHONSTARTUP", None)
    return e


_libc = ctypes.CDLL(None)


def _fixed_addresses():
    """no address space randomisation in simulated processes (id() is part of a schedule)"""
    try:
        _libc.personality(0x0040000)
    except Exception:
        pass


class Worker(object):
    def __init__(self, pid, hashseed="0"):
        self.p = subprocess.Popen([PY, "-c", "import sys; from sim import engine; engine.worker_main(sys.argv[1])",
                                   pid], cwd=ROOT, env=worker_env(hashseed), preexec_fn=_fixed_addresses,
                                  stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, bufsize=1)
        os.set_blocking(self.p.stderr.fileno(), False)
        self.task = None
        self.started = 0
        self.history = []
        self.err = ""

    def send(self, t):
        self.task = t
        self.started = mono()
        self.p.stdin.write(json.dumps(t) + "\n")
        self.p.stdin.flush()

    def drain(self):
        try:
            x = self.p.stderr.read()
            if x:
                self.err = (self.err + x)[-8000:]
        except Exception:
            pass

    def close(self):
        try:
            self.p.stdin.write('{"kind":"quit","id":-1}\n')
            self.p.stdin.close()
        except Exception:
            pass
        try:
            self.p.wait(timeout=5)
        except Exception:
            self.p.kill()
            self.p.wait()
        self._closefds()

    def _closefds(self):
        for f in (self.p.stdin, self.p.stdout, self.p.stderr):
            try:
                f.close()
            except Exception:
                pass

    def kill(self):
        self.p.kill()
        self.p.wait()
        self._closefds()

    def ask(self, t, timeout):
        """synchronous request; None on time out or death"""
        self.send(t)
        sel = selectors.DefaultSelector()
        sel.register(self.p.stdout, selectors.EVENT_READ)
        end = mono() + timeout
        while mono() < end:
            self.drain()
            if sel.select(timeout=0.5):
                line = self.p.stdout.readline()
                if not line:
                    self.drain()
                    return None
                return json.loads(line)
        return None


def one_shot(pid, t, timeout=TASK_TIMEOUT, hashseed="0"):
    w = Worker(pid, hashseed)
    try:
        t = dict(t, id=0)
        r = w.ask(t, timeout)
        if r is None:
            try:
                w.p.wait(timeout=2)
            except subprocess.TimeoutExpired:
                pass
            dead = w.p.poll() is not None
            w.drain()
            if w.p.poll() == SETUP_FAILED:
                return {"error": "set up failed\n" + w.err}
            return {"error": ("worker died\n" + w.err) if dead else "timeout", "timeout": not dead, "died": dead}
        return r
    finally:
        w.kill()


class HarnessError(Exception):
    pass


def run_batches(pid, seed, tier, total, workers=8, chunk=None, stop_on_violation=True, hashseed="0", only=None):
    """returns (runs by index, hangs, errors)"""
    idx = list(range(total)) if only is None else list(only)
    if chunk is None:
        chunk = max(1, min(20, len(idx) // (workers * 4) or 1))
    tasks = [idx[a:a + chunk] for a in range(0, len(idx), chunk)]
    tasks.reverse()
    sel = selectors.DefaultSelector()
    ws = []
    runs, bad = {}, []
    stop = False
    tid = [0]

    def give(w):
        if tasks and not stop:
            b = tasks.pop()
            tid[0] += 1
            w.send({"kind": "batch", "id": tid[0], "idx": b, "seed": seed, "tier": tier})
            return True
        w.task = None
        return False

    def spawn():
        w = Worker(pid, hashseed)
        sel.register(w.p.stdout, selectors.EVENT_READ, w)
        ws.append(w)
        give(w)

    for _ in range(min(workers, len(tasks))):
        spawn()
    while any(w.task for w in ws):
        for key, _ in sel.select(timeout=0.5):
            w = key.data
            line = w.p.stdout.readline()
            w.drain()
            if not line:
                sel.unregister(w.p.stdout)
                w.p.wait()
                w.drain()
                bad.append({"idx": w.task["idx"] if w.task else [], "rc": w.p.returncode, "err": w.err,
                            "kind": "error" if w.p.returncode == SETUP_FAILED else "died"})
                w._closefds()
                ws.remove(w)
                if len(bad) < 4 and tasks and not stop:
                    spawn()
                continue
            r = json.loads(line)
            if "error" in r:
                bad.append({"idx": w.task["idx"], "kind": "error", "err": r["error"]})
                w.history.append(w.task["idx"])
                if len(bad) >= 3:
                    stop = True
                give(w)
                continue
            for x in r["runs"]:
                x["worker_history"] = sum(w.history, []) if x["viol"] else None
                x["batch"] = w.task["idx"] if x["viol"] else None
                runs[x["i"]] = x
                if x["viol"] and stop_on_violation:
                    stop = True
            w.history.append(w.task["idx"])
            give(w)
        now = mono()
        for w in list(ws):
            w.drain()
            if w.task and now - w.started > TASK_TIMEOUT + 3 * len(w.task["idx"]):
                sel.unregister(w.p.stdout)
                bad.append({"idx": w.task["idx"], "kind": "timeout", "err": w.err})
                w.kill()
                ws.remove(w)
                stop = True
    for w in ws:
        w.close()
    return runs, bad


def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


def check(pid, tier="quick", seed=1, workers=None, total=None, quiet=False):
    prop = load_prop(pid)
    t0 = mono()
    workers = workers or int(os.environ.get("VERIF_WORKERS", "8"))
    total = total or int(os.environ.get("VERIF_RUNS", "0")) or prop.RUNS[tier]
    print("%s seed=%d tier=%s runs=%d workers=%d" % (pid, seed, tier, total, workers), flush=True)
    if hasattr(prop, "master"):
        runs, bad = prop.master(seed, tier, total, workers)
    else:
        runs, bad = run_batches(pid, seed, tier, total, workers, getattr(prop, "CHUNK", None))
    viols = []
    for i in sorted(runs):
        for v in runs[i]["viol"]:
            viols.append((i, v))
    # runs which do not end are found again in isolation before they count
    for b in bad:
        if b["kind"] in ("timeout", "died"):
            for i in b["idx"]:
                if i in runs:
                    continue
                r = one_shot(pid, {"kind": "seq", "cases": [i], "seed": seed, "tier": tier}, timeout=90)
                if r.get("timeout") or r.get("died"):
                    cls = "never-ends" if r.get("timeout") else "process-died"
                    viols.append((i, {"cls": cls, "msg": "the run %s (twice)" % (
                        "does not complete within 90 s of wall time" if r.get("timeout") else "kills its process"),
                        "raw": True}))
                    break
                if "error" in r:
                    b["kind"] = "error"
                    b["err"] = r["error"]
                    break
            else:
                b["kind"] = "transient"
    errors = [b for b in bad if b["kind"] == "error" or b["kind"] == "transient"]
    known = known_findings()
    reported = []
    seen = set()
    exit_code = 0
    known_seen = []
    for i, v in viols:
        if v["cls"] in seen:
            continue
        seen.add(v["cls"])
        if len(reported) >= 3:
            break
        rep = finish_violation(pid, prop, seed, tier, i, v, runs.get(i))
        k = [f for f in known if f.get("property") == pid and f.get("status") == "open" and
             f.get("cls") == rep["cls"] and f.get("match", "") in rep["msg"]]
        if k:
            known_seen.append(k[0])
            continue
        reported.append(rep)
    for f in known:
        if f.get("property") == pid and f.get("status") == "open":
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    for rep in reported:
        print("%s: %s" % (rep["cls"], rep["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, rep["path"]), flush=True)
        exit_code = 1
    wall = mono() - t0
    write_evidence(pid, prop, tier, seed, runs, wall, len(reported), errors, workers)
    if errors and not exit_code:
        for b in errors[:2]:
            sys.stderr.write("harness error in runs %s:\n%s\n" % (b["idx"][:5], b["err"]))
        return 2
    if not exit_code and len(runs) < total:
        sys.stderr.write("only %d of %d runs completed\n" % (len(runs), total))
        return 2
    if not quiet:
        print("%s: %d runs, %d events, %.1f s: %s" % (pid, len(runs), sum(r["events"] for r in runs.values()), wall,
                                                     "violated" if exit_code else "held"))
    return exit_code


def finish_violation(pid, prop, seed, tier, i, v, run):
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    path = os.path.join(OUT, "replays", "%s-%s-%d.json" % (pid, v["cls"].replace("/", "_").replace(" ", "_"), i))
    rep = {"property": pid, "cls": v["cls"], "msg": v["msg"], "seed": seed, "tier": tier, "index": i, "path": path}
    body = dict(rep)
    if v.get("raw") or run is None or "case" not in run:
        body["mode"] = "seq"
        body["cases"] = [i]
        body["reproduced"] = True
    else:
        case = run["case"]
        sh = one_shot(pid, {"kind": "shrink", "case": case, "cls": v["cls"], "budget": 45.0}, timeout=170)
        small = sh.get("case", case)
        done = False
        for cand in (small, case):
            a = one_shot(pid, {"kind": "case", "case": cand, "log": True})
            r = a.get("run")
            if r and any(x["cls"] == v["cls"] for x in r["viol"]):
                m = [x for x in r["viol"] if x["cls"] == v["cls"]][0]
                rep["msg"] = m["msg"]
                body.update(mode="case", case=cand, digest=r["digest"], msg=m["msg"], reproduced=True,
                            history=a.get("log", [])[-400:], shrink_tried=sh.get("tried"))
                done = True
                break
        if not done:
            pre = (run.get("worker_history") or []) + [x for x in (run.get("batch") or []) if x <= i]
            body.update(mode="seq", cases=pre[-400:] or [i])
            a = one_shot(pid, {"kind": "seq", "cases": body["cases"], "seed": seed, "tier": tier}, timeout=600)
            r = a.get("run")
            body["reproduced"] = bool(r and any(x["cls"] == v["cls"] for x in r["viol"]))
            body["case"] = case
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return rep


def replay(path):
    with open(path) as f:
        b = json.load(f)
    pid = b["property"]
    if b["mode"] == "case":
        r = one_shot(pid, {"kind": "case", "case": b["case"], "log": True})
    else:
        r = one_shot(pid, {"kind": "seq", "cases": b["cases"], "seed": b["seed"], "tier": b["tier"]}, timeout=600)
    if r.get("timeout") or r.get("died"):
        print("run %s" % ("does not end" if r.get("timeout") else "kills its process"))
        if b["cls"] in ("never-ends", "process-died"):
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        return 2
    if "error" in r:
        sys.stderr.write(r["error"])
        return 2
    run = r["run"]
    for l in r.get("log", [])[-60:]:
        print("  " + l)
    for v in run["viol"]:
        print("%s: %s" % (v["cls"], v["msg"]))
    if b.get("digest"):
        print("history digest %s (recorded %s): %s" % (run["digest"], b["digest"],
                                                        "same" if run["digest"] == b["digest"] else "different"))
    if any(v["cls"] == b["cls"] for v in run["viol"]):
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("the violation does not occur")
    return 0


def write_evidence(pid, prop, tier, seed, runs, wall, nviol, errors, workers):
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    stats, keys, samples = {}, set(), []
    nontrivial = set()
    simtime = 0.0
    events = 0
    for i in sorted(runs):
        r = runs[i]
        for k, n in r["stats"].items():
            stats[k] = stats.get(k, 0) + n
        keys.update(r["keys"])
        if r["nontrivial"]:
            nontrivial.add(r["digest"])
        simtime += r["simtime"]
        events += r["events"]
        if "sample" in r and len(samples) < 3:
            samples.append({"run": i, "digest": r["digest"], "events": r["events"], "case": r["sample"]})
    faults = {k[6:]: n for k, n in sorted(stats.items()) if k.startswith("fault:")}
    other = {k: n for k, n in sorted(stats.items()) if not k.startswith("fault:")}
    cov = {
        "evaluations": len(runs),
        "distinct_nontrivial": len(nontrivial),
        "rule": prop.RULE + " Distinct: different digest of the whole recorded history of the run.",
        "samples": samples or [{"note": "no run completed"}],
        "runs_per_hour": round(len(runs) / max(wall, 1e-6) * 3600),
        "seeds_per_hour": round(len(runs) / max(wall, 1e-6) * 3600),
        "simulated_time_s": round(simtime, 3),
        "events": events,
        "faults_injected": faults,
        "reach": other,
        "distinct_states": len(keys),
        "distinct_states_measure": getattr(prop, "MEASURE", "event digests"),
        "real_code": prop.REAL,
        "stubs": prop.STUBS,
        "workers": workers,
        "harness_errors": len(errors),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": getattr(prop, "ASSUMPTIONS", []), "wall_s": round(wall, 2), "violations": nviol}
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
