"""C04: every call uses the robot's present contents, never remembered ones."""
import copy
import gc
import pickle

import numpy as np

from sim import calls, gens, held, lib as _lib, rosstub, values, world
from sim.engine import Violation
from .c03 import outcome

ID = "C04"
RUNS = {"quick": 7000, "thorough": 150000}
RULE = ("One run: a seeded history over 1-3 robot slots of calls, edits (assigned or in place, from 1e-7 to large), copies, "
        "destruction and re-creation of robots, document edits, clock jumps and garbage collections; each call is compared "
        "with a library instance without a past on a copy of the present contents. Non-trivial: a call was repeated after "
        "an edit, replacement or copy of its robot.")
MEASURE = "distinct (edit kind, attribute, next function called) triples"
REAL = ["general_robotics_toolbox (all modules used)", "numpy", "PyYAML", "tesseract_robotics"]
STUBS = ["the caller (seeded history)", "clock", "entropy"]
ASSUMPTIONS = ["object addresses are reused as CPython's allocator reuses them"]
SHRINK = ["steps"]
FUNCS = ["fwdkin", "fwdkin", "robotjacobian", "robotjacobian", "ik", "ik", "ik", "iterative_invkin", "equivalent_configurations",
         "apply_robot_aux_transforms", "unapply_robot_aux_transforms"]
TFUNCS = ["tess_sg", "tess_plugin", "tess_opw", "tess_ur", "tess_base", "tess_cmds", "tess_new", "tess_pdict"]
ATTRS = ["P", "P", "P", "H", "tool", "tool", "flange", "base", "limits", "limits", "vel", "type", "names"]
DELTAS = [1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 0.02, 0.3, -1e-6, -1e-5, -0.05]


def setup():
    rosstub.install()


def gen(rng, i, tier):
    tess = rng.random() < 0.12
    if tess:
        n = rng.choice(sorted(gens.TESS))
        robots = [gens.named(n)]
        robots[0]["solver"] = gens.TESS[n]
    else:
        robots = [gens.rnd_robot(rng, ("named", "chain", "sph", "sph", "ur"))]
        for _ in range(rng.randrange(0, 2)):
            robots.append(gens.rnd_robot(rng, ("named", "chain", "sph", "ur")))
        if rng.random() < 0.4:      # something to edit
            robots[0] = dict(gens.with_aux(rng, robots[0], 0.8))
        if rng.random() < 0.4:
            robots.append(copy.deepcopy(robots[0]))
    # a few calls which are made again and again
    ops = []
    for _ in range(rng.randrange(1, 4)):
        s = rng.randrange(len(robots))
        q = gens.rnd_joints(rng, robots[s])
        f = rng.choice(TFUNCS if tess and rng.random() < 0.8 else FUNCS)
        ops.append({"call": f, "slot": s, "q": q, "q2": [x + rng.uniform(-0.2, 0.2) for x in q],
                    "T": gens.rnd_tf(rng, labels=True), "last": rng.random() < 0.5, "n": rng.choice([1, 3, 10])})
    steps = [rng.choice(ops)]
    if rng.random() < 0.5:              # a call, an edit, the same call
        op = rng.choice(ops)
        steps = [op]
        for _ in range(rng.choice([1, 1, 2])):
            steps.append({"edit": rng.choice(ATTRS), "slot": op["slot"],
                          "how": rng.choice(["inplace", "inplace", "assign", "scale", "remove", "element", "element"]),
                          "n": rng.randrange(1000), "d": rng.choice(DELTAS), "T": gens.rnd_tf(rng)})
            steps.append(op)
    for _ in range(rng.randrange(3, 10)):
        c = rng.random()
        if c < 0.5:
            op = rng.choice(ops)
            if rng.random() < 0.2:
                op = dict(op, slot=rng.randrange(len(robots)))
            if rng.random() < 0.15:
                op = dict(op, call=rng.choice(TFUNCS if tess else FUNCS))
            steps.append(op)
        elif c < 0.82:
            steps.append({"edit": rng.choice(ATTRS), "slot": rng.randrange(len(robots)),
                          "how": rng.choice(["inplace", "assign", "assign", "scale", "remove", "element"]),
                          "n": rng.randrange(1000), "d": rng.choice(DELTAS), "T": gens.rnd_tf(rng)})
        elif c < 0.92:
            s = rng.randrange(len(robots))
            kind = rng.choice(["destroy", "destroy", "deepcopy", "copy", "pickle", "swap"])
            d = None
            if kind == "destroy":
                d = copy.deepcopy(robots[s])
                if rng.random() < 0.8:
                    d = vary(rng, d)
            steps.append({"slot": s, "replace": kind, "d": d, "o": rng.randrange(len(robots))})
        else:
            steps.append({"world": rng.choice(["clock", "back", "gc"]), "dt": rng.choice([1e-3, 1.0, 3600.0, 1e7])})
    return {"robots": robots, "steps": steps}


def vary(rng, d):
    """a robot of the same shape with other contents"""
    k = rng.choice(["P", "tool", "lim", "base"])
    if k == "P":
        P = np.array(d["P"])
        P *= 1 + rng.choice(DELTAS)
        d["P"] = P.tolist()
    elif k == "tool":
        t = gens.rnd_tf(rng, 0.2)
        d["R_tool"], d["p_tool"] = t["R"], t["p"]
    elif k == "base":
        d["T_base"] = gens.rnd_tf(rng)
    elif d["joint_lower_limit"] is not None:
        d["joint_lower_limit"] = [x - 0.1 for x in d["joint_lower_limit"]]
    return d


def same_dims(a, b):
    return len(a.joint_type) == len(b.joint_type)


def edit(lib, rb, st):
    """apply one edit; returns the attribute path or None"""
    a, how, n, d = st["edit"], st["how"], st["n"], st["d"]
    rox = lib.rox
    nj = len(rb.joint_type)
    T = gens.mk_tf(rox, st["T"])
    if a in ("P", "H"):
        M = getattr(rb, a)
        if a == "H":
            # axes stay unit vectors: flip one
            if how in ("assign", "remove"):
                M = np.array(M)
                M[:, n % nj] *= -1
                rb.H = M
                return "H="
            M[:, n % nj] *= -1
            return "H[]"
        k = n % (nj + 1)
        if nj == 6 and n % 4 == 0:
            k = 4 + n % 2           # the offsets within a wrist
            ax = np.array(rb.H)[:, k - 1 if k == 4 else k]
            if n % 3 == 0:          # along their axis, else off it
                M[:, k] += (d + 0.1) * ax
            else:
                M[:, k] += (d if n % 3 == 1 else 10 * d) * np.roll(ax, 1 + n % 2)
            return "P wrist"
        if how == "scale":
            M[:, k] *= 1 + d
            return "P[]"
        if how == "element":
            M[n % 3, k] += d
            return "P[]"
        if how == "inplace":
            M *= 1 + d
            return "P[]"
        M = np.array(M)
        M[:, k] *= 1 + d
        rb.P = M
        return "P="
    if a == "tool":
        if how == "remove":
            rb.R_tool = rb.p_tool = None
            return "tool=None"
        if rb.p_tool is None or how == "assign":
            rb.R_tool, rb.p_tool = np.array(T.R), np.array(T.p)
            return "tool="
        if how == "inplace":
            rb.R_tool[...] = rb.R_tool.dot(T.R)
            return "R_tool[]"
        if how == "scale" and n % 2:
            rb.R_tool = np.array(rb.R_tool).dot(T.R)
            return "R_tool="
        if how == "scale":
            rb.p_tool = np.array(rb.p_tool) + d
            return "p_tool="
        rb.p_tool[n % 3] += d
        return "p_tool[]"
    if a in ("flange", "base"):
        at = "T_" + a
        cur = getattr(rb, at)
        if how == "remove":
            setattr(rb, at, None)
            return at + "=None"
        if cur is None or how == "assign":
            setattr(rb, at, T)
            return at + "="
        if how == "inplace":
            cur.R[...] = cur.R.dot(T.R)
            return at + ".R[]"
        if how == "scale" and n % 2:
            cur.R = np.array(cur.R).dot(T.R)
            return at + ".R="
        if how == "scale":
            cur.p = cur.p + d
            return at + ".p="
        cur.p[n % 3] += d
        return at + ".p[]"
    if a == "limits":
        if rb.joint_lower_limit is None:
            if how == "assign":
                rb.joint_lower_limit = np.full(nj, -3.0)
                rb.joint_upper_limit = np.full(nj, 3.0)
                return "limits="
            return None
        if how == "remove":
            rb.joint_lower_limit = rb.joint_upper_limit = None
            return "limits=None"
        at = "joint_lower_limit" if n % 2 else "joint_upper_limit"
        s = 1 if n % 2 else -1
        v = getattr(rb, at)
        big = abs(d) if abs(d) > 1e-3 else 10 * abs(d)
        if how == "assign":
            v = np.array(v, dtype=float)
            v[n % nj] += s * big * 5
            setattr(rb, at, v)
            return at + "="
        v[n % nj] += s * big * (5 if how == "scale" else 1)
        return at + "[]"
    if a == "vel":
        at = "joint_vel_limit" if n % 2 else "joint_acc_limit"
        v = getattr(rb, at)
        if v is None or how == "assign":
            setattr(rb, at, np.full(nj, 1.0 + abs(d)))
            return at + "="
        v[n % nj] += abs(d)
        return at + "[]"
    if a == "type":
        jt = list(rb.joint_type)
        jt[n % nj] = 1 - int(jt[n % nj])
        if how == "assign" or not isinstance(rb.joint_type, list):
            rb.joint_type = jt
            return "joint_type="
        rb.joint_type[n % nj] = jt[n % nj]
        return "joint_type[]"
    if a == "names":
        rb.joint_names = ["n%d_%d" % (n, i) for i in range(nj)]
        return "joint_names="
    return None


def plan(lib, rb, st, solver, pose):
    """function and arguments of a call on robot rb of instance lib"""
    f, q = st["call"], gens.arr(st["q"])
    nj = len(rb.joint_type)
    if len(q) != nj:
        q = gens.arr((list(st["q"]) + [0.1] * nj)[:nj])
    q2 = gens.arr((list(st["q2"]) + [0.1] * nj)[:nj])
    T = gens.mk_tf(lib.rox, st["T"])
    target = lib.rox.Transform(np.array(pose[0]), np.array(pose[1])) if pose else T
    if f in ("fwdkin", "robotjacobian"):
        return f, [rb, q]
    if f == "ik" and nj != 6:
        f = "fwdkin"
        return f, [rb, q]
    if f == "ik":
        f = "ur_invkin" if abs(rb.H[1, 5]) == 1 and abs(rb.H[2, 4]) == 1 else "robot6_sphericalwrist_invkin"
        return f, [rb, target] + ([q2] if st["last"] else [])
    if f == "iterative_invkin":
        return f, [rb, target, q2, st["n"]]
    if f == "equivalent_configurations":
        return f, [rb, [q]] + ([q2] if st["last"] else [])
    if f in ("apply_robot_aux_transforms", "unapply_robot_aux_transforms"):
        return f, [rb, T]
    if f in ("tess_base", "tess_cmds"):
        return f, [rb, "robot"]
    if f in ("tess_plugin", "tess_pdict"):
        return f, [rb, "robot", solver]
    if f == "tess_new":
        return f, [rb, "robot", solver, q]
    return f, [rb]


def run(case, r):
    lib = _lib.fresh("plain")
    tess = any(s.get("call", "").startswith("tess") for s in case["steps"])
    solver = case["robots"][0].get("solver")
    with _lib.Active(lib):
        if tess:
            lib.sub("tesseract")
        slots = [gens.mk_robot(lib.rox, d) for d in case["robots"]]
    dirty = {}
    for si, st in enumerate(case["steps"]):
        with _lib.Active(lib):
            if "edit" in st:
                p = edit(lib, slots[st["slot"]], st)
                if p:
                    r.count("fault:edit " + p)
                    r.ev("edit", st["slot"], p, st["d"])
                    dirty[st["slot"]] = "edit " + p
                continue
            if "replace" in st:
                k, s = st["replace"], st["slot"]
                r.count("fault:" + k + " robot")
                r.ev(k, s)
                if k == "destroy":
                    slots[s] = None
                    slots[s] = gens.mk_robot(lib.rox, st["d"])
                elif k == "swap":
                    o = st["o"] % len(slots)
                    slots[s], slots[o] = slots[o], slots[s]
                    dirty[o] = "swap"
                elif k == "deepcopy":
                    slots[s] = copy.deepcopy(slots[s])
                elif k == "copy":
                    slots[s] = copy.copy(slots[s])
                else:
                    slots[s] = pickle.loads(pickle.dumps(slots[s]))
                dirty[s] = k
                continue
            if "world" in st:
                r.count("fault:world " + st["world"])
                if st["world"] == "gc":
                    gc.collect()
                else:
                    world.clock.advance(st["dt"] if st["world"] == "clock" else -st["dt"])
                    r.simtime += st["dt"] if st["world"] == "clock" else 0
                continue
        rb = slots[st["slot"]]
        lib2 = _lib.fresh("plain")
        with _lib.Active(lib2):
            c = held.clone(lib2.rox, rb)
            pose = None
            if st["call"] in ("ik", "iterative_invkin"):
                q = (list(st["q"]) + [0.1] * len(c.joint_type))[:len(c.joint_type)]
                t = lib2.rox.fwdkin(held.clone(lib2.rox, rb), np.array(q), _ignore_limits=True)
                pose = (np.array(t.R), np.array(t.p))
            f, a = plan(lib2, c, st, solver, pose)
            want = outcome(calls.fn(lib2, f), a)[0]
        del c
        with _lib.Active(lib):
            f, a = plan(lib, rb, st, solver, pose)
            got = outcome(calls.fn(lib, f), a)[0]
        why = dirty.pop(st["slot"], None)
        del rb, a
        r.ev("call", f, st["slot"], values.digest_canon(got))
        r.count("calls")
        if why:
            r.nontrivial = True
            r.keys.add("%s>%s" % (why, f))
        if not values.close(got, want, 1e-10):
            raise Violation("remembered-answer", "call %d %s on robot %d (%s) gave %s, for the present contents it is %s" % (
                si, f, st["slot"], "after " + why if why else "not edited since its last call", values.brief(got),
                values.brief(want)))


def describe(case, run):
    return {"robots": len(case["robots"]),
            "steps": [s.get("call") or s.get("edit") or s.get("replace") or s.get("world") for s in case["steps"]]}
