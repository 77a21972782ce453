"""C14: accelerated kinematics in any history of the environment they live in."""
import copy
import gc
import itertools
import math

import numpy as np

from sim import gens, lib as _lib, models, servo
from sim.engine import Violation
from sim.sched import Sched, SimHang, SimInterrupt, Solo

ID = "C14"
RUNS = {"quick": 4000, "thorough": 40000}
RULE = ("One run: a seeded history of 8-30 operations on planning environments: robots added, removed and moved, payloads "
        "attached, joint states set, commands that are refused, wrappers made from a robot or attached to an environment and "
        "dropped, environments cloned or rebuilt from their recorded commands after a crash, constructions and calls cut short "
        "by an interrupt, and kinematics queries, alone or from several scheduled threads. Every answer is compared with a "
        "reference model of the whole environment. Non-trivial: at least four answers were compared after a disturbance of "
        "the environment they came from.")
MEASURE = "distinct (query, solver, robot kind, frames asked for, last disturbance) combinations"
REAL = ["general_robotics_toolbox.tesseract and core", "tesseract_robotics (C++)", "numpy", "PyYAML"]
STUBS = ["thread scheduling (baton) for concurrent queries", "asynchronous exceptions at chosen bytecodes"]
ASSUMPTIONS = ["calls into tesseract are atomic", "joint states of a robot not yet set are not relied on",
               "KDL solvers are judged for soundness, and for success when started at a solution; OPW and UR also for completeness "
               "away from singularities (smallest singular value 0.02) and 0.02 rad inside the limits"]
IKTOL = {"KDLInvKinChainLMA": 5e-3, "KDLInvKinChainNR": 1e-4, "OPWInvKin": 2e-5, "URInvKin": 2e-5}


def SHRINK(case):
    return [["ops"]] + [["ops", i, 1] for i, o in enumerate(case["ops"]) if o[0] == "par"] + \
        ([["ops", i, 2, "switches"] for i, o in enumerate(case["ops"]) if o[0] == "par" and "switches" in o[2]])


NAMES = ["robot", "robot_1", "r", "robot1", "A", "left arm", "base"]


def gen_robot(rng):
    k = rng.choice(["opw", "opw", "ur", "named", "named", "chain", "sph", "rail"])
    solver = rng.choice(["KDLInvKinChainLMA", "KDLInvKinChainNR"])
    if k == "opw":
        d = gens.rnd_opw(rng)
        if rng.random() < 0.85:
            solver = "OPWInvKin"
    elif k == "ur":
        d = gens.rnd_ur_tess(rng)
        if rng.random() < 0.85:
            solver = "URInvKin"
    elif k == "named":
        n = rng.choice(sorted(gens.TESS))
        d = gens.exact(gens.named(n))
        solver = rng.choice([gens.TESS[n], gens.TESS[n], solver])
    elif k == "sph":
        d = gens.rnd_spherical(rng)
    else:
        d = gens.rnd_chain(rng)
    n = len(d["joint_type"])
    if d["joint_lower_limit"] is None:
        d["joint_lower_limit"], d["joint_upper_limit"] = [-3.] * n, [3.] * n
    if rng.random() < 0.3:
        for j in range(n):
            if rng.random() < 0.4 and d["joint_type"][j] == 0:
                d["joint_lower_limit"][j] *= rng.choice([1, 2, 3])
                d["joint_upper_limit"][j] *= rng.choice([1, 2])
    d["joint_vel_limit"] = d["joint_vel_limit"] or [rng.uniform(.5, 5) for _ in range(n)]
    d["joint_acc_limit"] = d["joint_acc_limit"] or [rng.uniform(1, 20) for _ in range(n)]
    if rng.random() < 0.4:
        t = gens.rnd_tf(rng, .2)
        d["R_tool"], d["p_tool"] = t["R"], t["p"]
    if rng.random() < 0.5 and solver != "URInvKin":
        d["T_base"] = gens.rnd_tf(rng, 1.5)
    if rng.random() < 0.3 and not solver[0] in "OU":
        d["T_flange"] = rng.choice([None, gens.rnd_tf(rng, .1)])
    if d["joint_names"] is None and rng.random() < 0.3:
        d["joint_names"] = ["j%d" % i for i in range(n)]
    return {"d": d, "solver": solver, "kind": k}


def change(rng, rb):
    """the caller edits its robot before it makes another wrapper of it"""
    d = rb["d"]
    t = gens.rnd_tf(rng, .2)
    c = rng.choice(["tool", "tool", "base", "limits"])
    if c == "tool":
        d["R_tool"], d["p_tool"] = t["R"], t["p"]
    elif c == "base" and rb["solver"] != "URInvKin":
        d["T_base"] = gens.rnd_tf(rng, 1.5)
    else:
        d["joint_lower_limit"] = [x * 1.1 for x in d["joint_lower_limit"]]


class Gen(object):
    """keeps track of what exists so that operations make sense"""

    def __init__(self, rng):
        self.rng = rng
        self.ops = []
        self.envs = {}
        self.slots = {}
        self.n = 0
        self.made = []

    def robot(self):
        self.n += 1
        return dict(gen_robot(self.rng), obj="o%d" % self.n)

    def world_links(self, w, names):
        out = []
        for n in names:
            out += links_of(n, w["robots"][n]["d"]) + [l for l, (o, _) in w["payloads"].items() if o == n]
        return out

    def q(self, d):
        return [round(x, 6) for x in gens.rnd_joints(self.rng, d, 0.05)]

    def query(self, s):
        rng = self.rng
        ek, n = self.slots[s]
        w = self.envs[ek]
        rb = w["robots"][n]
        d = rb["d"]
        q = self.q(d)
        kind = rng.choice(["fk", "fk", "jac", "jac", "ik", "ik", "red"])
        base = tip = None
        known = [m for m in w["robots"] if m == n or m in w["set"]]
        if kind in ("fk", "jac"):
            if rng.random() < 0.45:
                # tesseract has no Jacobian of links that do not move
                tip = rng.choice([l for l in links_of(n, d) + self.pay(w, n) if kind == "fk" or l not in w["fixed"] and
                                  l != n + "_base_link"])
            if rng.random() < 0.35:
                # a base that moves with the arm is only meaningful for forward kinematics
                c = ["world", n + "_base_link"] + self.world_links(w, [m for m in known if m != n])
                if kind == "fk":
                    c += links_of(n, d)
                base = rng.choice(c)
        elif kind == "ik":
            rigid = ends(n, rb) + self.pay(w, n, rigid=True)
            if rigid and rng.random() < 0.4:
                tip = rng.choice(rigid)
            if rng.random() < 0.3:
                base = rng.choice(["world", n + "_base_link"] + self.world_links(w, [m for m in known if m != n]))
        op = {"op": kind, "slot": s, "q": q, "base": base, "tip": tip}
        if kind == "ik":
            op["seed"] = rng.choice(["same", "near", "zero", "far"])
            op["far"] = self.q(d)
        if kind == "red":
            op["q"] = [round(x, 6) for x in gens.rnd_joints(rng, d, 0.05)]
        op["how"] = rng.choice(["kw", "pos"])
        op["keep"] = rng.random() < 0.3
        return op

    def pay(self, w, n, rigid=False):
        return [l for l, (o, r) in w["payloads"].items() if o == n and (r or not rigid)]

    def new_env(self, name, rb):
        self.n += 1
        k = "e%d" % self.n
        self.envs[k] = {"robots": {name: rb}, "set": set(), "payloads": {}, "fixed": set(), "order": [name]}
        return k

    def step(self):
        rng = self.rng
        c = rng.random()
        if not self.slots or c < 0.07:
            name = rng.choice(NAMES)
            rb = self.robot()
            if self.made and rng.random() < 0.35:       # once more of the same robot, perhaps under the same name
                name, rb = copy.deepcopy(rng.choice(self.made))
                if rng.random() < 0.6:
                    change(rng, rb)
                if rng.random() < 0.3:
                    name = rng.choice(NAMES)
            self.made.append((name, rb))
            ek = self.new_env(name, rb)
            s = "s%d" % rng.randrange(5)
            self.slots[s] = (ek, name)
            self.ops.append(["own", s, ek, name, rb, rng.choice(["kw", "pos"])])
            self.reap()
            return
        used = sorted({e for e, _ in self.slots.values()})
        ek = rng.choice(used)
        w = self.envs[ek]
        if c < 0.16:
            name = rng.choice([n for n in NAMES if n not in w["order"]] or [None])
            if name is None or len(w["robots"]) > 3:
                return
            rb = self.robot()
            if self.made and rng.random() < 0.2:
                rb = copy.deepcopy(rng.choice(self.made)[1])
            w["robots"][name] = rb
            w["order"].append(name)
            self.ops.append(["add", ek, name, rb])
        elif c < 0.19 and len(w["robots"]) > 1:
            # only a robot nobody holds a wrapper of, without payloads (tesseract crashes removing two of them from one link)
            held = {n for e, n in self.slots.values() if e == ek} | {o for o, _ in w["payloads"].values()}
            c = [n for n in w["robots"] if n not in held]
            if c:
                n = rng.choice(c)
                del w["robots"][n]
                w["set"].discard(n)
                w["payloads"] = {l: v for l, v in w["payloads"].items() if v[0] != n}
                self.ops.append(["remove", ek, n])
        elif c < 0.23:
            n = rng.choice(list(w["robots"]))
            self.ops.append(["refused", ek, n, w["robots"][n], rng.choice(["dup", "ghost"])])
        elif c < 0.34:
            qs = {n: self.q(w["robots"][n]["d"]) for n in w["robots"] if rng.random() < 0.7}
            w["set"] |= set(qs)
            self.ops.append(["state", ek, qs])
        elif c < 0.42:
            n = rng.choice(list(w["robots"]))
            d = w["robots"][n]["d"]
            par = rng.choice(links_of(n, d) + self.pay(w, n))
            l = "%s%d" % (rng.choice(["payload", "zz", "aa", n + "_x", "camera"]), self.n)
            self.n += 1
            rigid = par in ends(n, w["robots"][n]) or w["payloads"].get(par, (0, False))[1]
            w["payloads"][l] = (n, rigid)
            if par == n + "_base_link" or par in w["fixed"]:
                w["fixed"].add(l)
            self.ops.append(["payload", ek, n, l, par, gens.rnd_tf(rng, .3)])
        elif c < 0.47:
            c = [n for n in w["robots"] if w["robots"][n]["solver"] != "URInvKin"]
            if c:
                self.ops.append(["base", ek, rng.choice(c), gens.rnd_tf(rng, 1.5)])
        elif c < 0.56:
            n = rng.choice(list(w["robots"]))
            s = "s%d" % rng.randrange(5)
            self.slots[s] = (ek, n)
            self.ops.append(["attach", s, ek, n])
            self.reap()
        elif c < 0.60:
            s = rng.choice(sorted(self.slots))
            if len(self.slots) > 1:
                del self.slots[s]
                self.ops.append(["drop", s])
                self.reap()
        elif c < 0.67:
            how = rng.choice(["history", "history", "clone", "commands"])
            self.n += 1
            nk = "e%d" % self.n
            self.envs[nk] = copy.deepcopy(w)
            if how != "clone":
                self.envs[nk]["set"] = set()
            crash = rng.random() < 0.6
            self.ops.append(["rebuild", ek, nk, how, crash])
            if crash:
                for s in list(self.slots):
                    if self.slots[s][0] == ek:
                        self.slots[s] = (nk, self.slots[s][1])
                self.reap()
            else:
                s = "s%d" % rng.randrange(5)
                n = rng.choice(list(w["robots"]))
                self.slots[s] = (nk, n)
                self.ops.append(["attach", s, nk, n])
                self.reap()
        elif c < 0.70:
            self.ops.append(["gc"])
        elif c < 0.75:
            s = rng.choice(sorted(self.slots))
            ek, n = self.slots[s]
            self.ops.append(["cut", s, rng.choice(["own", "attach", "query"]), self.query(s), int(10 ** rng.uniform(0, 3.2)),
                             rng.choice(["interrupt", "memory"])])
        elif c < 0.80:
            ps = [[self.query(rng.choice(sorted(self.slots))) for _ in range(rng.randrange(1, 4))]
                  for _ in range(rng.choice([2, 2, 3]))]
            st = rng.random()
            plan = {"strategy": "gap", "gap": rng.choice([3, 10, 40, 150])} if st < .5 else \
                {"strategy": "store", "prob": rng.choice([.05, .3])} if st < .8 else {"strategy": "call", "prob": .2}
            plan["seed"] = rng.getrandbits(48)
            self.ops.append(["par", ps, plan])
        else:
            for _ in range(rng.randrange(1, 4)):
                self.ops.append(["query", self.query(rng.choice(sorted(self.slots)))])

    def reap(self):
        live = {e for e, _ in self.slots.values()}
        for k in [k for k in self.envs if k not in live]:
            del self.envs[k]


def gen(rng, i, tier):
    g = Gen(rng)
    n = rng.randrange(8, 30)
    while len(g.ops) < n:
        g.step()
    for s in sorted(g.slots):
        g.ops.append(["query", g.query(s)])
    return {"ops": g.ops}


# -- reference model ------------------------------------------------------------------------

def links_of(n, d):
    out = [n + "_base_link"] + ["%s_link_%d" % (n, i + 1) for i in range(len(d["joint_type"]))] + [n + "_chain_tip"]
    if d["T_flange"] is not None:
        out.append(n + "_flange")
    if d["R_tool"] is not None:
        out.append(n + "_tool_tcp")
    return out


def ends(n, rb):
    """links at or behind the link the solver reaches for"""
    ls = links_of(n, rb["d"])
    return ls[ls.index(n + "_flange"):] if rb["solver"][0] in "OU" else ls[-1:]


def H4(R, p):
    T = np.eye(4)
    T[:3, :3] = R
    T[:3, 3] = np.asarray(p, float).ravel()
    return T


class World(object):
    def __init__(self):
        self.robots = {}
        self.base = {}
        self.state = {}
        self.payloads = {}
        self.last = "new"

    def add(self, n, rb):
        self.robots[n] = rb
        t = rb["d"]["T_base"]
        self.base[n] = np.eye(4) if t is None else H4(t["R"], t["p"])

    def remove(self, n):
        for x in (self.robots, self.base, self.state):
            x.pop(n, None)
        self.payloads = {l: v for l, v in self.payloads.items() if v[0] != n}

    def copy(self):
        w = World()
        w.robots, w.base, w.state, w.payloads = dict(self.robots), dict(self.base), dict(self.state), dict(self.payloads)
        w.last = self.last
        return w

    def frames(self, n, q):
        """poses of all links of robot n, and the joint axes and origins in the world"""
        d = self.robots[n]["d"]
        T = self.base[n].copy()
        out = {n + "_base_link": T}
        H, P = np.asarray(d["H"], float), np.asarray(d["P"], float)
        ax, org = [], []
        for i, t in enumerate(d["joint_type"]):
            D = np.eye(4)
            D[:3, 3] = P[:, i]
            T = T.dot(D)
            ax.append(T[:3, :3].dot(H[:, i]))
            org.append(T[:3, 3].copy())
            J = np.eye(4)
            if t == 0:
                J[:3, :3] = models.rodrigues(H[:, i], q[i])
            else:
                J[:3, 3] = H[:, i] * q[i]
            T = T.dot(J)
            out["%s_link_%d" % (n, i + 1)] = T
        D = np.eye(4)
        D[:3, 3] = P[:, -1]
        T = T.dot(D)
        out[n + "_chain_tip"] = T
        if d["T_flange"] is not None:
            T = T.dot(H4(d["T_flange"]["R"], d["T_flange"]["p"]))
            out[n + "_flange"] = T
        if d["R_tool"] is not None:
            T = T.dot(H4(d["R_tool"], d["p_tool"]))
            out[n + "_tool_tcp"] = T
        for l, (o, par, X) in self.payloads.items():     # in order of creation: parents first
            if o == n:
                out[l] = out[par].dot(X)
        return out, ax, org

    def pose(self, link, n, q):
        if link is None or link == "world":
            return np.eye(4)
        f = self.frames(n, q)[0]
        if link in f:
            return f[link]
        for m in self.robots:
            if m != n and m in self.state:
                f = self.frames(m, self.state[m])[0]
                if link in f:
                    return f[link]
        raise KeyError(link)

    def tip(self, n):
        return links_of(n, self.robots[n]["d"])[-1]

    def jac(self, n, q, base, link):
        f, ax, org = self.frames(n, q)
        d = self.robots[n]["d"]
        T = f[link]
        # joints between the base and the link
        k = len(ax)
        x = link
        while x in self.payloads:
            x = self.payloads[x][1]
        if x.startswith(n + "_link_") and x[len(n) + 6:].isdigit():
            k = int(x[len(n) + 6:])
        elif x == n + "_base_link":
            k = 0
        J = np.zeros((6, len(ax)))
        for i in range(k):
            if d["joint_type"][i] == 0:
                J[:3, i] = ax[i]
                J[3:, i] = np.cross(ax[i], T[:3, 3] - org[i])
            else:
                J[3:, i] = ax[i]
        Rb = self.pose(base, n, q)[:3, :3]
        return np.vstack((Rb.T.dot(J[:3]), Rb.T.dot(J[3:])))


# -- execution --------------------------------------------------------------------------------

class Run(object):
    def __init__(self, lb, case, r):
        self.lb, self.r = lb, r
        self.t = lb.tesseract
        self.envs = {}          # key -> [environment, World]
        self.slots = {}         # slot -> [wrapper, env key, robot name]
        self.kept = []
        self.objs = {}
        self.judged = 0

    def mk(self, rb):
        """the caller's robot object, brought up to date"""
        new = gens.mk_robot(self.lb.rox, rb["d"])
        if "obj" not in rb:
            return new
        o = self.objs.get(rb["obj"])
        if o is None:
            o = self.objs[rb["obj"]] = new
        else:
            self.r.count("robot objects used again")
            for k, v in vars(new).items():
                c = getattr(o, k, None)
                if isinstance(v, np.ndarray) and isinstance(c, np.ndarray) and c.shape == v.shape and c.flags.writeable:
                    c[...] = v
                else:
                    setattr(o, k, v)
        return o

    def wrap(self, f, what):
        try:
            return f()
        except Exception as e:
            raise Violation("exception", "%s raised %r" % (what, e))

    def own(self, op):
        _, s, ek, name, rb, how = op
        f = (lambda: self.t.TesseractRobot(self.mk(rb), name, rb["solver"])) if how == "pos" else \
            (lambda: self.t.TesseractRobot(robot=self.mk(rb), robot_name=name, invkin_solver=rb["solver"]))
        w = self.wrap(f, "TesseractRobot(%s, %r, %s)" % (rb["kind"], name, rb["solver"]))
        world = World()
        world.add(name, rb)
        self.envs[ek] = [w.tesseract_env, world]
        self.slots[s] = [w, ek, name]

    def attach(self, op):
        _, s, ek, name = op
        env, world = self.envs[ek]
        w = self.wrap(lambda: self.t.TesseractRobot(None, name, tesseract_env=env), "TesseractRobot(tesseract_env=..., %r)" % name)
        self.slots[s] = [w, ek, name]

    def do(self, op):
        k = op[0]
        te = self.te
        if k == "own":
            self.own(op)
        elif k == "attach":
            self.attach(op)
        elif k == "drop":
            self.slots.pop(op[1], None)
        elif k == "gc":
            gc.collect()
            self.r.count("fault:collection")
        elif k == "add":
            _, ek, name, rb = op
            env, world = self.envs[ek]
            cmds = self.wrap(lambda: self.t.robot_to_tesseract_env_commands(self.mk(rb), name, False, invkin_solver=rb["solver"]),
                             "robot_to_tesseract_env_commands(%r)" % name)
            if not env.applyCommands(cmds):
                raise Violation("refused", "the commands that add robot %r next to %s were refused" % (name, sorted(world.robots)))
            world.add(name, rb)
            world.last = "add"
            self.r.count("fault:robot added")
        elif k == "remove":
            _, ek, name = op
            env, world = self.envs[ek]
            assert env.applyCommand(te.RemoveLinkCommand(name + "_base_link"))
            world.remove(name)
            world.last = "remove"
            self.r.count("fault:robot removed")
        elif k == "refused":
            _, ek, name, rb, how = op
            env, world = self.envs[ek]
            if how == "dup":
                cmds = self.t.robot_to_tesseract_env_commands(self.mk(rb), name, False, invkin_solver=rb["solver"])
                ok = env.applyCommands(cmds)
            else:
                ok = env.applyCommand(te.RemoveLinkCommand("no_such_link"))
            if ok:
                raise Violation("not-refused", "command %s about %r was accepted" % (how, name))
            world.last = "refused"
            self.r.count("fault:command refused")
        elif k == "state":
            _, ek, qs = op
            env, world = self.envs[ek]
            names, vals = [], []
            for n in sorted(qs):
                if n not in world.robots:
                    continue
                d = world.robots[n]["d"]
                jn = d["joint_names"] or ["joint_%d" % (i + 1) for i in range(len(d["joint_type"]))]
                names += ["%s_%s" % (n, x) for x in jn]
                vals += qs[n]
                world.state[n] = qs[n]
            if names:
                env.setState(names, np.array(vals, float))
                world.last = "state"
                self.r.count("fault:joints moved")
        elif k == "payload":
            _, ek, n, l, par, X = op
            env, world = self.envs[ek]
            link, joint = self.t.get_fixed_link_and_joint(self.lb.rox.Transform(np.array(X["R"]), np.array(X["p"])), l, l + "_joint", par)
            assert env.applyCommand(te.AddLinkCommand(link, joint))
            world.payloads[l] = (n, par, H4(X["R"], X["p"]))
            world.last = "payload"
            self.r.count("fault:payload attached")
        elif k == "base":
            _, ek, n, X = op
            env, world = self.envs[ek]
            iso = self.t.transform_to_isometry3d(self.lb.rox.Transform(np.array(X["R"]), np.array(X["p"])))
            assert env.applyCommand(te.ChangeJointOriginCommand("world_to_" + n, iso))
            world.base[n] = H4(X["R"], X["p"])
            world.last = "base"
            self.r.count("fault:robot moved")
        elif k == "rebuild":
            self.rebuild(op)
        elif k == "cut":
            self.cut(op)
        elif k == "par":
            self.par(op)
        elif k == "query":
            q = op[1]
            self.judge(q, self.wrap(lambda: self.ask(q), "%s of %s (base %s, link %s; last disturbance %s)" % (
                q["op"], q["slot"], q["base"], q["tip"], self.envs[self.slots[q["slot"]][1]][1].last)
                if q["slot"] in self.slots else ""), "")

    def rebuild(self, op):
        _, ek, nk, how, crash = op
        env, world = self.envs[ek]
        te = self.te
        w2 = world.copy()
        if how == "clone":
            e2 = env.clone()
        elif how == "history":
            e2 = te.Environment()
            assert e2.init(env.getCommandHistory())
            w2.state = {}
        else:
            # every robot's commands again, from its description
            e2 = None
            w2.state = {}
            for n in list(world.robots):
                rb = world.robots[n]
                if e2 is None:
                    e2 = self.wrap(lambda: self.t.robot_to_tesseract_env(self.mk(rb), n, invkin_solver=rb["solver"]),
                                   "robot_to_tesseract_env(%r)" % n)
                else:
                    c = self.wrap(lambda: self.t.robot_to_tesseract_env_commands(self.mk(rb), n, False, False, rb["solver"]),
                                  "robot_to_tesseract_env_commands(%r)" % n)
                    if not e2.applyCommands(c):
                        raise Violation("refused", "the commands that add robot %r were refused" % n)
                if not np.array_equal(world.base[n], World_base(rb)):
                    assert e2.applyCommand(te.ChangeJointOriginCommand("world_to_" + n, self.t.transform_to_isometry3d(
                        self.lb.rox.Transform(world.base[n][:3, :3], world.base[n][:3, 3]))))
            for l, (n, par, X) in world.payloads.items():
                link, joint = self.t.get_fixed_link_and_joint(self.lb.rox.Transform(X[:3, :3], X[:3, 3]), l, l + "_joint", par)
                assert e2.applyCommand(te.AddLinkCommand(link, joint))
        w2.last = "rebuild-" + how
        self.envs[nk] = [e2, w2]
        self.r.count("fault:rebuilt from " + how)
        if crash:
            # the process died: its environment and wrappers are gone
            for s in sorted(self.slots):
                if self.slots[s][1] == ek:
                    self.attach(["attach", s, nk, self.slots[s][2]])
            self.envs.pop(ek)
            del env
            self.r.count("fault:crash")

    def cut(self, op):
        _, s, what, q, step, exc = op
        if s not in self.slots:
            return
        w, ek, name = self.slots[s]
        env, world = self.envs[ek]
        rb = world.robots[name]
        so = Solo(step_cap=3000000, inject=[step, SimInterrupt if exc == "interrupt" else (lambda: MemoryError("simulated"))])
        if what == "own":
            robot = self.mk(rb)
            f = lambda: self.t.TesseractRobot(robot, name, rb["solver"])
        elif what == "attach":
            f = lambda: self.t.TesseractRobot(None, name, tesseract_env=env)
        else:
            f = lambda: self.ask(q)
        try:
            so.run(f)
        except SimHang:
            raise Violation("hang", "%s does not end" % what)
        except BaseException as e:
            if not so.fired:
                raise Violation("exception", "%s raised %r" % (what, e))
            e.__traceback__ = None
        if so.fired:
            self.r.count("fault:interrupted")
            world.last = "cut-" + what

    def par(self, op):
        progs = [[q for q in p if q["slot"] in self.slots] for p in op[1]]
        progs = [p for p in progs if p]
        if not progs:
            return
        res = [[] for _ in progs]

        def body(i):
            def f():
                for q in progs[i]:
                    try:
                        res[i].append((q, self.ask(q), None))
                    except Exception as e:
                        res[i].append((q, None, e))
            return f
        s = Sched(op[2], step_cap=3000000)
        s.run([body(i) for i in range(len(progs))])
        self.r.count("fault:preemption", s.nswitch)
        self.r.explicit = self.r.explicit or {}
        self.r.ev("par", s.nswitch, s.trace_hash)
        if s.abort in ("hang", "deadlock"):
            raise Violation(s.abort, "concurrent queries do not end")
        if s.nswitch:
            for e in self.envs.values():
                e[1].last = "threads"
        for p in res:
            for q, out, e in p:
                if e is not None:
                    raise Violation("exception", "concurrent %s raised %r" % (q["op"], e))
                self.judge(q, out, "concurrent ")

    # -- queries --
    def ask(self, q):
        if q["slot"] not in self.slots:
            return None
        w, ek, name = self.slots[q["slot"]]
        env, world = self.envs[ek]
        if name not in world.robots:
            return None
        d = world.robots[name]["d"]
        th = np.array(q["q"], float)
        b, t = q["base"], q["tip"]
        for x in (b, t):
            if x is not None and not self.knows(world, x, name):
                return None
        if q["op"] == "fk":
            a = (th, b, t) if q["how"] == "pos" else (th,)
            k = {} if q["how"] == "pos" else {n: v for n, v in (("base_link_name", b), ("tip_link_name", t)) if v is not None}
            return ("fk", w.fwdkin(*a, **k))
        if q["op"] == "jac":
            a = (th, b, t) if q["how"] == "pos" else (th,)
            k = {} if q["how"] == "pos" else {n: v for n, v in (("base_link_name", b), ("link_name", t)) if v is not None}
            return ("jac", w.jacobian(*a, **k))
        if q["op"] == "red":
            return ("red", w.redundant_solutions(th))
        T = np.linalg.inv(world.pose(b, name, q["q"])).dot(world.pose(t or world.tip(name), name, q["q"]))
        lo, up = servo.limits(d)
        seed = {"same": th, "near": np.clip(th + 0.02, lo, up), "zero": np.zeros(len(th)), "far": np.array(q["far"], float)}[q["seed"]]
        a = (seed, b, t) if q["how"] == "pos" else (seed,)
        k = {} if q["how"] == "pos" else {n: v for n, v in (("base_link_name", b), ("tip_link_name", t)) if v is not None}
        return ("ik", w.invkin(self.lb.rox.Transform(T[:3, :3], T[:3, 3]), *a, **k), T)

    @staticmethod
    def knows(world, l, n):
        try:
            world.pose(l, n, [0.] * len(world.robots[n]["d"]["joint_type"]))
            return True
        except KeyError:
            return False

    def judge(self, q, out, pre):
        if out is None:
            return
        r = self.r
        w, ek, name = self.slots[q["slot"]]
        env, world = self.envs[ek]
        rb = world.robots[name]
        d = rb["d"]
        what = "%s%s of %r (%s, %s; base %s, link %s; last disturbance %s)" % (
            pre, q["op"], name, rb["kind"], rb["solver"], q["base"], q["tip"], world.last)
        sc = max(servo.scale(d), float(np.linalg.norm(world.base[name][:3, 3])), 1.0)
        if world.last != "new":
            self.judged += 1
        r.keys.add("%s/%s/%s/%d%d/%s" % (q["op"], rb["solver"], rb["kind"], q["base"] is not None, q["tip"] is not None, world.last))
        tip = q["tip"] or world.tip(name)
        if out[0] == "fk":
            T = out[1]
            X = np.linalg.inv(world.pose(q["base"], name, q["q"])).dot(world.pose(tip, name, q["q"]))
            R, p = np.asarray(T.R, float), np.asarray(T.p, float).ravel()
            if not (np.abs(R - X[:3, :3]).max() < 1e-9 and np.abs(p - X[:3, 3]).max() < 1e-9 * sc * 3):
                raise Violation("fk-differs", "%s: p=%s instead of %s, rotation off by %.3g" % (
                    what, p.tolist(), X[:3, 3].tolist(), np.abs(R - X[:3, :3]).max()))
            r.ev("fk", np.round(p, 7).tolist())
            if q["keep"]:
                self.kept.append((T, R.copy(), p.copy(), what))
        elif out[0] == "jac":
            J = np.asarray(out[1], float)
            X = world.jac(name, q["q"], q["base"] or "world", tip)
            if J.shape != X.shape or not np.abs(J - X).max() < 1e-8 * sc * 3:
                raise Violation("jacobian-differs", "%s at %s: off by %s" % (
                    what, q["q"], "shape %s" % (J.shape,) if J.shape != X.shape else "%.3g" % np.abs(J - X).max()))
            r.ev("jac", np.round(J, 6).tolist())
            if q["keep"]:
                self.kept.append((out[1], J.copy(), None, what))
        elif out[0] == "red":
            lo, up = np.array(d["joint_lower_limit"]), np.array(d["joint_upper_limit"])
            rg, edge = [], []
            for j, t in enumerate(d["joint_type"]):
                c = [q["q"][j] + 2 * math.pi * k for k in range(-16, 17)] if t == 0 else [q["q"][j]]
                rg.append([x for x in c if lo[j] - 1e-5 <= x <= up[j] + 1e-5])
                edge.append([x for x in c if abs(x - lo[j]) < 2e-5 or abs(x - up[j]) < 2e-5])
            want = {tuple(np.round(x, 5)) for x in itertools.product(*rg) if np.abs(np.array(x) - q["q"]).max() > 1e-6}
            got = [tuple(np.round(np.asarray(x, float), 5)) for x in out[1]]
            if any(edge):
                return
            if len(set(got)) != len(got) or not near_sets(set(got), want):
                raise Violation("redundant-differs", "%s at %s: %d solutions, %d expected" % (what, q["q"], len(got), len(want)))
            r.ev("red", len(got))
        else:
            _, sols, X = out
            tol = IKTOL[rb["solver"]]
            lo, up = np.array(d["joint_lower_limit"]), np.array(d["joint_upper_limit"])
            if not isinstance(sols, list):
                raise Violation("not-a-list", "%s returned %r" % (what, type(sols)))
            Tb = np.linalg.inv(world.pose(q["base"], name, q["q"]))
            best = 99.
            for x in sols:
                x = np.asarray(x, float)
                if x.shape != (len(lo),) or not np.all(np.isfinite(x)):
                    raise Violation("not-finite", "%s: solution %s" % (what, x))
                if np.any(x < lo - 1e-5) or np.any(x > up + 1e-5):
                    raise Violation("outside-limits", "%s: solution %s" % (what, x.tolist()))
                Y = Tb.dot(world.pose(tip, name, x))
                e = max(np.abs(Y[:3, :3] - X[:3, :3]).max(), np.abs(Y[:3, 3] - X[:3, 3]).max() / sc)
                # the UR solver takes configurations close to the wrist singularity for singular ones
                if not e < (2e-3 if rb["solver"] == "URInvKin" and abs(math.sin(x[4])) < 2e-3 else tol):
                    raise Violation("does-not-reproduce", "%s: solution %s is off by %.3g" % (what, np.round(x, 6).tolist(), e))
                dq = x - q["q"]
                dq = np.where(np.array(d["joint_type"]) == 0, np.remainder(dq + math.pi, 2 * math.pi) - math.pi, dq)
                best = min(best, float(np.abs(dq).max()))
            if q["seed"] == "same" and not sols and rb["solver"][0] == "K":
                raise Violation("not-solved", "%s: no solution when started at the solution %s" % (what, q["q"]))
            if rb["solver"][0] in "OU":
                x = np.array(q["q"])
                if servo.sigma_min(d, x) > 0.02 and np.all(x > lo + .02) and np.all(x < up - .02) and best > 1e-3:
                    raise Violation("configuration-missing", "%s: %s is not among the %d solutions (nearest differs by %.3g)" % (
                        what, q["q"], len(sols), best))
            r.ev("ik", len(sols), rb["solver"][0] in "OU" and [np.round(x, 5).tolist() for x in sols])

    def check_kept(self):
        for o, a, b, what in self.kept:
            if b is None:
                ok = np.array_equal(np.asarray(o), a)
            else:
                ok = np.array_equal(np.asarray(o.R), a) and np.array_equal(np.asarray(o.p).ravel(), b)
            if not ok:
                raise Violation("answer-changed", "%s: the answer changed after it was returned" % what)


def World_base(rb):
    t = rb["d"]["T_base"]
    return np.eye(4) if t is None else H4(t["R"], t["p"])


def near_sets(a, b):
    if len(a) != len(b):
        return False
    x, y = sorted(a), sorted(b)
    if x == y:
        return True
    y = list(y)
    for u in x:
        for k, v in enumerate(y):
            if max(abs(p - q) for p, q in zip(u, v)) < 1e-4:
                y.pop(k)
                break
        else:
            return False
    return True


def run(case, r):
    threads = any(o[0] in ("par", "cut") for o in case["ops"])
    lb = _lib.fresh("instr" if threads else "plain")
    with _lib.Active(lb):
        lb.sub("tesseract")
        x = Run(lb, case, r)
        import tesseract_robotics.tesseract_environment as te
        x.te = te
        for op in case["ops"]:
            # operations whose environment is gone (shrunk histories)
            ek = {"own": None, "attach": 2, "add": 1, "remove": 1, "refused": 1, "state": 1, "payload": 1, "base": 1,
                  "rebuild": 1}.get(op[0])
            if ek is not None and op[ek] not in x.envs:
                continue
            if op[0] in ("remove", "refused", "base", "payload") and op[2] not in x.envs[op[1]][1].robots:
                continue
            if op[0] == "attach" and op[3] not in x.envs[op[2]][1].robots:
                continue
            if op[0] == "add" and op[2] in x.envs[op[1]][1].robots:
                continue
            if op[0] == "remove" and any(v[0] == op[2] for v in x.envs[op[1]][1].payloads.values()):
                continue
            if op[0] == "payload" and not Run.knows(x.envs[op[1]][1], op[4], op[2]):
                continue
            r.ev(op[0])
            x.do(op)
        x.check_kept()
        r.nontrivial = x.judged >= 4


def describe(case, run):
    return {"ops": [o[0] if o[0] != "query" else o[1]["op"] for o in case["ops"]]}
