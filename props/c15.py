"""C15: optional dependencies that are missing or fail disable only themselves."""
import builtins
import copy
import importlib
import importlib.abc
import importlib.machinery
import os
import sys
import types

import numpy as np

from sim import docs, gens, lib as _lib, loads, models, rosstub
from sim.engine import Violation

ID = "C15"
RUNS = {"quick": 6000, "thorough": 200000}
RULE = ("One run: 8-30 operations in 1-4 consecutive simulated processes. Every optional package (and numpy, during imports) is "
        "at each time present, missing, broken (raising when it is found or executed), incomplete, or failing a number of "
        "times before it works, and changes state at any operation; a fault may also hit any single import statement of the "
        "library. Operations import, reload and use the core and the five optional modules, in every order. Non-trivial: an "
        "import failed or a use was refused, and the same succeeded later in the same process.")
MEASURE = "distinct (operation, states of the packages it needs, outcome) combinations"
REAL = ["general_robotics_toolbox (all modules)", "Python import system", "urdf_parser_py", "xacro", "rospkg", "PyYAML", "tesseract_robotics"]
STUBS = ["installation state of every third party package", "tf, rospy, tf2_ros, geometry_msgs", "ROS parameter server"]
ASSUMPTIONS = ["a package that was imported once stays imported in its process",
               "a package that appears after a module was imported may or may not be used before the process restarts or the "
               "module is reloaded", "failures of packages are Exceptions, not interrupts"]
PKG = _lib.PKG
# what has to be there for a package to count as there: name -> modules
NEEDS = {"yaml": ["yaml"], "urdf_parser_py": ["urdf_parser_py", "urdf_parser_py.urdf"], "xacro": ["xacro"], "rospkg": ["rospkg"],
         "tesseract_robotics": ["tesseract_robotics"] + ["tesseract_robotics.tesseract_" + s for s in (
             "common", "environment", "scene_graph", "kinematics", "srdf")],
         "tf": ["tf"], "rospy": ["rospy"], "tf2_ros": ["tf2_ros"], "geometry_msgs": ["geometry_msgs", "geometry_msgs.msg"]}
OPT = sorted(NEEDS)
REQ = {"": [], "urdf": ["urdf_parser_py"], "robotraconteur": ["yaml"], "tesseract": ["tesseract_robotics", "yaml"],
       "ros_msg": ["geometry_msgs"], "ros_tf": ["tf", "rospy", "tf2_ros"]}
LACK = {"yaml": ("yaml", "safe_load"), "urdf_parser_py": ("urdf_parser_py.urdf", "URDF"), "xacro": ("xacro", "process_file"),
        "rospkg": ("rospkg", "RosPack"), "tesseract_robotics": ("tesseract_robotics.tesseract_environment", "Environment"),
        "tf": ("tf", "TransformListener"), "rospy": ("rospy", "Time"), "tf2_ros": ("tf2_ros", "ExtrapolationException"),
        "geometry_msgs": ("geometry_msgs.msg", "PoseStamped")}
EXC = {"ModuleNotFoundError": lambda n: ModuleNotFoundError("No module named %r" % n, name=n),
       "otherMissing": lambda n: ModuleNotFoundError("No module named 'lxml'", name="lxml"),
       "ImportError": lambda n: ImportError("cannot import name 'x' from %r" % n, name=n),
       "OSError": lambda n: OSError(5, "Input/output error"), "RuntimeError": lambda n: RuntimeError("incompatible version"),
       "SyntaxError": lambda n: SyntaxError("invalid syntax"), "AttributeError": lambda n: AttributeError("np.float"),
       "ValueError": lambda n: ValueError("binary incompatibility"), "MemoryError": lambda n: MemoryError("simulated"),
       "KeyError": lambda n: KeyError("ROS_DISTRO"), "TypeError": lambda n: TypeError("simulated")}
# use -> module, packages it needs
USES = {"fk": ("", []), "ik": ("", []), "star": ("", []), "string": ("urdf", ["urdf_parser_py"]),
        "file": ("urdf", ["urdf_parser_py"]), "pkgfile": ("urdf", ["urdf_parser_py", "rospkg"]),
        "xacro": ("urdf", ["urdf_parser_py", "xacro"]), "pkgxacro": ("urdf", ["urdf_parser_py", "xacro", "rospkg"]),
        "param": ("urdf", ["urdf_parser_py", "rospy"]), "dict": ("robotraconteur", []), "text": ("robotraconteur", ["yaml"]),
        "stream": ("robotraconteur", ["yaml"]), "tess": ("tesseract", ["tesseract_robotics", "yaml"]),
        "msg": ("ros_msg", ["geometry_msgs"]), "tf": ("ros_tf", ["tf", "rospy", "tf2_ros"])}
# packages without which the use is impossible
SINE = dict({u: v[1] for u, v in USES.items()}, tess=["tesseract_robotics"], tf=["tf"])
FORMS = ["import", "from", "name", "importlib"]
NAMES = {"": "fwdkin", "urdf": "robot_from_xml_string", "robotraconteur": "load_robot_info_yaml_to_robot",
         "tesseract": "TesseractRobot", "ros_msg": "msg2q", "ros_tf": "TransformListener"}
SHRINK = [["ops"]]
ENV = {}


def setup():
    loads.setup()
    ENV["saved"] = {}
    import yaml, urdf_parser_py.urdf, xacro, xacro.substitution_args, rospkg  # noqa
    for s in NEEDS["tesseract_robotics"]:
        importlib.import_module(s)
    stub = rosstub.modules()
    for n in list(sys.modules):
        if n.partition(".")[0] in NEEDS:
            ENV["saved"][n] = stub.get(n) or sys.modules[n]
    d = loads.SCRATCH[0]
    import random
    rng = random.Random(15)
    ENV["doc"] = {}
    disk = os.path.join(d, "disk")
    for p in ("pkg1", "pkg2"):
        os.makedirs(os.path.join(disk, p, "u"), exist_ok=True)
        with open(os.path.join(disk, p, "package.xml"), "w") as f:
            f.write("<package><name>%s</name></package>" % p)
    os.makedirs(os.path.join(d, "cwd", "u"), exist_ok=True)
    for w in ("cwd", "disk/pkg1", "disk/pkg2"):
        for k in range(3):
            while True:
                sp = docs.gen_urdf(rng)
                try:
                    models.urdf_robot(docs.urdf_text(sp), sp["root"], sp["tip"])
                except Exception:
                    continue
                if sp["eol"] == "\n" and not sp["decl"] and not sp["pad"]:
                    break
            ENV["doc"][w, k] = sp
            with open(os.path.join(d, w, "u", "r%d.urdf" % k), "w") as f:
                f.write(docs.urdf_text(sp))
            a, b = docs.xacro_texts(sp, "r%d_part.xacro" % k)
            for n, t in (("r%d.xacro" % k, a), ("r%d_part.xacro" % k, b)):
                with open(os.path.join(d, w, "u", n), "w") as f:
                    f.write(t)
    ENV["rr"] = [docs.gen_rr(rng) for _ in range(4)]
    ENV["rrtext"] = [docs.rr_text(x) for x in ENV["rr"]]
    ENV["third"] = set(n.partition(".")[0] for n in sys.modules) - set(sys.stdlib_module_names) - set(NEEDS) - \
        {"sim", "props", "check", "tools", "numpy", "__main__", "__mp_main__", PKG}
    ENV["model"] = {k: models.urdf_robot(docs.urdf_text(sp), sp["root"], sp["tip"]) for k, sp in ENV["doc"].items()}


teardown = loads.teardown


# -- the installation ---------------------------------------------------------------------------

class _Serve(importlib.abc.Loader):
    def __init__(self, inst, name, mod=None, exc=None):
        self.inst, self.name, self.mod, self.exc = inst, name, mod, exc

    def create_module(self, spec):
        if self.mod is None:
            return None
        self.spec = self.mod.__dict__.get("__spec__")
        return self.mod

    def exec_module(self, module):
        if self.exc is not None:
            raise self.exc(self.name)
        module.__spec__ = self.spec


class Installation(importlib.abc.MetaPathFinder):
    """what import finds: the state of every third party package, and the modules loaded in the simulated process"""

    def __init__(self, r):
        self.r = r
        self.state = {p: {"s": "present"} for p in OPT}
        self.cache = {}          # modules of this process
        self.bad = set()         # cached modules that are incomplete
        self.failed = set()      # packages for which this operation met a failure
        self.active = False
        self.importing = False

    def find_spec(self, name, path=None, target=None):
        top = name.partition(".")[0]
        if top == PKG or not self.active:
            return None
        if top == "numpy" or top in NEEDS:
            st = self.state.get(top) or {"s": "present"}
            sub = "." in name
            if st["s"] in ("missing", "broken") and not sub or st["s"] == "nosub" and name == st["name"]:
                if st.get("left") is not None:
                    st["left"] -= 1
                    if st["left"] <= 0:
                        self.state[top] = {"s": "present"}
                self.failed.add(top)
                self.r.count("fault:%s %s" % (st["s"], st["exc"] if st["s"] == "broken" else "") if st.get("left") is None
                             else "fault:transient")
                self.r.ev("import of %s fails: %s" % (name, st))
                e = EXC[st.get("exc", "ModuleNotFoundError")]
                if st.get("at") == "exec":
                    return importlib.machinery.ModuleSpec(name, _Serve(self, name, exc=e))
                raise e(name)
            if top == "numpy":
                return importlib.machinery.ModuleSpec(name, _Serve(self, name, ENV["numpy"][name])) \
                    if name in ENV["numpy"] else None
            m = ENV["saved"].get(name)
            if m is None:
                raise ModuleNotFoundError("No module named %r" % name, name=name)
            if st["s"] == "lacks" and name == st["name"]:
                x = types.ModuleType(name)
                x.__dict__.update({k: v for k, v in m.__dict__.items() if k != st["attr"] and not k.startswith("__")})
                if hasattr(m, "__path__"):
                    x.__path__ = m.__path__
                self.failed.add(top)
                self.bad.add(name)
                self.r.count("fault:incomplete")
                return importlib.machinery.ModuleSpec(name, _Serve(self, name, x), is_package=hasattr(m, "__path__"))
            for k in NEEDS[top]:
                if k.startswith(name + ".") and isinstance(m.__dict__.get(k[len(name) + 1:]), types.ModuleType):
                    del m.__dict__[k[len(name) + 1:]]        # bound again when the submodule is imported
            return importlib.machinery.ModuleSpec(name, _Serve(self, name, m), is_package=hasattr(m, "__path__"))
        if not self.importing or top in sys.stdlib_module_names or top in ("sim", "props"):
            return None
        # anything else is not declared anywhere
        self.r.count("fault:undeclared package missing")
        raise ModuleNotFoundError("No module named %r" % name, name=name)

    def process(self):
        self.cache = {}
        self.bad = set()

    def __enter__(self):
        self.failed = set(p for p in OPT if any(m in self.bad for m in NEEDS[p]))
        self.hidden = {}
        for n in list(sys.modules):
            top = n.partition(".")[0]
            if top in NEEDS or self.importing and top in ENV["third"]:
                self.hidden[n] = sys.modules.pop(n)
        sys.modules.update(self.cache)
        sys.meta_path.insert(0, self)
        self.active = True
        return self

    def __exit__(self, *a):
        self.active = False
        sys.meta_path.remove(self)
        self.cache = {}
        for n in list(sys.modules):
            if n.partition(".")[0] in NEEDS:
                self.cache[n] = sys.modules.pop(n)
        sys.modules.update(self.hidden)
        self.failed |= set(p for p in OPT if any(m in self.bad for m in NEEDS[p]))


class Importing(object):
    """an import or reload operation: numpy too may fail, and one import statement of the library is hit by a fault"""

    def __init__(self, inst, numpy, stmt, r):
        self.inst, self.np, self.stmt, self.r = inst, numpy, stmt, r
        self.n = 0
        self.hit = None

    def __enter__(self):
        self.inst.importing = True
        self.inst.__enter__()
        ENV["numpy"] = {}
        if self.np:
            self.inst.state["numpy"] = copy.deepcopy(self.np)
            ENV["numpy"]["numpy"] = sys.modules.pop("numpy")
        self.real = builtins.__import__
        if self.stmt:
            builtins.__import__ = self.imp
        return self

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if globals is not None and str(globals.get("__name__", "")).partition(".")[0] == PKG:
            self.n += 1
            if self.n == self.stmt[0]:
                top = name.partition(".")[0]
                self.hit = top if not level and top in NEEDS else "self"
                self.inst.failed.add(self.hit)
                self.r.count("fault:import statement %s" % self.stmt[1])
                self.r.ev("import statement %d (%s) fails with %s" % (self.n, name, self.stmt[1]))
                raise EXC[self.stmt[1]](name)
        return self.real(name, globals, locals, fromlist, level)

    def __exit__(self, *a):
        builtins.__import__ = self.real
        if self.np:
            sys.modules["numpy"] = ENV["numpy"]["numpy"]
            self.inst.state.pop("numpy", None)
        self.inst.__exit__()
        self.inst.importing = False


# -- generation ------------------------------------------------------------------------------------

def gen_state(rng, p):
    c = rng.random()
    if c < 0.3:
        s = {"s": "missing"}
    elif c < 0.75:
        s = {"s": "broken", "exc": rng.choice(sorted(EXC)), "at": rng.choice(["find", "exec"])}
    elif c < 0.87:
        return {"s": "lacks", "name": LACK[p][0], "attr": LACK[p][1]}
    else:
        subs = [m for m in NEEDS[p] if "." in m]
        if not subs:
            return {"s": "missing"}
        s = {"s": "nosub", "name": rng.choice(subs)}
    if rng.random() < 0.3:
        s["left"] = rng.choice([1, 1, 2, 3])
    return s


def gen(rng, i, tier):
    ops = []
    mods = [m for m in REQ]
    focus = rng.choice([None, None, "urdf", "urdf", "robotraconteur", "tesseract", "ros_msg", "ros_tf"])
    pbad = rng.choice([0.15, 0.5, 0.8])

    def env():
        for p in OPT:
            if rng.random() < pbad:
                ops.append(["state", p, gen_state(rng, p)])

    def rel():
        if focus is None or rng.random() < 0.35:
            return rng.choice(mods)
        return focus

    def imp(reload=False):
        m = rel()
        o = {"m": m, "form": "reload" if reload else rng.choice(FORMS), "numpy": None, "stmt": None}
        if rng.random() < 0.05:
            o["numpy"] = {"s": "broken", "exc": rng.choice(sorted(EXC)), "at": rng.choice(["find", "exec"])}
        if rng.random() < 0.15:
            o["stmt"] = [rng.randrange(1, 10), rng.choice(["ImportError", "OSError", "MemoryError"])]
        return ["import", o]
    env()
    for _ in range(rng.randrange(8, 31)):
        c = rng.random()
        if c < 0.05:
            ops.append(["process"])
            if rng.random() < 0.5:
                env()
        elif c < 0.22:
            p = rng.choice(OPT)
            if focus and rng.random() < 0.7:
                p = rng.choice((REQ[focus] + ["rospkg", "xacro"]) if focus == "urdf" else REQ[focus])
            ops.append(["state", p, {"s": "present"} if rng.random() < 0.6 else gen_state(rng, p)])
        elif c < 0.55:
            ops.append(imp(rng.random() < 0.12))
        else:
            m = rel()
            u = rng.choice([u for u in sorted(USES) if USES[u][0] == m])
            if u == "tess" and rng.random() < 0.5:
                u = "fk"
            ops.append(["use", u, rng.randrange(1000)])
    return {"ops": ops}


# -- the run ---------------------------------------------------------------------------------------------

class Proc(object):
    def __init__(self):
        self.lib = _lib.Lib.__new__(_lib.Lib)
        self.lib.kind = "plain"
        self.lib.mods = {}
        self.lib.rox = None
        self.bound = {}         # module -> packages that failed while it was imported
        self.ref = {}           # what the caller's import statements returned


def full(m):
    return PKG + ("." + m if m else "")


def do_import(P, o):
    m, form = o["m"], o["form"]
    ns = {"__name__": "user"}
    if form == "reload":
        if m not in P.ref:
            return None
        return importlib.reload(P.ref[m])
    if form == "importlib":
        return importlib.import_module(full(m))
    if form == "name":
        exec("from %s import %s as x" % (full(m), NAMES[m]), ns)
        return sys.modules[full(m)]
    if form == "from" and m:
        exec("from %s import %s as x" % (PKG, m), ns)
        return ns["x"]
    exec("import %s as x" % full(m), ns)
    return ns["x"]


def use(P, u, k, inst):
    """(result, None or how it is wrong)"""
    import random
    rng = random.Random(k)
    mod = P.ref[USES[u][0]]
    d = loads.SCRATCH[0]
    if u in ("fk", "ik", "star"):
        rox = mod
        if u == "star":
            ns = {}
            exec("from %s import *" % PKG, ns)
            lost = [n for n in name_all(rox) if n not in ns]
            if lost:
                return None, "import * does not give %s" % lost
            rox = types.SimpleNamespace(**ns)
        spec = gens.rnd_robot(rng, ("sph", "ur") if u == "ik" else ("chain", "sph", "ur"))
        q = gens.rnd_joints(rng, spec)
        rb = gens.mk_robot(rox, spec)
        T = rox.fwdkin(rb, np.array(q))
        a, b = models.pose_err(T.R, np.ravel(T.p), *models.fk(spec, q))
        if not (a < 1e-6 and b < 1e-6):
            return T, "fwdkin is off by %g, %g" % (a, b)
        J = np.asarray(rox.robotjacobian(rb, np.array(q)))
        if not np.abs(J - models.jac(spec, q)).max() < 1e-6:
            return J, "robotjacobian is off"
        if u == "ik":
            s, x = rox.iterative_invkin(rb, T, np.array(q) + 0.01)[:2]
            if s:
                a, b = models.pose_err(T.R, np.ravel(T.p), *models.fk(spec, np.ravel(x)))
                if not (a < 1e-2 and b < 1e-2):
                    return x, "iterative_invkin is off by %g, %g" % (a, b)
        return T, None
    if u in ("string", "file", "pkgfile", "xacro", "pkgxacro", "param"):
        w = rng.choice(["disk/pkg1", "disk/pkg2"]) if u.startswith("pkg") else rng.choice(["cwd", "cwd", "disk/pkg1"])
        n = rng.randrange(3)
        sp, m = ENV["doc"][w, n], ENV["model"][w, n]
        kw = {}
        if sp["root"] is not None:
            kw["root_link"] = sp["root"]
        if sp["tip"] is not None:
            kw["tip_link"] = sp["tip"]
        name = "u/r%d.%s" % (n, "xacro" if "xacro" in u else "urdf")
        if u.startswith("pkg"):
            kw["package"] = w[5:]
        elif w != "cwd" or rng.random() < 0.5:
            name = os.path.join(d, w, name)
        if u == "string":
            out = mod.robot_from_xml_string(docs.urdf_text(sp), **kw)
        elif u == "param":
            kern = rosstub.Kernel()
            kern.params["robot_description"] = docs.urdf_text(sp)
            rosstub.set_kernel(kern)
            out = mod.robot_from_parameter_server(**kw)
        else:
            out = (mod.robot_from_xacro_file if "xacro" in u else mod.robot_from_xml_file)(name, **kw)
        return out, loads.urdf_differs(out, m)
    if u in ("dict", "text", "stream"):
        doc = ENV["rr"][rng.randrange(len(ENV["rr"]))]
        c = rng.randrange(len(doc["chains"]))
        ref = models.rr_robot(doc, c)
        src = copy.deepcopy(doc)
        if u != "dict":
            src = ENV["rrtext"][ENV["rr"].index(doc)]
            if u == "stream":
                import io
                src = io.StringIO(src)
        out = mod.load_robot_info_yaml_to_robot(src, c)
        return out, loads.rr_differs(out, ref)
    if u == "tess":
        spec = gens.rnd_chain(rng)
        spec["T_base"] = spec.get("T_base")
        n = len(spec["joint_type"])
        if spec["joint_lower_limit"] is None:
            spec["joint_lower_limit"], spec["joint_upper_limit"] = [-3.] * n, [3.] * n
        spec["joint_vel_limit"] = spec["joint_vel_limit"] or [1.] * n
        spec["joint_acc_limit"] = spec["joint_acc_limit"] or [1.] * n
        q = gens.rnd_joints(rng, spec)
        rox = sys.modules[PKG]
        t = mod.TesseractRobot(gens.mk_robot(rox, spec), "robot", "KDLInvKinChainLMA")
        T = t.fwdkin(np.array(q))
        a, b = models.pose_err(T.R, np.ravel(T.p), *models.fk(spec, q))
        return T, None if a < 1e-6 and b < 1e-6 else "fwdkin is off by %g, %g" % (a, b)
    rox = sys.modules[PKG]
    q, p = gens.rnd_q4(rng), np.array(gens.rnd_p(rng))
    R = models.quat_R(q)
    if u == "msg":
        m = mod.transform2transform_stamped_msg(rox.Transform(R, p, "a", "b"))
        T = mod.msg2transform(m)
        if (m.header.frame_id, m.child_frame_id) != ("a", "b") or abs(m.transform.translation.y - p[1]) > 1e-12:
            return m, "message %r" % m
    else:
        kern = rosstub.Kernel()
        kern.new_listener = lambda l: l.buf.set("a", "b", 10 ** 12, tuple(p), tuple(q), True)
        rosstub.set_kernel(kern)
        T = mod.TransformListener().lookupTransform("a", "b")
    a, b = models.pose_err(T.R, np.ravel(T.p), R, p)
    return T, None if a < 1e-6 and b < 1e-9 else "off by %g, %g" % (a, b)


def name_all(rox):
    return list(rox.__all__)


def run(case, r):
    inst = Installation(r)
    here = os.getcwd()
    os.chdir(os.path.join(loads.SCRATCH[0], "cwd"))
    try:
        session(case, r, inst)
    finally:
        os.chdir(here)
        inst.cache = {}
        for n, m in ENV["saved"].items():
            if "." in n and n.rpartition(".")[0] in ENV["saved"]:
                setattr(ENV["saved"][n.rpartition(".")[0]], n.rpartition(".")[2], m)
        rosstub.set_kernel(rosstub.Kernel())


def session(case, r, inst):
    P = Proc()
    failed = set()

    def imp(o):
        m = o["m"]
        before = set(P.lib.mods)
        held = dict(P.ref)
        ops = Importing(inst, o["numpy"], o["stmt"], r)
        x = exc = None
        with _lib.Active(P.lib):
            with ops:
                try:
                    x = do_import(P, o)
                except BaseException as e:
                    exc = e
        lost = inst.failed & set(OPT)
        what = "%s of %s" % ("reload" if o["form"] == "reload" else "import", full(m))
        r.keys.add("import|%s|%s|%s|%s" % (m, o["form"], sorted(inst.failed), type(exc).__name__))
        r.ev("%s (%s): %s" % (what, o["form"], "ok" if exc is None else "%s: %s" % (type(exc).__name__, exc)))
        if exc is not None:
            if not isinstance(exc, Exception):
                raise Violation("interrupt out of nowhere", "%s raised %s" % (what, type(exc).__name__))
            if not inst.failed & (set(REQ[m]) | {"numpy", "self"}):
                raise Violation("import fails without cause", "%s raised %s: %s, while everything it declares could be "
                                "imported (failed: %s)" % (what, type(exc).__name__, exc, sorted(inst.failed) or "nothing"))
            if o["form"] == "reload" and m in P.ref:
                P.bound[m] = {"*"}
            with _lib.Active(P.lib):
                for k, h in held.items():
                    if sys.modules.get(full(k)) is not h:
                        raise Violation("failed import lost another module", "%s failed, after which %s is %r" % (
                            what, full(k), sys.modules.get(full(k))))
            failed.add("i" + m)
        else:
            if "i" + m in failed:
                r.nontrivial = True
            if x is not None:
                P.ref[m] = x
                if o["form"] == "reload":
                    P.bound[m] = set(lost)
        for k in REQ:
            if full(k) in P.lib.mods and full(k) not in before:
                P.bound[k] = set(lost)
        if "" not in P.ref and PKG in P.lib.mods and exc is None:
            P.ref[""] = P.lib.mods[PKG]
        return exc

    for oi, op in enumerate(case["ops"]):
        try:
            if op[0] == "state":
                inst.state[op[1]] = copy.deepcopy(op[2])
            elif op[0] == "process":
                P = Proc()
                inst.process()
                failed = set()
                r.count("fault:process restarted")
            elif op[0] == "import":
                imp(op[1])
            else:
                u, k = op[1], op[2]
                m, needs = USES[u]
                if m not in P.ref and imp({"m": m, "form": "import", "numpy": None, "stmt": None}) is not None:
                    continue
                out = exc = bad = None
                with _lib.Active(P.lib):
                    with inst:
                        try:
                            out, bad = use(P, u, k, inst)
                        except BaseException as e:
                            exc = e
                # an import that succeeded without a package it declares has to cope once the package is there
                bound = P.bound.get(m, set()) - set(REQ[m])
                bound |= set(p for p in needs if p not in inst.cache and inst.state[p]["s"] != "present")
                st = sorted(p for p in SINE[u] if p not in inst.cache)
                r.keys.add("use|%s|%s|%s|%s" % (u, sorted(bound & set(needs)), st, type(exc).__name__))
                r.ev("use %s: %s" % (u, "ok" if exc is None else "%s: %s" % (type(exc).__name__, exc)))
                if exc is not None:
                    if not isinstance(exc, Exception):
                        raise Violation("interrupt out of nowhere", "use %s raised %s" % (u, type(exc).__name__))
                    if not (bound | inst.failed) & set(needs) and "*" not in bound:
                        raise Violation("unrelated package disables a use", "%s needs %s, all of which could be imported all "
                                        "along; raised %s: %s" % (u, needs or "numpy alone", type(exc).__name__, exc))
                    r.count("refused")
                    failed.add("u" + u)
                else:
                    if bad:
                        raise Violation("wrong result", "%s: %s (not imported: %s)" % (u, bad, st))
                    if st:
                        raise Violation("missing package goes unnoticed", "%s returned a result, %s could not be imported in "
                                        "this process" % (u, st))
                    if "u" + u in failed:
                        r.nontrivial = True
                    r.count("uses")
        except Violation as v:
            raise Violation(v.cls, "operation %d: %s" % (oi, v.msg))


def describe(case, run):
    return case["ops"]
