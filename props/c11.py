"""C11: loaders release every file they open and keep callers' streams open."""
import gc

from sim import loads, simio
from sim.engine import Violation
from props import c09

ID = "C11"
RUNS = {"quick": 3000, "thorough": 100000}
RULE = ("One run: 2-6 loads from files, packages, xacro files and callers' streams, most of them failing (missing and "
        "corrupted files, I/O errors, interruptions), each repeated up to 30 times under a limit of 4 simulated "
        "descriptors while every exception is kept by the caller. Non-trivial: a load failed after it had opened a file "
        "or read from a caller's stream.")
MEASURE = "distinct (source, outcome, faults that fired) combinations"
REAL = ["general_robotics_toolbox.urdf, robotraconteur and core", "urdf_parser_py", "xacro", "rospkg", "PyYAML",
        "Python text and buffered I/O"]
STUBS = ["raw file device and descriptor limit (open of paths in a scratch directory)", "the caller's streams",
         "rospy parameter server", "interruptions"]
ASSUMPTIONS = ["a file counts as closed when its raw device is closed; descriptors made without open() are seen through "
               "/proc/self/fd", "after an asynchronous interruption inside library code the file may be closed by the "
               "garbage collector"]
SHRINK = lambda c: [["ops"]] + [["ops", i, k] for i, o in enumerate(c["ops"]) for k in ("faults", "corrupt") if o.get(k)]
teardown = loads.teardown


def setup():
    loads.setup()
    simio.audit.install()


def gen(rng, i, tier):
    prev, pr, pt = [], [], []
    fail = rng.choice([0.3, 0.6, 0.85])
    ops = []
    for _ in range(rng.randrange(2, 7)):
        if rng.random() < 0.6:
            o = loads.gen_urdf_op(rng, prev, fail)
            if o["via"] in ("string", "param"):
                o = loads.gen_urdf_op(rng, prev, fail)
        else:
            o = loads.gen_rr_op(rng, pr, pt, fail)
            for k in ("robot", "tool"):
                if o[k] and o[k]["src"] in ("dict", "str"):
                    o[k]["src"] = rng.choice(["text", "StringIO", "BytesIO", "file", "bfile"])
        o["again"] = rng.choice([0, 0, 0, 2, 8, 30]) if o["fam"] == "urdf" else rng.choice([0, 0, 0, 1])
        ops.append(o)
    return {"ops": ops}


def run(case, r):
    simio.audit.seen = []
    s = loads.Session(case, r, handles=True)
    s._spec_of = c09.index_specs([o for o in case["ops"] if o["fam"] == "urdf"])
    s.disk.limit = 4
    try:
        for oi, op in enumerate(case["ops"]):
            for rep in range(1 + op["again"]):
                one(s, op, oi, rep, r)
        r.count("robots", s.ok)
        r.count("refused", s.refused)
    finally:
        s.close()


def one(s, op, oi, rep, r):
    n0 = len(s.disk.handles)
    fd0 = simio.fds()
    streams = []
    fired = []
    who = "load %d" % oi + (" (repetition %d)" % rep if rep else "")
    try:
        x = s.urdf(op) if op["fam"] == "urdf" else s.rr(op)
        if x is not None:
            fired = x[3]
            streams = x[4] if len(x) > 4 else []
    except Violation as v:
        if v.cls == "intact-refused":
            raise Violation("cannot-be-repeated" if "Too many" in v.msg else v.cls, "%s: %s" % (who, v.msg))
        # contents are judged by C09 and C10
        r.count("loads judged elsewhere")
    r.count("loads")
    new = [h for h in s.disk.handles[n0:] if h.who == "lib"]
    if any(f.startswith("async") for f in fired):
        s.kept[-1:] = [None]
        x = None
        gc.collect()
    left = [h for h in new if not h.closed]
    if left:
        raise Violation("file-left-open", "%s (%s): %d of %d files opened by the loader are still open after it %s (faults: %s)" % (
            who, what(op), len(left), len(new), "raised %r" % s.kept[-1] if s.kept and s.kept[-1] is not None else "returned",
            ", ".join(fired) or "none"))
    hs = [h for h in getattr(s, "callers", [])]
    for f in streams:
        try:
            closed = f.closed
        except ValueError as e:         # detached from its buffer
            raise Violation("caller-stream-unusable", "%s (%s): %r" % (who, what(op), e))
        if closed:
            raise Violation("caller-stream-closed", "%s (%s): the stream of the caller is closed after the call (faults: %s)" % (
                who, what(op), ", ".join(fired) or "none"))
        try:
            if f.seekable():
                f.seek(0)
                f.read(1)
            else:
                f.readable()
        except OSError:
            pass            # the device of the caller is still faulty
        except (ValueError, UnicodeDecodeError, AttributeError) as e:
            if not isinstance(e, UnicodeDecodeError):
                raise Violation("caller-stream-unusable", "%s (%s): %r" % (who, what(op), e))
        except BaseException:
            pass
    if s.disk.writes or simio.audit.seen:
        raise Violation("file-written", "%s (%s) opened a file for writing or changed one: %s" % (
            who, what(op), (s.disk.writes + simio.audit.seen)[0]))
    ch = s.disk.changed()
    if ch:
        raise Violation("file-written", "%s (%s): %d files in the directory were changed" % (who, what(op), len(ch)))
    if hs:
        s.close_callers()
    fd1 = simio.fds()
    if fd1 != fd0:
        raise Violation("descriptor-left-open", "%s (%s): %d descriptors before, %d after" % (who, what(op), len(fd0), len(fd1)))
    if s.kept and s.kept[-1] is not None and (new or streams):
        r.nontrivial = True


def what(op):
    return op["via"] if op["fam"] == "urdf" else "+".join([op["robot"]["src"]] + ([op["tool"]["src"]] if op["tool"] else []))


def describe(case, run):
    return {"loads": [[what(o), o["again"], o["inject"]] for o in case["ops"]]}
