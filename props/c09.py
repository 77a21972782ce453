"""C09: a URDF load gives the complete described robot or an error."""
from sim import docs, held, loads, values
from sim.engine import Violation

ID = "C09"
RUNS = {"quick": 6000, "thorough": 100000}
RULE = ("One run: 2-7 loads in one process from strings, files, ROS packages, xacro files with an include and the "
        "parameter server, while the device gives short reads, EINTR, I/O errors, missing or forbidden files, torn, "
        "truncated and corrupted contents, files replaced or overwritten during the load with unchanged size and "
        "modification time, packages that move, relative paths after a change of directory, documents padded beyond any "
        "buffer, and asynchronous interruptions. Non-trivial: one load was refused and a later one succeeded.")
MEASURE = "distinct (source, outcome, faults that fired) combinations"
REAL = ["general_robotics_toolbox.urdf and core", "urdf_parser_py", "lxml", "xacro", "rospkg", "Python text and buffered I/O"]
STUBS = ["raw file device (open of paths in a scratch directory)", "rospy parameter server", "interruptions"]
ASSUMPTIONS = ["the file content that counts is what the device delivered to the handle that was read to its end",
               "corrupted content is judged by an independent model where it can read it, else by a fault free load of the same bytes"]
SHRINK = lambda c: [["ops"]] + [["ops", i, k] for i, o in enumerate(c["ops"]) for k in ("faults", "corrupt") if o.get(k)]
setup, teardown = loads.setup, loads.teardown


def gen(rng, i, tier):
    prev = []
    fail = rng.choice([0.0, 0.15, 0.4, 0.6])
    if rng.random() < 0.35:             # one source, loaded again and again: good at first, then in every other state
        ops = [loads.gen_urdf_op(rng, prev, 0.0)]
        ops[0]["inject"] = None
        if ops[0].pop("event", None):
            for f in ops[0]["faults"]:
                f["at"] = [x for x in f.get("at", []) if x[1] != "event"]
        ops[0].pop("gone", None)
        for _ in range(rng.randrange(1, 6)):
            o = loads.gen_urdf_op(rng, prev, rng.choice([fail, 0.8]), ops[0]["via"])
            for k in ("name", "pkg", "path", "key"):
                if k in ops[0]:
                    o[k] = ops[0][k]
            if o.get("pkg") in ("pkg1", "pkg2") and rng.random() < 0.3:
                o["move"] = rng.choice(["away", "keep", "copy"])
            if o["doc"] is not None and rng.random() < 0.4:
                o["doc"] = ops[0]["doc"]
            ops.append(o)
        return {"ops": ops}
    ops = [loads.gen_urdf_op(rng, prev, fail) for _ in range(rng.randrange(2, 8))]
    if rng.random() < 0.5:
        n = ops[0]["name"]
        for o in ops:
            o["name"] = n
    return {"ops": ops}


def index_specs(ops):
    """texts of intact xacro pairs -> spec"""
    m = {}
    for o in ops:
        for d in (o.get("doc"), (o.get("event") or {}).get("doc")):
            if d is not None and d["k"] == "urdf":
                a, b = docs.xacro_texts(d, o["name"] + "_part.xacro")
                m[a.encode() + b.encode()] = d
    return m


def run(case, r):
    s = loads.Session(case, r)
    s._spec_of = index_specs([o for o in case["ops"] if o["fam"] == "urdf"])
    good = None
    try:
        for oi, op in enumerate(case["ops"]):
            try:
                x = s.urdf(op)
            except Violation as v:
                raise Violation(v.cls, "load %d: %s" % (oi, v.msg))
            if s.disk.writes:
                raise Violation("file-written", "load %d opened %s for writing" % (oi, s.disk.writes[0]))
            if x and x[1] is not None:
                if s.refused:
                    r.nontrivial = True
                # a later load must not be affected by what the caller does to this robot
                if oi % 2:
                    for n in range(3):
                        held.write(x[1], n * 7 + oi, "fill", 9.0)
        r.count("loads", len(case["ops"]))
        r.count("robots", s.ok)
        r.count("refused", s.refused)
    finally:
        s.close()


def describe(case, run):
    return {"loads": [[o["via"], o["pkg"], o["name"], bool(o["doc"]), o.get("faults"), [c["k"] for c in o.get("corrupt") or []]]
                      for o in case["ops"]]}
