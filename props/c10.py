"""C10: a Robot Raconteur YAML load gives the complete robot or an error."""
from sim import held, loads, values
from sim.engine import Violation

ID = "C10"
RUNS = {"quick": 4500, "thorough": 100000}
RULE = ("One run: 2-6 loads of robot (and tool) documents with 1-3 chains in one process, from dicts edited in place, "
        "strings, seekable and unseekable streams and files whose device gives short reads, errors and interruptions, with "
        "truncated, torn, bit flipped, padded and structurally damaged documents and streams that fail in their middle. Non-trivial: one load was refused and a later "
        "one succeeded.")
MEASURE = "distinct (source, outcome, faults that fired) combinations"
REAL = ["general_robotics_toolbox.robotraconteur and core", "PyYAML", "Python text and buffered I/O"]
STUBS = ["the caller's streams and raw file device", "interruptions"]
ASSUMPTIONS = ["a document that the reference model cannot read describes no robot",
               "poses whose quaternion is not of unit length are not judged"]
SHRINK = lambda c: [["ops"]] + [["ops", i, w, k] for i, o in enumerate(c["ops"]) for w in ("robot", "tool") if o.get(w)
                                for k in ("struct", "corrupt") if o[w].get(k)]
setup, teardown = loads.setup, loads.teardown


def gen(rng, i, tier):
    prev, prevt = [], []
    fail = rng.choice([0.0, 0.15, 0.4, 0.6])
    return {"ops": [loads.gen_rr_op(rng, prev, prevt, fail) for _ in range(rng.randrange(2, 7))]}


def run(case, r):
    s = loads.Session(case, r)
    try:
        for oi, op in enumerate(case["ops"]):
            try:
                x = s.rr(op)
            except Violation as v:
                raise Violation(v.cls, "load %d: %s" % (oi, v.msg))
            if x[1] is not None:
                if s.refused:
                    r.nontrivial = True
                if oi % 2:
                    for n in range(3):
                        held.write(x[1], n * 7 + oi, "fill", 9.0)
        r.count("loads", len(case["ops"]))
        r.count("robots", s.ok)
        r.count("refused", s.refused)
    finally:
        s.close()


def describe(case, run):
    return {"loads": [[o["robot"]["src"], o["chain"], bool(o["tool"]), o["robot"]["pol"],
                       [c["k"] for c in o["robot"].get("corrupt") or []], o["inject"]] for o in case["ops"]]}
