"""Writes /verif/MANIFEST.json from the property modules that exist."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
TECH = "deterministic simulation with fault injection: "
WHAT = {
 "C01": ("seeded thread schedules at bytecode granularity, each caller compared with itself alone",
         "Explores seeded interleavings of 2-4 threads; trusts that C extension calls are atomic under the GIL."),
 "C02": ("asynchronous exceptions, allocation failures and warning errors injected at seeded instructions, state compared before and after",
         "Explores seeded interruption points in library bytecode; interruptions inside C calls are not simulated."),
 "C03": ("seeded histories of calls and writes into arguments, results and robots, every held value checked after each step",
         "Explores seeded histories over the whole call vocabulary; judges by writing, not by memory addresses."),
 "C04": ("seeded histories of edits, calls, object destruction and clock jumps, each call compared with a fresh library instance",
         "Explores seeded histories; answers are compared with the same code on freshly built objects."),
 "C05": ("the same seeded program run in simulated processes with different hash seed, entropy, clock, import order, thread and past",
         "Explores seeded programs; bit identity is checked on this machine and these library versions only."),
 "C06": ("seeded message network with delay, loss, duplication, reordering and buffer reuse by the sender",
         "geometry_msgs is a stub with genpy semantics."),
 "C07": ("seeded ROS network simulation: every lookup compared with a model of the messages received",
         "tf, tf2_ros and rospy are stubs written from their documentation."),
 "C08": ("seeded ROS network simulation with partitions, crashes, clears and waiting clients on a simulated clock",
         "tf, tf2_ros and rospy are stubs written from their documentation; liveness is a bound after faults stop."),
 "C09": ("seeded I/O faults on a simulated raw device below the real Python I/O stack, robots compared with an independent model",
         "xacro and urdf_parser_py are real; corrupted contents are judged against the string loader and the model."),
 "C10": ("seeded stream faults, corruption and interruption of YAML loads, robots compared with an independent model",
         "PyYAML is real."),
 "C11": ("seeded I/O faults with tracking of every handle and of the caller's streams",
         "Handles are tracked at open(); descriptors opened by C code are not."),
 "C12": ("seeded leader/follower control loop on a simulated lossy link, solutions judged by an independent forward kinematics",
         "Explores seeded trajectories; configurations close to shoulder and elbow singularities or limits are not judged for completeness."),
 "C13": ("seeded follower with partial steps, delays and interruptions on a simulated link; step counting bounds termination",
         "Progress is required only near well-conditioned configurations."),
 "C14": ("seeded histories of environment commands, joint states, wrappers, crashes with rebuild from the command log, and threads",
         "tesseract_robotics is the real C++ library."),
 "C16": ("seeded streams of orientations over simulated nodes with loss, repetition, delay, reordering, restarts and clock jumps, compared with the true motion",
         "Explores seeded motions and conversion chains; tolerance 5e-6 where axis and angle are used (the code treats smaller turns as none)."),
 "C21": ("seeded cell of publishing and consuming nodes on a faulty simulated ROS network, every composed pose compared with an independent model",
         "tf, tf2_ros, rospy and geometry_msgs are stubs written from their documentation."),
 "C15": ("seeded missing, broken and transiently failing imports by a simulated import system",
         "ROS packages are stubs."),
}
NA_PURE = ("Pure function of its arguments: no thread, clock, I/O, randomness, crash or other party takes part, so a simulated "
           "schedule or fault cannot change the outcome; only input sampling would decide it, which is not this technique. ")
NA = {"C17": "C21, C14 and C13 compare it with an independent model along the way.",
      "C18": "", "C19": "C12 checks soundness and the servo case of it.", "C20": "", "C22": "C14 exercises the solvers built from the parameters."}


def main():
    checks = []
    na = [{"property": k, "reason": (NA_PURE + v).strip()} for k, v in sorted(NA.items())]
    for k in sorted(WHAT):
        if os.path.exists(os.path.join(ROOT, "props", k.lower() + ".py")):
            checks.append({"property": k, "quick_cmd": "%s check.py --property %s --tier quick" % (PY, k),
                           "thorough_cmd": "%s check.py --property %s --tier thorough" % (PY, k),
                           "evidence_file": "evidence/%s.json" % k, "technique": TECH + WHAT[k][0],
                           "level": "exploration", "level_note": WHAT[k][1]})
        else:
            na.append({"property": k, "reason": "not built yet"})
    m = {"version": 1, "setup_cmd": "%s tools/setup.py" % PY, "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the simulator owns every seam from outside (sys.monitoring, own importer, open, time, entropy). "
                  "Seeds: VERIF_SEED. Replay: %s check.py --replay FILE. Findings: known_findings.json." % PY}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
