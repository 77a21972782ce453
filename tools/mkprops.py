"""Writes /verif/properties.jsonl (kept as code so that the statements are easy to edit and diff)."""
import json, os
GRT = "src/general_robotics_toolbox/general_robotics_toolbox.py"
IK = "src/general_robotics_toolbox/general_robotics_toolbox_invkin.py"
MSG = "src/general_robotics_toolbox/ros_msg.py"
TF = "src/general_robotics_toolbox/ros_tf.py"
URDF = "src/general_robotics_toolbox/urdf.py"
RR = "src/general_robotics_toolbox/robotraconteur.py"
TES = "src/general_robotics_toolbox/tesseract.py"
INIT = "src/general_robotics_toolbox/__init__.py"
P = []


def p(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                               mechanism=[dict(zip(("name", "where"), m)) for m in mechanism],
                               observe_at=observe, hook_needed=hook)))


p("C01", "Concurrent callers each get the answer of a lone caller",
  "Any number of threads may call the toolbox at the same time on the same robots, transforms and arrays: every call returns "
  "what it returns (or raises what it raises) when it runs alone on the same values. At no instant during a call can another "
  "thread observe a robot, transform or array that differs from what the callers put there. Every call completes: callers "
  "never block one another.",
  ["schedules", "inputs"], "every interleaving of 2 to 4 threads at any bytecode of the toolbox, over all public functions and shared argument objects",
  "The tests are single threaded; no test ever shares a robot between threads, so they sample one schedule of the many.",
  [GRT, IK, RR, URDF, TES],
  [("functions compute on locals and fresh arrays; no module level scratch state", GRT),
   ("spherical wrist correction of P done on a private copy", IK + " robot6_sphericalwrist_invkin"),
   ("normalize_joints is created per call", IK)],
  ["return values and exceptions of every public function", "contents of the shared arguments at every thread switch"],
  [("Robot.H/P/limits", "geometry shared by reference between callers", GRT + " Robot.__init__")])

p("C02", "A completed, failed or interrupted call leaves no trace",
  "Whether a toolbox call returns, raises, or is cut off at an arbitrary point by an asynchronous exception or a failing "
  "allocation, everything the caller passed in is bit for bit as before, and so are the process wide settings (numpy error state, "
  "random state, warning filters, environment). An interruption always surfaces as an exception or as the "
  "correct result, never as a wrong result. Every later call behaves as if the earlier one had never been made.",
  ["crash_points", "fault_sequences", "histories", "inputs"], "every public function, every interruption point inside it, every sequence of such calls",
  "Tests only look at return values of calls that succeed; none compares the arguments before and after, and none interrupts a call.",
  [GRT, IK, RR, URDF, TES],
  [("no in-place writes to arguments", GRT), ("private copy of P", IK), ("gain defaults Kp and KR only read", IK + " iterative_invkin")],
  ["arguments, numpy/warnings/random state and later results after each call"],
  [("Kp, KR", "mutable default arguments shared by all calls", IK + " iterative_invkin"), ("robot.P", "corrected for spherical wrists", IK)])

p("C03", "Poses and results are snapshots that later writes cannot change",
  "A transform, matrix, quaternion, joint vector or loaded robot that the toolbox hands out, and a transform built from arrays, keeps its "
  "value whatever the caller later writes into the arrays it passed in, into the robot or document it came from, or into any other result, even one returned by the same "
  "call. In turn, writing into a result never alters the robot, the arguments, any other result or any later call.",
  ["histories", "schedules"], "every sequence of calls and in-place writes by callers to arguments and results, at any moment, in any order",
  "Tests never write to a returned value or to an argument after the call, so hidden sharing of memory stays invisible.",
  [GRT, IK, RR, URDF, TES, MSG],
  [("Transform copies what it is given", GRT + " Transform.__init__"), ("copies in equivalent_configurations", IK),
   ("flatten/copy of Eigen blocks", TES + " isometry3d_to_transform")],
  ["values held by callers after other parties write to their own arrays"],
  [("Transform.R, Transform.p", "arrays of a pose", GRT)])

p("C04", "Every call uses the robot's present contents, never remembered ones",
  "Each call answers for the robot as it is at the moment of the call: a tool that was attached, replaced or removed, a moved base or flange, "
  "changed limits or geometry (assigned or written in place) take effect at the next call. Nothing that earlier calls computed for that robot, for an equal one, "
  "or for one that has since been destroyed ever shows in the answer.",
  ["histories"], "every history of edits, replacements and destructions of robots interleaved with calls",
  "Tests build a robot, use it and drop it; only one test edits a robot, once, before its first use.",
  [GRT, IK, RR, TES],
  [("kinematics read robot attributes on each call", GRT), ("aux transforms looked up per call", GRT + " apply_robot_aux_transforms"),
   ("load_robot_and_tool_info_yaml_to_robot edits a loaded robot", RR)],
  ["results after an edit compared with a freshly built robot of equal contents"],
  [("R_tool, p_tool, T_flange, T_base", "edited by user code between calls", GRT + " Robot")])

p("C05", "The same program gives the same results in every process",
  "A sequence of toolbox calls produces bit identical results in every process, whatever the hash seed, the import order, the thread it runs on, "
  "and whatever was computed before. Only the random_ helpers use randomness: they draw solely from numpy's global "
  "generator, so a seeded program repeats exactly, and they always yield proper rotations and finite vectors.",
  ["histories", "configurations", "schedules"], "every call sequence, hash seed, import order, calling thread and random state",
  "The suite runs with PYTHONHASHSEED=0 in one process and never compares two executions.",
  [GRT, IK, RR, URDF, TES, INIT],
  [("results depend on arguments only", GRT), ("random_R/random_p draw from np.random", GRT), ("order of kinematics plug-in libraries", TES + " kinematics_plugin_info_dict")],
  ["digest of all results of a program across processes"],
  [("np.random global state", "the only randomness", GRT + " random_R"), ("set of libraries", "iteration order follows the hash seed", TES)])

p("C06", "ROS messages in flight carry exactly the value that was converted",
  "A quaternion, rotation, vector, point, transform, pose, twist or wrench converted to a ROS message and decoded by any receiver, once or many times, after any delay, "
  "reordering or duplication, is the value (quaternions, points and vectors number by number at full precision, rotations as the same rotation) it had at conversion, with its parent and child frame names wherever the message type carries them. "
  "Reuse of the sender's arrays while the message is in flight cannot change it, a holder that edits one number or name of one message changes nothing else in any message, and decoding neither alters the message nor ties receivers together.",
  ["fault_sequences", "schedules", "inputs"], "every value of every supported message type; every order of delivery, duplication, delay, buffer reuse by sender and receivers",
  "test_ros_msg.py is skipped without ROS and converts one random value per type with immediate decoding.",
  [MSG],
  [("scalar fields copied into fresh messages", MSG), ("frame ids copied to header", MSG + " transform2transform_stamped_msg")],
  ["decoded values at the receivers against the sender's log"], hook=None)

p("C07", "A transform lookup is exact, correctly labelled, or an exception",
  "Looking up a transform through the listener yields the pose of the source frame in the target frame at exactly the requested times as known from the "
  "messages received so far, labelled with target as parent and source as child; availability queries answer for the same request. When the data cannot support the request the "
  "exception of the ROS buffer reaches the caller as one of the exception types the module exports: never an old, cached, default or partial pose.",
  ["fault_sequences", "schedules", "histories"], "every order of delivery, loss, delay and duplication of transform messages, clears, frames, times and fixed frames",
  "test_ros_tf.py is skipped (no ROS) and marked skip by the project; no listener code runs in the baseline.",
  [TF, MSG],
  [("quaternion reordered x,y,z,w to w,x,y,z", TF + " lookupTransform"), ("arguments forwarded in tf's order", TF + " lookupTransformFull"), ("exceptions re-exported", TF)],
  ["lookupTransform, lookupTransformFull, canTransform, canTransformFull, clear"])

p("C08", "Waiting for a transform returns when it is there, else times out",
  "Waiting for a transform returns only once that transform is available and does so without delay beyond the polling interval; if it does not become available "
  "within the timeout the wait ends with a transform exception no later than the timeout plus one polling interval. After a publisher crash, network "
  "partition or clear, the same listener serves waits and lookups again as soon as messages flow.",
  ["fault_sequences", "schedules"], "every timing of message loss, partition, heal, publisher restart and clear relative to waits with any timeout and polling interval",
  "No test runs the listener; timeouts need a clock that the tests do not control.",
  [TF], [("timeout and polling interval forwarded", TF + " waitForTransform, waitForTransformFull"), ("clear forwarded", TF + " clear")],
  ["simulated time at which waits return or raise"])

p("C09", "A URDF load gives the complete described robot or an error",
  "Loading a robot from a URDF string, file, xacro file, ROS package or the parameter server either returns the robot that the delivered content describes (kinematics of the selected root-to-tip chain, "
  "limits, joint types, names) or raises. A file that cannot be opened or fully read, is torn, truncated or corrupted, or changes while a load is running, or a load that is interrupted, never yields "
  "a partial, mixed or remembered robot, and has no effect on later loads.",
  ["fault_sequences", "crash_points", "inputs", "schedules"], "every URDF chain, every I/O fault at every read, every truncation or flipped byte, every sequence of failing and succeeding loads",
  "test_urdf_loader.py reads two intact files; no fault is injected and package, xacro, string and parameter server paths are not run.",
  [URDF], [("whole file read before parsing", URDF + " _load_xml_to_string"), ("XML well-formedness rejects torn files", URDF + " robot_from_xml_string"),
           ("chain selection skips only unreachable tips", URDF + " _robot_from_urdf_robot")],
  ["robot_from_xml_string, robot_from_xml_file, robot_from_xacro_file, robot_from_parameter_server"])

p("C10", "A Robot Raconteur YAML load gives the complete robot or an error",
  "Loading robot info (and tool info) from a YAML stream or dict either returns the robot that the delivered document describes for the selected chain (geometry, the limits, types and names of that chain's joints, flange, tool, base) or raises. "
  "Read errors, short reads, early end of stream, torn or corrupted content and interruptions never yield a partial, mixed or remembered robot, and the next load is unaffected.",
  ["fault_sequences", "crash_points", "inputs"], "every document including several chains, every stream behaviour, fault position and sequence of loads",
  "test_rr_yaml.py loads three intact single-chain files.",
  [RR], [("counts of H, P and joints cross-checked", RR + " _check_list"), ("missing keys raise", RR)],
  ["load_robot_info_yaml_to_robot, load_robot_and_tool_info_yaml_to_robot"])

p("C11", "Loaders release every file they open and keep callers' streams open",
  "When a load returns or raises, for whatever reason, every file the loader opened has been closed, so failing loads can be repeated indefinitely under a descriptor limit. A stream "
  "that the caller passed in stays open and usable by its owner, and files are never written.",
  ["fault_sequences", "crash_points", "histories"], "every load, fault kind and position, and any number of repetitions under a file descriptor limit",
  "Tests load intact files a handful of times and never look at open handles; garbage collection hides leaks.",
  [URDF, RR], [("with statement around open", URDF + " _load_xml_to_string"), ("yaml reader does not close", RR)],
  ["open handles of the simulated file system", "state of the caller's stream"])

p("C12", "Closed-form inverse kinematics can be servoed on an unreliable target",
  "Following a target pose stream with the closed-form solvers (spherical wrist and UR), every configuration returned is finite, within the joint limits and reproduces the target; with last joints given, solutions come in order of distance from them, and while the target moves "
  "less than a quarter turn per joint between calls the first one is at least as near as the configuration that generated the target. Without last joints the configuration that generated the target is among the solutions, up to full turns. The first "
  "solution uses for every joint the full turn nearest to the last joints that the limits allow. Equivalent configurations asked for reproduce the same target within the limits, nearest first. An unreachable target yields an empty list and never an exception. "
  "After lost, repeated or unreachable targets, wrist singularities or a restart without last joints, the next reachable target is solved again.",
  ["histories", "fault_sequences", "inputs"], "every history of reachable (away from elbow and shoulder singularities) and unreachable targets, loss, duplication, delay, reordering and follower restarts, every robot of the two families with and without limits, tool, flange, base",
  "Tests call the solvers on isolated random poses, never on an unreachable pose with last joints or at a wrist singularity, and never feed a solution back.",
  [IK, GRT], [("normalize_joints picks the turn nearest to last joints", IK), ("sorting by distance to last joints", IK), ("auxiliary transforms undone first", GRT + " unapply_robot_aux_transforms")],
  ["robot6_sphericalwrist_invkin, ur_invkin in a simulated control loop"])

p("C13", "Iterative inverse kinematics terminates, never lies and resumes",
  "The iterative solver always ends within the given number of steps, and reports convergence only for joints that reproduce the target within the tolerance, on robots with revolute and prismatic joints; the joints returned are always finite. Restarted from its own previous answer it keeps "
  "making progress: with the target held still at a well-conditioned configuration near by, a follower that gives it a few steps at a time converges within a bounded number of calls, however the work was split, delayed or interrupted.",
  ["histories", "fault_sequences", "inputs"], "every robot, target, start, step budget, tolerance and split of the work over calls, with lost targets and aborted calls",
  "Tests run one call of 200 steps from within 4 degrees, ignore up to five failures, and use six-axis revolute robots only.",
  [IK], [("loop bound max_steps", IK + " iterative_invkin"), ("convergence test on pose error", IK), ("turn normalisation", IK + " normalize_joints")],
  ["converged flag and joints returned, progress over calls"])

p("C14", "Accelerated kinematics agree with the Python ones in any environment",
  "A TesseractRobot's forward kinematics, Jacobian and inverse kinematics agree with the toolbox's definitions for its robot (world base, flange and tool included), whatever else happens to the environment: other robots added before or after, joint states "
  "set, wrappers created and destroyed, calls from several threads. An environment rebuilt from its recorded commands after a crash, or a wrapper attached to an existing environment, gives the same answers.",
  ["histories", "schedules", "crash_points"], "every history of environment commands, state changes, restarts and interleaved calls on any supported robot",
  "Tests build one environment per robot and query it at four joint vectors.",
  [TES], [("names prefixed per robot", TES + " robot_to_tesseract_env_commands"), ("kinematic group fetched per call", TES + " TesseractRobot"), ("angular rows put first", TES + " jacobian")],
  ["TesseractRobot.fwdkin, jacobian, invkin, redundant_solutions"])

p("C15", "Optional dependencies that are missing or fail disable only themselves",
  "The core package imports and works with numpy alone; each optional module imports whenever the packages it declares are importable, URDF strings and files load without ROS or xacro, and a use that needs a missing package raises. An import that "
  "fails part way (missing, broken or temporarily failing dependency) raises, leaves the rest usable, and succeeds when retried once the dependency is there.",
  ["configurations", "fault_sequences"], "every subset of optional packages missing or failing at import, every order of imports and retries",
  "The suite runs in one environment with one set of packages installed.",
  [INIT, URDF, RR, TES, TF, MSG], [("guarded imports of rospkg and xacro", URDF), ("no optional import from the package root", INIT)],
  ["import of the package and its modules, loader calls"])

p("C16", "Orientations stay the same rotation through every node and representation",
  "Nodes pass orientations on as matrices, quaternions of either sign, axis and angle or roll-pitch-yaw, subtract, integrate and interpolate them, over links that lose, repeat, delay and reorder samples. Whatever the stream (standstill, repeated samples, half turns, "
  "opposite quaternions, jumping clocks, restarted nodes), every decoded orientation is the finite, proper rotation that was encoded; axes and quaternions handed out have unit length; roll-pitch-yaw at gimbal lock is refused. The difference of two samples turns the one "
  "into the other, interpolation between two samples stays a unit quaternion on the shortest path in proportion to time, and angular velocities integrate to the motion.",
  ["histories", "fault_sequences", "inputs"], "every motion, chain of representations over nodes, loss, repetition, delay and reordering of samples, every tick of the consumer's clock",
  "Tests convert a few literal rotations once; none converts a converted value again, interpolates between a sample and its repetition, or meets a half turn about a general axis.", [GRT],
  [("branches for trace sign and small angles", GRT + " R2q, R2rot, q2rot, slerp"), ("rate of a quaternion", GRT + " quatjacobian")], ["hat, invhat, rot, R2rot, q2R, R2q, q2rot, rot2q, quatcomplement, quatproduct, quatjacobian, rpy2R, R2rpy, slerp"])

p("C21", "Frames, motions and forces agree along every path through a cell",
  "Nodes compute where frames are (directly, as products, inverses, relative poses, from pose messages or by the forward kinematics of a moving robot) and publish them as stamped messages over an unreliable network; others look frames up at a stamp, compose, invert and "
  "compare them, carry twists and wrenches from frame to frame and pass their results on. Along whatever path, grouping of the products and number of nodes a pose was obtained, it is the pose that the publishers' geometry had, labelled with the frames it relates; a robot's "
  "motion told by its Jacobian is the motion of its poses; joint readings outside the limits are refused; comparisons tell equal poses from different ones. Lost, late, repeated and overtaken messages, crashed publishers and jumping clocks change what is known, never this agreement.",
  ["histories", "fault_sequences", "inputs"], "every tree of moving frames, every way its publishers compute them, every delivery order, fault and stamp, every path and grouping of lookups",
  "Tests multiply two transforms and call each converter alone; none compares two paths between the same frames, a product with partly named frames, a reused transform, or poses with motions.", [GRT, MSG, TF],
  [("composition and inverse with frame names", GRT + " Transform"), ("stamped messages and lookups", MSG + ", " + TF), ("tool, flange and base", GRT + " fwdkin, robotjacobian")],
  ["Transform operators, fwdkin, robotjacobian, screw_matrix, ros_msg converters, ros_tf lookups"])

# ---- pure functions: listed, not applicable to this technique -------------------------------------------------
p("C17", "Forward kinematics is the product of joint motions; the Jacobian its derivative",
  "For every robot and joint vector within limits the tool pose is the composition of base, joint displacements, flange and tool, and the Jacobian maps joint rates to the spatial velocity of that pose. Joint vectors outside the limits are rejected.",
  ["inputs"], "all robots and joint vectors", "Three literal configurations of one robot.", [GRT], [("fwdkin, robotjacobian", GRT)], ["fwdkin, robotjacobian"])
p("C18", "Canonical subproblems return exactly their solutions",
  "Subproblems 0 to 4 return all angles satisfying their defining equation, and nothing else, for all inputs in their domain.",
  ["inputs"], "all vectors, axes and distances", "One or two axis-aligned literals each.", [GRT], [("subproblem0..4", GRT)], ["subproblem0..subproblem4"])
p("C19", "Closed-form inverse kinematics returns every configuration",
  "For every reachable pose the spherical wrist and UR solvers return all configurations within limits, up to full turns.",
  ["inputs"], "all poses", "Random poses, checked for soundness only.", [IK], [("branch enumeration", IK)], ["robot6_sphericalwrist_invkin, ur_invkin"])
p("C20", "Equivalent configurations are complete and within limits",
  "The full-turn variants returned for a configuration are all within limits, reproduce the pose and none is missing.",
  ["inputs"], "all robots and configurations", "One literal configuration.", [IK], [("equivalent_configurations", IK)], ["equivalent_configurations"])
p("C22", "OPW and UR parameters describe the robot they were extracted from",
  "For every robot accepted, the extracted parameters define the same forward kinematics; other robots are rejected.",
  ["inputs"], "all OPW and UR geometries", "Two OPW robots and one UR robot.", [TES], [("robot_to_opw_inv_kin_parameters, robot_to_ur_inv_kin_parameters", TES)], ["parameter tuples"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
