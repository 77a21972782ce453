"""run one generated case in this process: one.py C01 index [seed]"""
import sys, os, faulthandler, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import engine
prop = engine.load_prop(sys.argv[1])
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
faulthandler.dump_traceback_later(float(os.environ.get("DUMP", "20")), exit=True)
engine.prepare_process(prop)
if hasattr(prop, "setup"): prop.setup()
case = engine.make_case(prop, seed, int(sys.argv[2]), "quick")
run = engine.execute(prop, case, keep_log=True)
print("\n".join(run.log[-80:]))
print(run.viol, run.stats, run._h.hexdigest())
