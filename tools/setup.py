"""setup_cmd: nothing is compiled; checks that the simulator starts on this machine."""
import os
import subprocess
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from sim import engine
e = engine.worker_env()
sys.exit(subprocess.call([sys.executable, "-c", "from sim import engine, lib; engine.prepare_process(); "
                          "lib.fresh('instr').rox; print('simulator ready')"], cwd=ROOT, env=e))
