#!/opt/veriftools/pyvenv/bin/python
import os, sys
for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from vlib import engine
if __name__ == "__main__":
    pid = sys.argv[1]
    sys.exit(engine.main("checks." + pid.lower(), sys.argv[2:]))
