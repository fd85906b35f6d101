import sys, os, importlib
for _k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'): os.environ[_k] = '1'
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks'))
import harness
pid = sys.argv[1]
mod = importlib.import_module('c' + pid.lower())
rc = harness.main(mod, pid)
sys.stdout.flush()
os._exit(rc)
