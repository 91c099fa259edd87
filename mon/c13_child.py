"""Child process of C13: runs the operations given on stdin, prints the canonical results."""
import os, sys, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get("MON_REPO", "/repo"))
spec = json.load(sys.stdin)
if spec.get("nogmpy2"):
    sys.modules["gmpy2"] = None
real = os.dup(1)
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
from mon import env  # noqa
from mon.c13_ops import run_ops  # noqa
out = run_ops(spec["ops"], spec.get("order"), spec.get("seed"))
import abcvoting  # noqa
with os.fdopen(real, "w") as f:
    json.dump({"res": out, "file": abcvoting.__file__, "gmpy2": "gmpy2" in sys.modules and sys.modules["gmpy2"] is not None,
               "debug": __debug__}, f)
    f.flush()
os._exit(0)
