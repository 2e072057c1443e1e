#!/opt/venv/bin/python
"""Run one runtime-monitoring check:  check.py P01 [--tier quick|thorough] [--seed N]
                                      check.py P01 --replay FILE
                                      check.py --selftest

Exit 0: held on everything explored; 1: violated (VIOLATION line); 3: inconclusive.
"""
import os
import sys

PY = "/opt/venv/bin/python"
WANT = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
        "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "PYTHONNOUSERSITE": "1"}
HERE = os.path.dirname(os.path.abspath(__file__))

if any(os.environ.get(k) != v for k, v in WANT.items()) or os.environ.get("PYTHONPATH"):
    env = dict(os.environ, **WANT)
    env.pop("PYTHONPATH", None)
    exe = PY if os.path.exists(PY) else sys.executable
    os.execve(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from mon import core  # noqa: E402

if __name__ == "__main__":
    sys.exit(core.main(sys.argv[1:]))
