#!/opt/venv/bin/python
"""Decide one property:  check.py C01   (tier from VERIF_TIER, seed from VERIF_SEED)"""

import os
import sys

ENV = dict(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           MKL_NUM_THREADS="1", PYTHONHASHSEED="0")
PY = "/opt/venv/bin/python"
if os.environ.get("SYMX_ENV") != "1":
    env = dict(os.environ, SYMX_ENV="1", **ENV)
    if os.path.isdir("/opt/venv/mplconfig"):
        env.setdefault("MPLCONFIGDIR", "/opt/venv/mplconfig")
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True

from symx import runner  # noqa: E402

if __name__ == "__main__":
    sys.exit(runner.main(sys.argv[1:]))
