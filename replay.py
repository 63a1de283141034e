#!/opt/venv/bin/python
"""Re-run one reported violation on the ordinary opinf package:
replay.py FILE  -> exit 1 if it reproduces, 0 if the property holds there."""

import os
import sys
import json

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")

from symx import harness  # noqa: E402


def main(f):
    import importlib

    d = json.load(open(f))
    src = os.environ.get("OPINF_SRC", "/repo/src")
    sys.path.insert(0, src)
    import opinf

    mod = importlib.import_module("checks." + d["module"])
    fn = getattr(mod, d["function"])
    st, det, _ = harness.run_concrete(fn, d["params"], opinf, {k: float(v) for k, v in d["inputs"].items()})
    print(st, det)
    return 1 if st == "violation" else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
