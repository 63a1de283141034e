"""Write MANIFEST.json from properties.jsonl and the check modules present."""
import json, os, importlib, sys
sys.path.insert(0, "/verif")
NA = {
    "C30": "the accuracy of a trajectory is a property of scipy's adaptive integrators over floating-point arithmetic (compiled Fortran/C), which cannot be encoded for a solver; what this repository contributes (the right-hand side, Jacobian, inputs and initial state handed over) is decided in C07.",
}
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    f = f"/verif/checks/{i.lower()}.py"
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(f):
        m = importlib.import_module(f"checks.{i.lower()}")
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
            "technique": "bounded symbolic execution of the real Python source, assertions decided by z3 (QF_NRA/LRA), counterexamples replayed on the real package",
            "level": "model_checking",
            "level_note": f"Bounds: {m.BOUNDS}. Outside: {m.OUTSIDE}.",
        })
    else:
        na.append({"property": i, "reason": "no check built yet"})
out = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
       "notes": "Every check re-imports /repo/src twice (against symbolic stand-ins for numpy/scipy/h5py, and as is for replays); nothing is built or cached. No hooks are needed in /repo."}
json.dump(out, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
