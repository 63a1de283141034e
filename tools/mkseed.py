"""mkseed.py ID...|all : write /verif/seeded/<id>, confirm demo and stable tests in a scratch copy, run the check."""
import concurrent.futures
import sys, os, json, subprocess, shutil, re, tempfile
sys.path.insert(0, "/verif/tools")
from seeds import S
PY = "/opt/venv/bin/python"
PRE = '''import warnings
import numpy as np
import opinf

warnings.simplefilter("ignore")
rng = np.random.default_rng(0)
'''
SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
repo=$PWD
cd "$tmp" && PYTHONPATH="$repo/src" exec_py() { /opt/venv/bin/python "$here/demo.py"; }
PYTHONPATH="$repo/src" /opt/venv/bin/python "$here/demo.py"
'''
SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD/src"
tmp=$(mktemp -d)
cd "$tmp" || exit 3
/opt/venv/bin/python "$here/demo.py"
rc=$?
cd / && rm -rf "$tmp"
exit $rc
'''
base = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def do(s, tests=True):
    d = f"/verif/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed_")
    r = f"{w}/repo"
    sh(f"git -C /repo worktree prune; git clone -q {os.environ.get("SEED_REPO", "/repo")} {r}")
    open(f"{d}/demo.py", "w").write(PRE + s["demo"])
    open(f"{d}/demo.sh", "w").write(SH)
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    msgs = []
    a = sh(f"bash {d}/demo.sh", cwd=r)
    if a.returncode != 0:
        msgs.append("DEMO FAILS UNPATCHED: " + a.stderr[-300:])
    for f, old, new in s["edits"]:
        p = f"{r}/src/opinf/{f}"
        t = open(p).read()
        if t.count(old) != 1:
            print(s["id"], "edit matches", t.count(old), "times in", f)
            shutil.rmtree(w)
            return
        open(p, "w").write(t.replace(old, new))
    open(f"{d}/patch.diff", "w").write(sh("git diff", cwd=r).stdout)
    b = sh(f"bash {d}/demo.sh", cwd=r)
    if b.returncode == 0:
        msgs.append("DEMO PASSES PATCHED")
    if tests:
        pre = f"PYTHONPATH={r}/src PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 timeout 850 {PY} -m pytest -q -p no:cacheprovider --randomly-seed=1 --randomly-dont-reorganize"
        p1 = subprocess.Popen(f"{pre} -n 3 --dist loadfile tests/regression > {w}/reg.log 2>&1", shell=True, cwd=r)
        sh(f"{pre} --ignore=tests/regression tests > {w}/unit.log 2>&1", cwd=r)
        p1.wait()
        out = open(f"{w}/reg.log").read() + open(f"{w}/unit.log").read()
        msgs.append("tests: " + "; ".join(re.findall(r"^\d+ .*(?:passed|failed).*$", out, re.M)) + " ".join(re.findall(r"(?:FAILED|ERROR) \S+", out)))
    c = sh(f"OPINF_SRC={r}/src timeout 900 python3 /verif/check.py {s['prop']}", cwd="/verif")
    v = [l for l in c.stdout.split("\n") if l.startswith("VIOLATION")]
    msgs.append(f"check exit {c.returncode}, {len(v)} violations; " + " ".join(re.findall(r"case (\S+):", c.stdout)[:4]))
    print(s["id"], s["prop"], "|", " | ".join(msgs), flush=True)
    shutil.rmtree(w)


if __name__ == "__main__":
    ids = sys.argv[1:]
    fast = "--fast" in ids
    ids = [i for i in ids if not i.startswith("--")]
    todo = [s for s in S if "all" in ids or s["id"] in ids]
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        list(ex.map(lambda s: do(s, not fast), todo))
