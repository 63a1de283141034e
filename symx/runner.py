"""Run all harness cases of one property and report."""

import os
import re
import sys
import json
import time
import importlib
import subprocess
import multiprocessing as mp

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings():
    """[(property, case-regex, text)] from known_findings.txt."""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"^known: property=(\S+) case=(\S+) (.*)$", line)
            if m:
                out.append(m.groups())
    return out


def _work(args):
    modname, case, seed, tier = args
    from . import harness, patch

    mod = importlib.import_module("checks." + modname)
    name, fname, params, opts = case
    real_op, sym_op = patch.real(), patch.symbolic()
    try:
        r = harness.run_case(name, getattr(mod, fname), params, real_op, sym_op, seed, **opts)
    except Exception as e:  # a bug in the machinery is never a verdict
        import traceback

        r = harness.CaseResult(name)
        r.status = "inconclusive"
        r.detail = "checker error: " + "".join(traceback.format_exception(e))[-1500:]
    return r


def main(argv):
    pid = argv[0]
    only = argv[1] if len(argv) > 1 else None
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    from . import patch

    modname = pid.lower()
    try:
        patch.symbolic()
        mod = importlib.import_module("checks." + modname)
    except BaseException as e:
        import traceback

        traceback.print_exc()
        print(f"ERROR property={pid} cannot import the package under test: {e}")
        return 3
    cases = []
    for c in mod.cases(tier):
        name, fn, params = c[:3]
        opts = dict(c[3]) if len(c) > 3 else {}
        if tier == "thorough":
            opts.setdefault("timeout", 60000)
            opts.setdefault("wall", 1500)
            opts.setdefault("max_paths", 4000)
            opts.setdefault("nval", 6)
        if any(name == o[0] and fn.__name__ == o[1] and params == o[2] for o in cases):
            continue
        if only is None or re.search(only, name):
            cases.append((name, fn.__name__, params, opts))
    names = [c[0] for c in cases]
    assert len(set(names)) == len(names), "duplicate case names"
    nproc = int(os.environ.get("SYMX_JOBS", "8"))
    # long cases first when the module says so
    results = []
    kf = known_findings()
    limit = 780 if tier == "quick" else 10**6
    cut = None
    if nproc <= 1 or len(cases) == 1:
        for c in cases:
            results.append(_work((modname, c, seed, tier)))
    else:
        ctxm = mp.get_context("fork")
        with ctxm.Pool(nproc, maxtasksperchild=20) as pool:
            it = pool.imap_unordered(_work, [(modname, c, seed, tier) for c in cases], chunksize=1)
            bad = 0
            for _ in cases:
                try:
                    r = it.next(max(1.0, limit - (time.time() - t0)))
                except mp.TimeoutError:
                    cut = f"time limit of {limit} s reached"
                    break
                results.append(r)
                bad += r.status == "violation" and not any(k[0] == pid and re.fullmatch(k[1], r.name) for k in kf)
                if bad >= 40:
                    cut = "stopped after 40 violating cases"
                    break
    if cut:
        from . import harness

        done = {r.name for r in results}
        for n in names:
            if n not in done:
                r = harness.CaseResult(n)
                r.status, r.detail = "inconclusive", "not explored: " + cut
                results.append(r)
    results.sort(key=lambda r: names.index(r.name))
    rc = 0
    nviol = 0
    os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
    byname = {c[0]: c for c in cases}
    incon = []

    def confirm(r):
        """Final confirmation in a fresh process on the ordinary package."""
        c = byname[r.name]
        rp = os.path.join(HERE, "evidence", "replays", f"{pid}-{re.sub(r'[^A-Za-z0-9_.-]', '_', r.name)}.json")
        with open(rp, "w") as f:
            json.dump(dict(property=pid, module=modname, case=r.name, function=c[1], params=c[2],
                           inputs={k: repr(v) if not isinstance(v, (int, float)) else v for k, v in r.cex.items()},
                           detail=r.detail), f, indent=1)
        p = subprocess.run([sys.executable, os.path.join(HERE, "replay.py"), rp], capture_output=True, text=True, env=dict(os.environ))
        return rp, p

    from concurrent.futures import ThreadPoolExecutor

    viol = [r for r in results if r.status == "violation"]
    with ThreadPoolExecutor(max(1, min(8, nproc))) as ex:
        conf = dict(zip([r.name for r in viol], ex.map(confirm, viol)))
    for r in results:
        if r.status == "violation":
            hit = next((k for k in kf if k[0] == pid and re.fullmatch(k[1], r.name)), None)
            rp, p = conf[r.name]
            if p.returncode != 1:
                incon.append((r.name, f"violation did not replay in a fresh process: {r.detail} / {p.stdout} {p.stderr[-500:]}"))
                continue
            if hit:
                print(f"KNOWN-FINDING: property={pid} case={r.name} {hit[2]}")
            else:
                nviol += 1
                print(f"VIOLATION property={pid} replay={rp}")
                print(f"  case {r.name}: {r.detail}")
        elif r.status == "inconclusive":
            incon.append((r.name, r.detail))
    for n, d in incon:
        print(f"UNDECIDED property={pid} case={n}: {d}")
    # listed findings that no longer occur are simply not printed
    funcs = sorted(set().union(*[r.funcs for r in results])) if results else []
    notes = sorted(set().union(*[r.notes for r in results])) if results else []
    tot = lambda a: sum(getattr(r, a) for r in results)
    samples = []
    for r in results[:: max(1, len(results) // 5)][:6]:
        samples.append(dict(case=r.name, params=byname[r.name][2], paths=r.paths, assertions=r.assertions,
                            queries=r.queries, sampled_validation_inputs=r.sample))
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot("paths"), transitions=tot("branches") + tot("queries"),
            traces_validated_against_impl=tot("validated"), samples=samples,
            harness_cases=len(results), paths_completed=tot("completed"), assertions=tot("assertions"),
            solver_queries=tot("queries"), unsat=tot("unsat"), sat=tot("sat"), unknown=tot("unknown"),
            branch_decisions=tot("branches"), solver_s=round(tot("solver_s"), 2),
            reachability_witnesses=tot("witness"), functions_encoded=funcs,
            bounds=getattr(mod, "BOUNDS", ""), outside_bounds=getattr(mod, "OUTSIDE", ""),
            contracts_and_stubs=notes, undecided=[dict(case=n, why=str(d)[:300]) for n, d in incon],
            meaning="states = symbolic paths explored; transitions = branch decisions plus solver queries; "
                    "traces_validated = concrete runs of the same harness on the ordinary package that agreed",
        ),
        assumptions=["floats are treated as exact reals; float literals as the simple rational they round to"]
        + getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2), violations=nviol,
    )
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if os.environ.get("SYMX_VERBOSE"):
        for r in sorted(results, key=lambda r: -r.wall):
            print(f"  {r.name:50s} {r.status:12s} paths={r.paths} q={r.queries} val={r.validated}/{r.rejected} wit={r.witness} solver={r.solver_s:.1f} wall={r.wall:.1f}")
    print(f"{pid}: {len(results)} cases, {tot('paths')} paths, {tot('assertions')} assertions, {tot('queries')} queries, "
          f"{tot('validated')} validated, {nviol} violations, {len(incon)} undecided, {time.time() - t0:.1f}s")
    if nviol:
        return 1
    # A case that could not be encoded was not explored: it is listed above and in
    # the evidence.  No answer at all is given only when most cases are in that state.
    if 2 * len(incon) > len(results):
        return 2
    return 0
