"""Write DESIGN.md: hand-written text plus bounds taken from the check modules
and findings taken from known_findings.txt."""
import glob, importlib, json, os, re, sys

sys.path.insert(0, "/verif")

HEAD = """# Design: solver-based checking of opinf

(Generated by `tools/mkdesign.py`: the bounds come from the check modules, the
findings from `known_findings.txt`; everything else is written by hand there.)

## 1. The technique

`opinf` is a pure Python package: each guarantee is an identity or inequality
over arrays of reals, for *all* contents of these arrays. The checks decide it
by **bounded symbolic execution of the real source**:

1. `check.py ID` imports `opinf` from `/repo/src` afresh (never from a copy or
   cache), while `symx/patch.py` replaces the numerical libraries *as seen by
   the opinf modules* (`numpy`, `scipy.linalg`, `scipy.sparse`, `scipy.interpolate`,
   `scipy.integrate`, `scipy.stats`, `scipy.optimize`, `h5py`, `time`, `signal` where needed) by facades.
   The Python code of the repository is executed unchanged; only the compiled
   leaves are replaced.
2. Facade arrays (`symx/arr.py`) are object arrays of symbolic reals: polynomials
   and rational functions in normal form with named square roots / inverses / order
   statistics (`symx/core.py`). Arithmetic, broadcasting, slicing, views, in-place
   updates and dtype truncation follow numpy; memory aliasing is real.
3. A data dependent branch (`if`, `bool()`, `argmin`, comparison, `max`, sort)
   forks the path: z3 decides which outcomes are feasible under the path condition,
   and every feasible one is explored (re-execution with a decision prefix).
4. Factorisations (SVD, eigh, Cholesky, QR, inverse, lstsq, solve) are replaced by
   their **postconditions**: fresh symbols constrained by U'U = I, A = U S V', etc., or
   inputs are constructed in factored form (data = U diag(s) V' with symbolic
   orthonormal factors). `h5py` is an in-memory implementation with its semantics
   for names, groups, attributes and shapes (`symx/h5fake.py`); interpolators are
   the exact Lagrange interpolant (1-D) or an arbitrary value that agrees at
   the nodes (N-D); `solve_ivp` is a recorder that returns any trajectory; the random
   generator returns any vector; `signal`/`time` are clocks with free durations.
5. Each property is an assertion `c.eq/true/le/raises` on the outputs. It is
   discharged by normal-form identity when the difference reduces to zero and otherwise
   by z3 (QF_NRA/LRA): is the negation satisfiable under the path condition?
   `unsat` = holds for every real value inside the bounds. `sat` = a model is
   extracted, **replayed on the unpatched package with ordinary floats**
   (`replay.py`), and only a replay that fails too is reported as
   `VIOLATION property=<id> replay=<file>`. A solver time-out gives `undecided`, which is reported in
   the evidence and never counted as holding (currently 0 everywhere).
6. As a guard for the facades, each completed path is also executed concretely on
   the real numpy/scipy/h5py with values satisfying its path condition
   ("traces_validated_against_impl" in the evidence); a disagreement is an error of the
   machinery and shows up as such.

Vacuity guard: a path that ends without reaching at least one assertion is an
error, as is a case whose assumptions are unsatisfiable. Case names are unique
and the evidence lists samples of them, and the functions of opinf that were executed.

What it cannot see: floating-point rounding, larger arrays than the bounds,
the compiled leaves themselves. The shapes, option values and orders of calls are
enumerated by the harness (they are the bounds); the *contents* are decided by
the solver.

`quick` runs the bounds below in seconds to minutes on 8 cores; `thorough`
(`VERIF_TIER=thorough`) widens shapes and option products.

## 2. Files

| file | role |
|---|---|
| `check.py`, `replay.py` | entry points: run a check / replay one counterexample on the real package |
| `symx/core.py` | symbolic reals, path exploration, z3 interface |
| `symx/arr.py`, `lin.py`, `sps.py`, `interp.py`, `stats.py`, `h5fake.py` | facades of numpy, scipy.linalg, scipy.sparse, scipy.interpolate, scipy.stats, h5py |
| `symx/patch.py` | imports opinf from the source tree with the facades in place |
| `symx/harness.py`, `runner.py` | the context `c` given to each case, parallel runner, evidence, violations |
| `checks/cNN.py` | one module per property: cases (shapes, options, histories) and assertions |
| `checks/objs.py`, `preutil.py`, `c27b.py` | catalogue of serialisable objects, transformer factory, second half of C27 |
| `tools/` | generators of MANIFEST/properties/DESIGN/seeds, mutation helper |
| `seeded/` | planted bugs (never read by a check) |

No hooks are needed in /repo.

## 3. Properties
"""

HOW = {
"C01": "operators are built on symbolic entries; apply(q, u) is compared with entries @ datablock(q, u), and batches with single snapshots.",
"C02": "the oracle is symbolic differentiation of the polynomial that apply()/rhs() returned (normal forms are differentiated exactly), not a formula copied from the code.",
"C03": "W'V invertible is an assumption on symbolic bases; the projected operator is evaluated at symbolic reduced states and compared with solve(W'V, W' f(Vq)); normal forms over the ideal of the basis equations, z3 for the rest.",
"C04": "compress/expand are compared as functions on a symbolic state, symmetric under permutation of factors, and as identities on entries.",
"C05": "the solver is replaced by a recorder returning a *free* candidate; the residual D x - y it was given must equal rhs_model(candidate) - lhs, identically in data and candidate. A dropped term, wrong block order, double subtraction or shifted index makes the polynomials differ.",
"C06": "as C05 with symbolic parameter values and coefficient functions; interpolated models are compared at each training parameter.",
"C07": "rhs vs sum of applications; predict vs an explicit recurrence; solve_ivp is replaced by a recorder that evaluates the handed function/Jacobian at symbolic times and states.",
"C08": "gradient of the documented objective at the returned solution is zero, using postconditions of lstsq/SVD/solve; re-fit and regulariser changes included.",
"C09": "definitions written out elementwise from the documentation; posterior via inverse Gram identities (M @ cov = I, no formula copied).",
"C10": "data = U diag(s) V' symbolic; oracle is V_k S_k^-1 U_k' b; total least squares through null-vector identities.",
"C11": "inverse_transform(transform(X)) = X as rational identities, with the scalings' denominators assumed non-zero; order statistics (min, max, maxabs) fork.",
"C12": "transform(X1) - transform(X2) = transform_ddts(X1 - X2).",
"C13": "documented mean/min/max/std/norm of the training data, aliasing of in/out arrays, refit = fresh fit.",
"C14": "blocks versus members run alone; chains versus explicit sequential application.",
"C15": "orthonormal symbolic bases (optionally in a weighted inner product, W = L L'); projection identities, rows, reported errors.",
"C16": "free ordered singular values and free threshold; minimality stated as two inequalities (r satisfies, r-1 does not), independent of the implementation's search.",
"C17": "states are polynomials with free coefficients sampled at t0 + i dt with free dt; the derivative is known exactly; alignment follows since every column is checked against its own time.",
"C18": "monomials with rational orders represented exactly by root symbols; chain rule by symbolic differentiation.",
"C19": "whole pipeline with recording model/solver; composition spelled out with the stages' own public methods.",
"C20": "training errors per candidate are free reals (including inf/nan); optimality as inequalities over all candidates; the optimiser is an adversary returning any point in the bounds it was handed.",
"C21": "norms spelled out; square roots as symbols with s^2 = x, s >= 0.",
"C22": "in-memory h5py; object before = object after = loaded object, observed through a behavioural probe per class (`checks/objs.py`), again after refit.",
"C23": "same catalogue; copy is changed through every route and the original is probed; equality both ways over pairs of objects with free contents.",
"C24": "affine: coefficient functions are uninterpreted (a fresh real per function and parameter); interpolated: entries at training values; data blocks vs coefficients.",
"C25": "history then final call vs fresh object with final call only; observed through probes.",
"C26": "re-projected data vs recurrence of the projected model on symbolic full models.",
"C27": "each malformed call must raise, and probes before/after must agree; valid neighbours must be accepted (no over-rejection). NaN/Inf are concrete poison values at every position.",
"C28": "multivariate_normal.rvs = mean + any vector; draws are followed through predict; the posterior is compared with C09's definition.",
"C29": "`time`, `signal` and the alarm are stand-ins: clocks with free origins and durations, the alarm fires at the first moment the limit is exceeded; all orders of expiry and step ends are explored by the path condition.",
"C31": "verify() is run with np.random replaced by free symbols: on conforming objects it must pass for *all* draws, on non-conforming ones it must raise for all draws (outside a null set that is assumed away), and the object must be unchanged.",
}

NOTES = {
"C11": "Row selections through chains that contain a variable-wise member are outside: the library drops them by design of TransformerMulti.",
"C16": "Fitted singular values are bounded to [0.05, 1000] and at least 0.05 apart so that the vectors are unique.",
"C19": "The statement excludes lifters from 'encoding a decoded state returns it': lifted states do not stay on the lifted manifold.",
"C20": "Constant trajectories disable the stability limit (documented), and the discrete selection does not compare the last snapshot; both are outside.",
"C22": "Outside: `==` is not defined for Shift/Scale/Null transformers and pipelines; the submodels used only during refit of interpolated models are not restored; loading does not check the class name of models.",
"C27": "By design, hence outside: ConstantOperator.apply ignores the state; discrete models accept longer inputs; re-projection extra inputs; lifters' broadcasting; the parameter dimension of affine operators is fixed by their first evaluation; unsized TransformerMulti with 1-D data; compress/expand of rectangular or 1-D entries; zero or negative PODBasis dimension; the wording of errors.",
"C29": "A user's own TimeoutError raised inside a limited block is reported as expiry; a previous SIGALRM handler is not restored (neither is documented).",
}

FALSE = """
## 5. False alarms met on the way (corrected in the machinery)

- C02/C04/C05: comparing integer arrays exposed dtype truncation in the *harness*
  (np.zeros_like on concrete ints); facades now carry dtype kinds.
- C11/C14: 'rows of a chain' was too strong for chains with variable-wise members: statement narrowed.
- C16: ties at the machine epsilon cut-off of the method of snapshots: data are bounded away from it.
- C17: masks of 3-D arrays are not claimed for interpolating estimators (not documented).
- C19: encode(decode(q)) = q does not hold through a lifter: reworded.
- C20: candidates <= 0 with follow-up optimisation are documented as not allowed.
- C22/C23: comparisons with numpy.allclose are equal 'to tolerance'; the statement says so.
- C25: an affine operator's parameter dimension and a hand-set reduced dimension are documented state: excluded.
- C27: broadcasting of scalars/0-d arrays that numpy users rely on is accepted, not a violation.
- C29: nested blocks with two limits share the one process alarm: excluded.

## 6. What does not apply

- **C30** (accuracy of continuous predictions): a property of scipy's adaptive
  integrators in floating point (compiled code), not encodable; what this repository
  contributes to it (right-hand side, Jacobian, inputs, initial state) is C07.
- Plotting (`plot_*`), printing (`__str__`, verbose reports) and download helpers are not claimed.
"""

props = [json.loads(l) for l in open("/verif/properties.jsonl")]
out = [HEAD]
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    f = f"/verif/checks/{i.lower()}.py"
    if not os.path.exists(f):
        out.append("Not applicable (section 6).\n")
        continue
    m = importlib.import_module(f"checks.{i.lower()}")
    out.append(f"How: {HOW[i]}\n")
    out.append(f"Bounds: {m.BOUNDS}.\n")
    out.append(f"Outside: {m.OUTSIDE}.\n")
    if i in NOTES:
        out.append(NOTES[i] + "\n")
out.append("## 4. Genuine defects found\n")
out.append("All were repaired by `fix:` commits in /repo; none is left as a known finding"
           " unless listed as `known:` below.\n")
for l in open("/verif/known_findings.txt"):
    if l.startswith(("fixed:", "known:")):
        mm = re.match(r"(fixed|known): property=(\S+) (\S+) (.*)", l)
        out.append(f"- {mm[2]} {'`' + mm[3] + '`' if mm[1]=='fixed' else '(known) ' + mm[3]} {mm[4]}")
out.append(FALSE)
out.append("## 7. Planted bugs\n\nEach was written from the property text and the code, passes the existing tests, and is caught by the check named.\n")
out.append("| id | property | needs | breaks |\n|---|---|---|---|")
for d in sorted(glob.glob("/verif/seeded/*/meta.json")):
    j = json.load(open(d))
    out.append(f"| {os.path.basename(os.path.dirname(d))} | {j['property']} | {j['needs']} | {j['what_it_breaks']} |")
extra = "/verif/tools/mutation_notes.md"
if os.path.exists(extra):
    out.append("\n" + open(extra).read())
open("/verif/DESIGN.md", "w").write("\n".join(out) + "\n")
print(len("\n".join(out)))
