"""Harness interface: the same harness runs symbolically (against the facade
import of opinf) and concretely (against the ordinary import)."""

import os
import math
import time
import random
import shutil
import sys
import tempfile
import traceback
import warnings
from fractions import Fraction

import numpy as np


class Violated(BaseException):
    """Concrete run: the property failed."""


class Rejected(BaseException):
    """Concrete run: an assumption does not hold for these inputs."""


class SetupError(BaseException):
    pass


TOL = 1e-6


def _num_eq(a, b, scale=1.0):
    a, b = float(a), float(b)
    if not (math.isfinite(a) and math.isfinite(b)):
        return (math.isnan(a) and math.isnan(b)) or a == b
    return abs(a - b) <= TOL * (1.0 + max(abs(a), abs(b))) * scale


def _dense(x):
    if hasattr(x, "_symx_sparse") or type(x).__module__.startswith("scipy.sparse"):
        return x.toarray()
    return x


class Base:
    """Shared helpers.  `op` is the opinf package to exercise."""

    symbolic = False

    def scratch(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="symx_")
        return self._tmp

    def path(self, name):
        return os.path.join(self.scratch(), name)

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    def vec(self, name, n, **k):
        return self.real(name, (n,), **k)

    def raises(self, label, excs, fn):
        """fn() must raise one of excs (any Exception subclass if None)."""
        try:
            fn()
        except excs if excs is not None else Exception:
            self.ok(label)
            return
        self.fail(label, "no exception was raised")

    def orthonormal(self, name, n, r):
        """Arbitrary n x r orthonormal columns, by the Cayley transform of a
        symbolic skew matrix (dense in the rotations), times a symbolic-free
        reflection-free frame."""
        N = (n * (n - 1)) // 2
        p = self.real(name, (N,))
        one = 1
        S = self.zeros((n, n))
        t = 0
        for i in range(n):
            for j in range(i):
                S[i, j] = p[t]
                S[j, i] = -p[t]
                t += 1
        E = self.eye(n)
        Q = self.matsolve(E + S, E - S)
        return Q[:, :r]


class Conc(Base):
    """Concrete run on the real package, with given or random inputs."""

    def __init__(self, op, inputs=None, seed=None):
        import scipy.interpolate
        import scipy.sparse

        self.op = op
        self.np = np
        self.sparse, self.interpolate = scipy.sparse, scipy.interpolate
        self.given = inputs
        self.rng = random.Random(seed)
        self.used = {}
        self.checks = 0
        self._tmp = None
        self._patched = []
        self.observed = []

    # inputs
    def _draw(self, name, dom):
        if self.given is not None and name in self.given:
            v = float(self.given[name])
        elif self.given is not None:
            v = 0.0 if dom == "any" else 1.0
        else:
            v = self.rng.randrange(-2000, 2001) / 1000.0
            if dom in ("pos", "nonneg"):
                v = abs(v) + 0.05
            elif dom == "nonzero" and abs(v) < 0.05:
                v = 0.7
        if dom == "pos" and not v > 0 or dom == "nonneg" and not v >= 0 or dom == "nonzero" and v == 0:
            raise Rejected(name)
        self.used[name] = v
        return v

    def real(self, name, shape=(), dom="any"):
        if shape == ():
            return self._draw(name, dom)
        a = np.empty(shape)
        for ix in np.ndindex(*shape):
            a[ix] = self._draw(name + "_" + "_".join(map(str, ix)), dom)
        return a

    def const(self, x):
        return np.array(x, dtype=float)

    def zeros(self, s):
        return np.zeros(s)

    def eye(self, n):
        return np.eye(n)

    def matsolve(self, A, B):
        return np.linalg.solve(A, B)

    def sqrt(self, x):
        return np.sqrt(x)

    def assume(self, cond):
        if not bool(np.all(cond)):
            raise Rejected()

    def assume_eq(self, a, b):
        if not np.allclose(a, b, atol=1e-9):
            raise Rejected()

    # assertions
    def ok(self, label):
        self.checks += 1

    def fail(self, label, why=""):
        raise Violated(f"{label}: {why}")

    def eq(self, label, a, b, shape=True, loose=1.0):
        a, b = _dense(a), _dense(b)
        if a is None or b is None:
            if a is None and b is None:
                return self.ok(label)
            return self.fail(label, f"{a!r} vs {b!r}")
        try:
            a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        except (TypeError, ValueError) as e:
            return self.fail(label, f"not numeric arrays: {e}")
        if shape and a.shape != b.shape:
            return self.fail(label, f"shape {a.shape} vs {b.shape}")
        self.observed.append((label, a, b))
        A, B = np.broadcast_arrays(a, b)
        big = max([1.0] + [abs(float(v)) for v in A.flat if math.isfinite(v)] + [abs(float(v)) for v in B.flat if math.isfinite(v)])
        for x, y in zip(A.flat, B.flat):
            if not _num_eq(x, y, loose) and not abs(x - y) <= 1e-9 * big * loose:
                return self.fail(label, f"{a.tolist()} vs {b.tolist()}")
        self.ok(label)

    def true(self, label, cond, why=""):
        if not bool(np.all(cond)):
            return self.fail(label, why or "condition is false")
        self.ok(label)

    def le(self, label, a, b):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if not np.all(a <= b + TOL * (1 + np.abs(b))):
            return self.fail(label, f"{a} > {b}")
        self.ok(label)

    def note(self, s):
        pass

    def opt(self, key, value):
        pass

    def clear(self, x):
        """Is x (a condition value) safely away from rounding trouble?  Only
        meaningful concretely: rejects inputs closer than 1e-6 to a tie."""
        if np.any(np.abs(np.asarray(x, dtype=float)) < 1e-6):
            raise Rejected()

    def stub(self, key, symval, concval):
        return concval

    def replace(self, target, fn):
        """Stand in for the scipy routine `target` ("integrate.solve_ivp")."""
        import importlib

        mod, name = target.rsplit(".", 1)
        module = importlib.import_module("scipy." + mod)
        orig = getattr(module, name)
        self._patched.append((module, name, orig))
        setattr(module, name, fn)
        for m in [m for k, m in list(sys.modules.items()) if k == "opinf" or k.startswith("opinf.")]:
            for g, v in list(vars(m).items()):
                if v is orig:
                    self._patched.append((m, g, orig))
                    setattr(m, g, fn)

    def observe(self, name, x):
        pass


def run_concrete(fn, params, op, inputs=None, seed=None):
    """('ok'|'reject'|'violation', detail, Conc)"""
    c = Conc(op, inputs, seed)
    cwd = os.getcwd()
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            try:
                fn(c, **params)
            except Rejected as e:
                return "reject", str(e), c
            except Violated as e:
                return "violation", str(e), c
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                where = next((f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb) if "/opinf/" in f.filename), "")
                harness_only = not any("/opinf/" in f.filename for f in tb)
                if harness_only:
                    return "violation", f"result unusable: {type(e).__name__}: {e}", c
                return "violation", f"unexpected {type(e).__name__}: {e} ({where})", c
        return "ok", "", c
    finally:
        for mod, name, orig in reversed(c._patched):
            setattr(mod, name, orig)
        os.chdir(cwd)
        c.cleanup()


# Symbolic side ---------------------------------------------------------------
class CaseResult:
    def __init__(self, name):
        self.name = name
        self.status = "ok"  # ok | violation | inconclusive
        self.detail = ""
        self.cex = None
        self.paths = 0
        self.completed = 0
        self.decided = 0
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.branches = 0
        self.solver_s = 0.0
        self.wall = 0.0
        self.validated = 0
        self.rejected = 0
        self.witness = 0
        self.assertions = 0
        self.funcs = set()
        self.notes = set()
        self.sample = None


class SymCex(BaseException):
    """A feasible violation on the current path."""

    def __init__(self, label, why, models):
        self.label, self.why, self.models = label, why, models


class Inconclusive(BaseException):
    pass


def make_sym(op, core_ctx, timeout):
    import z3
    from . import core, arr, lin, patch
    from .core import Sym, SymBool, bexpr

    class SymH(Base):
        symbolic = True

        def __init__(self):
            self.op = op
            self.np = arr_np
            self.sparse, self.interpolate = (patch._FACADES["scipy." + k] for k in ("sparse", "interpolate"))
            self.c = core_ctx
            self._tmp = None
            self.assertions = 0
            self.obs = []

        def real(self, name, shape=(), dom="any"):
            if shape == ():
                s = self.c.var(name)
                self._dom(s, dom)
                return s
            a = np.empty(shape, dtype=object)
            for ix in np.ndindex(*shape):
                s = self.c.var(name + "_" + "_".join(map(str, ix)))
                self._dom(s, dom)
                a[ix] = s
            return a.view(arr.SymArray)

        def _dom(self, s, dom):
            if dom == "pos":
                self.c.assume(s > 0)
            elif dom == "nonneg":
                self.c.assume(s >= 0)
            elif dom == "nonzero":
                self.c.assume(s != 0)

        def const(self, x):
            return arr.mk(np.array(x, dtype=float))

        def zeros(self, s):
            return arr.zeros_(s)

        def eye(self, n):
            return arr.eye_(n)

        def matsolve(self, A, B):
            return lin.solve(A, B)

        def sqrt(self, x):
            return arr.SPECIAL["sqrt"][0](x) if not isinstance(x, Sym) else x.sqrt()

        def assume(self, cond):
            if isinstance(cond, np.ndarray):
                for v in cond.flat:
                    self.c.assume(v)
            else:
                self.c.assume(cond)

        def assume_eq(self, a, b):
            a, b = np.broadcast_arrays(arr.A_(a), arr.A_(b))
            for x, y in zip(a.flat, b.flat):
                self.c.assume(x == y)

        def ok(self, label):
            self.assertions += 1

        def opt(self, key, value):
            self.c.opts[key] = value

        def replace(self, target, fn):
            self.c.opts[target] = fn
            self.c.notes.add(f"{target}: replaced by the harness's recorder")

        def note(self, s):
            self.c.notes.add(s)

        def clear(self, x):
            pass

        def stub(self, key, symval, concval):
            return symval

        def observe(self, name, x):
            self.obs.append((name, x))

        def _models(self, goal, margins=()):
            """Up to a few satisfying assignments of path & goal, tame first."""
            out = []
            iv = list(self.c.inputs.values())
            tame = [z3.And(v >= -4, v <= 4) for v in iv]
            tries = []
            for m in margins:
                tries.append([m] + tame)
            tries += [[goal] + tame, [goal]]
            for t in tries:
                r, m = core.solve(list(self.c.pc) + t, timeout)
                if r == "sat":
                    try:
                        out.append({k: core.model_value(m, v) for k, v in self.c.inputs.items()})
                    except core.EngineLimit:
                        continue
                if len(out) >= 3:
                    break
            return out

        def fail(self, label, why=""):
            raise SymCex(label, why, self._models(z3.BoolVal(True)))

        def _assert(self, label, goals, margins, why):
            """goals: z3 Bools whose disjunction violates the property."""
            self.assertions += 1
            if not goals:
                return
            neg = z3.Or(*goals) if len(goals) > 1 else goals[0]
            r, _ = self.c.query([neg], timeout)
            if r == "unsat":
                return
            if r == "unknown" and len(goals) > 1:
                # one at a time
                bad = None
                for g, m in zip(goals, margins):
                    r1, _ = self.c.query([g], timeout)
                    if r1 != "unsat":
                        bad = (r1, g, m)
                        if r1 == "sat":
                            break
                if bad is None:
                    return
                r, neg, mg = bad
                margins = [mg]
            mods = []
            if r == "sat":
                mg = [m for m in margins if m is not None]
                mods = self._models(neg, [z3.Or(*mg)] if mg else [])
            raise SymCex(label, why if r == "sat" else f"undecided by the solver; {why}", mods)

        def eq(self, label, a, b, shape=True, loose=1.0):
            a, b = _dense(a), _dense(b)
            if a is None or b is None:
                if a is None and b is None:
                    return self.ok(label)
                return self.fail(label, "None on one side")
            A, B = arr.A_(a), arr.A_(b)
            if shape and A.shape != B.shape:
                return self.fail(label, f"shape {A.shape} vs {B.shape}")
            self.obs.append((label, A, B))
            A, B = np.broadcast_arrays(A, B)
            goals, margins = [], []
            for x, y in zip(A.flat, B.flat):
                if isinstance(x, SymBool):
                    x = x._asnum()
                if isinstance(y, SymBool):
                    y = y._asnum()
                if not isinstance(x, Sym) and isinstance(y, Sym):
                    x, y = y, x
                if isinstance(x, Sym):
                    if isinstance(y, (float, np.floating)) and not math.isfinite(y):
                        return self.fail(label, f"undefined value (NaN/inf)")
                    if not isinstance(y, Sym) and not core.isnum(y):
                        return self.fail(label, f"non-numeric {type(y)}")
                    e = x.cmp(y, "ne")
                    goals.append(e)
                    dlt = x - y
                    margins.append(dlt * dlt >= Fraction(1, 100) if isinstance(dlt, Sym) else None)
                else:
                    if not core.isnum(x) or not core.isnum(y):
                        if x is y or x == y:
                            continue
                        return self.fail(label, f"{x!r} vs {y!r}")
                    if not _num_eq(x, y, loose):
                        return self.fail(label, f"{x} vs {y}")
            margins = [bexpr(m) if m is not None else None for m in margins]
            self._assert(label, goals, margins, "values differ")

        def true(self, label, cond, why=""):
            cs = list(cond.flat) if isinstance(cond, np.ndarray) else [cond]
            goals = []
            for v in cs:
                if isinstance(v, (SymBool, Sym)):
                    goals.append(z3.Not(bexpr(v)))
                elif not bool(v):
                    return self.fail(label, why or "condition is false")
            self._assert(label, goals, [None] * len(goals), why or "condition is false")

        def le(self, label, a, b):
            A, B = np.broadcast_arrays(arr.A_(a), arr.A_(b))
            goals, margins = [], []
            for x, y in zip(A.flat, B.flat):
                v = x <= y
                if isinstance(v, SymBool):
                    goals.append(z3.Not(v.e))
                    dlt = x - y
                    m = dlt >= Fraction(1, 10)
                    margins.append(bexpr(m))
                elif not v:
                    if core.isnum(x) and core.isnum(y) and x <= y + TOL * (1 + abs(y)):
                        continue
                    return self.fail(label, f"{x} > {y}")
            self._assert(label, goals, margins, "order violated")

    return SymH()


arr_np = None


class _Budget(BaseException):
    pass


def run_case(name, fn, params, real_op, sym_op, seed, timeout=20000, max_paths=400, wall=240, nval=2, trace_funcs=True):
    """Explore all paths of one harness; decide, replay, validate."""
    global arr_np
    import sys
    import z3
    from . import core, arr, patch

    if arr_np is None:
        arr_np = arr.NpFacade()
    res = CaseResult(name)
    t0 = time.time()
    core.STATS = core.Stats()
    work = [[]]
    cands = []  # (label, why, model) to replay
    limit = None
    funcs = set()

    def prof(frame, event, arg):
        if event == "call":
            co = frame.f_code
            if "/opinf/" in co.co_filename:
                funcs.add(co.co_filename.split("/opinf/")[-1] + ":" + co.co_qualname)

    path_models = []
    while work:
        if res.paths >= max_paths or time.time() - t0 > wall:
            limit = f"path/time budget exhausted after {res.paths} paths, {len(work)} left"
            break
        prefix = work.pop()
        c = core.Context(prefix, decide_timeout=timeout)
        h = make_sym(sym_op, c, timeout)
        res.paths += 1
        outcome = None
        if trace_funcs and res.paths <= 3:
            sys.setprofile(prof)
        with core.activate(c), patch.active_symbolic(), warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            try:
                fn(h, **params)
                outcome = "done"
            except core.PathAbort:
                outcome = "infeasible"
            except core.EngineLimit as e:
                sys.setprofile(None)
                tb = traceback.extract_tb(e.__traceback__)
                where = next((f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb) if "/opinf/" in f.filename), "")
                limit = f"encoding limit: {e} ({where})"
                outcome = "limit"
            except SymCex as e:
                sys.setprofile(None)
                outcome = "cex"
                for m in e.models:
                    cands.append((e.label, e.why, m))
                if not e.models:
                    cands.append((e.label, e.why, None))
            except Exception as e:
                sys.setprofile(None)
                outcome = "exception"
                tb = traceback.extract_tb(e.__traceback__)
                where = next((f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb) if "/opinf/" in f.filename), "") or "; ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[-3:])
                why = f"{type(e).__name__}: {e} ({where})"
                if os.environ.get("SYMX_TB"):
                    traceback.print_exc()
                r, _ = core.solve(list(c.pc), timeout)
                if r == "unsat":
                    outcome = "infeasible"
                else:
                    ms = h._models(z3.BoolVal(True))
                    for m in ms:
                        cands.append(("exception", why, m))
                    if not ms:
                        cands.append(("exception", why, None))
            finally:
                sys.setprofile(None)
                h.cleanup()
        res.notes |= c.notes
        work.extend(c.alternatives)
        res.assertions += h.assertions
        if outcome == "done":
            res.completed += 1
            if not h.assertions:
                limit = "a path completed without reaching any assertion"
            # reachability witness: assert(false) at the end must be satisfiable
            if res.witness < 3:
                ms = []
                iv = list(c.inputs.values())
                r, m = core.solve(list(c.pc) + [z3.And(v >= -4, v <= 4) for v in iv], min(timeout, 5000))
                if r != "sat":
                    r, m = core.solve(list(c.pc), timeout)
                if r == "sat":
                    res.witness += 1
                    try:
                        path_models.append({k: core.model_value(m, v) for k, v in c.inputs.items()})
                    except core.EngineLimit:
                        pass
                elif r == "unsat" and not any(b for _, b in c.trace):
                    limit = "assumptions are unsatisfiable (vacuous harness)"
        if outcome in ("cex", "exception") or outcome == "limit":
            break
    res.funcs = funcs

    # Replay candidates on the real package.
    confirmed = None
    for label, why, m in cands:
        if m is None:
            continue
        st, det, cc = run_concrete(fn, params, real_op, {k: float(v) for k, v in m.items()})
        if st == "violation":
            confirmed = (label, why, det, cc.used, "solver")
            break
    rng = random.Random((seed, name).__repr__())
    if confirmed is None and (cands or limit):
        # The solver produced no replayable model: search for a concrete witness.
        for i in range(60):
            st, det, cc = run_concrete(fn, params, real_op, None, rng.random())
            if st == "violation":
                confirmed = (cands[0][0] if cands else "validation", cands[0][1] if cands else limit, det, cc.used, "search")
                break
    if confirmed is None:
        # Encoding validation: the same harness on the real code.
        for m in path_models[:2]:
            st, det, cc = run_concrete(fn, params, real_op, {k: float(v) for k, v in m.items()})
            if st == "ok":
                res.validated += 1
            elif st == "reject":
                res.rejected += 1
            # degenerate model points may be ill-conditioned: only generic points count as violations
        tries = 0
        while tries < 12 * nval and res.validated < nval + min(2, len(path_models)):
            tries += 1
            st, det, cc = run_concrete(fn, params, real_op, None, rng.random())
            if st == "ok":
                res.validated += 1
                if res.sample is None:
                    res.sample = {k: v for k, v in list(cc.used.items())[:6]}
            elif st == "reject":
                res.rejected += 1
            else:
                # must be reproducible at another point to count
                again = 0
                for _ in range(30):
                    st2, det2, cc2 = run_concrete(fn, params, real_op, None, rng.random())
                    if st2 == "violation":
                        again = 1
                        break
                if again:
                    confirmed = ("validation", "real code disagrees with the property at sampled inputs", det, cc.used, "validation")
                break
    if confirmed is not None:
        res.status = "violation"
        res.detail = f"{confirmed[0]}: {confirmed[2]} [{confirmed[1]}; found by {confirmed[4]}]"
        res.cex = confirmed[3]
    elif cands:
        res.status = "inconclusive"
        res.detail = f"counterexample did not reproduce: {cands[0][0]}: {cands[0][1]}"
    elif limit:
        res.status = "inconclusive"
        res.detail = limit
    elif res.completed == 0:
        res.status = "inconclusive"
        res.detail = "no path reached the end of the harness"
    elif res.witness == 0 and res.validated == 0:
        res.status = "inconclusive"
        res.detail = "no reachability witness"
    s = core.STATS
    res.queries, res.unsat, res.sat, res.unknown = s.queries, s.unsat, s.sat, s.unknown
    res.branches, res.solver_s = s.branches, s.solver_s
    res.wall = time.time() - t0
    return res
