"""Common machinery: strategies, comparisons, running one sub-check, replaying one case."""
import hashlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

import numpy as np
import hypothesis
from hypothesis import HealthCheck, Phase, given, settings
from hypothesis import strategies as st

REPO_PKG = os.path.realpath("/repo/quantum_systems") + os.sep


class Violation(Exception):
    """The oracle disagrees with the code under test."""


class HarnessError(Exception):
    pass


class Hang(BaseException):
    """One case has run for minutes where it takes seconds: no result will come."""


# --------------------------------------------------------------------------- comparisons


def require(cond, msg):
    if not cond:
        raise Violation(msg)


def as_array(name, a):
    if a is None:
        raise Violation(f"{name}: is None, expected an array")
    try:
        out = np.asarray(a)
    except Exception as e:
        raise Violation(f"{name}: not an array ({type(a).__name__}: {e})")
    if out.dtype == object:
        try:
            out = out.astype(complex)
        except Exception:
            raise Violation(f"{name}: not numeric ({type(a).__name__})")
    return out


def close(name, actual, expected, tol=1e-9, scale=None):
    """Largest absolute deviation at most tol * scale (scale: largest expected magnitude, at least 1)."""
    expected = np.asarray(expected)
    actual = as_array(name, actual)
    if actual.shape != expected.shape:
        raise Violation(f"{name}: shape {actual.shape}, expected {expected.shape}")
    if actual.size == 0:
        return
    if not np.all(np.isfinite(actual)):
        raise Violation(f"{name}: contains non-finite values")
    if scale is None:
        scale = max(1.0, float(np.max(np.abs(expected))))
    diff = np.abs(actual - expected)
    worst = float(np.max(diff))
    if worst > tol * scale:
        i = np.unravel_index(int(np.argmax(diff)), diff.shape)
        raise Violation(
            f"{name}: at {tuple(int(k) for k in i)} got {actual[i]!r}, expected {expected[i]!r} "
            f"(|difference| {worst:.3g} > {tol * scale:.3g})"
        )


def tight(name, actual, expected, bound, tol=1e-12):
    """Element by element: within tol of `bound`, the same sum over the magnitudes of its terms (so any order of
    summation passes, and an element of size 1e-9 next to one of size 1 still has to be right)."""
    expected, bound = np.asarray(expected), np.abs(np.asarray(bound))
    actual = as_array(name, actual)
    if actual.shape != expected.shape:
        raise Violation(f"{name}: shape {actual.shape}, expected {expected.shape}")
    if actual.size == 0:
        return
    if not np.all(np.isfinite(actual)):
        raise Violation(f"{name}: contains non-finite values")
    allowed = tol * bound + 1e-15 * float(np.max(bound)) + 1e-280
    bad = np.abs(actual - expected) > allowed
    if np.any(bad):
        i = np.unravel_index(int(np.argmax(bad)), bad.shape)
        raise Violation(
            f"{name}: at {tuple(int(k) for k in i)} got {actual[i]!r}, expected {expected[i]!r} "
            f"(|difference| {abs(actual[i] - expected[i]):.3g} > {np.broadcast_to(allowed, bad.shape)[i]:.3g})"
        )


class Kept:
    """Results handed out earlier belong to the caller: later calls must not change them."""

    def __init__(self):
        self.items = []

    def add(self, name, got, *stored):
        """Unless the result is one of the stored arrays themselves."""
        if isinstance(got, np.ndarray) and got.ndim and not any(
            isinstance(x, np.ndarray) and np.shares_memory(got, x) for x in stored
        ):
            self.items.append((name, got, got.copy()))
        return got

    def check(self):
        for name, ref, val in self.items:
            same(f"result returned earlier ({name})", ref, val)


def same(name, actual, expected):
    """Bitwise equal values (used for: must not have been touched)."""
    expected = np.asarray(expected)
    actual = as_array(name, actual)
    if actual.shape != expected.shape or not np.array_equal(actual, expected, equal_nan=True):
        raise Violation(f"{name}: changed")


def is_complex(name, a):
    a = as_array(name, a)
    require(np.iscomplexobj(a), f"{name}: dtype {a.dtype}, expected complex")


def must_refuse(name, fn, allowed=(Exception,)):
    try:
        fn()
    except allowed:
        return
    raise Violation(f"{name}: accepted, must be refused")


class Unavailable(Exception):
    """An internal helper is gone or takes other arguments (a refactoring): nothing to judge through it."""


def helper(module, name):
    """An internal helper of the package, called with the arguments it takes on the pinned tree."""
    import importlib

    try:
        fn = getattr(importlib.import_module(module), name)
    except (ImportError, AttributeError):
        fn = None

    def call(*args, **kw):
        if fn is None:
            raise Unavailable(name)
        try:
            return fn(*args, **kw)
        except Exception as e:
            if isinstance(e, TypeError) and _through_repo(e) is None and "argument" in str(e):
                raise Unavailable(name)
            raise _compiled(e, name)

    return call


def _compiled(e, name):
    """Exceptions of compiled functions carry no frame of the package: say whose they are."""
    if isinstance(e, Hang) or _through_repo(e) is not None:
        return e
    return Violation(f"raised {type(e).__name__}: {e} (in {name}) on valid input")


def direct(fn):
    """A (possibly compiled) function of the package's interface, called directly by a check."""

    def call(*args, **kw):
        try:
            return fn(*args, **kw)
        except Exception as e:
            raise _compiled(e, getattr(fn, "__name__", "?"))

    return call


# --------------------------------------------------------------------------- strategies

SEEDS = st.integers(0, 2**32 - 1)


def num(lo, hi, default=None, steps=1000):
    """A float on an even grid in [lo, hi], shrinking towards `default` (or lo)."""
    grid = st.integers(0, steps).map(lambda k: round(lo + (hi - lo) * k / steps, 6))
    return grid if default is None else st.one_of(st.just(float(default)), grid, grid, grid, grid)


# gauss: dense; int: small integers (as floats); idtype: integer dtype where real; sparse: half zeros;
# sym: Hermitian matrices, two-body arrays with every physical symmetry; diag: diagonal; real: complex type
# with vanishing imaginary part; tiny: imaginary parts of order 1e-6; fortran, strided: memory layout;
# blocks: only some rows and columns filled; anti: anti-Hermitian matrices, two-body arrays antisymmetric in the last
# two indices; near, near9, nearsym: almost, but not quite, the identity or symmetric; zero: everything vanishes;
# graded: elements of very different size; small: all elements of order 1e-11
KINDS = ["gauss", "int", "sparse", "sym", "gauss", "diag", "real", "tiny", "fortran", "strided", "idtype", "blocks",
         "anti", "near", "nearsym", "gauss", "zero", "near9", "graded", "small"]


def spec(cplx=None):
    return st.fixed_dictionaries(
        {
            "kind": st.sampled_from(KINDS),
            "seed": SEEDS,
            "cplx": st.booleans() if cplx is None else st.just(cplx),
        }
    )


def arr(sp, shape, salt=0, cplx=None):
    """Deterministic array from a generated spec."""
    rng = np.random.RandomState((sp["seed"] + 7919 * salt) % 2**32)
    cplx = sp["cplx"] if cplx is None else cplx

    kind = sp["kind"]

    def one():
        if kind in ("int", "idtype"):
            return rng.randint(-3, 4, size=shape).astype(float)
        a = rng.normal(size=shape)
        if kind == "sparse":
            a = a * (rng.uniform(size=shape) < 0.5)
        return a

    a = one()
    if cplx:
        b = one()
        a = a + 1j * b * {"real": 0.0, "tiny": 1e-6}.get(kind, 1.0)
    matrix = len(shape) in (2, 3) and shape[-1] == shape[-2]
    four = len(shape) == 4 and len(set(shape)) == 1
    if kind == "sym" and matrix:
        a = 0.5 * (a + np.swapaxes(a, -1, -2).conj())
    elif kind == "sym" and four:
        a = 0.5 * (a + a.transpose(1, 0, 3, 2))
        a = 0.5 * (a + a.transpose(2, 3, 0, 1).conj())
    elif kind == "nearsym" and matrix:
        a = 0.5 * (a + np.swapaxes(a, -1, -2).conj()) + 1e-6 * a
    elif kind == "nearsym" and four:
        b = 0.5 * (a + a.transpose(1, 0, 3, 2))
        a = 0.5 * (b + b.transpose(2, 3, 0, 1).conj()) + 1e-6 * a
    elif kind == "anti" and matrix:
        a = 0.5 * (a - np.swapaxes(a, -1, -2).conj())
    elif kind == "anti" and four:
        a = a - a.transpose(0, 1, 3, 2)
    elif kind in ("near", "near9") and matrix:
        a = np.eye(shape[-1]) + (1e-6 if kind == "near" else 1e-9) * a
    elif kind in ("near", "near9") and four:
        e = np.eye(shape[0])
        a = np.einsum("pr,qs->pqrs", e, e) + (1e-6 if kind == "near" else 1e-9) * a
    elif kind == "graded":
        a = a * 10.0 ** -rng.uniform(0, 12, size=shape)
    elif kind == "small":
        a = a * 2.0**-36
    elif kind == "zero":
        a = 0 * a
    elif kind == "diag" and matrix:
        a = a * np.eye(shape[-1])
    elif kind == "diag" and four:
        e = np.eye(shape[0])
        a = a * np.einsum("pr,qs->pqrs", e, e)
    elif kind == "blocks" and (matrix or four):
        keep = (rng.uniform(size=shape[-1]) < 0.6).astype(float)
        a = a * keep
        a = np.swapaxes(np.swapaxes(a, -1, -2) * keep, -1, -2)
    elif kind == "idtype" and not cplx:
        a = a.astype(int)
    elif kind == "fortran":
        a = np.asfortranarray(a)
    elif kind == "strided" and len(shape):
        big = np.zeros(tuple(2 * k for k in shape), dtype=a.dtype)
        view = big[tuple(slice(None, None, 2) for _ in shape)]
        view[...] = a
        a = view
    return a


def laid(v, layout):
    """The same numbers, otherwise laid out in memory."""
    if layout == "F":
        return np.asfortranarray(v)
    if layout == "strided":
        big = np.full(tuple(2 * k for k in v.shape), 99.0, dtype=v.dtype)
        w = big[tuple(slice(None, None, 2) for _ in v.shape)]
        w[...] = v
        return w
    w = v.copy()
    if layout == "readonly":
        w.setflags(write=False)
    return w


def dup(v):
    """A copy laid out in memory as the original is (ndarray.copy would put it in C order)."""
    return laid(v, "C" if v.flags.c_contiguous else "F" if v.flags.f_contiguous else "strided")


def unitary(seed, n, cplx=True):
    rng = np.random.RandomState(seed % 2**32)
    a = rng.normal(size=(n, n))
    if cplx:
        a = a + 1j * rng.normal(size=(n, n))
    if n == 0:
        return a
    q, r = np.linalg.qr(a)
    d = np.diag(r)
    return q * (d / np.abs(d))


def hermitian(sp, n, salt=0):
    a = arr(sp, (n, n), salt)
    return 0.5 * (a + a.conj().T)


def spd(seed, n, cplx=True):
    """Well-conditioned positive-definite overlap with unit-order entries."""
    rng = np.random.RandomState(seed % 2**32)
    u = unitary(seed + 1, n, cplx)
    w = rng.uniform(0.4, 2.0, size=n)
    s = (u * w) @ u.conj().T
    return 0.5 * (s + s.conj().T)


# --------------------------------------------------------------------------- sub-checks


class Sub:
    """One generated check: `fn(case)` raises Violation, or returns an iterable of labels (or None).

    nontrivial(case) -> bool decides which cases count; `fixed` cases run first, always."""

    def __init__(self, name, strategy, fn, quick, thorough, rule, nontrivial=None, fixed=(), shards=1, tshards=None):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.nontrivial = nontrivial or (lambda case: True)
        self.fixed = list(fixed)
        self.shards = shards
        self.tshards = tshards or 4


@st.composite
def neighbours(draw, strategy, keys):
    """A case, one that differs from it in one or two parameters, and the first again: results must
    depend on the arguments alone, not on what was built before in the same process."""
    a, b = draw(strategy), draw(strategy)
    ch = draw(st.lists(st.sampled_from(keys), min_size=1, max_size=2, unique=True))
    return {"l": a.get("l", 2), "cases": [a, {**a, **{k: b[k] for k in ch}}, a]}


def each(fn):
    def run(case):
        out = set()
        for c in case["cases"]:
            out |= set(fn(c) or ())
        return out

    return run


NEIGHBOURS = "two cases that differ"


def differ(case):
    return case["cases"][0] != case["cases"][1]


def canon(case):
    return json.dumps(case, sort_keys=True)


def _through_repo(exc):
    """Did this exception pass through a frame of the package under test?"""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for fr in traceback.extract_tb(exc.__traceback__):
            if os.path.realpath(fr.filename).startswith(REPO_PKG):
                return f"{os.path.relpath(fr.filename, '/repo')}"
        exc = exc.__cause__ or exc.__context__
    return None


EXAMINED = (AttributeError, TypeError, LookupError, ValueError, ArithmeticError)


def evaluate(sub, case):
    """Run one case. Returns labels; raises Violation or HarnessError."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            with np.errstate(all="ignore"):
                return sub.fn(case)
        except Violation:
            raise
        except Unavailable as e:
            return [f"unavailable: {e}"]
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            where = _through_repo(e)
            if where is not None:
                raise Violation(f"raised {type(e).__name__}: {e} (in {where}) on valid input") from None
            if isinstance(e, EXAMINED) and not type(e).__module__.startswith("hypothesis"):
                # the code returned something that the oracle can not even look at: an attribute is missing,
                # an array has fewer axes, a result is not a number
                at = traceback.extract_tb(e.__traceback__)[-1]
                raise Violation(f"result could not be examined: {type(e).__name__}: {e} (at {at.line})") from None
            raise HarnessError(
                f"{sub.name}: {type(e).__name__}: {e}\ncase={canon(case)}\n{traceback.format_exc()}"
            ) from None


def few_threads():
    """The workers share the cores; more threads only where a case asks for them."""
    try:
        import numba

        numba.set_num_threads(min(2, numba.config.NUMBA_NUM_THREADS))
    except Exception:
        pass


def run_task(sub, n_examples, seed, budget_s, with_fixed, limit_s=150, current=None):
    """Returns a result dict (picklable). The running case is kept in the file `current`."""
    t0 = time.time()
    few_threads()
    res = {
        "sub": sub.name, "evaluations": 0, "skipped_budget": 0, "distinct": set(), "samples": [],
        "labels": {}, "failure": None, "error": None,
    }
    st_ = {"first_fail_t": None, "fails": [], "history": []}
    SHRINK_S = float(os.environ.get("VERIF_SHRINK_S", "40"))

    def one(case):
        key = canon(case)
        if st_["first_fail_t"] is not None and time.time() - st_["first_fail_t"] > SHRINK_S:
            if key not in {k for k, _, _ in st_["fails"]}:
                return
        elif st_["first_fail_t"] is None and time.time() - t0 > budget_s:
            res["skipped_budget"] += 1
            return
        case = json.loads(key)
        res["evaluations"] += 1
        if st_["first_fail_t"] is None:
            st_["history"].append(key)
        if current:
            with open(current, "w") as f:
                f.write(key)
        try:
            signal.setitimer(signal.ITIMER_REAL, limit_s)
            try:
                labels = evaluate(sub, case)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except Hang:
            st_["hang"] = case
            raise
        except Violation as v:
            if st_["first_fail_t"] is None:
                st_["first_fail_t"] = time.time()
            st_["fails"].append((key, case, str(v)))
            raise
        for lab in labels or ():
            res["labels"][lab] = res["labels"].get(lab, 0) + 1
        if sub.nontrivial(case):
            h = hashlib.sha1(key.encode()).hexdigest()
            if h not in res["distinct"]:
                res["distinct"].add(h)
                if len(res["samples"]) < 3 or len(res["distinct"]) % 97 == 0 and len(res["samples"]) < 6:
                    res["samples"].append(case)

    def alarm(*_):
        raise Hang()

    signal.signal(signal.SIGALRM, alarm)
    try:
        if with_fixed:
            for case in sub.fixed:
                one(case)
        if sub.strategy is not None and n_examples > 0:
            test = settings(
                max_examples=n_examples, deadline=None, database=None, derandomize=False, print_blob=False,
                report_multiple_bugs=False, phases=(Phase.generate, Phase.shrink),
                suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large, HealthCheck.large_base_example],
                verbosity=hypothesis.Verbosity.quiet,
            )(given(sub.strategy)(lambda case: one(case)))
            hypothesis.seed(seed)(test)()
    except Violation:
        pass
    except HarnessError as e:
        res["error"] = str(e)
    except Hang:
        res["failure"] = {"case": st_["hang"], "message": f"no result within {limit_s} s"}
    except BaseException as e:  # Hypothesis' own reports (Flaky etc.) or harness trouble
        if not st_["fails"]:
            res["error"] = f"{sub.name}: {type(e).__name__}: {e}\n{traceback.format_exc()}"
    if st_["fails"] and res["error"] is None and res["failure"] is None:
        # confirm outside Hypothesis: the last failing case is the shrunk one
        tried = []
        for key, case, msg in [st_["fails"][-1], st_["fails"][0]]:
            if key in tried:
                continue
            tried.append(key)
            try:
                evaluate(sub, json.loads(key))
            except Violation as v:
                res["failure"] = {"case": case, "message": str(v)}
                break
            except HarnessError as e:
                res["error"] = str(e)
        if res["failure"] is None and res["error"] is None:
            # seen against the real code, but not twice: it depends on what ran before (or on chance)
            res["failure"] = {"case": st_["fails"][0][1], "message": st_["fails"][0][2]}
        if res["failure"] is not None:
            res["failure"]["history"] = st_["history"]
    res["wall_s"] = time.time() - t0
    if current and os.path.exists(current):
        os.remove(current)
    return res
