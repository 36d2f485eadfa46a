"""C11: 1D potentials match their formulas, and derivatives match the potentials."""
import mpmath
import numpy as np
from hypothesis import strategies as st

from core import Sub, close, num, require

from quantum_systems import ODQD, ODSincDVR
from quantum_systems.quantum_dots.one_dim.one_dim_potentials import (
    AsymmetricDWPotential,
    AtomicPotential,
    DWPotential,
    DWPotentialSmooth,
    GaussianPotential,
    GaussianPotentialHardWall,
    HOPotential,
    SymmetricDWPotential,
)

KINDS = ["ho", "dw", "smooth", "sym", "asym", "gauss", "wall", "atomic"]
LOG = st.integers(-200, 200).map(lambda k: round(10.0 ** (k / 100), 7))  # 0.01 to 100
X = st.one_of(num(-8, 8, 0.0), num(-1, 1, 0.5), st.floats(-30, 30, allow_nan=False).map(lambda v: round(v, 5)))


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(KINDS))
    return {
        "kind": kind,
        "p": [draw(st.one_of(num(-3, 3, 1.0), num(-3, 3, 1.0), st.integers(-2, 3), LOG)), draw(st.one_of(num(0.2, 4, 1.0), st.integers(1, 3), LOG)),
              draw(st.one_of(num(-8, 8, 2.0), st.integers(-4, 4), LOG))],
        "near": draw(st.lists(num(-3, 3), max_size=2)),
        "xs": draw(st.lists(X, min_size=1, max_size=7)),
        "defaults": draw(st.booleans()),
        "shape": draw(st.sampled_from(["1d", "2d", "2d", "0d", "strided"])),
        "sign": draw(st.sampled_from([1, 1, 1, -1])),
        "kw": draw(st.booleans()),
    }


def make(c):
    """(object, formula, analytic derivative or None) in plain Python floats."""
    p, q, r = c["p"]
    k = c["kind"]
    if k in ("gauss", "wall"):
        q = q * c["sign"]  # the width enters squared
    if k == "ho":
        w = p
        obj = HOPotential(omega=w) if c["kw"] else HOPotential(w)
        return obj, lambda x: 0.5 * w * w * x * x
    if k == "dw":
        w, l = p, r
        obj = DWPotential(omega=w, l=l) if c["kw"] else DWPotential(w, l)
        return obj, lambda x: 0.5 * w * w * (x * x + 0.25 * l * l - l * abs(x))
    if k == "smooth":
        a = 4 if c["defaults"] else (q if p > 0 else -q)
        obj = DWPotentialSmooth() if c["defaults"] else DWPotentialSmooth(a=a)
        return obj, lambda x: (x + a / 2) ** 2 * (x - a / 2) ** 2 / (2 * a * a)
    if k == "sym":
        a, b, d = (0.5, 1, -7) if c["defaults"] else (p, q, r)
        obj = SymmetricDWPotential() if c["defaults"] else SymmetricDWPotential(a=a, b=b, c=d) if c["kw"] else SymmetricDWPotential(a, b, d)
        return obj, lambda x: a * x**6 + b * x**4 + d * x**2
    if k == "asym":
        a, b, d = (1, 1, -2.5) if c["defaults"] else (p, q, r)
        obj = AsymmetricDWPotential() if c["defaults"] else AsymmetricDWPotential(a=a, b=b, c=d) if c["kw"] else AsymmetricDWPotential(a, b, d)
        return obj, lambda x: a * x**4 + b * x**3 + d * x**2
    if k == "gauss":
        obj = GaussianPotential(weight=p, center=r, deviation=q, np=np) if c["kw"] else GaussianPotential(p, r, q, np)
        return obj, lambda x: -p * mpmath.exp(-((x - r) ** 2) / (2 * q * q))
    if k == "wall":
        wall = abs(r) / 2 + 0.125
        obj = GaussianPotentialHardWall(weight=p, center=r, deviation=q, x_wall=wall) if c["kw"] else GaussianPotentialHardWall(p, r, q, wall)
        return obj, lambda x: -p * mpmath.exp(-((x - r) ** 2) / (2 * q * q)) + (1e5 if abs(x) > wall else 0.0)
    Z, d = (2, 0.54878464) if c["defaults"] else (p, q)
    obj = AtomicPotential() if c["defaults"] else AtomicPotential(Za=Z, c=d) if c["kw"] else AtomicPotential(Z, d)
    return obj, lambda x: -Z / mpmath.sqrt(x * x + d)


def exact(f, x, order=0):
    """The formula, or its derivative, in forty-digit arithmetic."""
    with mpmath.workdps(40):
        x = mpmath.mpf(float(x))
        return float(f(x) if order == 0 else mpmath.diff(f, x, order))


def bounds(case, x):
    """Sizes of the terms that may cancel, of the value and of the derivative."""
    x = abs(float(x))
    p, q, r = (abs(float(v)) for v in case["p"])
    k = case["kind"]
    if k == "ho":
        return p * p * x * x, p * p * x
    if k == "dw":
        return p * p * (x + r) ** 2, p * p * (x + r)
    if k == "smooth":
        a = 4.0 if case["defaults"] else q
        return (x + a / 2) ** 4 / a**2, 4 * (x + a / 2) ** 3 / a**2
    if k == "sym":
        a, b, c = (0.5, 1, 7) if case["defaults"] else (p, q, r)
        return a * x**6 + b * x**4 + c * x**2, 6 * a * x**5 + 4 * b * x**3 + 2 * c * x
    if k == "asym":
        a, b, c = (1, 1, 2.5) if case["defaults"] else (p, q, r)
        return a * x**4 + b * x**3 + c * x**2, 4 * a * x**3 + 3 * b * x**2 + 2 * c * x
    if k in ("gauss", "wall"):
        # V times the conditioning of the exponent; filled in by the caller through V itself
        z = (x + r) / q
        return 1 + z * z, (1 + z * z) * (x + r) / q**2
    return 1.0, 1.0


def bound(case, x, f, order):
    b = bounds(case, x)[order]
    if case["kind"] == "gauss":
        return abs(exact(f, x)) * b
    if case["kind"] == "wall":
        return abs(exact(f, x)) + abs(case["p"][0]) * b
    if case["kind"] == "atomic":
        return abs(exact(f, x, order))
    return b


def run(case):
    obj, f = make(case)
    p, q, r = case["p"]
    special = [0.0, r, r / 2] + [r + q * v for v in case["near"]]
    if case["kind"] == "wall":
        w = abs(r) / 2 + 0.125
        special += [w, -w, w + 1e-9, -w - 1e-9]
    xs = [float(v) for v in case["xs"] + special]
    x = np.array(xs)
    if case["shape"] == "strided":
        x = np.repeat(x, 2)[::2]
    expect = np.array([exact(f, v) for v in xs])
    B = np.array([bound(case, v, f, 0) for v in xs])
    keep = x.copy()
    got = np.asarray(obj(x))
    require(got.shape == x.shape, f"shape {got.shape} for input of shape {x.shape}")
    point("potential (array)", got, expect, B)
    ints = [int(round(v)) for v in xs]
    iexpect = np.array([exact(f, v) for v in ints])
    IB = np.array([bound(case, v, f, 0) for v in ints])
    point("potential on an integer array", obj(np.array(ints)), iexpect, IB)
    if case["kind"] != "wall":
        for i, v in enumerate(xs):
            point(f"potential at {v} (scalar)", obj(v), expect[i], B[i])
            point(f"potential at the integer {ints[i]}", obj(ints[i]), iexpect[i], IB[i])
        if case["shape"] == "2d":
            point("potential on a 2d array", obj(x[None, :]), expect[None, :], B)
            point("potential on a column", obj(x[:, None]), expect[:, None], B[:, None])
            pair = np.array([x, x[::-1]])
            point("potential on a rectangle", obj(pair), np.array([expect, expect[::-1]]), np.array([B, B[::-1]]))
            DR = np.asarray(obj.derivative(pair)) * np.ones(pair.shape)
        if case["shape"] == "0d":
            point("potential on an array without dimensions", obj(np.array(xs[0])), expect[0], B[0])
        smooth = [i for i, v in enumerate(xs) if case["kind"] != "dw" or v != 0]  # the cusp has no derivative
        D = np.asarray(obj.derivative(x)) * np.ones(len(xs))
        D2 = np.asarray(obj.derivative(x[None, :])) * np.ones((1, len(xs)))
        ID = np.asarray(obj.derivative(np.array(ints))) * np.ones(len(xs))
        for i in smooth:
            e, b = exact(f, xs[i], 1), bound(case, xs[i], f, 1)
            point(f"derivative at {xs[i]} (array)", D[i], e, b)
            point(f"derivative at {xs[i]} (scalar)", obj.derivative(xs[i]), e, b)
            if case["shape"] == "2d":
                point(f"derivative at {xs[i]} (2d array)", D2[0, i], e, b)
                point(f"derivative at {xs[i]} (rectangle)", DR[0, i], e, b)
                point(f"derivative at {xs[i]} (second row of a rectangle)", DR[1, len(xs) - 1 - i], e, b)
            if case["kind"] != "dw" or ints[i] != 0:
                e, b = exact(f, ints[i], 1), bound(case, ints[i], f, 1)
                point(f"derivative at {ints[i]} (integer array)", ID[i], e, b)
                point(f"derivative at {ints[i]} (integer)", obj.derivative(ints[i]), e, b)
    require(np.array_equal(x, keep), "the positions were modified")
    same_again = np.asarray(obj(x))
    require(np.array_equal(same_again, got), "a second evaluation differs")
    return ["kind:" + case["kind"]]


def long(case):
    """Many positions at once give what few at a time give."""
    obj, f = make(case)
    rng = np.random.RandomState(case["seed"] % 2**32)
    x = rng.uniform(-case["span"], case["span"], size=case["size"])
    if case["sorted"]:
        x = np.linspace(-case["span"], case["span"], case["size"])
    keep = x.copy()
    got = np.asarray(obj(x))
    require(got.shape == x.shape, f"shape {got.shape} for input of shape {x.shape}")
    few = np.concatenate([np.asarray(obj(x[i : i + 5].copy())) for i in range(0, len(x), 5)])
    B = np.abs(few) + np.array([bounds(case, v)[0] for v in x]) * (1 if case["kind"] not in ("gauss", "wall") else abs(case["p"][0]))
    point("potential at many positions", got, few, B)
    for i in rng.randint(0, len(x), size=4):
        point(f"potential at {x[i]}, one of many", got[i], exact(f, x[i]), bound(case, x[i], f, 0))
    if case["kind"] != "wall":
        D = np.asarray(obj.derivative(x)) * np.ones(len(x))
        few = np.concatenate([np.asarray(obj.derivative(x[i : i + 5].copy())) * np.ones(len(x[i : i + 5])) for i in range(0, len(x), 5)])
        B = np.abs(few) + np.array([bounds(case, v)[1] for v in x]) * (1 if case["kind"] != "gauss" else abs(case["p"][0]))
        point("derivative at many positions", D, few, B)
    require(np.array_equal(x, keep), "the positions were modified")


@st.composite
def long_cases(draw):
    c = draw(cases())
    return {**c, "xs": [], "near": [], "size": draw(st.one_of(st.integers(8, 200), st.integers(500, 3000))), "span": draw(st.sampled_from([1.0, 10.0, 60.0, 400.0])),
            "seed": draw(st.integers(0, 2**31)), "sorted": draw(st.booleans())}


def point(name, got, expect, bound):
    """Every value on its own scale."""
    got = np.asarray(got)
    require(got.shape == np.shape(expect), f"{name}: shape {got.shape}, expected {np.shape(expect)}")
    require(bool(np.all(np.isfinite(got))), f"{name}: not finite")
    diff, allowed = np.abs(got - expect), 1e-12 * np.abs(bound) + 1e-60
    if np.any(diff > allowed):
        raise_at = int(np.argmax(diff / allowed))
        require(False, f"{name}: got {np.ravel(got)[raise_at]!r}, expected {np.ravel(expect)[raise_at]!r}")


def aliases(case):
    """The potentials offered through the basis classes are the same ones."""
    for cls in (ODQD, ODSincDVR):
        for name, c in (("HOPotential", HOPotential), ("DWPotential", DWPotential), ("DWPotentialSmooth", DWPotentialSmooth),
                        ("SymmetricDWPotential", SymmetricDWPotential), ("AsymmetricDWPotential", AsymmetricDWPotential),
                        ("GaussianPotential", GaussianPotential), ("AtomicPotential", AtomicPotential)):
            args = {"HOPotential": (1.3,), "DWPotential": (0.7, 3.0), "GaussianPotential": (1.5, 0.2, 0.8, np)}.get(name, ())
            x = np.array(case["xs"])
            close(f"{cls.__name__}.{name}", getattr(cls, name)(*args)(x), c(*args)(x), 1e-13)


SUBS = [
    Sub("formulas", cases(), run, 3000, 60000, "a position away from the origin", lambda c: any(v != 0 for v in c["xs"]), shards=4, tshards=7),
    Sub("many_positions", long_cases(), long, 150, 3000, "five hundred or more positions", lambda c: c["size"] >= 500, shards=2),
    Sub("aliases", st.fixed_dictionaries({"xs": st.lists(X, min_size=1, max_size=4)}), aliases, 40, 300, "a position away from the origin",
        lambda c: any(v != 0 for v in c["xs"])),
]
