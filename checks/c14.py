"""C14: 2D Coulomb elements equal the Coulomb integrals over the oscillator orbitals."""
import contextlib
import io
from functools import lru_cache

import numba
import numpy as np
from hypothesis import strategies as st

import twod
from core import NEIGHBOURS, Sub, close, differ, each, helper, neighbours, num, require

from quantum_systems import TwoDimensionalHarmonicOscillator
from quantum_systems.quantum_dots.two_dim.two_dim_helper import get_coulomb_elements

coulomb_ho = helper("quantum_systems.quantum_dots.two_dim.coulomb_elements", "coulomb_ho")

ASSUMPTIONS = [
    "scipy.special.jv and Gauss-Legendre quadrature are accurate to 1e-11 on the radial and momentum grids used",
    "double-precision cancellation in the alternating series of the package grows with the shell (3e-9 at 36 orbitals); the tolerance follows it",
]


def tol(l):
    return 1e-10 if l <= 10 else 1e-9 if l <= 15 else 1e-7 if l <= 21 else 1e-6


@lru_cache(maxsize=None)
def reference(l):
    return twod.coulomb(twod.table(l))


def symmetries(u, t):
    require(not np.iscomplexobj(u) or float(np.max(np.abs(np.imag(u)))) == 0.0, "complex elements")
    close("particle exchange", u, u.transpose(1, 0, 3, 2), t)
    close("bras and kets", u, u.transpose(2, 3, 0, 1), t)


def arrays(case):
    l = case["l"]
    u = np.asarray(get_coulomb_elements(l))
    close(f"Coulomb elements, {l} orbitals", u, reference(l), tol(l))
    symmetries(u, tol(l))
    k = min(case["k"], l)
    small = get_coulomb_elements(k)
    close(f"elements of {k} orbitals within those of {l}", u[:k, :k, :k, :k], small, tol(l))
    m = np.array([x for _, x in twod.table(l)])
    bad = (m[:, None] + m[None, :])[:, :, None, None] != (m[:, None] + m[None, :])[None, None]
    require(not np.any(u[bad]), "elements that violate angular-momentum conservation")


def basis(case):
    l, w, mass = case["l"], case["omega"], case["mass"]
    if case["defaults"]:
        w = mass = 1.0
        bs = TwoDimensionalHarmonicOscillator(l, 3.0, 3)
    elif case["pos"]:
        bs = TwoDimensionalHarmonicOscillator(l, 3.0, 3, w, mass)
    else:
        with contextlib.redirect_stdout(io.StringIO()):
            bs = TwoDimensionalHarmonicOscillator(l, 3.0, 3, omega=w, mass=mass, **({"verbose": True} if case.get("verbose") else {}))
    close("Coulomb elements of the basis", bs.u, np.sqrt(w * mass) * reference(l), 1e-9, np.sqrt(w * mass))
    require(bs.anti_symmetrized_u is False and bs.includes_spin is False, "flags")


def scaled(case):
    l, w, mass = case["l"], case["omega"], case["mass"]
    bs = TwoDimensionalHarmonicOscillator(l, 3.0, 3, omega=w, mass=mass)
    close(f"Coulomb elements of a basis of {l}", bs.u, np.sqrt(w * mass) * reference(l), tol(l), np.sqrt(w * mass))
    u = np.asarray(get_coulomb_elements(l))
    close(f"Coulomb elements of a basis of {l}, from the unscaled ones", bs.u, np.sqrt(w * mass) * u, 1e-12, np.sqrt(w * mass))


def threads(case):
    """Any number of threads, and any of the schedules they happen to follow."""
    l = case["l"]
    before = numba.get_num_threads()
    try:
        for k in case["threads"]:
            numba.set_num_threads(min(k, numba.config.NUMBA_NUM_THREADS))
            u = np.asarray(get_coulomb_elements(l))
            close(f"Coulomb elements, {l} orbitals, {k} threads", u, reference(l), tol(l))
    finally:
        numba.set_num_threads(before)


@st.composite
def quads(draw, top=36):
    tb = twod.table(top)
    while True:
        p, q, r = (draw(st.integers(0, top - 1)) for _ in range(3))
        m = tb[p][1] + tb[q][1] - tb[r][1]
        good = [i for i in range(top) if tb[i][1] == m]
        if good:
            return {"pqrs": [p, q, r, draw(st.sampled_from(good))]}
        return {"pqrs": [p, q, p, q]}


def single(case):
    tb = twod.table(36)
    p, q, r, s = (tb[i] for i in case["pqrs"])
    t = tol(max(case["pqrs"]) + 1) if max(case["pqrs"]) < 28 else 1e-6
    e = twod.element(p, q, r, s)
    close(f"element {case['pqrs']}", coulomb_ho(*p, *q, *r, *s), e, t)
    close(f"element {case['pqrs']} with particles exchanged", coulomb_ho(*q, *p, *s, *r), e, t)
    close(f"element {case['pqrs']} with bras and kets exchanged", coulomb_ho(*r, *s, *p, *q), e, t)
    broken = (s[0], s[1] + 1)
    require(coulomb_ho(*p, *q, *r, *broken) == 0, f"element {case['pqrs']} with broken angular momentum is not zero")


DECADES = st.integers(-6, 5).map(lambda k: 3.0 * 10.0 ** k)
BASIS = st.fixed_dictionaries({"l": st.integers(1, 7), "omega": st.one_of(num(0.05, 5.0, 1.0), num(0.001, 60.0), DECADES, st.integers(1, 4)), "mass": st.one_of(num(0.2, 4.0, 1.0), num(0.01, 20.0), DECADES, st.integers(1, 3)), "defaults": st.sampled_from([False] * 5 + [True]), "pos": st.booleans(), "verbose": st.booleans()})
QUICK = 2
SUBS = [
    Sub("arrays", st.fixed_dictionaries({"l": st.integers(1, 15), "k": st.integers(1, 15)}), arrays, 40, 120, "more than one orbital", lambda c: c["l"] > 1,
        fixed=[{"l": l, "k": 6} for l in (1, 3, 10, 15, 21)], shards=2),
    Sub("large_arrays", st.fixed_dictionaries({"l": st.integers(16, 21), "k": st.integers(1, 16)}), arrays, 6, 30, "every case", None,
        fixed=[{"l": 28, "k": 21}], tshards=3),
    Sub("threads", st.fixed_dictionaries({"l": st.integers(1, 10), "threads": st.lists(st.integers(1, 8), min_size=2, max_size=4)}), threads, 25, 250,
        "two or more orbitals and threads", lambda c: c["l"] > 1 and max(c["threads"]) > 1),
    Sub("basis", BASIS,
        basis, 60, 400, "more than one orbital", lambda c: c["l"] > 1, shards=2, tshards=7),
    Sub("scaled_arrays", st.fixed_dictionaries({"l": st.integers(1, 15), "omega": num(0.05, 5.0), "mass": num(0.2, 4.0)}), scaled, 8, 60,
        "more than one orbital", lambda c: c["l"] > 1, fixed=[{"l": l, "omega": 0.7, "mass": 1.6} for l in (11, 15, 21)], shards=2),
    Sub("single_elements", quads(), single, 900, 9000, "an excited orbital", lambda c: max(c["pqrs"]) > 0, shards=2, tshards=7),
    Sub("neighbours", neighbours(BASIS, ["omega", "mass", "l"]), each(basis), 20, 200, NEIGHBOURS, differ, shards=2, tshards=7),
]
