"""C10: the 1D harmonic-oscillator basis equals the analytic oscillator."""
import numpy as np
from hypothesis import strategies as st

from c09 import coulomb
from core import NEIGHBOURS, Sub, close, differ, each, neighbours, num, require

from quantum_systems.quantum_dots.one_dim.one_dim_qd import ODHO


@st.composite
def cases(draw, max_l=8, max_ng=80, min_l=1):
    return {
        "l": draw(st.integers(min_l, max_l)),
        "ng": draw(st.integers(2, max_ng)),
        "len": draw(st.one_of(num(0.5, 15.0, 5.0), num(0.1, 50.0), st.integers(1, 20))),
        "omega": draw(st.one_of(num(0.05, 4.0, 0.25), num(0.01, 30.0), st.integers(1, 5))),
        "a": draw(st.one_of(num(0.05, 2.0, 0.25), num(0.05, 2.0), num(0.001, 30.0), num(-2.0, -0.05), st.integers(1, 3))),
        "alpha": draw(st.one_of(num(-2.0, 3.0, 1.0), num(-2.0, 3.0), num(-40.0, 60.0), st.integers(-3, 4))),
        "defaults": draw(st.sampled_from([False] * 5 + [True])),
    }


def hermite_functions(l, omega, x):
    """Normalised oscillator functions by their three-term recurrence."""
    y = np.sqrt(omega) * x
    f = np.zeros((l, len(x)))
    f[0] = (omega / np.pi) ** 0.25 * np.exp(-0.5 * y**2)
    if l > 1:
        f[1] = np.sqrt(2.0) * y * f[0]
    for n in range(2, l):
        f[n] = np.sqrt(2.0 / n) * y * f[n - 1] - np.sqrt((n - 1) / n) * f[n - 2]
    return f


TOL = 1e-8


def run(case):
    l, ng, L = case["l"], case["ng"], case["len"]
    if case["defaults"]:
        omega, a, alpha = 0.25, 0.25, 1.0
        bs = ODHO(l, L, ng)
    else:
        omega, a, alpha = case["omega"], case["a"], case["alpha"]
        bs = ODHO(l, L, ng, omega=omega, a=a, alpha=alpha)
    x = np.linspace(-L, L, ng)
    close("grid", bs.grid, x, 1e-13)
    close("one-body matrix", bs.h, np.diag(omega * (np.arange(l) + 0.5)), 1e-12)
    close("overlap", bs.s, np.eye(l), 1e-13)
    f = hermite_functions(l, omega, x)
    close("orbitals", bs.spf, f, TOL)
    close("bra functions", bs.bra_spf, f, TOL)
    D = np.zeros((l, l))
    for n in range(l - 1):
        D[n, n + 1] = D[n + 1, n] = np.sqrt((n + 1) / (2 * omega))
    require(np.shape(bs.dipole_moment) == (1, l, l), "dipole shape")
    close("position matrix", bs.dipole_moment[0], D, 1e-10)
    u = coulomb(f, x, alpha, a)
    close("two-body elements", bs.u, u, TOL, max(1.0, float(np.max(np.abs(u)))))
    require(bs.l == l and bs.dim == 1 and bs.includes_spin is False and bs.anti_symmetrized_u is False, "sizes or flags")
    return ["defaults" if case["defaults"] else "parameters"]


@st.composite
def fine_cases(draw):
    return {**draw(cases(max_l=4)), "ng": draw(st.integers(700, 2100)), "l": draw(st.integers(1, 4))}


NT = lambda c: c["l"] > 1
SUBS = [
    Sub("elements", cases(), run, 800, 8000, "at least two orbitals", NT, shards=4, tshards=7),
    Sub("larger", cases(max_l=16, max_ng=301), run, 40, 400, "at least two orbitals", NT, shards=3, tshards=7),
    Sub("many_orbitals", cases(min_l=17, max_l=45, max_ng=9), run, 20, 200, "every case (17 or more orbitals)", NT, shards=2, tshards=7,
        fixed=[{"l": 67, "ng": 5, "len": 6.0, "omega": 1.0, "a": 0.25, "alpha": 1.0, "defaults": False}]),
    Sub("fine_grids", fine_cases(), run, 5, 60, "at least two orbitals", NT, shards=2),
    Sub("neighbours", neighbours(cases(max_l=6, max_ng=40), ["len", "omega", "a", "alpha", "ng", "l", "defaults"]), each(run), 60, 900, NEIGHBOURS, differ, shards=2, tshards=7),
]
