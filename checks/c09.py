"""C09: 1D quantum dots hold the states and elements of the discretised Hamiltonian."""
import numpy as np
from hypothesis import strategies as st

import families as fam
from core import NEIGHBOURS, Sub, close, differ, each, neighbours, num, require

from quantum_systems import ODQD


@st.composite
def cases(draw, max_l=8, max_ng=80, complete=False):
    """complete: (nearly) all states of the grid."""
    l = draw(st.integers(1, max_l))
    return {
        "l": l,
        "ng": draw(st.integers(l + 2, l + 4) if complete else st.one_of(st.integers(l + 2, l + 6), st.integers(l + 2, max_ng), st.integers(max(31, l + 2), max_ng))),
        "len": draw(st.one_of(num(0.5, 12.0, 5.0), num(0.5, 12.0), num(0.1, 50.0), st.integers(1, 20))),
        "pot": draw(st.sampled_from(fam.POT + ["wall", "steps"])),
        "pa": draw(num(0.1, 2.0, 1.0)),
        "pb": draw(num(0.05, 2.0, 1.0)),
        "a": draw(st.one_of(num(0.05, 2.0, 0.25), num(0.05, 2.0), num(0.001, 30.0), num(-2.0, -0.05), st.integers(1, 3))),
        "alpha": draw(st.one_of(num(-2.0, 3.0, 1.0), num(-2.0, 3.0), num(-40.0, 60.0), st.integers(-3, 4))),
        "beta": draw(num(-1.0, 1.0, 0.0)),
        "defaults": draw(st.sampled_from([False] * 5 + [True])),
    }


def formula(name, a, b, x):
    """The potential, written down independently."""
    if name == "none":
        return 0.5 * 0.25**2 * x**2
    if name == "ho":
        return 0.5 * a**2 * x**2
    if name == "dw":
        return 0.5 * a**2 * (np.abs(x) - 2 * b) ** 2
    if name == "smooth":
        A = 3 + b
        return (x**2 - A**2 / 4) ** 2 / (2 * A**2)
    if name == "sym":
        return 0.1 * a * x**6 + 0.2 * x**4 - b * x**2
    if name == "asym":
        return 0.3 * a * x**4 + 0.2 * b * x**3 - x**2
    if name in ("gauss", "wall"):
        v = -(2 + a) * np.exp(-0.5 * ((x - 0.5 * b) / (1 + b)) ** 2)
        return v + (1e5 * (np.abs(x) > 3.0) if name == "wall" else 0)
    if name == "steps":
        return np.where(np.abs(x - 0.3 * b) < 1.5, 0.0, np.ceil(3 * a))
    if name == "atomic":
        return -(1 + b) / np.sqrt(x**2 + 0.5 + a)
    return a * np.abs(x) + 0.1 * b * x**2


def trapezoid(x):
    w = np.full(len(x), x[1] - x[0])
    w[0] = w[-1] = 0.5 * (x[1] - x[0])
    return w


def coulomb(spf, x, alpha, a):
    w = trapezoid(x)
    W = alpha / np.sqrt((x[:, None] - x[None, :]) ** 2 + a**2) * w[:, None] * w[None, :]
    rho = np.einsum("px,rx->prx", spf.conj(), spf)
    return np.einsum("prx,xy,qsy->pqrs", rho, W, rho, optimize=True)


def run(case):
    l, ng, L = case["l"], case["ng"], case["len"]
    pot = fam.potential(case["pot"], case["pa"], case["pb"])
    if case["pot"] == "steps":  # a potential with integer values
        pot = lambda x: np.where(np.abs(x - 0.3 * case["pb"]) < 1.5, 0, int(np.ceil(3 * case["pa"])))
    kw = {} if pot is None else {"potential": pot}
    a, alpha, beta = (0.25, 1.0, 0.0) if case["defaults"] else (case["a"], case["alpha"], case["beta"])
    if not case["defaults"]:
        kw.update(a=a, alpha=alpha, beta=beta)
    bs = ODQD(l, L, ng, **kw)
    x = np.linspace(-L, L, ng)
    close("grid", bs.grid, x, 1e-13)
    dx = 2 * L / (ng - 1)
    xi = x[1:-1]
    H = np.diag(1 / dx**2 + formula(case["pot"], case["pa"], case["pb"], xi))
    H += np.diag(np.full(ng - 3, -0.5 / dx**2), 1) + np.diag(np.full(ng - 3, -0.5 / dx**2), -1)
    E = np.linalg.eigvalsh(H)[:l]
    scale = max(1.0, float(np.max(np.abs(H))))
    h = np.asarray(bs.h)
    close("one-body matrix is diagonal", h, np.diag(np.diag(h)), 1e-12, scale)
    close("orbital energies", np.diag(h), E, 1e-11, scale)
    require(bool(np.all(np.diff(np.diag(h).real) >= -1e-9 * scale)), "energies not ascending")
    spf = np.asarray(bs.spf)
    require(spf.shape == (l, ng), f"orbital array of shape {spf.shape}")
    close("orbitals at the walls", spf[:, [0, -1]], np.zeros((l, 2)), 1e-12)
    close("orthonormality on the grid", dx * spf.conj() @ spf.T, np.eye(l), 1e-9)
    c = spf[:, 1:-1].T * np.sqrt(dx)
    close("orbitals are eigenstates", H @ c, c * np.diag(h)[None, :], 1e-10, scale)
    close("overlap", bs.s, np.eye(l), 1e-12)
    mid = bs.dipole_moment
    require(np.shape(mid) == (1, l, l), f"dipole of shape {np.shape(mid)}")
    w = trapezoid(x)
    D = np.einsum("px,x,qx->pq", spf.conj(), w * (x + beta * x**2), spf)
    close("dipole", mid[0], D, 1e-11, max(1.0, L, abs(beta) * L * L))
    close("two-body elements", bs.u, coulomb(spf, x, alpha, a), 1e-11, max(1.0, abs(alpha) / a))
    close("bra functions", bs.bra_spf, spf.conj(), 1e-13)
    require(bs.l == l and bs.dim == 1 and bs.includes_spin is False and bs.anti_symmetrized_u is False, "sizes or flags")
    return ["potential:" + case["pot"], "grid:" + ("odd" if ng % 2 else "even"), "defaults" if case["defaults"] else "parameters"]


@st.composite
def fine_cases(draw):
    return {**draw(cases(max_l=4)), "ng": draw(st.integers(700, 2100)), "l": draw(st.integers(1, 4))}


NT = lambda c: c["l"] > 1
QUICK = 8
SUBS = [
    Sub("elements", cases(), run, 800, 8000, "at least two orbitals", NT, shards=4, tshards=7),
    Sub("larger", cases(max_l=16, max_ng=301), run, 60, 500, "at least two orbitals", NT, shards=3, tshards=7,
        fixed=[{"l": 22, "ng": 501, "len": 12.0, "pot": "dw", "pa": 0.7, "pb": 1.5, "a": 0.3, "alpha": 0.8, "beta": 0.2, "defaults": False}]),
    Sub("fine_grids", fine_cases(), run, 2, 60, "at least two orbitals", NT, shards=2, fixed=[
        {"l": 3, "ng": 1301, "len": 14.0, "pot": "atomic", "pa": 1.7, "pb": 0.6, "a": 0.3, "alpha": 0.8, "beta": 0.2, "defaults": False},
        {"l": 2, "ng": 2100, "len": 8.0, "pot": "gauss", "pa": 1.2, "pb": 0.9, "a": 0.02, "alpha": -1.2, "beta": 0.0, "defaults": False}]),
    Sub("complete", cases(max_l=26, complete=True), run, 20, 300, "at least two orbitals", NT, shards=2),
    Sub("neighbours", neighbours(cases(max_l=5, max_ng=40), ["len", "pot", "pa", "pb", "a", "alpha", "beta", "defaults"]), each(run), 40, 600, NEIGHBOURS, differ, shards=2, tshards=7),
]
