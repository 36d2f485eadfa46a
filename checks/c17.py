"""C17: the 2D magnetic-field basis holds the lowest Fock-Darwin states, consistently."""
import numpy as np
from hypothesis import strategies as st

import twod
from core import NEIGHBOURS, Sub, close, differ, each, neighbours, num, require

from quantum_systems.quantum_dots.two_dim import two_dim_ho
from quantum_systems import TwoDimensionalHarmonicOscillator, TwoDimHarmonicOscB


def field(case):
    """In a weak trap a field of the same order, since otherwise the states of a Landau level are degenerate."""
    return float(case["omega_c"] * case["omega"]) if case["omega"] < 0.005 else case["omega_c"]


@st.composite
def cases(draw, max_l=6, min_l=1):
    return {
        "l": draw(st.integers(min_l, max_l)), "omega": draw(st.one_of(num(0.1, 4.0, 1.0), num(0.1, 4.0), num(0.01, 20.0), st.integers(-12, 4).map(lambda k: 3.0 * 10.0 ** k), st.integers(1, 3))), "mass": draw(st.one_of(num(0.3, 3.0, 1.0), num(0.3, 3.0), num(0.02, 15.0), st.integers(1, 3))),
        "omega_c": draw(st.one_of(num(-2.0, 2.0, 0.5), st.just(0.0), num(-2.0, 2.0), num(-20.0, 20.0, 1.0), st.integers(-6, 6), num(-90.0, 90.0), st.sampled_from([1e-3, -1e-3, 5e-3, -0.02, 0.05, 1e-5, -1e-5, 1e-6, -3e-7, 1e-7, 2e-8]))),
        "R": draw(num(1.0, 8.0, 4.0)), "ng": draw(st.integers(2, 5)), "default_field": draw(st.sampled_from([False] * 9 + [True])),
    }


def run(case):
    l, w0, mass, wc = case["l"], case["omega"], case["mass"], field(case)
    kw = {"omega": w0, "mass": mass}
    if case["default_field"]:
        wc = 0.0
    else:
        kw["omega_c"] = wc
    bs = TwoDimHarmonicOscB(l, case["R"], case["ng"], **kw)
    w = np.sqrt(w0**2 + wc**2 / 4)
    fd = lambda n, m: w * (2 * n + abs(m) + 1) - wc * m / 2
    # quantum numbers: distinct, admissible, lowest energies available, ascending
    states = [tuple(int(v) for v in bs.get_indices_nm(p)) for p in range(l)]
    require(len(set(states)) == l, f"repeated quantum numbers {states}")
    require(all(n >= 0 for n, _ in states), f"negative radial quantum number in {states}")
    E = np.array([fd(n, m) for n, m in states])
    scale = float(np.max(np.abs(E)))
    close("one-body matrix", bs.h, np.diag(E), 1e-10, scale)
    require(bool(np.all(np.diff(E) >= -1e-9 * scale)), f"energies not ascending: {E}")
    pool = sorted(fd(n, m) for n in range(l + 2) for m in range(-l - 12, l + 13))[:l]
    close("lowest Fock-Darwin energies", E, np.array(pool), 1e-10, scale)
    # everything else belongs to those quantum numbers at the effective frequency
    mw = mass * w
    close("Coulomb elements", bs.u, np.sqrt(mw) * twod.coulomb(states), 1e-7 if l > 4 else 1e-8, max(1.0, np.sqrt(mw)))
    ng = case["ng"]
    r, th = np.linspace(0, case["R"], ng), np.linspace(0, 2 * np.pi, ng)
    f = np.array([twod.orbital(n, m, r[None, :], th[:, None], mw) for n, m in states])
    close("orbitals", bs.spf, f, 1e-9, max(1.0, np.sqrt(mw)))
    close("dipole", bs.dipole_moment, twod.dipole(states, mw), 1e-8)
    close("overlap", bs.s, np.eye(l), 1e-13)
    if wc == 0:
        ho = TwoDimensionalHarmonicOscillator(l, case["R"], ng, omega=w0, mass=mass)
        for k in ("h", "u", "s", "dipole_moment", "spf"):
            close(f"{k} at zero field, against the plain oscillator", getattr(bs, k), getattr(ho, k), 1e-9)
    require(bs.l == l and bs.dim == 2 and bs.anti_symmetrized_u is False and bs.includes_spin is False, "sizes or flags")
    return ["field:" + ("none" if wc == 0 else "up" if wc > 0 else "down"), "strong" if abs(wc) > 4 * w0 else "weak"]


class States(TwoDimHarmonicOscB):
    """Without the dipole integrals, which take most of the time."""

    def construct_dipole_moment(self):
        self._dipole_moment = np.zeros((2, self.l, self.l), dtype=complex)


def states_only(case):
    """The choice of states alone, for larger sizes and stronger fields."""
    l, w0, wc = case["l"], case["omega"], field(case)
    old = getattr(two_dim_ho, "get_coulomb_elements_B", None)
    if old is not None:
        two_dim_ho.get_coulomb_elements_B = lambda num_orbitals, *a, **k: np.zeros((num_orbitals,) * 4)
    try:
        bs = States(l, 3.0, 2, omega=w0, mass=case["mass"], omega_c=wc)
    finally:
        if old is not None:
            two_dim_ho.get_coulomb_elements_B = old
    w = np.sqrt(w0**2 + wc**2 / 4)
    fd = lambda n, m: w * (2 * n + abs(m) + 1) - wc * m / 2
    states = [tuple(int(v) for v in bs.get_indices_nm(p)) for p in range(l)]
    require(len(set(states)) == l and all(n >= 0 for n, _ in states), f"quantum numbers {states}")
    E = np.array([fd(n, m) for n, m in states])
    scale = float(np.max(np.abs(E)))
    close("one-body matrix", bs.h, np.diag(E), 1e-10, scale)
    require(bool(np.all(np.diff(E) >= -1e-9 * scale)), f"energies not ascending: {E}")
    close("lowest Fock-Darwin energies", E, np.array(sorted(fd(n, m) for n in range(l + 2) for m in range(-l - 12, l + 13))[:l]), 1e-10, scale)
    return ["field:" + ("none" if wc == 0 else "up" if wc > 0 else "down"), "strong" if abs(wc) > 4 * w0 else "weak", f"size {l // 5 * 5}-{l // 5 * 5 + 4}"]


NT = lambda c: c["l"] > 1 and c["omega_c"] != 0 and not c["default_field"]
QUICK = 2
SUBS = [
    Sub("basis", cases(), run, 80, 600, "more than one orbital and a field", NT, shards=5, tshards=7),
    Sub("larger", cases(max_l=10, min_l=7), run, 8, 60, "a field", NT, shards=2, tshards=7),
    Sub("states", cases(max_l=20), states_only, 120, 1500, "a field", NT, shards=3, tshards=7,
        fixed=[{"l": 33, "omega": 0.8, "mass": 1.0, "omega_c": -1.3, "R": 4.0, "ng": 2, "default_field": False}]),
    Sub("neighbours", neighbours(cases(max_l=4), ["omega", "mass", "omega_c", "R", "ng"]), each(run), 14, 160, NEIGHBOURS, differ, shards=2, tshards=7),
]
