"""C15: 2D oscillator functions and dipole elements are those of the oscillator orbitals."""
import numpy as np
from hypothesis import strategies as st

import twod
from core import NEIGHBOURS, Sub, close, differ, each, helper, neighbours, num, require

from quantum_systems import TwoDimensionalHarmonicOscillator
from quantum_systems.quantum_dots.two_dim.two_dim_helper import get_indices_nm

spf_state = helper("quantum_systems.quantum_dots.two_dim.two_dim_helper", "spf_state")


DECADES = st.integers(-6, 5).map(lambda k: 3.0 * 10.0 ** k)


@st.composite
def cases(draw, max_l=8):
    return {
        "l": draw(st.integers(1, max_l)), "omega": draw(st.one_of(num(0.05, 5.0, 1.0), num(0.05, 5.0), num(0.001, 60.0), DECADES, st.integers(1, 4))), "mass": draw(st.one_of(num(0.2, 4.0, 1.0), num(0.2, 4.0), num(0.01, 20.0), DECADES, st.integers(1, 3))),
        "R": draw(st.one_of(num(0.5, 10.0, 4.0), num(0.01, 60.0), st.integers(1, 9))), "ng": draw(st.integers(2, 12)), "defaults": draw(st.sampled_from([False] * 5 + [True])),
    }


def run(case):
    l, w, mass = case["l"], case["omega"], case["mass"]
    if case["defaults"]:
        w = mass = 1.0
        bs = TwoDimensionalHarmonicOscillator(l, case["R"], case["ng"])
    else:
        bs = TwoDimensionalHarmonicOscillator(l, case["R"], case["ng"], omega=w, mass=mass)
    mw = mass * w
    ng = case["ng"]
    r, th = np.linspace(0, case["R"], ng), np.linspace(0, 2 * np.pi, ng)
    close("radius grid", bs.R, np.tile(r, (ng, 1)), 1e-12)
    close("angle grid", bs.T, np.tile(th[:, None], (1, ng)), 1e-12)
    states = twod.table(l)
    f = np.array([twod.orbital(n, m, r[None, :], th[:, None], mw) for n, m in states])
    unit = max(1e-3, float(np.sqrt(mw)))
    close("orbitals", bs.spf, f, 1e-10, unit)
    close("bra functions", bs.bra_spf, f.conj(), 1e-10, unit)
    d = twod.dipole(states, mw)
    unit = float(1 / np.sqrt(mw)) * max(1.0, np.sqrt(l))
    close("dipole elements", bs.dipole_moment, d, 1e-9, unit)
    D = np.asarray(bs.dipole_moment)
    close("hermiticity of the dipole", D, D.conj().transpose(0, 2, 1), 1e-9, unit)
    m = np.array([x for _, x in states])
    require(not np.any(D[:, np.abs(m[:, None] - m[None, :]) != 1]), "dipole between angular momenta that do not differ by one")
    close("overlap", bs.s, np.eye(l), 1e-13)


def norms(case):
    """Orthonormal with respect to the area element, on a grid made for quadrature."""
    w, mass, l = case["omega"], case["mass"], case["l"]
    mw = w * mass
    r, wr = twod.legendre(120, 0.0, 1.0)
    R = (np.sqrt(2 * 14 + 2.0) + 7) / np.sqrt(mw)
    r, wr = r * R, wr * R
    nt = 2 * 14 + 3
    th = np.arange(nt) * 2 * np.pi / nt
    RR, TT = np.meshgrid(r, th)
    f = np.array([spf_state(RR, TT, p, mass, w, get_indices_nm) for p in range(l)])
    W = (wr * r)[None, :] * np.full((nt, 1), 2 * np.pi / nt)
    S = np.einsum("pij,ij,qij->pq", f.conj(), W, f, optimize=True)
    close("overlap integrals", S, np.eye(l), 1e-9)
    f2 = np.array([twod.orbital(n, m, RR, TT, mw) for n, m in twod.table(l)])
    close("orbitals", f, f2, 1e-9, float(np.sqrt(mw)))


QUICK = 2
SUBS = [
    Sub("basis", cases(), run, 50, 500, "more than one orbital", lambda c: c["l"] > 1, shards=4, tshards=7),
    Sub("one_larger", cases(max_l=20), run, 10, 100, "more than one orbital", lambda c: c["l"] > 1, tshards=7,
        fixed=[{"l": 28, "omega": 0.5, "mass": 1.5, "R": 5.0, "ng": 5, "defaults": False}]),
    Sub("orthonormality", st.fixed_dictionaries({"l": st.integers(1, 66), "omega": st.one_of(num(0.05, 5.0, 1.0), DECADES), "mass": num(0.2, 4.0, 1.0)}), norms, 80, 600,
        "more than one orbital", lambda c: c["l"] > 1, shards=2),
    Sub("neighbours", neighbours(cases(max_l=4), ["omega", "mass", "R", "ng", "defaults"]), each(run), 16, 200, NEIGHBOURS, differ, shards=2, tshards=7),
]
