"""C16: 2D double-well one-body elements are those of the stated Hamiltonian."""
import numpy as np
from hypothesis import strategies as st

import twod
from core import NEIGHBOURS, Sub, close, differ, each, neighbours, num, require

from quantum_systems import TwoDimensionalDoubleWell, TwoDimensionalHarmonicOscillator
from quantum_systems.quantum_dots.two_dim.two_dim_helper import get_double_well_one_body_elements


AXIS = {"int": int, "int64": np.int64, "int8": np.int8}


@st.composite
def cases(draw, max_l=6):
    return {
        "l": draw(st.integers(1, max_l)), "omega": draw(st.one_of(num(0.1, 4.0, 1.0), num(0.1, 4.0), num(0.005, 30.0), st.integers(-5, 3).map(lambda k: 3.0 * 10.0 ** k), st.integers(1, 3))), "mass": draw(st.one_of(num(0.3, 3.0, 1.0), num(0.3, 3.0), num(0.02, 15.0), st.integers(1, 3))),
        "b": draw(st.one_of(num(-2.0, 6.0, 1.0), st.just(0.0), num(-2.0, 6.0), num(-30.0, 60.0), st.integers(1, 8), st.sampled_from([1e-3, -1e-3, 1e-6, 1e-9]))), "axis": draw(st.integers(0, 1)), "axis_type": draw(st.sampled_from(["int", "int", "int64", "int8"])),
        "R": draw(st.one_of(num(1.0, 8.0, 4.0), num(0.05, 40.0))), "ng": draw(st.integers(2, 6)), "defaults": draw(st.sampled_from([False] * 5 + [True])),
    }


def angular(dm, axis):
    """int |cos| or |sin| exp(i dm t) dt over the circle, piecewise Gauss-Legendre."""
    f = np.cos if axis == 0 else np.sin
    off = np.pi / 2 if axis == 0 else 0.0
    tot = 0
    for k in range(2):
        t, w = twod.legendre(60, float(off + k * np.pi), float(off + (k + 1) * np.pi))
        tot = tot + np.sum(w * np.abs(f(t)) * np.exp(1j * dm * t))
    return tot


def expected(l, w, mass, b, axis):
    states = twod.table(l)
    h = np.zeros((l, l), dtype=complex)
    for p, s in enumerate(states):
        for q, t in enumerate(states):
            x = twod.radial_moment(s, t, 1, mass * w) * angular(t[1] - s[1], axis) / (2 * np.pi)
            h[p, q] = -0.5 * w**2 * b * x
        h[p, p] += w * (2 * s[0] + abs(s[1]) + 1) + w**2 * b**2 / 8
    return h


def run(case):
    l, w, mass, b, axis = case["l"], case["omega"], case["mass"], case["b"], case["axis"]
    if case["defaults"]:
        w, mass, b, axis = 1.0, 1.0, 1.0, 0
        bs = TwoDimensionalDoubleWell(l, case["R"], case["ng"])
    else:
        bs = TwoDimensionalDoubleWell(l, case["R"], case["ng"], omega=w, mass=mass, barrier_strength=b, axis=AXIS[case["axis_type"]](axis))
    e = expected(l, w, mass, b, axis)
    close("one-body matrix", bs.h, e, 1e-9, float(np.max(np.abs(e))))
    h = np.asarray(bs.h)
    close("hermiticity", h, h.conj().T, 1e-10)
    if b == 0:
        close("without barrier", h, np.diag(w * np.array([2 * n + abs(m) + 1 for n, m in twod.table(l)])), 1e-10)
    ho = TwoDimensionalHarmonicOscillator(l, case["R"], case["ng"], omega=w, mass=mass)
    for k in ("u", "s", "dipole_moment", "spf", "bra_spf"):
        close(f"{k} against the plain oscillator", getattr(bs, k), getattr(ho, k), 1e-10)
    close("spf", bs.spf, np.array([twod.orbital(n, m, ho.R, ho.T, w * mass) for n, m in twod.table(l)]), 1e-9)
    require(bs.l == l and bs.dim == 2 and bs.anti_symmetrized_u is False and bs.includes_spin is False, "sizes or flags")
    return [f"axis:{axis}", "barrier" if b else "no barrier"]


def helper(case):
    l, w, mass, b = case["l"], case["omega"], case["mass"], case["b"]
    e = []
    for axis in (0, 1):
        h = get_double_well_one_body_elements(l, w, mass, b, dtype=np.complex128, axis=axis)
        close(f"one-body elements, axis {axis}", h, expected(l, w, mass, b, axis), 1e-9)
        e.append(np.linalg.eigvalsh(np.asarray(h)))
    close("spectra of the two axes", e[0], e[1], 1e-9)
    close("real elements", get_double_well_one_body_elements(l, w, mass, b), expected(l, w, mass, b, 0).real, 1e-9)


NT = lambda c: c["l"] > 1 and (c["b"] != 0 or c["defaults"])
QUICK = 2
SUBS = [
    Sub("basis", cases(), run, 56, 400, "more than one orbital and a barrier", NT, shards=4, tshards=7),
    Sub("helper", cases(max_l=10), helper, 20, 250, "more than one orbital and a barrier", NT, shards=3, tshards=7,
        fixed=[{"l": 21, "omega": 0.75, "mass": 1.25, "b": 2.0, "axis": 0, "axis_type": "int", "R": 3.0, "ng": 3, "defaults": False}]),
    Sub("neighbours", neighbours(cases(max_l=4), ["omega", "mass", "b", "axis", "defaults"]), each(run), 14, 160, NEIGHBOURS, differ, shards=2, tshards=7),
]
