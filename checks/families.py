"""Every public basis family, built from a generated JSON description."""
import numpy as np
from hypothesis import strategies as st

from core import SEEDS, arr, num, spd, spec

from quantum_systems import (
    BasisSet,
    ODQD,
    ODSincDVR,
    RandomBasisSet,
    TwoDimensionalDoubleWell,
    TwoDimensionalHarmonicOscillator,
    TwoDimHarmonicOscB,
)
from quantum_systems.quantum_dots.one_dim.one_dim_potentials import GaussianPotentialHardWall
from quantum_systems.quantum_dots.one_dim.one_dim_qd import ODHO

POT = ["none", "ho", "dw", "smooth", "sym", "asym", "gauss", "atomic", "func"]


def potential(name, a, b, wall=None):
    if name == "none":
        return None
    if name == "ho":
        return ODQD.HOPotential(a)
    if name == "dw":
        return ODQD.DWPotential(a, 4 * b)
    if name == "smooth":
        return ODQD.DWPotentialSmooth(3 + b)
    if name == "sym":
        return ODQD.SymmetricDWPotential(0.1 * a, 0.2, -b)
    if name == "asym":
        return ODQD.AsymmetricDWPotential(0.3 * a, 0.2 * b, -1.0)
    if name == "gauss":
        return ODQD.GaussianPotential(2 + a, 0.5 * b, 1 + b, np)
    if name == "wall":
        return GaussianPotentialHardWall(2 + a, 0.5 * b, 1 + b, 3.0)
    if name == "atomic":
        return ODQD.AtomicPotential(1 + b, 0.5 + a)
    return lambda x: a * np.abs(x) + 0.1 * b * x ** 2


def one_dim(fams):
    return st.fixed_dictionaries(
    {
        "fam": st.sampled_from(fams),
        "l": st.one_of(st.integers(2, 5), st.integers(2, 5), st.integers(6, 9)),
        "ng": st.integers(21, 61),
        "len": num(2.0, 9.0),
        "pot": st.sampled_from(POT + ["wall"]),
        "pa": num(0.25, 1.5),
        "pb": num(0.1, 1.5),
        "a": num(0.2, 1.0),
        "alpha": num(0.5, 2.0),
        "beta": num(0.0, 0.5),
    }
    )


ONE_DIM = one_dim(["odqd", "odho", "dvr2", "dvr4"])
DVR = one_dim(["dvr2", "dvr2", "dvr4"])
TWO_DIM = st.fixed_dictionaries(
    {
        "fam": st.sampled_from(["tdho", "tddw", "tdhob"]),
        "l": st.integers(2, 6),
        "ng": st.integers(4, 8),
        "len": num(2.0, 6.0),
        "omega": num(0.3, 2.0),
        "mass": num(0.5, 2.0, 1.0),
        "b": num(0.0, 3.0),
        "axis": st.integers(0, 1),
        "omega_c": num(-2.0, 2.0),
    }
)


@st.composite
def custom(draw, min_l=1, max_l=4, extra=()):
    spin = draw(st.booleans())
    return {
        "fam": "custom", "l": draw(st.one_of(st.integers(min_l, max_l), st.integers(min_l, max_l), st.integers(max_l + 1, 2 * max_l), *extra)), "dim": draw(st.integers(1, 4)), "data": draw(spec()),
        "s": draw(st.sampled_from(["eye", "spd"])), "dip": draw(st.booleans()),
        "spf": draw(st.sampled_from(["none", "ket", "both"])), "grid": draw(st.booleans()),
        "enuc": draw(num(0, 5)), "spin": spin, "antisym": draw(st.booleans()) if spin else False,
    }


RANDOM = st.fixed_dictionaries({"fam": st.just("random"), "l": st.integers(2, 6), "dim": st.integers(1, 4), "seed": SEEDS})
CHEAP = st.one_of(custom(), ONE_DIM, ONE_DIM, RANDOM)
ANY = st.one_of(custom(), ONE_DIM, ONE_DIM, RANDOM, TWO_DIM)


def build(c, hermitian=False, module=None):
    """`module` is the array module handed to the constructor."""
    f, l = c["fam"], c["l"]
    kw = {} if module is None else {"np": module}
    if f == "odqd":
        return ODQD(l, c["len"], c["ng"], a=c["a"], alpha=c["alpha"], beta=c["beta"], potential=potential(c["pot"], c["pa"], c["pb"]), **kw)
    if f == "odho":
        return ODHO(l, c["len"], c["ng"], omega=c["pa"], a=c["a"], alpha=c["alpha"], **kw)
    if f in ("dvr2", "dvr4"):
        return ODSincDVR(l, c["len"], a=c["a"], alpha=c["alpha"], beta=c["beta"], potential=potential(c["pot"], c["pa"], c["pb"]), u_repr="2d" if f == "dvr2" else "4d", **kw)
    if f == "random":
        state = np.random.get_state()
        np.random.seed(c["seed"])
        try:
            bs = RandomBasisSet(l, c["dim"], **kw)
        finally:
            np.random.set_state(state)
        return bs
    if f == "tdho":
        return TwoDimensionalHarmonicOscillator(l, c["len"], c["ng"], omega=c["omega"], mass=c["mass"], **kw)
    if f == "tddw":
        return TwoDimensionalDoubleWell(l, c["len"], c["ng"], omega=c["omega"], mass=c["mass"], barrier_strength=c["b"], axis=c["axis"], **kw)
    if f == "tdhob":
        return TwoDimHarmonicOscB(l, c["len"], c["ng"], omega=c["omega"], mass=c["mass"], omega_c=c["omega_c"], **kw)
    d, dim = c["data"], c["dim"]
    bs = BasisSet(l, dim, includes_spin=c["spin"], anti_symmetrized_u=c["antisym"], **kw)
    h, u = arr(d, (l, l), 1), arr(d, (l,) * 4, 2)
    if hermitian:
        h = h + h.conj().T
        u = u + u.transpose(1, 0, 3, 2)
        u = u + u.transpose(2, 3, 0, 1).conj()
    bs.h, bs.u = h, u
    bs.s = np.eye(l) if c["s"] == "eye" else spd(d["seed"], l, d["cplx"])
    if c["dip"]:
        D = arr(d, (dim, l, l), 3)
        bs.dipole_moment = D + D.conj().transpose(0, 2, 1) if hermitian else D
    shape = (l,) + (3, 2, 2, 2)[:dim]
    if c["spf"] != "none":
        bs.spf = arr(d, shape, 4)
    if c["spf"] == "both" and not hermitian:
        bs.bra_spf = arr(d, shape, 5)
    if c["grid"]:
        bs.grid = np.linspace(-1, 1, 3)
    if c["spin"]:
        for i, k in enumerate(("spin_x", "spin_y", "spin_z", "spin_2")):
            setattr(bs, k, arr(d, (l, l), 6 + i, cplx=True))
        bs.spin_2_tb = arr(d, (l,) * 4, 10, cplx=True)
    bs.nuclear_repulsion_energy = c["enuc"]
    return bs


ELEMENTS = ["h", "s", "u", "dipole_moment", "spf", "bra_spf", "grid"]
SPIN = ["spin_x", "spin_y", "spin_z", "spin_2", "spin_2_tb"]
NUMBERS = ["l", "nuclear_repulsion_energy"]
BASIS_NUMBERS = ["dim", "includes_spin", "anti_symmetrized_u"]
SYSTEM_NUMBERS = ["n", "m"]


def names(obj):
    out = list(ELEMENTS)
    if all(hasattr(obj, k) for k in SPIN):
        out += SPIN
    return out


def snapshot(obj):
    """Independent copies of everything the object reports."""
    d = {}
    for k in names(obj):
        v = getattr(obj, k)
        d[k] = None if v is None else np.array(v, copy=True)
    for k in NUMBERS + BASIS_NUMBERS + SYSTEM_NUMBERS:
        if hasattr(obj, k):
            d[k] = getattr(obj, k)
    for k in ("o", "v"):
        if hasattr(obj, k):
            s = getattr(obj, k)
            d[k] = (s.start, s.stop, s.step)
    return d
