"""C20: random basis sets have the symmetries of second-quantised elements."""
import numpy as np
from hypothesis import strategies as st

from core import SEEDS, Sub, arr, close, is_complex, require, same, spec

from quantum_systems import GeneralOrbitalSystem, RandomBasisSet, SpatialOrbitalSystem

ASSUMPTIONS = ["the random generator is numpy's global one (its state is generated, and restored afterwards)"]

TOL = 1e-13


@st.composite
def basis_cases(draw):
    spin = draw(st.booleans())
    return {
        "l": draw(st.one_of(st.integers(1, 7), st.integers(1, 7), st.integers(8, 14), st.integers(8, 18))), "dim": draw(st.integers(1, 4)), "seed": draw(SEEDS),
        "burn": draw(st.integers(0, 9)), "np": draw(st.booleans()), "spin": spin,
        "antisym": draw(st.booleans()) if spin else False, "again": draw(st.booleans()),
    }


def make(case):
    kw = {}
    if case["np"]:
        kw["np"] = np
    if case["spin"]:
        kw["includes_spin"] = True
        if case["antisym"]:
            kw["anti_symmetrized_u"] = True
    return RandomBasisSet(case["l"], case["dim"], **kw)


def hermitian(name, m):
    m = np.asarray(m)
    close(f"{name} equals its Hermitian conjugate", m, m.conj().T, TOL)


def basis(case):
    l, dim = case["l"], case["dim"]
    state = np.random.get_state()
    try:
        np.random.seed(case["seed"])
        np.random.random(case["burn"])
        sets = [make(case)]
        if case["again"]:
            sets.append(make(case))
            sets[0].setup_basis()
    finally:
        np.random.set_state(state)
    for bs in sets:
        for k, shape in [("h", (l, l)), ("s", (l, l)), ("u", (l,) * 4), ("dipole_moment", (dim, l, l))]:
            a = np.asarray(getattr(bs, k))
            require(a.shape == shape, f"{k}: shape {a.shape}, expected {shape}")
            is_complex(k, a)
            require(np.all(np.isfinite(a)), f"{k}: non-finite values")
            if l > 1:
                require(np.any(a.imag != 0), f"{k}: no imaginary part")
                require(np.ptp(a.real) > 0, f"{k}: all elements equal")
        hermitian("h", bs.h)
        hermitian("s", bs.s)
        for i in range(dim):
            hermitian(f"dipole_moment[{i}]", bs.dipole_moment[i])
        u = np.asarray(bs.u)
        close("u under exchange of the particles", u, u.transpose(1, 0, 3, 2), TOL)
        e = bs.nuclear_repulsion_energy
        require(np.ndim(e) == 0 and np.isrealobj(np.asarray(e)) and np.isfinite(e), f"nuclear repulsion energy {e!r}")
        require(bs.l == l and bs.dim == dim and bs.includes_spin == case["spin"], "size, dimension or spin flag")
        require(bs.anti_symmetrized_u == case["antisym"], "antisymmetry flag")
    if l >= 2:
        a, b = np.asarray(sets[0].h), np.asarray(sets[0].s)
        require(not np.array_equal(a, b), "h and s are the same matrix")
        if dim > 1:
            d = np.asarray(sets[0].dipole_moment)
            require(not np.array_equal(d[0], d[1]), "two dipole components are the same matrix")
    if case["again"] and l >= 2:
        require(not np.array_equal(np.asarray(sets[0].u), np.asarray(sets[1].u)), "two random basis sets are equal")
    # what other tests rely on: real energies of Hermitian one-body operators in any basis wrapped by a system
    if not case["spin"] and l >= 2:
        sys_ = SpatialOrbitalSystem(2, sets[0].copy_basis())
        w = np.linalg.eigvals(np.asarray(sys_.h))
        close("spectrum of h is real", w.imag, np.zeros(l), 1e-10, max(1, np.max(np.abs(w))))
        if l <= 5:
            gos = GeneralOrbitalSystem(2, sets[0].copy_basis())
            g = np.asarray(gos.u)
            close("antisymmetrised u", g, -g.transpose(1, 0, 2, 3), 1e-12)
    return [f"dim={dim}", "spin" if case["spin"] else "spatial", f"seed0={case['seed'] == 0}"]


@st.composite
def helper_cases(draw):
    return {"l": draw(st.one_of(st.integers(1, 8), st.integers(1, 8), st.integers(9, 20))), "dim": draw(st.integers(1, 4)), "data": draw(spec())}


def helpers(case):
    l, dim, d = case["l"], case["dim"], case["data"]
    h = arr(d, (l, l), 1)
    h0 = h.copy()
    p = np.asarray(RandomBasisSet.make_hermitian(h))
    close("Hermitian part", p, 0.5 * (h0 + h0.conj().T), TOL)
    close("Hermitian part of a Hermitian matrix", RandomBasisSet.make_hermitian(p.copy()), p, TOL)
    same("argument of make_hermitian", h, h0)
    u = arr(d, (l,) * 4, 2)
    u0 = u.copy()
    q = np.asarray(RandomBasisSet.make_two_body_symmetry(u))
    close("symmetric part", q, 0.5 * (u0 + np.einsum("pqrs->qpsr", u0)), TOL)
    close("symmetric part of symmetric elements", RandomBasisSet.make_two_body_symmetry(q.copy()), q, TOL)
    same("argument of make_two_body_symmetry", u, u0)
    D = arr(d, (dim, l, l), 3)
    D0 = D.copy()
    r = np.asarray(RandomBasisSet.make_dipole_moment_hermitian(D))
    close("Hermitian dipole part", r, 0.5 * (D0 + D0.conj().transpose(0, 2, 1)), TOL)
    close("Hermitian part of Hermitian dipoles", RandomBasisSet.make_dipole_moment_hermitian(r.copy()), r, TOL)
    return ["complex" if d["cplx"] else "real"]


def elements(case):
    shape = tuple(case["shape"]) if len(case["shape"]) != 1 or not case["int"] else case["shape"][0]
    state = np.random.get_state()
    try:
        np.random.seed(case["seed"])
        a = np.asarray(RandomBasisSet.get_random_elements(shape, np))
    finally:
        np.random.set_state(state)
    require(a.shape == tuple(case["shape"]), f"random elements: shape {a.shape}, expected {tuple(case['shape'])}")
    is_complex("random elements", a)
    if a.size > 1:
        require(np.any(a.imag != 0) and not np.array_equal(a.real, a.imag), "imaginary part is missing or repeats the real part")
    return [f"rank {len(case['shape'])}"]


QUICK = 8
SUBS = [
    Sub("basis", basis_cases(), basis, 400, 12000, "more than one basis function", lambda c: c["l"] > 1, shards=3, tshards=7,
        fixed=[{"l": 1, "dim": 1, "seed": 0, "burn": 0, "np": False, "spin": False, "antisym": False, "again": True},
        *({"l": l, "dim": 2, "seed": l, "burn": 0, "np": False, "spin": False, "antisym": False, "again": False} for l in (33, 41))]),
    Sub("projections", helper_cases(), helpers, 400, 12000, "more than one basis function", lambda c: c["l"] > 1, shards=2, tshards=4,
        fixed=[{"l": l, "dim": 3, "data": {"kind": "gauss", "seed": l, "cplx": True}} for l in (33, 40)]),
    Sub("elements", st.fixed_dictionaries({"shape": st.lists(st.integers(1, 5), min_size=1, max_size=5), "int": st.booleans(), "seed": SEEDS}),
        elements, 200, 4000, "more than one element", lambda c: np.prod(c["shape"]) > 1),
]
