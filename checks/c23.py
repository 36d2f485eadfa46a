"""C23: every basis family works through the whole life cycle with invariant physics."""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st

import families as fam
import oracles as o
from core import SEEDS, Sub, close, num, require, same, unitary

from quantum_systems import (
    BasisSet,
    GeneralOrbitalSystem,
    SpatialOrbitalSystem,
    TwoDimSmoothDoubleWell,
    construct_pyscf_system_ao,
    construct_pyscf_system_rhf,
)
from quantum_systems.time_evolution_operators import AdiabaticSwitching, LaserField

ASSUMPTIONS = [
    "hand-made families hold Hermitian elements; random basis sets hold what RandomBasisSet provides (two-body elements not Hermitian)",
    "a sinc-DVR basis in the compact two-body form is asked for energies and Fock matrices only after it is expanded or basis-changed",
]

MOLECULES = {
    "he": ("he 0 0 0", 0), "h2": ("h 0 0 -0.7; h 0 0 0.7", 0), "heh+": ("he 0 0 0; h 0 0 1.46", 1), "lih": ("li 0 0 0; h 0 0 3.0", 0),
}
PYSCF = st.fixed_dictionaries(
    {
        "fam": st.sampled_from(["rhf", "ao"]), "mol": st.sampled_from(list(MOLECULES)), "basis": st.sampled_from(["sto-3g", "6-31g"]),
        "add_spin": st.booleans(), "antisym": st.booleans(),
    }
)

OPS = st.one_of(
    st.fixed_dictionaries({"op": st.just("copy")}),
    st.fixed_dictionaries({"op": st.just("mix"), "seed": SEEDS, "cplx": st.booleans(), "bra": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("convert"), "antisym": st.sampled_from([True, True, False]), "ang": st.lists(num(-3, 3), min_size=4, max_size=4), "std": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("convert"), "antisym": st.just(True), "ang": st.lists(num(-3, 3), min_size=4, max_size=4), "std": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("rotate"), "seed": SEEDS}),
    st.fixed_dictionaries({"op": st.just("there_and_back"), "seed": SEEDS, "bi": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("biorthogonal"), "seed": SEEDS, "cplx": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("expand")}),
    st.fixed_dictionaries({"op": st.just("ask"), "t": num(0, 2)}),
    st.fixed_dictionaries({"op": st.just("module")}),
    st.fixed_dictionaries({"op": st.just("operator"), "kind": st.sampled_from(["none", "laser", "switch"])}),
    st.fixed_dictionaries({"op": st.just("truncate"), "seed": SEEDS, "drop": st.integers(1, 2)}),
)


@st.composite
def cases(draw, basis, max_ops=5):
    return {
        "basis": draw(basis),
        "kind": draw(st.sampled_from(["spatial", "spatial", "general"])),
        "n": draw(st.one_of(st.integers(0, 4), st.integers(5, 9))),
        "antisym": draw(st.sampled_from([True, True, False])),
        "pre": draw(st.sampled_from(["none", "none", "copy", "rotate", "double"])),
        "seed": draw(SEEDS),
        "ops": draw(st.lists(OPS, min_size=1, max_size=max_ops)),
    }


class Life:
    """The system, with the flags the model needs: kind, whether u is antisymmetrised, occupation."""


def start(case):
    b = case["basis"]
    L = Life()
    if b["fam"] in ("rhf", "ao"):
        geo, charge = MOLECULES[b["mol"]]
        fn = construct_pyscf_system_rhf if b["fam"] == "rhf" else construct_pyscf_system_ao
        kw = {"charge": charge} if charge else {}
        spin = b["add_spin"] and not (b["mol"] == "lih" and b["basis"] == "6-31g")
        with contextlib.redirect_stdout(io.StringIO()):
            L.system = fn(geo, basis=b["basis"], add_spin=spin, anti_symmetrize=b["antisym"], **kw)
        L.kind, L.asym, L.spinful = ("general", b["antisym"], True) if spin else ("spatial", False, False)
        return L
    bs = fam.build(b, hermitian=True)
    if case["pre"] == "copy":
        bs = bs.copy_basis()
    elif case["pre"] == "rotate":
        bs.change_basis(unitary(case["seed"], bs.l))
    elif case["pre"] == "double" and not bs.includes_spin:
        bs = bs.change_to_general_orbital_basis(anti_symmetrize=case["antisym"])
    if case["kind"] == "spatial" and not bs.includes_spin:
        L.system = SpatialOrbitalSystem(2 * min(case["n"] // 2, bs.l), bs)
        L.kind, L.asym, L.spinful = "spatial", False, False
    else:
        was, flag = bs.includes_spin, bs.anti_symmetrized_u
        l = bs.l if was else 2 * bs.l
        L.system = GeneralOrbitalSystem(min(case["n"], l), bs, anti_symmetrize=case["antisym"])
        L.kind, L.asym = "general", case["antisym"] or flag
        L.spinful = not was or case["pre"] == "double"
    return L


def dense(u):
    u = np.asarray(u)
    if u.ndim == 2:
        l = len(u)
        out = np.zeros((l,) * 4, dtype=u.dtype)
        for p in range(l):
            for q in range(l):
                out[p, q, p, q] = u[p, q]
        return out
    return u


def energy(L):
    """Own determinant energy from the elements."""
    s = L.system
    n = s.n
    h = np.asarray(s.h)[:n, :n]
    u = dense(s.u)[:n, :n, :n, :n]
    direct, exch = np.einsum("ijij->", u), np.einsum("ijji->", u)
    if L.kind == "spatial":
        return 2 * np.trace(h) + 2 * direct - exch
    return np.trace(h) + (0.5 * direct if L.asym else 0.5 * (direct - exch))


def reference(L):
    """Quantities of the reference state."""
    s = L.system
    n = s.n
    w = 2 if L.kind == "spatial" else 1
    q = {"energy": energy(L)}
    q["overlap"] = w * np.trace(np.asarray(s.s)[:n, :n])
    if s.dipole_moment is not None:
        q["dipole"] = np.array([w * np.trace(np.asarray(d)[:n, :n]) for d in s.dipole_moment])
    if s.spf is not None:
        q["density"] = w * np.einsum("i...,i...->...", np.asarray(s.bra_spf)[:n], np.asarray(s.spf)[:n])
    if L.kind == "general":
        if s.spin_x is not None:
            for k in ("spin_x", "spin_y", "spin_z"):
                q[k] = np.trace(np.asarray(getattr(s, k))[:n, :n])
            tb = np.asarray(s.spin_2_tb)[:n, :n, :n, :n]
            q["spin_2"] = np.trace(np.asarray(s.spin_2)[:n, :n]) + np.einsum("ijij->", tb) - (0 if L.asym else np.einsum("ijji->", tb))
    return q


def spectra(L):
    """Quantities of the whole one-particle space."""
    s = L.system
    rep = 2 if L.kind == "spatial" else 1
    q = {}
    for k, m in [("h", s.h), ("s", s.s)] + ([(f"dipole {i}", d) for i, d in enumerate(s.dipole_moment)] if s.dipole_moment is not None else []):
        m = np.asarray(m)
        q[f"spectrum of {k}"] = np.sort(np.repeat(np.linalg.eigvalsh(0.5 * (m + m.conj().T)), rep))
        q[f"Hermiticity of {k}"] = np.linalg.norm(m - m.conj().T) * np.sqrt(rep)
    if L.kind == "general" and s.spin_z is not None:
        for k in ("spin_x", "spin_y", "spin_z", "spin_2"):
            m = np.asarray(getattr(s, k))
            q[f"spectrum of {k}"] = np.linalg.eigvalsh(0.5 * (m + m.conj().T))
    return q


def agree(tag, got, want, L):
    tol = 1e-8
    scale = max(1.0, float(np.max(np.abs(np.asarray(L.system.h)))), float(np.max(np.abs(np.asarray(L.system.u)))) * max(1, L.system.n) ** 2)
    for k, v in want.items():
        if k not in got:
            require(k.startswith("spin") or "spin" in k, f"{tag}: {k} is gone")
            require(L.system.spin_x is not None if hasattr(L.system, "spin_x") else True, f"{tag}: {k} is gone")
            continue
        close(f"{tag}: {k}", got[k], v, tol, max(scale, float(np.max(np.abs(v), initial=0))))


def public(tag, L):
    """What the package itself reports must equal our reading of the elements."""
    s = L.system
    n, l = s.n, s.l
    E = energy(L)
    scale = max(1.0, abs(E), float(np.max(np.abs(np.asarray(s.u)))) * max(1, n) ** 2, float(np.max(np.abs(np.asarray(s.h)))) * max(1, n))
    u = np.asarray(s.u)
    if u.ndim == 4 and (L.kind == "spatial" or L.asym):
        close(f"{tag}: reference energy", s.compute_reference_energy(), E, 1e-10, scale)
        h = np.asarray(s.h)
        f = np.asarray(s.construct_fock_matrix(h, u))
        if L.kind == "spatial":
            fo = h + 2 * np.einsum("piqi->pq", u[:, :n, :, :n]) - np.einsum("piiq->pq", u[:, :n, :n, :])
            e = np.trace((h + f)[:n, :n])
        else:
            fo = h + np.einsum("piqi->pq", u[:, :n, :, :n])
            e = 0.5 * np.trace((h + f)[:n, :n])
        close(f"{tag}: Fock matrix", f, fo, 1e-10, scale)
        close(f"{tag}: energy from the Fock matrix", e, E, 1e-9, scale)
    if s.spf is not None:
        rho = np.zeros((l, l), dtype=complex)
        rho[range(n), range(n)] = 2 if L.kind == "spatial" else 1
        d = s.compute_particle_density(rho)
        close(f"{tag}: density", d, (2 if L.kind == "spatial" else 1) * np.einsum("i...,i...->...", np.asarray(s.bra_spf)[:n], np.asarray(s.spf)[:n]), 1e-10)
    else:
        require(s.bra_spf is None, f"{tag}: bra functions without functions")


def block(seed, n, l, cplx):
    U = np.zeros((l, l), dtype=complex if cplx else float)
    U[:n, :n] = unitary(seed, n, cplx)
    U[n:, n:] = unitary(seed + 1, l - n, cplx)
    return U


def run(case):
    L = start(case)
    labels = {"family:" + case["basis"]["fam"], "start:" + L.kind}
    enuc = L.system.nuclear_repulsion_energy
    grid = None if L.system.grid is None else np.array(L.system.grid)
    public("new system", L)
    q, w = reference(L), spectra(L)
    for i, op in enumerate(case["ops"]):
        s, k = L.system, op["op"]
        tag = f"after {k} ({i + 1})"
        if k == "copy":
            L.system = s.copy_system()
        elif k == "mix":
            U = block(op["seed"], s.n, s.l, op["cplx"])
            s.change_basis(U, U.conj().T if op["bra"] else None)
        elif k == "convert":
            if L.kind != "spatial" or s.l > 9:
                continue
            a, b = ([1, 0], [0, 1]) if op["std"] else o.spin_basis(op["ang"])
            new = s.construct_general_orbital_system(anti_symmetrize=op["antisym"], **({} if op["std"] else {"a": a, "b": b}))
            agree("spatial system after its conversion", reference(L), q, L)
            L.system = new
            L.kind, L.asym, L.spinful = "general", op["antisym"], True
            require((L.system.n, L.system.l) == (2 * s.n, 2 * s.l), "sizes after conversion")
            if L.system.spin_x is not None:
                r = reference(L)
                for x in ("spin_x", "spin_y", "spin_z"):
                    close(f"{x} of a closed shell", r[x], 0, 1e-9, max(1.0, abs(r["overlap"])))
                if np.allclose(s.s, np.eye(s.l)):
                    close("total spin of a closed shell", r["spin_2"], 0, 1e-8, max(1.0, s.n))
        elif k == "rotate":
            s.change_basis(unitary(op["seed"], s.l))
            q = reference(L)
        elif k == "there_and_back":
            U = unitary(op["seed"], s.l)
            if op["bi"]:
                U = U * np.linspace(0.7, 1.4, s.l)
                V = np.linalg.inv(U)
                s.change_basis(U, V)
                s.change_basis(V, U)
            else:
                s.change_basis(U)
                s.change_basis(U.conj().T)
        elif k == "biorthogonal":
            # any invertible mixing of occupied (and of virtual) functions, with its inverse for the bras
            U = block(op["seed"], s.n, s.l, op["cplx"]) * np.linspace(0.7, 1.4, s.l)
            s.change_basis(U, np.linalg.inv(U))
            w = spectra(L)
        elif k == "expand":
            if case["basis"]["fam"] != "dvr2" or np.ndim(s.u) != 2:
                continue
            # the system does not expose its basis publicly: found by what it is, not by its name
            for b in [b for b in vars(s).values() if isinstance(b, BasisSet)]:
                b.set_u_repr("4d")
        elif k == "ask":
            s.h_t(op["t"]), s.u_t(op["t"])
            s.bra_spf
            if s.spf is not None:
                s.compute_particle_density(np.eye(s.l, dtype=complex), C=unitary(3, s.l))
        elif k == "module":
            s.change_module(np)
        elif k == "operator":
            if op["kind"] == "laser" and s.dipole_moment is None:
                continue
            s.set_time_evolution_operator({"none": lambda: None, "laser": lambda: LaserField(lambda t: np.sin(t)), "switch": lambda: AdiabaticSwitching(lambda t: 1 / (1 + t))}[op["kind"]]())
        elif k == "truncate":
            new = max(s.l - op["drop"], s.n, 1)
            if new == s.l:
                continue
            U = block(op["seed"], s.n, s.l, True)[:, :new]
            s.change_basis(U)
            w = spectra(L)
        agree(tag, reference(L), q, L)
        agree(tag, spectra(L), w, L)
        public(tag, L)
        q, w = reference(L), spectra(L)
        require(L.system.nuclear_repulsion_energy == enuc, f"{tag}: nuclear repulsion energy")
        if grid is None:
            require(L.system.grid is None, f"{tag}: a grid appeared")
        else:
            same(f"{tag}: grid", L.system.grid, grid)
        labels.add(k)
    return labels


def known_findings():
    try:
        TwoDimSmoothDoubleWell(4, 4.0, 5)
    except Exception as e:
        return [f"TwoDimSmoothDoubleWell(4, 4.0, 5) cannot be constructed ({type(e).__name__}: {e})"]
    return []


NT = lambda c: c["n"] > 0
RULE = "at least one particle"
SUBS = [
    Sub("cheap_families", cases(fam.CHEAP), run, 500, 9000, RULE, NT, shards=4, tshards=7),
    Sub("sinc_dvr", cases(fam.DVR), run, 200, 3000, RULE, NT, shards=2, tshards=7),
    Sub("two_dimensional", cases(fam.TWO_DIM), run, 40, 500, RULE, NT, shards=3, tshards=7),
    Sub("molecules", cases(PYSCF), run, 30, 400, "every case", None, shards=2, tshards=4),
]
