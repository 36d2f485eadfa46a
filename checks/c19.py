"""C19: molecular systems reproduce the ab-initio integrals and the RHF energy."""
import contextlib
import io

import numpy as np
import pyscf
import scipy.linalg as sl
from hypothesis import strategies as st

import oracles as o
from core import SEEDS, Sub, close, num, require

from quantum_systems import GeneralOrbitalSystem, SpatialOrbitalSystem, construct_pyscf_system_ao, construct_pyscf_system_rhf

ASSUMPTIONS = ["PySCF's integrals and its RHF solver are correct; cases whose own RHF run does not converge are set aside"]

# symbol, coordinates (bohr), charge, bases small enough
MOLS = {
    "he": ([("He", 0, 0, 0)], 0, ["sto-3g", "6-31g", "cc-pvdz"]),
    "be": ([("Be", 0, 0, 0)], 0, ["sto-3g", "6-31g"]),
    "h2": ([("H", 0, 0, -0.7), ("H", 0, 0, 0.7)], 0, ["sto-3g", "6-31g", "6-31g**"]),
    "heh+": ([("He", 0, 0, 0), ("H", 0, 0, 1.46)], 1, ["sto-3g", "6-31g", "cc-pvdz"]),
    "h3+": ([("H", 0, 0, 0), ("H", 1.65, 0, 0), ("H", 0.82, 1.43, 0)], 1, ["sto-3g", "6-31g"]),
    "lih": ([("Li", 0, 0, 0), ("H", 0, 0, 3.0)], 0, ["sto-3g", "6-31g"]),
    "bh": ([("B", 0, 0, 0), ("H", 0, 0, 2.33)], 0, ["sto-3g"]),
    "h2o": ([("O", 0, 0, 0), ("H", 0, 1.43, 1.1), ("H", 0, -1.43, 1.1)], 0, ["sto-3g"]),
    "h-": ([("H", 0, 0, 0)], -1, ["6-31g", "cc-pvdz"]),
    "li+": ([("Li", 0.3, -0.2, 1)], 1, ["sto-3g", "6-31g"]),
    "hf": ([("H", 0, 0, 0), ("F", 0, 0, 1.73)], 0, ["sto-3g", "6-31g"]),
    "hhe+": ([("H", 0.4, 0, 0), ("He", 0, 0.2, 1.5)], 1, ["6-31g**"]),
    "beh2": ([("H", 0, 0, -2.5), ("Be", 0, 0, 0), ("H", 0, 0, 2.5)], 0, ["sto-3g"]),
    "lih2+": ([("Li", 0, 0, 0), ("H", 0, 0, 3.0), ("H", 0, 1.5, 3.4)], 1, ["sto-3g"]),
    "o2-": ([("O", 0, 0, 0)], -2, ["6-31g"]),
    "beh+": ([("Be", 0, 0, 0), ("H", 0, 0, 2.5)], 1, ["sto-3g"]),
}
# effective core potentials (given per element, so that PySCF has nothing to complain about)
ECP = {
    "nah": ([("Na", 0, 0, 0), ("H", 0, 0, 3.5)], 0, ["lanl2dz"]),
    "mg": ([("Mg", 0.5, 0, -1)], 0, ["lanl2dz"]),
    "k+": ([("K", 0, 0, 0)], 1, ["lanl2dz"]),
    "mgh+": ([("H", 0, 0.2, 0), ("Mg", 0, 0, 3.1)], 1, ["lanl2dz"]),
    "ne": ([("Ne", 0, 0, 1)], 0, ["crenbl"]),
}
# basis functions on centres without a nucleus
GHOST = {
    "he+g": ([("He", 0, 0, 0), ("ghost-He", 0, 0, 2.0)], 0, ["sto-3g", "6-31g"]),
    "h2+g": ([("ghost-H", 1.5, 0, 0), ("H", 0, 0, -0.7), ("H", 0, 0, 0.7)], 0, ["sto-3g", "6-31g"]),
    "lih+g": ([("Li", 0, 0, 0), ("H", 0, 0, 3.0), ("ghost-H", 0, 2.0, 1.0)], 0, ["sto-3g"]),
}
DCART = {"hhe+*": ([("H", 0, 0.3, 0), ("He", 0, 0, 1.5)], 1, ["cc-pvtz"]), "h-*": ([("H", 0, 0, 0.5)], -1, ["cc-pvtz"]), "li+*": ([("Li", 0, 0, 0)], 1, ["6-31g*"]), "he2*": ([("He", 0, 0, 0), ("He", 0, 0.2, 2.5)], 0, ["6-31g*", "cc-pvdz"]), "he3": ([("He", 0, 0, 0)], 0, ["cc-pvtz"]), "be*": ([("Be", 0, 0, 0)], 0, ["6-31g*"])}
ALL = {**MOLS, **DCART, **ECP, **GHOST}


@st.composite
def cases(draw, mols=tuple(MOLS)):
    name = draw(st.sampled_from(mols))
    geo = ALL[name]
    return {
        "mol": name,
        "basis": draw(st.sampled_from(geo[2])),
        "jitter": draw(SEEDS),
        "amp": draw(num(0, 0.15, 0.0)),
        "motion": draw(SEEDS),
        "move": draw(st.booleans()),
        "cart": draw(st.booleans()),
        "add_spin": draw(st.booleans()),
        "antisym": draw(st.booleans()),
        "form": draw(st.sampled_from(["string", "newline", "list"])),
        "mixed": draw(st.booleans()),
        "defaults": draw(st.booleans()),
        "verbose": draw(st.booleans()),
    }


def rotation(rng):
    q, r = np.linalg.qr(rng.normal(size=(3, 3)))
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q


def geometry(case, moved):
    atoms, charge, _ = ALL[case["mol"]]
    rng = np.random.RandomState(case["jitter"] % 2**32)
    xyz = np.array([a[1:] for a in atoms], dtype=float)
    if len(atoms) > 1:
        xyz = xyz + case["amp"] * rng.uniform(-1, 1, size=xyz.shape)
    if moved:
        rng = np.random.RandomState(case["motion"] % 2**32)
        xyz = xyz @ rotation(rng).T + rng.uniform(-3, 3, size=3)
    xyz = np.round(xyz, 8)
    return [a[0] for a in atoms], xyz, charge


def spell(form, sym, xyz):
    if form == "list":
        return [(s, tuple(float(v) for v in x)) for s, x in zip(sym, xyz)]
    rows = [f"{s} {x[0]:.8f} {x[1]:.8f} {x[2]:.8f}" for s, x in zip(sym, xyz)]
    return ("; " if form == "string" else "\n").join(rows)


HEAVY = ("Na", "Mg", "K", "Ne")


def options(case, sym):
    """Basis (one name or one per element) and effective core potentials, as given to the code and to the oracle."""
    basis = case["basis"]
    if case.get("mixed") and len(set(sym)) > 1 and case["mol"] not in ECP:
        names = ["sto-3g", basis]
        basis = {s: names[i % 2] for i, s in enumerate(sorted(set(sym)))}
    kw = {"basis": basis}
    if case["mol"] in ECP:
        kw["ecp"] = {s: case["basis"] for s in sym if s in HEAVY}
    return kw


def own_mol(case, sym, xyz, charge):
    return pyscf.gto.M(atom=spell("list", sym, xyz), unit="bohr", **options(case, sym), charge=charge, cart=case["cart"], verbose=0)


def nuclear(mol, xyz):
    z = mol.atom_charges()
    return sum(z[i] * z[j] / np.linalg.norm(xyz[i] - xyz[j]) for i in range(len(z)) for j in range(i))


def integrals(mol, origin):
    l = mol.nao
    with mol.with_common_orig(tuple(origin)):
        r = mol.intor("int1e_r", comp=3)
    h = mol.intor("int1e_kin") + mol.intor("int1e_nuc")
    if mol.has_ecp():
        h = h + mol.intor("ECPscalar")
    eri = mol.intor("int2e", aosym="s1").reshape((l,) * 4)
    u = np.einsum("prqs->pqrs", eri)  # (pr|qs) -> <pq|rs>
    return {"h": h, "s": mol.intor("int1e_ovlp"), "u": u, "dipole_moment": r}


def doubled(e, antisym):
    u = o.spin2(e["u"])
    return {"h": o.spin1(e["h"]), "s": o.spin1(e["s"]), "u": o.asym(u) if antisym else u, "dipole_moment": np.array([o.spin1(d) for d in e["dipole_moment"]])}


def build(fn, case, sym, xyz, charge, add_spin, **extra):
    kw = {**options(case, sym), **extra}
    if charge:
        kw["charge"] = charge
    if case["cart"]:
        kw["cart"] = True
    if not (case["defaults"] and add_spin):
        kw["add_spin"] = add_spin
    if not (case["defaults"] and case["antisym"]):
        kw["anti_symmetrize"] = case["antisym"]
    if not case["defaults"]:
        kw["np"] = np
    if case.get("verbose") and fn is construct_pyscf_system_rhf:
        kw["verbose"] = True
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(spell(case["form"], sym, xyz), **kw)


def shapes(tag, system, n, l, spin):
    f = 2 if spin else 1
    require(type(system) is (GeneralOrbitalSystem if spin else SpatialOrbitalSystem), f"{tag}: type {type(system).__name__}")
    require(system.l == f * l and system.n == n // 2 * f, f"{tag}: {system.n} occupied of {system.l}, expected {n // 2 * f} of {f * l}")


def ao(case):
    sym, xyz, charge = geometry(case, case["move"])
    mol = own_mol(case, sym, xyz, charge)
    spin = case["add_spin"] and mol.nao <= 12
    system = build(construct_pyscf_system_ao, case, sym, xyz, charge, spin)
    shapes("AO system", system, mol.nelectron, mol.nao, spin)
    e = integrals(mol, (0, 0, 0))
    if spin:
        e = doubled(e, case["antisym"])
    for k, v in e.items():
        close(f"AO {k}", getattr(system, k), v, 1e-9)
    close("nuclear repulsion", system.nuclear_repulsion_energy, nuclear(mol, xyz), 1e-9)
    return ["mol:" + case["mol"], "spin" if spin else "spatial", "moved" if case["move"] else "as given"]


def combos(e, seed):
    """Generalised spectra of random combinations of all operators: the same in every basis of the same space."""
    rng = np.random.RandomState(seed % 2**32)
    si = np.linalg.inv(e["s"])
    k1 = np.einsum("pqrs,sq->pr", e["u"], si)
    k2 = np.einsum("pqrs,rq->ps", e["u"], si)
    out = []
    for _ in range(3):
        c = rng.normal(size=6)
        M = c[0] * e["h"] + sum(c[1 + i] * e["dipole_moment"][i] for i in range(3)) + c[4] * k1 + c[5] * k2
        out.append(sl.eigvalsh(0.5 * (M + M.conj().T), e["s"]))
    return np.array(out)


def rhf(case):
    sym, xyz, charge = geometry(case, case["move"])
    mol = own_mol(case, sym, xyz, charge)
    hf = pyscf.scf.RHF(mol)
    hf.kernel()
    if not hf.converged:
        return ["set aside: own RHF run not converged"]
    enuc = nuclear(mol, xyz)
    spas = build(construct_pyscf_system_rhf, case, sym, xyz, charge, False)
    n, l = mol.nelectron, mol.nao
    shapes("RHF system", spas, n, l, False)
    z = mol.atom_charges()
    e = integrals(mol, (z[:, None] * xyz).sum(0) / z.sum())
    close("overlap", spas.s, np.eye(l), 1e-8)
    close("nuclear repulsion", spas.nuclear_repulsion_energy, enuc, 1e-9)
    got = {k: np.asarray(getattr(spas, k)) for k in ("h", "s", "u", "dipole_moment")}
    for k in ("h",):
        close("one-body spectrum", np.linalg.eigvalsh(got[k]), sl.eigvalsh(e[k], e["s"]), 1e-8)
    for i in range(3):
        close(f"position spectrum, axis {i}", np.linalg.eigvalsh(got["dipole_moment"][i]), sl.eigvalsh(e["dipole_moment"][i], e["s"]), 1e-8)
    close("joint spectra", combos({**got, "s": np.eye(l)}, case["jitter"]), combos(e, case["jitter"]), 1e-9)
    close("RHF energy", spas.compute_reference_energy() + enuc, hf.e_tot, 1e-8, 1.0)
    f = np.asarray(spas.construct_fock_matrix(got["h"], got["u"]))
    close("Fock matrix is diagonal", f - np.diag(np.diag(f)), np.zeros((l, l)), 4e-5, 1.0)
    close("orbital energies", np.sort(np.diag(f)), np.sort(hf.mo_energy), 4e-5, 1.0)
    require(np.max(np.diag(f)[: n // 2]) <= np.min(np.diag(f)[n // 2:], initial=np.inf) + 1e-6, "occupied orbitals are not the lowest")
    labels = ["mol:" + case["mol"]]
    if case["add_spin"] and l <= 12:
        gos = build(construct_pyscf_system_rhf, case, sym, xyz, charge, True)
        shapes("RHF general-orbital system", gos, n, l, True)
        d = doubled(got, case["antisym"])
        # two runs of the solver: orbitals agree up to sign/degeneracy, so compare invariants of each
        close("general-orbital overlap", gos.s, np.eye(2 * l), 1e-8)
        close("general-orbital nuclear repulsion", gos.nuclear_repulsion_energy, enuc, 1e-9)
        if case["antisym"]:
            close("general-orbital RHF energy", gos.compute_reference_energy() + enuc, hf.e_tot, 1e-8, 1.0)
            close("exchange sign", gos.u, -np.swapaxes(np.asarray(gos.u), 2, 3), 1e-10)
        g = {k: np.asarray(getattr(gos, k)) for k in ("h", "s", "u", "dipole_moment")}
        close("general-orbital joint spectra", combos({**g, "s": np.eye(2 * l)}, case["jitter"]), combos({**d, "s": np.eye(2 * l)}, case["jitter"]), 1e-6)
        labels.append("spin")
    if case["move"]:
        s0, x0, _ = geometry(case, False)
        still = build(construct_pyscf_system_rhf, case, s0, x0, charge, False)
        close("energy under a rigid motion", spas.compute_reference_energy() + spas.nuclear_repulsion_energy,
              still.compute_reference_energy() + still.nuclear_repulsion_energy, 1e-7, 1.0)
        dip = [np.linalg.norm([2 * np.trace(np.asarray(s.dipole_moment)[i][: n // 2, : n // 2]) for i in range(3)]) for s in (spas, still)]
        close("dipole about the charge centre under a rigid motion", dip[0], dip[1], 1e-5, 1.0)
        labels.append("moved")
    return labels


NT = lambda c: len(ALL[c["mol"]][0]) > 1
SUBS = [
    Sub("ao", cases(), ao, 200, 2500, "more than one nucleus", NT, shards=2, tshards=7),
    Sub("rhf", cases(), rhf, 160, 1500, "more than one nucleus", NT, shards=4, tshards=7),
    Sub("core_potentials", cases(mols=tuple(ECP)), lambda c: (ao(c), rhf(c))[1], 30, 250, "every case (effective core potentials)", None),
    Sub("ghosts", cases(mols=tuple(GHOST)), lambda c: (ao(c), rhf(c))[1], 30, 250, "every case (centres without a nucleus)", None),
    Sub("d_functions", cases(mols=tuple(DCART)), lambda c: (ao(c), rhf(c))[1], 10, 60, "every case (Cartesian or spherical d functions)", None),
]
