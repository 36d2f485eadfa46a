"""C06: particle density is the one-body density matrix in real space."""
import numpy as np
from hypothesis import strategies as st

import oracles as o
from core import SEEDS, Kept, Sub, arr, close, dup, hermitian, num, require, same, spec, tight, unitary

from quantum_systems import BasisSet, GeneralOrbitalSystem, ODQD, SpatialOrbitalSystem
from quantum_systems.system_helper import compute_particle_density
from quantum_systems.quantum_dots.one_dim.one_dim_qd import ODHO


@st.composite
def cases(draw, max_l=5):
    l = draw(st.integers(1, max_l))
    dim = draw(st.integers(1, 3))
    return {
        "l": l,
        "dim": dim,
        "shape": draw(st.lists(st.one_of(st.integers(1, 5), st.integers(1, 12)), min_size=dim, max_size=dim)),
        "data": draw(spec()),
        "fcplx": draw(st.booleans()),
        "bra": draw(st.sampled_from(["default", "explicit"])),
        "via": draw(st.sampled_from(["basis", "spatial", "general"])),
        "pre": draw(st.sampled_from(["none", "change", "double"])),
        "coef": draw(st.sampled_from(["none", "C", "both", "bra_only"])),
        "ccplx": draw(st.booleans()),
        "bcplx": draw(st.sampled_from(["same", "same", "real", "cplx"])),
        "new": draw(st.integers(1, max_l + 1)),
        "cseed": draw(SEEDS),
        "rho": draw(spec()),
        "herm": draw(st.booleans()),
        "w": draw(num(-3, 3)),
    }


def pointwise(rho, ket, bra):
    """sum_pq bra_p rho[q, p] ket_q at every grid point."""
    l = ket.shape[0]
    k, b = ket.reshape(l, -1), bra.reshape(l, -1)
    out = np.zeros(k.shape[1], dtype=complex)
    for x in range(k.shape[1]):
        out[x] = b[:, x] @ (rho.T @ k[:, x])
    return out.reshape(ket.shape[1:])


def bra_cplx(case, key):
    """Bra quantities may be real or complex whatever the ket ones are."""
    return {"same": case[key], "real": False, "cplx": True}[case["bcplx"]]


def run(case):
    l, dim, d = case["l"], case["dim"], case["data"]
    bs = BasisSet(l, dim)
    bs.h, bs.s, bs.u = arr(d, (l, l), 1), np.eye(l), arr(d, (l,) * 4, 2)
    ket = arr(d, (l, *case["shape"]), 3, cplx=case["fcplx"])
    bs.spf = dup(ket)
    bra = ket.conj()
    if case["bra"] == "explicit":
        bra = arr(d, ket.shape, 4, cplx=bra_cplx(case, "fcplx"))
        bs.bra_spf = dup(bra)
    obj = bs
    if case["via"] == "spatial":
        obj = SpatialOrbitalSystem(0, bs)
    elif case["via"] == "general":
        obj = GeneralOrbitalSystem(0, bs)
        ket, bra = o.spinf(ket), o.spinf(bra)
    if case["pre"] == "double":
        if case["via"] == "basis":
            bs.change_to_general_orbital_basis()
            ket, bra = o.spinf(ket), o.spinf(bra)
        elif case["via"] == "spatial":
            obj = obj.construct_general_orbital_system()
            ket, bra = o.spinf(ket), o.spinf(bra)
    elif case["pre"] == "change":
        rng = np.random.RandomState(case["cseed"])
        n = ket.shape[0]
        C0 = rng.normal(size=(n, max(1, n - 1))) + 1j * rng.normal(size=(n, max(1, n - 1)))
        obj.change_basis(C0)
        ket, bra = o.tket(ket, C0), o.tbra(bra, C0.conj().T)
    n = ket.shape[0]
    C = Ct = None
    N = n
    csp = {"kind": "gauss", "seed": case["cseed"], "cplx": case["ccplx"]}
    if case["coef"] in ("C", "both"):
        N = case["new"]
        C = arr(csp, (n, N), 5)
        if case["coef"] == "both":
            Ct = arr(csp, (N, n), 6, cplx=bra_cplx(case, "ccplx"))
    elif case["coef"] == "bra_only":
        Ct = arr(csp, (case["new"], n), 6)
    rho = hermitian(case["rho"], N, 7) if case["herm"] else arr(case["rho"], (N, N), 7)
    K, B = ket, bra
    if C is not None:
        K, B = o.tket(ket, C), o.tbra(bra, C.conj().T if Ct is None else Ct)
    expect = pointwise(rho, K, B)
    keep = [None if x is None else x.copy() for x in (rho, C, Ct)]
    h0, u0, s0, k0, b0 = (np.array(getattr(obj, x)) for x in ("h", "u", "s", "spf", "bra_spf"))
    got = obj.compute_particle_density(rho, C=C, C_tilde=Ct) if case["cseed"] % 2 else obj.compute_particle_density(rho, C, Ct)
    scale = max(1.0, float(np.sum(np.abs(rho)) * np.max(np.abs(K), initial=0) * np.max(np.abs(B), initial=0)))
    KA, BA = np.abs(ket), np.abs(bra)
    if case["pre"] == "change":  # rounding errors of the functions themselves
        KA, BA = KA + np.max(KA, initial=0), BA + np.max(BA, initial=0)
    if C is not None:
        KA, BA = o.tket(KA, np.abs(C)), o.tbra(BA, np.abs(C.T if Ct is None else Ct))
    bound = pointwise(np.abs(rho), KA, BA).real
    tight("density", got, expect, bound)
    kept = Kept()
    kept.add("density", got, *(getattr(obj, x) for x in ("h", "u", "s", "spf", "bra_spf")))
    for x, y in zip((rho, C, Ct), keep):
        if x is not None:
            same("argument of the density", x, y)
    for name, y in zip(("h", "u", "s", "spf", "bra_spf"), (h0, u0, s0, k0, b0)):
        same(f"{name} after computing a density", getattr(obj, name), y)
    tight("the same density again", obj.compute_particle_density(rho, C, Ct), expect, bound)
    # linear in the density matrix
    rho2 = arr(case["rho"], (N, N), 8)
    w = case["w"]
    lhs = obj.compute_particle_density(rho + w * rho2, C, Ct)
    rhs = expect + w * np.asarray(obj.compute_particle_density(rho2, C, Ct))
    close("linearity", lhs, rhs, 1e-10, scale * (1 + abs(w)) * 10)
    # Hermitian density matrices in a Hermitian basis have a real density
    if case["herm"] and case["bra"] == "default" and case["coef"] != "both":
        close("imaginary part", np.imag(got), np.zeros(expect.shape), 1e-11, scale)
    # exactly as if the basis had been changed
    if C is not None:
        obj.change_basis(C, Ct)
        tight("density after changing the basis", obj.compute_particle_density(rho), expect, bound)
    kept.check()
    return ["via:" + case["via"], "pre:" + case["pre"], "coef:" + case["coef"], f"dim:{dim}"]


def helper(case):
    l, d = case["l"], case["data"]
    ket, bra = arr(d, (l, *case["shape"]), 1), arr(d, (l, *case["shape"]), 2, cplx=case["bcplx"])
    rho = arr(case["rho"], (l, l), 3)
    keep = [x.copy() for x in (ket, bra, rho)]
    got = compute_particle_density(rho, ket, bra, np)
    tight("compute_particle_density", got, pointwise(*[keep[i] for i in (2, 0, 1)]), pointwise(*[np.abs(keep[i]) for i in (2, 0, 1)]))
    first = np.array(got)
    compute_particle_density(2 * rho, ket, bra, np)
    same("density returned earlier", got, first)
    for x, y in zip((ket, bra, rho), keep):
        same("helper argument", x, y)


@st.composite
def dot_cases(draw):
    kind = draw(st.sampled_from(["odqd", "odho"]))
    ng = draw(st.integers(61, 161))
    return {
        "kind": kind, "ng": ng, "l": draw(st.integers(2, 12)), "len": draw(num(7, 11)),
        "rho": draw(spec()), "rot": draw(SEEDS), "mix": draw(st.booleans()),
    }


STEP = st.fixed_dictionaries(
    {"what": st.sampled_from(["rho", "rho", "C", "Ct", "ket", "bra", "change", "none"]), "seed": SEEDS, "coef": st.sampled_from(["none", "C", "both"])}
)


@st.composite
def reuse_cases(draw):
    dim = draw(st.integers(1, 2))
    return {
        "l": draw(st.integers(1, 4)), "shape": draw(st.lists(st.integers(1, 6), min_size=dim, max_size=dim)), "seed": draw(SEEDS),
        "via": draw(st.sampled_from(["basis", "spatial", "general"])), "cplx": draw(st.booleans()), "steps": draw(st.lists(STEP, min_size=2, max_size=7)),
    }


def reuse(case):
    """The caller's arrays are filled again and again: the density follows their contents, not their identity."""
    l, shape = case["l"], tuple(case["shape"])
    rng = np.random.RandomState(case["seed"] % 2**32)
    new = lambda *s: rng.normal(size=s) + (1j * rng.normal(size=s) if case["cplx"] else 0)
    bs = BasisSet(l, len(shape), includes_spin=case["via"] == "general")
    bs.h, bs.s, bs.u, bs.spf, bs.bra_spf = np.eye(l), np.eye(l), np.zeros((l,) * 4), new(l, *shape), new(l, *shape)
    obj = {"basis": lambda: bs, "spatial": lambda: SpatialOrbitalSystem(0, bs), "general": lambda: GeneralOrbitalSystem(0, bs)}[case["via"]]()
    rho, C, Ct = new(l, l), new(l, l), new(l, l)
    kept = Kept()
    for i, stp in enumerate(case["steps"]):
        rng.seed(stp["seed"] % 2**32)
        if stp["what"] in ("rho", "C", "Ct"):
            {"rho": rho, "C": C, "Ct": Ct}[stp["what"]][...] = new(l, l)
        elif stp["what"] in ("ket", "bra"):
            f = obj.spf if stp["what"] == "ket" else obj.bra_spf
            f[...] = new(l, *shape)
        elif stp["what"] == "change":
            obj.change_basis(np.array(C) / l, np.array(Ct) / l)
        k, b = np.array(obj.spf), np.array(obj.bra_spf)
        args = {"none": (), "C": (C,), "both": (C, Ct)}[stp["coef"]]
        K, B, KA, BA = k, b, np.abs(k), np.abs(b)
        if args:
            eff = C.conj().T if len(args) == 1 else Ct
            K, B, KA, BA = o.tket(k, C), o.tbra(b, eff), o.tket(KA, np.abs(C)), o.tbra(BA, np.abs(eff))
        got = obj.compute_particle_density(rho, *args)
        tight(f"density {i} ({stp['what']} changed)", got, pointwise(rho, K, B), pointwise(np.abs(rho), KA, BA))
        kept.add(f"density {i}", got, obj.spf, obj.bra_spf)
    kept.check()
    return {"changed:" + x["what"] for x in case["steps"]}


def fine(case):
    """Grids of many points."""
    l, shape = case["l"], tuple(case["shape"])
    rng = np.random.RandomState(case["seed"] % 2**32)
    f = rng.normal(size=(l, *shape)) + (1j * rng.normal(size=(l, *shape)) if case["cplx"] else 0)
    bs = BasisSet(l, len(shape))
    bs.h, bs.s, bs.spf = np.eye(l), np.eye(l), f
    rho = rng.normal(size=(l, l)) + (1j * rng.normal(size=(l, l)) if case["cplx"] else 0)
    k = f.reshape(l, -1)
    e = np.einsum("px,qp,qx->x", k.conj(), rho, k, optimize=False).reshape(shape)
    b = np.einsum("px,qp,qx->x", np.abs(k), np.abs(rho), np.abs(k), optimize=False).reshape(shape)
    tight("density on many points", bs.compute_particle_density(rho), e, b)


@st.composite
def fine_cases(draw):
    dim = draw(st.integers(1, 3))
    top = {1: 12000, 2: 110, 3: 24}[dim]
    return {"l": draw(st.integers(1, 5)), "shape": draw(st.lists(st.integers(top // 8, top), min_size=dim, max_size=dim)), "seed": draw(SEEDS), "cplx": draw(st.booleans())}


def dots(case):
    """On a real grid basis: the density integrates to the trace; spin doubling sums spins."""
    l = case["l"]
    if case["kind"] == "odqd":
        bs = ODQD(l, case["len"], case["ng"])
        tol = 1e-9
    else:
        bs = ODHO(l, case["len"], case["ng"], 1.0)
        tol = 1e-3
    spas = SpatialOrbitalSystem(2, bs)
    gos = spas.construct_general_orbital_system()
    R = hermitian(case["rho"], l, 5)
    Q = hermitian(case["rho"], l, 6)
    x = spas.grid
    dx = x[1] - x[0]
    w = np.full(len(x), dx)
    w[0] = w[-1] = 0.5 * dx
    scale = max(1.0, float(np.sum(np.abs(R)) + np.sum(np.abs(Q))))
    dens = np.asarray(spas.compute_particle_density(R))
    close("integral of the density", np.sum(w * dens), np.trace(R), tol, scale)
    close("imaginary part", dens.imag, np.zeros(len(x)), 1e-10, scale)
    other = np.asarray(spas.compute_particle_density(Q))
    # spin-diagonal density matrix of the doubled system: up block R, down block Q
    D = np.zeros((2 * l, 2 * l), dtype=complex)
    D[::2, ::2], D[1::2, 1::2] = R, Q
    got = gos.compute_particle_density(D)
    close("spin-summed density", got, dens + other, 1e-10, scale)
    if case["mix"]:
        U = unitary(case["rot"], 2 * l)
        gos.change_basis(U)
        close("spin-summed density after mixing", gos.compute_particle_density(U.conj().T @ D @ U), dens + other, 1e-10, scale)
        U = unitary(case["rot"], l)
        spas.change_basis(U)
        close("density after mixing", spas.compute_particle_density(U.conj().T @ R @ U), dens, 1e-10, scale)
    close("reference density", spas.compute_particle_density(2 * np.diag([1.0] + [0.0] * (l - 1))), 2 * np.abs(np.asarray(spas.spf[0])) ** 2, 1e-10, 1.0)
    return ["kind:" + case["kind"]]


NT = lambda c: c["l"] > 1
QUICK = 8
SUBS = [
    Sub("histories", cases(), run, 900, 12000, "at least two basis functions", NT, shards=4, tshards=7),
    Sub("helper", st.fixed_dictionaries({"l": st.integers(1, 12), "shape": st.lists(st.integers(1, 7), min_size=1, max_size=4), "data": spec(), "rho": spec(), "bcplx": st.booleans()}),
        helper, 200, 2000, "at least two basis functions", NT),
    Sub("larger", cases(max_l=14), run, 150, 2000, "at least two basis functions", NT, shards=2),
    Sub("reuse", reuse_cases(), reuse, 300, 4000, "at least two basis functions", NT),
    Sub("many_points", fine_cases(), fine, 8, 150, "at least two basis functions", NT),
    Sub("many_functions", st.fixed_dictionaries({"l": st.integers(15, 140), "shape": st.lists(st.integers(1, 6), min_size=1, max_size=2), "seed": SEEDS, "cplx": st.booleans()}),
        fine, 8, 150, "every case (15 or more functions)"),
    Sub("quantum_dots", dot_cases(), dots, 120, 1200, "every case (two or more orbitals)", NT, shards=2),
]
