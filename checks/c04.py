"""C04: spin operators describe spin one-half particles in every basis."""
import numpy as np
from hypothesis import strategies as st

import oracles as o
from c02 import ANGLES
from core import SEEDS, Sub, arr, close, num, require, spd, spec, unitary

from quantum_systems import BasisSet, GeneralOrbitalSystem, SpatialOrbitalSystem


@st.composite
def cases(draw, max_l=3, min_l=1):
    l = draw(st.integers(min_l, max_l))
    return {
        "l": l,
        "overlap": draw(st.sampled_from(["unit", "real", "complex"])),
        "oseed": draw(SEEDS),
        "spin": draw(ANGLES),
        "as_list": draw(st.sampled_from([False, True, "column", "tuple", "column list"])),
        "antisym": draw(st.booleans()),
        "route": draw(st.sampled_from(["basis", "gos", "construct"])),
        "ortho": draw(st.sampled_from(["symmetric", "cholesky", "before"])),
        "mix": draw(st.sampled_from(["none", "spatial", "full", "twice"])),
        "mseed": draw(SEEDS),
        "keep": draw(st.integers(1, l)),
        "nocc": draw(st.integers(0, l)),
    }


def spin_mats(s, a, b):
    sig = o.paulis(a, b)
    l = s.shape[0]
    out = []
    for k in range(3):
        m = np.zeros((2 * l, 2 * l), dtype=complex)
        for P in range(2 * l):
            for Q in range(2 * l):
                m[P, Q] = 0.5 * s[P // 2, Q // 2] * sig[k][P % 2, Q % 2]
        out.append(m)
    return out


def expected(s, a, b, antisym):
    S = spin_mats(s, a, b)
    tb = sum(np.einsum("pr,qs->pqrs", x, x) for x in S)
    return S, 0.75 * o.spin1(s), o.asym(tb) if antisym else tb


def compare(tag, obj, S, S2, tb):
    for name, x in zip(("spin_x", "spin_y", "spin_z"), S):
        close(f"{tag}: {name}", getattr(obj, name), x)
    close(f"{tag}: spin_2", obj.spin_2, S2)
    close(f"{tag}: spin_2_tb", obj.spin_2_tb, tb)


def run(case, fock=True):
    l = case["l"]
    if case["overlap"] == "unit":
        s = np.eye(l)
    else:
        s = spd(case["oseed"], l, case["overlap"] == "complex")
    w, v = np.linalg.eigh(s)
    bs = BasisSet(l, 1)
    d = {"kind": "gauss", "seed": case["oseed"], "cplx": True}
    bs.h, bs.s, bs.u = arr(d, (l, l), 1), s.copy(), arr(d, (l,) * 4, 2)
    if case["ortho"] == "symmetric":
        X = (v / np.sqrt(w)) @ v.conj().T
    else:
        X = np.linalg.inv(np.linalg.cholesky(s)).conj().T
    if case["ortho"] == "before":
        bs.change_basis(X)
        s = X.conj().T @ s @ X
    a, b = o.spin_basis(case["spin"])
    kw = {"a": a, "b": b, "anti_symmetrize": case["antisym"]}
    how = {True: list, "column": lambda v: np.array(v).reshape(2, 1), "tuple": tuple, "column list": lambda v: [[v[0]], [v[1]]]}.get(case["as_list"], lambda v: v)
    kw["a"], kw["b"] = how(a), how(b)
    if case["route"] == "basis":
        obj = bs.change_to_general_orbital_basis(**kw)
    elif case["route"] == "gos":
        obj = GeneralOrbitalSystem(0, bs, **kw)
    else:
        obj = SpatialOrbitalSystem(0, bs).construct_general_orbital_system(**kw)
    S, S2, tb = expected(s, a, b, case["antisym"])
    compare("doubled", obj, S, S2, tb)

    # to an orthonormal basis, possibly mixing orbitals and spins, possibly dropping whole spatial orbitals
    Cs = np.eye(l, dtype=complex) if case["ortho"] == "before" else X.astype(complex)
    keep = case["keep"] if case["mix"] in ("spatial", "none") else l
    if case["mix"] == "spatial":
        Cs = Cs @ unitary(case["mseed"], l)
    Cs = Cs[:, :keep]
    steps = [np.kron(Cs, np.eye(2))]
    if case["mix"] in ("full", "twice"):
        U = unitary(case["mseed"], 2 * l)
        steps = [steps[0] @ U] if case["mix"] == "full" else [steps[0], U]
    for C in steps:
        obj.change_basis(C)
    C = steps[0] if len(steps) == 1 else steps[0] @ steps[1]
    eff = C.conj().T
    S = [o.t1(x, C, eff) for x in S]
    compare("orthonormal", obj, S, o.t1(S2, C, eff), o.t2(tb, C, eff))
    N = C.shape[1]
    close("overlap", obj.s, np.eye(N), 1e-9)
    sx, sy, sz = (np.asarray(getattr(obj, k)) for k in ("spin_x", "spin_y", "spin_z"))
    for p, q, r, name in ((sx, sy, sz, "[Sx,Sy]"), (sy, sz, sx, "[Sy,Sz]"), (sz, sx, sy, "[Sz,Sx]")):
        close(name, p @ q - q @ p, 1j * r)
    for x in (sx, sy, sz):
        close("hermiticity", x, x.conj().T)
        close("Si^2", x @ x, 0.25 * np.eye(N))
        close("trace", np.trace(x), 0.0)
    close("one-body spin squared", obj.spin_2, 0.75 * np.eye(N))
    f = 0.5 if case["antisym"] else 1.0
    if fock and N <= 6:
        many = sum(np.linalg.matrix_power(o.fock_one(x), 2) for x in S)
        built = o.fock_one(np.asarray(obj.spin_2)) + f * o.fock_two(np.asarray(obj.spin_2_tb))
        close("many-body spin squared", built, many)
    # closed-shell reference determinants have spin zero when pairs of spin-orbitals are filled
    if case["mix"] in ("none", "spatial"):
        n = 2 * min(case["nocc"], keep)
        t = np.asarray(obj.spin_2_tb)[:n, :n, :n, :n]
        ex = np.einsum("ijij->", t) - (0 if case["antisym"] else np.einsum("ijji->", t))
        close("spin of the closed-shell reference", np.trace(np.asarray(obj.spin_2)[:n, :n]) + ex, 0.0)
        if n + 1 <= N:
            n += 1
            t = np.asarray(obj.spin_2_tb)[:n, :n, :n, :n]
            ex = np.einsum("ijij->", t) - (0 if case["antisym"] else np.einsum("ijji->", t))
            close("spin of a doublet", np.trace(np.asarray(obj.spin_2)[:n, :n]) + ex, 0.75)
    return ["overlap:" + case["overlap"], "mix:" + case["mix"], "route:" + case["route"]]


def pauli(case):
    a, b = o.spin_basis(case["spin"])
    got = BasisSet.setup_pauli_matrices(a.reshape(-1, 1), b.reshape(-1, 1), np)
    for k, (g, e) in enumerate(zip(got, o.paulis(a, b))):
        close(f"Pauli matrix {k}", g, e, 1e-12)


def ssq(case):
    """The helper on bare matrices: resolution of identity with the inverse overlap."""
    l = case["l"]
    S = spd(case["seed"], l)
    mats = [arr(case["data"], (l, l), i, cplx=True) for i in range(3)]
    keep = [m.copy() for m in mats]
    one, two = BasisSet.setup_spin_squared_operator(*mats, S, np)
    close("one-body", one, sum(m @ np.linalg.solve(S, m) for m in keep), 1e-8)
    close("two-body", two, sum(np.einsum("pr,qs->pqrs", m, m) for m in keep))


def overlaps(case):
    """Nearly dependent functions, badly normalised ones, and coefficients that do not orthonormalise."""
    l = case["l"]
    rng = np.random.RandomState(case["oseed"] % 2**32)
    w = 10.0 ** (case["scale"] - case["span"] * rng.uniform(0, 1, size=l))
    U = unitary(case["oseed"] + 1, l, case["cplx"])
    s = (U * w) @ U.conj().T
    s = 0.5 * (s + s.conj().T)
    if case["norms"]:
        f = 10.0 ** rng.uniform(-1, 1, size=l)
        s = s * f[:, None] * f[None, :]
    bs = BasisSet(l, 1)
    d = {"kind": "gauss", "seed": case["oseed"], "cplx": True}
    bs.h, bs.s, bs.u = arr(d, (l, l), 1), s.copy(), arr(d, (l,) * 4, 2)
    a, b = o.spin_basis(case["spin"])
    obj = bs.change_to_general_orbital_basis(a=a, b=b, anti_symmetrize=case["antisym"])
    S, S2, tb = expected(s, a, b, case["antisym"])
    top = float(np.max(np.abs(s)))
    err = 1e-13 * np.linalg.cond(s) * l + 1e-13

    def same_ops(tag, S, S2, tb, f):
        for name, x in zip(("spin_x", "spin_y", "spin_z"), S):
            close(f"{tag}: {name}", getattr(obj, name), x, 1e-12, top * f)
        close(f"{tag}: spin_2", obj.spin_2, S2, err, top * f)
        close(f"{tag}: spin_2_tb", obj.spin_2_tb, tb, 1e-12, (top * f) ** 2)

    same_ops("doubled", S, S2, tb, 1.0)
    C = arr({"kind": "gauss", "seed": case["mseed"], "cplx": True}, (2 * l, case["new"]), 3)
    eff = C.conj().T
    obj.change_basis(C)
    same_ops("transformed", [o.t1(x, C, eff) for x in S], o.t1(S2, C, eff), o.t2(tb, C, eff), max(1.0, float(np.sum(np.abs(C) ** 2))))
    return ["conditioning:1e%d" % round(np.log10(np.linalg.cond(s)))]


@st.composite
def overlap_cases(draw):
    return {
        "l": draw(st.integers(1, 5)), "oseed": draw(SEEDS), "mseed": draw(SEEDS), "cplx": draw(st.booleans()), "norms": draw(st.booleans()),
        "scale": draw(st.integers(-4, 4)), "span": draw(st.one_of(num(0, 6, 0.0), num(0, 6, 0.0), st.builds(lambda m, k: m * 10.0**-k, num(1, 9), st.integers(2, 10)))), "spin": draw(ANGLES), "antisym": draw(st.booleans()), "new": draw(st.integers(1, 8)),
    }


NT = lambda c: c["l"] > 1 or c["spin"] != [0.0] * 4
QUICK = 8
SUBS = [
    Sub("fock_space", cases(), run, 800, 10000, "more than one orbital or a non-default spin basis", NT, shards=3, tshards=7),
    Sub("larger", cases(max_l=6), lambda c: run(c, fock=False), 200, 2500, "more than one orbital or a non-default spin basis", NT, shards=2),
    Sub("largest", cases(min_l=7, max_l=14), lambda c: run(c, fock=False), 20, 300, "every case (seven or more orbitals)", shards=2),
    Sub("overlaps", overlap_cases(), overlaps, 200, 2500, "two or more functions with overlap eigenvalues over more than one decade", lambda c: c["l"] > 1 and c["span"] > 1, shards=2),
    Sub("pauli", st.fixed_dictionaries({"spin": ANGLES}), pauli, 200, 2000, "non-default spin basis", lambda c: c["spin"] != [0.0] * 4),
    Sub("spin_squared_helper", st.fixed_dictionaries({"l": st.integers(1, 16), "seed": SEEDS, "data": spec()}), ssq, 100, 1000, "l > 1", lambda c: c["l"] > 1),
]
