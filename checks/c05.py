"""C05: reference energy and Fock matrix equal their many-body definitions."""
import numpy as np
from hypothesis import strategies as st

import oracles as o
from core import SEEDS, Kept, Sub, arr, close, dup, laid, require, same, spec, tight, unitary

from quantum_systems import BasisSet, GeneralOrbitalSystem, SpatialOrbitalSystem


@st.composite
def cases(draw, max_l=3, spin=None, min_l=1):
    spin = draw(st.booleans()) if spin is None else spin
    l = draw(st.integers(min_l, max_l * 2 if spin else max_l))
    return {
        "spin": spin,
        "l": l,
        "n": draw(st.one_of(st.integers(1, l), st.integers(0, l))),
        "data": draw(spec()),
        "hkind": draw(st.sampled_from(["same", "same", "real", "cplx"])),
        "physical": draw(st.booleans()),
        "plain_u": draw(st.booleans()),
        "buffer": draw(st.sampled_from(["none", "nan", "zero", "random", "strided", "fortran", "complex"])),
        "rot": draw(SEEDS),
        "other": draw(SEEDS),
    }


def ham(case, salt=0):
    l, d = case["l"], case["data"]
    hc = {"same": None, "real": False, "cplx": True}[case["hkind"]]
    h, u = arr(d, (l, l), 1 + salt, cplx=hc), arr(d, (l,) * 4, 2 + salt)
    u = 0.5 * (u + u.transpose(1, 0, 3, 2))
    if case["physical"]:
        h = h + h.conj().T
        u = u + u.transpose(2, 3, 0, 1).conj()
    layout = {"fortran": "F", "strided": "strided"}.get(d["kind"], "C")
    return laid(h, layout), laid(u, layout)


def many_body(h, u, n):
    """E and Fock matrix from the Fock-space Hamiltonian h + u/2."""
    N = h.shape[0]
    H = o.fock_one(h) + 0.5 * o.fock_two(u)
    v = o.determinant(N, range(n))
    a = o.annihilators(N)
    f = np.zeros((N, N), dtype=complex)
    for p in range(N):
        com = a[p] @ H - H @ a[p]
        for q in range(N):
            ad = a[q].T
            f[p, q] = v @ ((com @ ad + ad @ com) @ v)
    return v @ (H @ v), f


def index_sum(h, u, n):
    """The same from Slater-Condon sums over spin-orbitals."""
    N = h.shape[0]
    o_ = range(n)
    e = sum(h[i, i] for i in o_) + 0.5 * sum(u[i, j, i, j] - u[i, j, j, i] for i in o_ for j in o_)
    f = np.array(h, dtype=complex)
    for i in o_:
        f = f + u[:, i, :, i] - u[:, i, i, :]
    return e, f


def magnitudes(h, u, n):
    """index_sum over the magnitudes of all its terms."""
    h, u = np.abs(h), np.abs(u)
    e, f = index_sum(h, u + np.swapaxes(u, 2, 3), n)
    for i in range(n):
        f = f + 2 * u[:, i, i, :]
    return np.abs(e) + np.einsum("ijij->", u[:n, :n, :n, :n]) + np.einsum("ijji->", u[:n, :n, :n, :n]), np.abs(f)


def block_unitary(seed, n, l):
    U = np.zeros((l, l), dtype=complex)
    U[:n, :n] = unitary(seed, n)
    U[n:, n:] = unitary(seed + 1, l - n)
    return U


def run(case, oracle):
    l, n = case["l"], case["n"]
    h, u = ham(case)
    bs = BasisSet(l, 1, includes_spin=case["spin"])
    bs.h, bs.u, bs.s = dup(h), dup(u), np.eye(l)
    if case["spin"]:
        system = GeneralOrbitalSystem(n, bs)
        H, U = h, u
        nocc = n
    else:
        system = SpatialOrbitalSystem(2 * n, bs)
        H, U = o.spin1(h), o.spin2(u)
        nocc = 2 * n
    e, f = oracle(H, U, nocc)
    eb, fb = magnitudes(H, U, nocc)
    tight("reference energy", system.compute_reference_energy(), e, eb)
    kept = Kept()
    lift = (lambda x: x) if case["spin"] else o.spin1
    # elements of the system
    h_in, u_in = np.array(system.h), np.array(system.u)

    def fock(h_in, u_in, expect, bound, tag):
        buf = None
        if case["buffer"] != "none":
            fill = {"nan": np.nan, "zero": 0.0}.get(case["buffer"], 3.25)
            kind = np.result_type(h_in, u_in, complex if case["buffer"] == "complex" else float)
            buf = np.full(h_in.shape, fill, dtype=kind, order="F" if case["buffer"] == "fortran" else "C")
            if case["buffer"] == "strided":
                around = np.full((2 * l, 3 * l), 7.5, dtype=kind)
                buf = around[::2, 1::3]
        h0, u0 = h_in.copy(), u_in.copy()
        got = system.construct_fock_matrix(h_in, u_in, buf) if case["rot"] % 2 else system.construct_fock_matrix(h_in, u_in, f=buf)
        if buf is not None:
            require(got is buf, f"{tag}: the supplied array is not returned")
        tight(tag, lift(np.asarray(got)), expect, bound)
        kept.add(tag, got, h_in, u_in)
        if case["buffer"] == "strided":
            rest = np.ones(around.shape, bool)
            rest[::2, 1::3] = False
            require(np.all(around[rest] == 7.5), f"{tag}: wrote outside the supplied array")
        same(f"{tag}: one-body input", h_in, h0)
        same(f"{tag}: two-body input", u_in, u0)
        return got

    got = fock(h_in, u_in, f, fb, "Fock matrix")
    require(got is not system.h, "Fock matrix aliases the one-body matrix")
    # elements passed in that differ from those stored
    h2, u2 = ham({**case, "data": {**case["data"], "seed": case["other"]}}, 17)
    H2, U2 = (h2, u2) if case["spin"] else (o.spin1(h2), o.spin2(u2))
    fock(h2, o.asym(u2) if case["spin"] else u2, oracle(H2, U2, nocc)[1], magnitudes(H2, U2, nocc)[1], "Fock matrix of given elements")
    same("stored h", system.h, h_in)
    same("stored u", system.u, u_in)
    tight("reference energy, again", system.compute_reference_energy(), e, eb)
    # spatial and general-orbital agreement
    if not case["spin"]:
        gos = system.construct_general_orbital_system()
        close("reference energy of the general-orbital counterpart", gos.compute_reference_energy(), e)
        close("Fock matrix of the general-orbital counterpart", gos.construct_fock_matrix(gos.h, gos.u), f)
    # unitary mixing within occupied and virtual orbitals
    U = block_unitary(case["rot"], n, l)
    system.change_basis(U)
    close("reference energy after mixing", system.compute_reference_energy(), e)
    hh = np.asarray(system.h)
    W = U if case["spin"] else np.kron(U, np.eye(2))
    close("Fock matrix after mixing", lift(np.asarray(system.construct_fock_matrix(hh, system.u))), W.conj().T @ f @ W)
    kept.check()
    return [("general" if case["spin"] else "spatial"), f"occupied:{'none' if n == 0 else 'all' if n == l else 'some'}", "buffer:" + case["buffer"]]


def energy_general_u(case):
    """Energies do not need the particle-exchange symmetry."""
    l, n, d = case["l"], case["n"], case["data"]
    h, u = arr(d, (l, l), 1), arr(d, (l,) * 4, 2)
    bs = BasisSet(l, 1)
    bs.h, bs.u, bs.s = h, u, np.eye(l)
    spas = SpatialOrbitalSystem(2 * n, bs)
    e = index_sum(o.spin1(h), o.spin2(u), 2 * n)[0]
    close("spatial reference energy", spas.compute_reference_energy(), e)
    close("general reference energy", spas.construct_general_orbital_system().compute_reference_energy(), e)


def fock_general_u(case):
    """Documented contractions, for elements without any symmetry; spatial and general-orbital agree."""
    l, n, d = case["l"], case["n"], case["data"]
    hc = {"same": None, "real": False, "cplx": True}[case["hkind"]]
    bs = BasisSet(l, 1, includes_spin=case["spin"])
    bs.h, bs.u, bs.s = arr(d, (l, l), 5), arr(d, (l,) * 4, 6), np.eye(l)
    h, u = arr(d, (l, l), 1, cplx=hc), arr(d, (l,) * 4, 2)
    adirect, aexch = (sum((np.abs(x) for x in y), np.zeros((l, l))) for y in ([u[:, i, :, i] for i in range(n)], [u[:, i, i, :] for i in range(n)]))
    direct, exch = sum((u[:, i, :, i] for i in range(n)), np.zeros((l, l))), sum((u[:, i, i, :] for i in range(n)), np.zeros((l, l)))
    if case["spin"]:
        system = GeneralOrbitalSystem(n, bs, anti_symmetrize=case["plain_u"])
        tight("general-orbital Fock matrix of any elements", system.construct_fock_matrix(h, u), h + direct, np.abs(h) + adirect)
    else:
        system = SpatialOrbitalSystem(2 * n, bs)
        f = h + 2 * direct - exch
        tight("spatial Fock matrix of any elements", system.construct_fock_matrix(h, u), f, np.abs(h) + 2 * adirect + aexch)
        gos = system.construct_general_orbital_system()
        close("general-orbital Fock matrix of doubled elements", gos.construct_fock_matrix(o.spin1(h), o.asym(o.spin2(u))), o.spin1(f))


CHANGE = st.one_of(
    st.fixed_dictionaries({"op": st.just("inplace"), "which": st.sampled_from(["h", "u"]), "seed": SEEDS}),
    st.fixed_dictionaries({"op": st.just("assign"), "which": st.sampled_from(["h", "u"]), "seed": SEEDS}),
    st.fixed_dictionaries({"op": st.just("mix"), "seed": SEEDS, "add": st.integers(0, 2), "bi": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("copy"), "keep": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("refill"), "seed": SEEDS, "same_f": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("resize"), "n": st.integers(0, 8)}),
)


@st.composite
def stateful_cases(draw):
    c = draw(cases(max_l=4))
    c["ops"] = draw(st.lists(CHANGE, min_size=1, max_size=6))
    return c


def stateful(case):
    """Energies and Fock matrices follow the elements, whatever was computed from earlier ones."""
    n = case["n"]
    h, u = ham(case)
    bs = BasisSet(case["l"], 1, includes_spin=case["spin"], anti_symmetrized_u=case["spin"])
    bs.h, bs.u, bs.s = dup(h), dup(u), np.eye(case["l"])
    system = GeneralOrbitalSystem(n, bs) if case["spin"] else SpatialOrbitalSystem(2 * n, bs)
    buffers = {}
    others = []

    def expected(h, u, n):
        ab = [np.abs(h), np.abs(u)]
        out = []
        for h, u in ((h, u), ab):
            sign = -1 if h is not ab[0] else 1
            J = sum((u[:, i, :, i] for i in range(n)), np.zeros(h.shape))
            K = sum((u[:, i, i, :] for i in range(n)), np.zeros(h.shape))
            if case["spin"]:  # elements are antisymmetrised by declaration
                out.append((np.trace(h[:n, :n]) + 0.5 * np.trace(J[:n, :n]), h + J))
            else:
                out.append((2 * np.trace(h[:n, :n]) + 2 * np.trace(J[:n, :n]) + sign * np.trace(K[:n, :n]), h + 2 * J + sign * K))
        return out

    def look(tag, system, h, u, n):
        (e, f), (eb, fb) = expected(h, u, n)
        tight(f"{tag}: reference energy", system.compute_reference_energy(), e, eb)
        tight(f"{tag}: Fock matrix", system.construct_fock_matrix(system.h, system.u), f, fb)

    look("at first", system, h, u, n)
    for i, op in enumerate(case["ops"]):
        k, tag = op["op"], f"op {i} ({op['op']})"
        l = system.l
        if k in ("inplace", "assign"):
            x = np.asarray(getattr(system, op["which"]))
            new = arr({**case["data"], "kind": "gauss", "seed": op["seed"], "cplx": bool(np.iscomplexobj(x))}, x.shape, 3)
            if k == "inplace":
                x[...] = new.astype(x.dtype)
                new = x.copy()
            elif bs is None:
                continue
            else:
                setattr(bs, op["which"], dup(new))
            h, u = (new, u) if op["which"] == "h" else (h, new)
        elif k == "mix":
            new = max(n, 1) + op["add"]
            C = unitary(op["seed"], max(l, new))[:l, :new]
            Ct = unitary(op["seed"] + 3, max(l, new))[:new, :l] if op["bi"] else None
            system.change_basis(C, Ct)
            h, u = np.array(system.h), np.array(system.u)  # that these are right is C01
        elif k == "copy":
            new = system.copy_system()
            others.append((system if op["keep"] else new, h.copy(), u.copy(), n))
            if op["keep"]:
                system, bs = new, None
        elif k == "resize":
            n = min(op["n"], l)
            system.set_system_size(n, l)
        else:
            # the caller's own arrays, filled again and again
            a, b = (np.array(arr({**case["data"], "kind": "gauss", "seed": op["seed"]}, s, j)) for j, s in ((4, (l, l)), (5, (l,) * 4)))
            key = (l, a.dtype.str, b.dtype.str)
            if key not in buffers:
                buffers[key] = (a, b, np.zeros((l, l), np.result_type(a, b)))
            ha, ub, fo = buffers[key]
            ha[...], ub[...] = a, b
            got = system.construct_fock_matrix(ha, ub, fo) if op["same_f"] else system.construct_fock_matrix(ha, ub)
            (_, f), (_, fb) = expected(a, b, n)
            tight(f"{tag}: Fock matrix of the caller's elements", got, f, fb)
        look(tag, system, h, u, n)
    for j, (s, a, b, k) in enumerate(others):
        look(f"system {j} left behind", s, a, b, k)
    return {"op:" + x["op"] for x in case["ops"]}


def wide(case):
    """Many orbitals, many occupied."""
    l, n = case["l"], case["n"]
    rng = np.random.RandomState(case["seed"] % 2**32)
    h, u = rng.normal(size=(l, l)), rng.normal(size=(l,) * 4)
    bs = BasisSet(l, 1, includes_spin=case["spin"], anti_symmetrized_u=case["spin"])
    bs.h, bs.u, bs.s = h, u, np.eye(l)
    system = GeneralOrbitalSystem(n, bs) if case["spin"] else SpatialOrbitalSystem(2 * n, bs)
    J, K = (np.zeros((l, l)) for _ in range(2))
    JA, KA = (np.zeros((l, l)) for _ in range(2))
    for i in range(n):
        J, K, JA, KA = J + u[:, i, :, i], K + u[:, i, i, :], JA + np.abs(u[:, i, :, i]), KA + np.abs(u[:, i, i, :])
    if case["spin"]:  # antisymmetrised already
        f, fb = h + J, np.abs(h) + JA
        e = np.trace(h[:n, :n]) + 0.5 * np.trace(J[:n, :n])
    else:
        f, fb = h + 2 * J - K, np.abs(h) + 2 * JA + KA
        e = 2 * np.trace(h[:n, :n]) + 2 * np.trace(J[:n, :n]) - np.trace(K[:n, :n])
    eb = 2 * np.trace(np.abs(h[:n, :n])) + 2 * np.trace(JA[:n, :n]) + np.trace(KA[:n, :n])
    tight("reference energy", system.compute_reference_energy(), e, eb)
    tight("Fock matrix", system.construct_fock_matrix(h, u), f, fb)


NT = lambda c: 0 < c["n"] and c["l"] > 1
RULE = "at least two orbitals and at least one occupied"
QUICK = 10
SUBS = [
    Sub("fock_space", cases(), lambda c: run(c, many_body), 700, 8000, RULE, NT, shards=3, tshards=6),
    Sub("index_sums", cases(max_l=6), lambda c: run(c, index_sum), 400, 5000, RULE, NT, shards=2),
    Sub("larger", cases(min_l=7, max_l=14), lambda c: run(c, index_sum), 30, 400, RULE, NT, shards=2),
    Sub("unsymmetric_elements", cases(max_l=5, spin=False), energy_general_u, 200, 2000, RULE, NT),
    Sub("wide", st.fixed_dictionaries({"l": st.integers(29, 44), "n": st.integers(0, 29), "spin": st.booleans(), "seed": SEEDS}), wide, 2, 30, RULE, NT,
        fixed=[{"l": 66, "n": 65, "spin": True, "seed": 1}, {"l": 66, "n": 40, "spin": False, "seed": 2}]),
    Sub("stateful", stateful_cases(), stateful, 400, 5000, RULE, NT, shards=2),
    Sub("unsymmetric_fock", cases(max_l=5), fock_general_u, 250, 3000, RULE, NT),
]
