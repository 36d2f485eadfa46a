"""C12: sinc-DVR elements are exact and the 2D and 4D two-body forms are equivalent."""
import warnings

import numpy as np
from hypothesis import strategies as st

import families as fam
import oracles as o
from c09 import formula
from core import NEIGHBOURS, SEEDS, Sub, arr, close, differ, each, must_refuse, neighbours, num, require, same, unitary

from quantum_systems import GeneralOrbitalSystem, ODSincDVR, SpatialOrbitalSystem

PARAMS = {
    "len": st.one_of(num(0.5, 12.0, 5.0), num(0.5, 12.0), num(0.05, 60.0), st.integers(1, 20)),
    "pot": st.sampled_from(fam.POT + ["wall"]),
    "pa": num(0.1, 2.0, 1.0),
    "pb": num(0.05, 2.0, 1.0),
    "a": st.one_of(num(0.05, 2.0, 0.25), num(0.05, 2.0), num(0.001, 30.0), num(-2.0, -0.05), st.integers(1, 3)),
    "alpha": st.one_of(num(-2.0, 3.0, 1.0), num(-2.0, 3.0), num(-40.0, 60.0), st.integers(-3, 4)),
    "beta": st.one_of(num(-1.0, 1.0, 0.0), num(-1.0, 1.0), st.integers(-2, 3)),
    "defaults": st.sampled_from([False] * 5 + [True]),
}


@st.composite
def cases(draw, max_l=7, min_l=2):
    return {"l": draw(st.integers(min_l, max_l)), "repr": draw(st.sampled_from(["2d", "4d"])), **{k: draw(v) for k, v in PARAMS.items()}}


def make(c, repr_=None):
    pot = fam.potential(c["pot"], c["pa"], c["pb"])
    kw = {} if pot is None else {"potential": pot}
    if not c["defaults"]:
        kw.update(a=c["a"], alpha=c["alpha"], beta=c["beta"])
    r = repr_ or c["repr"]
    if not (r == "2d" and c["defaults"]):  # the compact form is the default
        kw["u_repr"] = r
    return ODSincDVR(c["l"], c["len"], **kw)


def model(c):
    l, L = c["l"], c["len"]
    a, alpha, beta = (0.25, 1.0, 0.0) if c["defaults"] else (c["a"], c["alpha"], c["beta"])
    x = np.linspace(-L, L, l)
    dx = 2 * L / (l - 1)
    h = np.zeros((l, l))
    for i in range(l):
        for j in range(l):
            h[i, j] = np.pi**2 / (6 * dx**2) if i == j else (-1) ** abs(i - j) / (dx**2 * (i - j) ** 2)
    h += np.diag(formula(c["pot"], c["pa"], c["pb"], x))
    u2 = alpha / np.sqrt((x[:, None] - x[None, :]) ** 2 + a**2)
    return {"x": x, "dx": dx, "h": h, "u2": u2, "d": np.diag(x + beta * x**2)}


def full(u2):
    l = len(u2)
    u = np.zeros((l,) * 4, dtype=u2.dtype)
    for p in range(l):
        for q in range(l):
            u[p, q, p, q] = u2[p, q]
    return u


def expand(u):
    u = np.asarray(u)
    return full(u) if u.ndim == 2 else u


def elements(case):
    bs, m = make(case), model(case)
    l = case["l"]
    hs = max(1.0, float(np.max(np.abs(m["h"]))))
    close("grid", bs.grid, m["x"], 1e-13)
    close("one-body matrix", bs.h, m["h"], 1e-12, hs)
    close("overlap", bs.s, np.eye(l), 1e-13)
    close("cardinal functions", bs.spf, np.eye(l) / np.sqrt(m["dx"]), 1e-12)
    close("bra functions", bs.bra_spf, np.eye(l) / np.sqrt(m["dx"]), 1e-12)
    close("dipole", bs.dipole_moment, m["d"][None], 1e-12)
    require(bs.u_repr == case["repr"] and bs.sparse_repr == (case["repr"] == "2d"), f"representation reported as {bs.u_repr}")
    close("two-body elements", bs.u, m["u2"] if case["repr"] == "2d" else full(m["u2"]), 1e-12)
    for k in ("2d", "4d") if l <= 30 else ("2d",):
        close(f"construct_coulomb_elements({k})", make(case).construct_coulomb_elements(k), m["u2"] if k == "2d" else full(m["u2"]), 1e-12)
    require(bs.l == l and bs.dim == 1 and bs.includes_spin is False and bs.anti_symmetrized_u is False, "sizes or flags")
    for bad in ("3d", "2D", "", "sparse"):
        must_refuse(f"representation {bad!r}", lambda: ODSincDVR(l, case["len"], u_repr=bad), (ValueError,))
    must_refuse("representation '3d'", lambda: ODSincDVR(l, case["len"], u_repr="3d"), (ValueError,))
    snap = np.array(bs.u)
    must_refuse("switch to '3d'", lambda: bs.set_u_repr("3d"), (ValueError,))
    same("two-body elements after a refused switch", bs.u, snap)
    return ["potential:" + case["pot"], "repr:" + case["repr"]]


OP = st.one_of(
    st.fixed_dictionaries({"op": st.just("repr"), "to": st.sampled_from(["2d", "4d"])}),
    st.fixed_dictionaries({"op": st.just("repr"), "to": st.sampled_from(["2d", "4d"])}),
    st.fixed_dictionaries({"op": st.just("copy"), "system": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("helper"), "seed": SEEDS, "new": st.one_of(st.integers(1, 4), st.integers(1, 12)), "bi": st.booleans(), "antisym": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("double"), "antisym": st.booleans(), "th": num(0, 3, 0.0), "route": st.sampled_from(["basis", "gos", "convert"])}),
    st.fixed_dictionaries({"op": st.just("antisym")}),
    st.fixed_dictionaries({"op": st.just("own"), "seed": SEEDS, "cplx": st.booleans(), "sym": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("change"), "seed": SEEDS, "new": st.one_of(st.integers(1, 5), st.integers(1, 12)), "bi": st.booleans(), "system": st.booleans()}),
)


@st.composite
def histories(draw, max_l=4, max_ops=6, min_l=2):
    c = draw(cases(max_l=max_l, min_l=min_l))
    c["ops"] = draw(st.lists(OP, min_size=1, max_size=max_ops))
    return c


def coeff(op, n):
    new = op["new"]
    C = unitary(op["seed"], max(n, new))[:n, :new] * 1.25
    Ct = unitary(op["seed"] + 1, max(n, new))[:new, :n] if op["bi"] else None
    return C, Ct, (C.conj().T if Ct is None else Ct)


def run(case):
    """Compact and full form carried through the same history, against the plain model."""
    bs, m = make(case), model(case)
    h, u, s = m["h"].astype(complex), full(m["u2"]).astype(complex), np.eye(case["l"])
    d, f = m["d"].astype(complex)[None], np.eye(case["l"]) / np.sqrt(m["dx"])
    b = f.conj()
    spin = dense = flag = False
    labels = set()

    def check(tag):
        got = np.asarray(bs.u)
        close(f"{tag}: two-body elements", expand(got), u, 1e-10)
        close(f"{tag}: one-body elements", bs.h, h, 1e-10, max(1.0, float(np.max(np.abs(h)))))
        close(f"{tag}: overlap", bs.s, s, 1e-10)
        close(f"{tag}: dipole", bs.dipole_moment, d, 1e-10, max(1.0, float(np.max(np.abs(d)))))
        close(f"{tag}: functions", bs.spf, f, 1e-10)
        close(f"{tag}: bra functions", bs.bra_spf, b, 1e-10)
        require(bs.anti_symmetrized_u == flag, f"{tag}: antisymmetrised flag is {bs.anti_symmetrized_u}")
        require(bs.u_repr == ("2d" if got.ndim == 2 else "4d") and bs.l == len(h), f"{tag}: size or representation")

    for i, op in enumerate(case["ops"]):
        k = op["op"]
        tag = f"op {i} ({k})"
        n = len(h)
        if k == "repr":
            if dense:
                continue  # only the diagonal interaction has a compact form
            bs.set_u_repr(op["to"])
            require(np.ndim(bs.u) == (2 if op["to"] == "2d" else 4), f"{tag}: representation not switched")
        elif k == "copy":
            if op["system"]:
                system = (GeneralOrbitalSystem if spin else SpatialOrbitalSystem)(0, bs, **({"anti_symmetrize": False} if spin else {}))
                c = system.copy_system()
                close(f"{tag}: copied system", expand(c.u), u, 1e-10)
            old, before = bs, np.array(bs.u)
            bs = bs.copy_basis()
            require(np.shape(bs.u) == before.shape, f"{tag}: the copy has another representation")
            np.asarray(old.u)[...] = 7
        elif k == "helper":
            C, Ct, eff = coeff(op, n)
            compact = np.ndim(bs.u) == 2
            kw = {"C_tilde": Ct} if op["bi"] else {}
            expect = o.t2(u, C, eff)
            if op["antisym"] and compact and not flag:
                kw["anti_symmetrize"] = True
                expect = o.asym(expect)
            before = np.array(bs.u)
            close(f"{tag}: transformed elements", bs.transform_two_body_elements(bs.u, C, np=np, **kw), expect, 1e-10)
            if not op["bi"]:
                close(f"{tag}: get_transformed_u", bs.get_transformed_u(C), o.t2(u, C, eff), 1e-10)
                close(f"{tag}: get_transformed_h", bs.get_transformed_h(C), o.t1(h, C, eff), 1e-10, max(1.0, float(np.max(np.abs(h)))))
            # other elements than the stored ones, in the same representation
            other = arr({"kind": "gauss", "seed": op["seed"] + 5, "cplx": bool(op["seed"] % 2)}, before.shape, 7)
            given = other.copy()
            kw.pop("anti_symmetrize", None)
            close(f"{tag}: transformed elements of another interaction", bs.transform_two_body_elements(given, C, np=np, **kw), o.t2(expand(other), C, eff), 1e-10)
            same(f"{tag}: given elements", given, other)
            same(f"{tag}: stored elements", bs.u, before)
        elif k == "double":
            if spin:
                # a second doubling changes nothing, whatever it asks for
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    bs.change_to_general_orbital_basis(anti_symmetrize=op["antisym"])
                labels.add("doubled twice")
                check(tag)
                continue
            if n > 9:
                continue
            if flag:
                continue
            up, down = o.spin_basis([op["th"], 0.3, 0.1, 0.2]) if op["th"] else (np.array([1, 0]), np.array([0, 1]))
            kw = {"a": up, "b": down, "anti_symmetrize": op["antisym"]}
            uu = o.spin2(u)
            uu = o.asym(uu) if op["antisym"] else uu
            if op["route"] == "convert":
                before = np.array(bs.u)
                g = SpatialOrbitalSystem(0, bs).construct_general_orbital_system(**kw)
                close(f"{tag}: converted system", expand(g.u), uu, 1e-10)
                close(f"{tag}: converted system", g.h, o.spin1(h), 1e-10, max(1.0, float(np.max(np.abs(h)))))
                same(f"{tag}: the spatial system", bs.u, before)
                labels.add("convert")
            else:
                if op["route"] == "gos":
                    g = GeneralOrbitalSystem(0, bs, **kw)
                    close(f"{tag}: system", expand(g.u), uu, 1e-10)
                else:
                    bs.change_to_general_orbital_basis(**kw)
                h, u, s = o.spin1(h), uu, o.spin1(s)
                d, f, b = np.array([o.spin1(x) for x in d]), o.spinf(f), o.spinf(b)
                spin, flag = True, op["antisym"]
                dense = dense or flag
        elif k == "own":
            # another diagonal interaction, given in the current representation
            if dense:
                continue
            u2 = arr({"kind": "gauss", "seed": op["seed"], "cplx": op["cplx"]}, (n, n), 3)
            u2 = u2 + u2.T if op["sym"] else u2
            bs.u = u2.copy() if np.ndim(bs.u) == 2 else full(u2)
            u = full(u2).astype(complex)
        elif k == "antisym":
            bs.anti_symmetrize_two_body_elements()
            if not flag:
                u, flag, dense = o.asym(u), True, True
        else:
            C, Ct, eff = coeff(op, n)
            if op["system"]:
                system = (GeneralOrbitalSystem if spin else SpatialOrbitalSystem)(0, bs, **({"anti_symmetrize": False} if spin else {}))
                system.change_basis(C, Ct)
                require(system.l == op["new"], f"{tag}: size of the system")
            else:
                bs.change_basis(C, Ct)
            h, u, s = o.t1(h, C, eff), o.t2(u, C, eff), o.t1(s, C, eff)
            d, f, b = np.array([o.t1(x, C, eff) for x in d]), o.tket(f, C), o.tbra(b, eff)
            dense = True
        labels.add(k)
        check(tag)
    return labels


def compact(case):
    """The compact form at sizes where the full one is out of reach."""
    bs, m = make(case, "2d"), model(case)
    l = case["l"]
    C, Ct, eff = coeff(case, l)
    M = np.einsum("pa,ar->pra", eff, C)
    u = np.einsum("pra,ab,qsb->pqrs", M, m["u2"], M, optimize=True)
    kw = {"C_tilde": Ct} if case["bi"] else {}
    close("transformed elements", bs.transform_two_body_elements(bs.u, C, np=np, **kw), u, 1e-10)
    close("transformed, antisymmetrised elements", bs.transform_two_body_elements(bs.u, C, np=np, anti_symmetrize=True, **kw), o.asym(u), 1e-10)
    same("stored elements", bs.u, m["u2"]) if not np.iscomplexobj(bs.u) else close("stored elements", bs.u, m["u2"], 1e-13)
    if case["double"]:
        g = GeneralOrbitalSystem(2, bs, anti_symmetrize=False)
        close("doubled compact elements", g.u, np.kron(m["u2"], np.ones((2, 2))), 1e-12)
        close("doubled one-body elements", g.h, np.kron(m["h"], np.eye(2)), 1e-12, max(1.0, float(np.max(np.abs(m["h"])))))
        W = np.kron(C, np.eye(2))
        W2 = np.kron(eff, np.eye(2))
        g.change_basis(W, W2) if case["bi"] else g.change_basis(W)
        close("doubled, transformed elements", g.u, o.spin2(u), 1e-10)
    else:
        s = SpatialOrbitalSystem(2, bs)
        s.change_basis(C, Ct)
        close("elements in the new basis", s.u, u, 1e-10)
        close("one-body elements in the new basis", s.h, o.t1(m["h"], C, eff), 1e-10, max(1.0, float(np.max(np.abs(m["h"])))))


@st.composite
def compacts(draw):
    c = draw(cases(min_l=30, max_l=130))
    return {**c, "seed": draw(SEEDS), "new": draw(st.integers(1, 6)), "bi": draw(st.booleans()), "double": draw(st.booleans())}


def physics(case):
    """Both forms give the same energies once transformed to the eigenbasis."""
    out = []
    for r in ("2d", "4d"):
        bs = make(case, r)
        w, C = np.linalg.eigh(model(case)["h"])
        k = min(case["l"], 4)
        spas = SpatialOrbitalSystem(2, bs)
        spas.change_basis(C[:, :k])
        gos = spas.construct_general_orbital_system()
        hh = np.array(spas.h)
        out.append([spas.compute_reference_energy(), gos.compute_reference_energy(), spas.construct_fock_matrix(hh, spas.u), gos.u, spas.u])
        scale = max(1.0, float(np.max(np.abs(w))))
        close("orbital energies", np.diag(hh), w[:k], 1e-10, scale)
        close("reference energies", out[-1][0], out[-1][1], 1e-10, scale)
    for a, b in zip(*out):
        close("2d and 4d agree", a, b, 1e-10, scale)


NT = lambda c: c["l"] > 2
HNT = lambda c: len(c["ops"]) > 1
QUICK = 10
SUBS = [
    Sub("elements", cases(), elements, 300, 3000, "at least three functions", NT, shards=2),
    Sub("larger_elements", cases(max_l=24), elements, 30, 300, "at least three functions", NT,
        fixed=[{"l": 120, "repr": "2d", "len": 20.0, "pot": "dw", "pa": 0.5, "pb": 1.0, "a": 0.5, "alpha": 1.5, "beta": 0.1, "defaults": False}]),
    Sub("histories", histories(), run, 1200, 12000, "at least two operations", HNT, shards=4, tshards=7),
    Sub("larger_histories", histories(min_l=5, max_l=10), run, 80, 1000, "at least two operations", HNT, shards=2),
    Sub("compact", compacts(), compact, 25, 300, "every case (30 functions or more)", None),
    Sub("physics", cases(), physics, 80, 800, "at least three functions", NT),
    Sub("neighbours", neighbours(cases(), ["len", "pot", "pa", "pb", "a", "alpha", "beta", "repr", "defaults"]), each(elements), 40, 600, NEIGHBOURS, differ, shards=2, tshards=7),
]
