"""C01: a change of basis transforms every stored element consistently."""
import numpy as np
from hypothesis import strategies as st

import oracles as o
from core import SEEDS, Kept, Sub, Violation, arr, laid, require, same, spec, tight, unitary

from quantum_systems import BasisSet, GeneralOrbitalSystem, SpatialOrbitalSystem

ASSUMPTIONS = ["numpy.einsum is correct", "coefficient matrices are finite and of unit order"]

SPINS = ["spin_x", "spin_y", "spin_z", "spin_2"]


@st.composite
def history(draw, max_l=6, max_steps=6, max_new=7, min_l=1):
    l = draw(st.integers(min_l, max_l))
    route = draw(st.sampled_from(["basis", "spatial", "general"]))
    spin = draw(st.booleans()) if route == "basis" else route == "general"
    steps = []
    cur = l
    for _ in range(draw(st.integers(1, max_steps))):
        new = draw(st.one_of(st.just(cur), st.integers(1, max_new)))
        kinds = ["default", "given", "conj", "view", "buffer"] + (["inverse", "unitary", "perm"] if new == cur else [])
        steps.append(
            {
                "new": new,
                "C": draw(spec()),
                "how": draw(st.sampled_from(kinds)),
                "touch_bra": draw(st.booleans()),
                "keyword": draw(st.booleans()),
                "reuse": draw(st.booleans()),
            }
        )
        cur = new
    smallest = min([l] + [s["new"] for s in steps])
    return {
        "l": l,
        "dim": draw(st.integers(1, 4)),
        "pts": draw(st.sampled_from([3, 3, 1, 40, 0])),
        "route": route,
        "spin": spin,
        "n": draw(st.integers(0, smallest)),
        "data": draw(spec()),
        "s": draw(st.booleans()) if route != "general" else True,
        "dip": draw(st.booleans()),
        "spf": draw(st.sampled_from(["none", "ket", "both"])),
        "stb": draw(st.booleans()),
        "spins": draw(st.sampled_from([15, 15, 15, 15, 0, 8, 4, 2, 10, 7, 14])),
        "antisym": draw(st.booleans()),
        "layout": draw(st.sampled_from(["C", "C", "C", "F", "strided", "readonly"])),
        "look": draw(st.sampled_from(["always", "always", "last"])),
        "steps": steps,
    }


def grid_shape(case, l, dim):
    """0 points: as many as functions, in every direction while that is affordable."""
    if case["pts"]:
        return (l,) + (case["pts"], 2, 2, 2)[:dim]
    return (l,) * (dim + 1) if l**dim < 700 else (l, l) + (1,) * (dim - 1)


def build(case):
    l, dim, d = case["l"], case["dim"], case["data"]
    bs = BasisSet(l, dim, includes_spin=case["spin"], anti_symmetrized_u=case["antisym"] or case["route"] == "general")
    m = {k: None for k in ["h", "u", "s", "dipole_moment", "spf", "bra_spf", "spin_2_tb"] + SPINS}
    m["h"] = arr(d, (l, l), 1)
    m["u"] = arr(d, (l, l, l, l), 2)
    if case["s"]:
        m["s"] = arr(d, (l, l), 3)
    if case["dip"]:
        m["dipole_moment"] = arr(d, (dim, l, l), 4)
    shape = grid_shape(case, l, dim)
    if case["spf"] != "none":
        m["spf"] = arr(d, shape, 5)
        m["bra_spf"] = m["spf"].conj()
    if case["spf"] == "both":
        m["bra_spf"] = arr(d, shape, 6)
    if case["spin"]:
        for i, k in enumerate(SPINS):
            if case.get("spins", 15) >> i & 1:
                m[k] = arr(d, (l, l), 7 + i, cplx=True)
        if case["stb"]:
            m["spin_2_tb"] = arr(d, (l, l, l, l), 11, cplx=True)
    held = {}
    for k, v in m.items():
        if v is None or (k == "bra_spf" and case["spf"] != "both"):
            continue
        held[k] = laid(v, case["layout"])
        setattr(bs, k, held[k])
    return bs, m, held


def compare(tag, obj, m, spin, M):
    for k in ["h", "u", "s", "dipole_moment", "spf", "bra_spf"] + ((SPINS + ["spin_2_tb"]) if spin else []):
        got = getattr(obj, k)
        if m[k] is None:
            require(got is None, f"{tag}.{k}: was unset, now set")
        else:
            tight(f"{tag}.{k}", got, m[k], M[k])


def advance(m, C, eff):
    for k in ["h", "s"] + SPINS:
        if m[k] is not None:
            m[k] = o.t1(m[k], C, eff)
    for k in ["u", "spin_2_tb"]:
        if m[k] is not None:
            m[k] = o.t2(m[k], C, eff)
    if m["dipole_moment"] is not None:
        m["dipole_moment"] = np.array([o.t1(x, C, eff) for x in m["dipole_moment"]])
    if m["spf"] is not None:
        m["spf"] = o.tket(m["spf"], C)
        m["bra_spf"] = o.tbra(m["bra_spf"], eff)


def refill(buffers, which, x):
    buf = buffers.setdefault((which, x.shape, x.dtype.str), np.empty(x.shape, x.dtype))
    buf[...] = x
    return buf


def run(case):
    bs, m, held = build(case)
    orig = {k: v.copy() for k, v in held.items()}
    n = case["n"]
    if case["route"] == "spatial":
        n = min(n, case["l"])
        obj = SpatialOrbitalSystem(2 * n, bs)
    elif case["route"] == "general":
        obj = GeneralOrbitalSystem(n, bs, anti_symmetrize=case["antisym"])
    else:
        obj = bs
    labels = {"route:" + case["route"]}
    M = {k: None if v is None else np.abs(v) for k, v in m.items()}  # the same sums, over magnitudes
    kept = Kept()
    buffers = {}
    for i, s in enumerate(case["steps"]):
        l, new = m["h"].shape[0], s["new"]
        how = s["how"]
        C = arr(s["C"], (l, new), 1)
        if how == "unitary":
            C = unitary(s["C"]["seed"], l, s["C"]["cplx"])
        elif how == "perm":
            C = np.eye(l)[:, np.random.RandomState(s["C"]["seed"] % 2**32).permutation(l)]
        Ct = None
        if how == "given":
            Ct = arr(s["C"], (new, l), 2)
        elif how == "conj":
            Ct = C.conj().T.copy()
        elif how == "view":
            Ct = C.T
        elif how == "buffer":  # both matrices live in the same memory
            Ct = C.reshape(new, l)
        elif how == "inverse":
            C = unitary(s["C"]["seed"], l) * np.linspace(0.5, 2, l)
            Ct = np.linalg.inv(C)
        labels.add("how:" + how)
        if new != l:
            labels.add("rectangular")
        if s["touch_bra"]:
            obj.bra_spf
        alias = how in ("view", "buffer")
        if s["reuse"] and not alias:  # the caller fills the same arrays again and again
            C, Ct = refill(buffers, "C", C), None if Ct is None else refill(buffers, "Ct", Ct)
        C0, Ct0 = C.copy(), None if Ct is None else Ct.copy()
        before = {k: (getattr(bs, k), np.array(getattr(bs, k))) for k in ["h", "u", "s"] if getattr(bs, k) is not None}
        eff = C.conj().T if Ct is None else Ct
        # the stand-alone helpers see the same numbers, and change nothing
        kw = {} if Ct is None else {"C_tilde": Ct}
        e1, e2 = o.t1(m["h"], C, eff), o.t2(m["u"], C, eff)
        B1, B2 = o.t1(M["h"], np.abs(C), np.abs(eff)), o.t2(M["u"], np.abs(C), np.abs(eff))
        npkw = {"np": np} if obj is bs else {}
        r1 = kept.add("transform_one_body_elements", obj.transform_one_body_elements(obj.h, C, **npkw, **kw), bs.h)
        r2 = kept.add("transform_two_body_elements", obj.transform_two_body_elements(obj.u, C, **npkw, **kw), bs.u)
        tight("transform_one_body_elements", r1, e1, B1)
        tight("transform_two_body_elements", r2, e2, B2)
        if obj is bs and Ct is None:
            tight("get_transformed_h", kept.add("get_transformed_h", bs.get_transformed_h(C), bs.h), e1, B1)
            tight("get_transformed_u", kept.add("get_transformed_u", bs.get_transformed_u(C), bs.u), e2, B2)
        if Ct is None:
            obj.change_basis(C)
        elif s["keyword"]:
            obj.change_basis(C, C_tilde=Ct)
        else:
            obj.change_basis(C, Ct)
        same("coefficient matrix C", C, C0)
        if Ct is not None:
            same("coefficient matrix C_tilde", Ct, Ct0)
        for k, (ref, val) in before.items():
            same(f"array held by the caller ({k})", ref, val)
        advance(m, C, eff)
        advance(M, np.abs(C), np.abs(eff))
        if s["reuse"] and not alias:  # and may use them for something else afterwards
            C[...] = 7.5
            if Ct is not None:
                Ct[...] = -3.5
        if case["look"] == "last" and i + 1 < len(case["steps"]):
            continue
        compare(f"step {i}", bs, m, case["spin"], M)
        require(bs.l == new, f"basis size {bs.l}, expected {new}")
        if obj is not bs:
            compare(f"step {i} system", obj, m, case["spin"], M)
            require(obj.l == new and obj.n == n and obj.m == new - n, f"system sizes n={obj.n} m={obj.m} l={obj.l}")
            idx = list(range(new))
            require(idx[obj.o] == idx[:n] and idx[obj.v] == idx[n:], "occupied/virtual slices")
    for k, v in held.items():
        same(f"array held by the caller ({k})", v, orig[k])
    kept.check()
    if len(case["steps"]) > 1:
        labels.add("repeated")
    return labels


def statics(case):
    """The static helpers on bare arrays, independent of any basis state."""
    l, new, d = case["l"], case["new"], case["data"]
    h, u = arr(d, (l, l), 1), arr(d, (l,) * 4, 2)
    C, Ct = arr(case["C"], (l, new), 1), arr(case["C"], (new, l), 2)
    f = arr(d, (l, 3, 2), 3)
    h, u, C, Ct, f = (laid(x, case["layout"]) for x in (h, u, C, Ct, f))
    keep = [x.copy() for x in (h, u, C, Ct, f)]
    kept = Kept()
    H = C.conj().T

    def check(name, got, model, x, c, *rest):
        kept.add(name, got, h, u, f)
        tight(name, got, model(x, c, *rest), model(*[np.abs(y) for y in (x, c, *rest)]))

    check("one-body, default bra", BasisSet.transform_one_body_elements(h, C, np), o.t1, h, C, H)
    check("one-body, given bra", BasisSet.transform_one_body_elements(h, C, np, C_tilde=Ct), o.t1, h, C, Ct)
    check("two-body, default bra", BasisSet.transform_two_body_elements(u, C, np), o.t2, u, C, H)
    check("two-body, given bra", BasisSet.transform_two_body_elements(u, C, np, C_tilde=Ct), o.t2, u, C, Ct)
    check("ket functions", BasisSet.transform_spf(f, C, np), o.tket, f, C)
    check("bra functions", BasisSet.transform_bra_spf(f, Ct, np), o.tbra, f, Ct)
    kept.check()
    for a, b in zip((h, u, C, Ct, f), keep):
        same("helper argument", a, b)


def wide(case):
    """Many functions to few or few to many: sizes that a full history could not afford."""
    l, new = case["l"], case["new"]
    rng = np.random.RandomState(case["seed"] % 2**32)
    bs = BasisSet(l, 1)
    h, s, u, d = rng.normal(size=(l, l)), rng.normal(size=(l, l)), rng.normal(size=(l,) * 4), rng.normal(size=(1, l, l))
    f = rng.normal(size=(l, 3)) + 1j * rng.normal(size=(l, 3))
    C, Ct = rng.normal(size=(l, new)), None
    if case["cplx"]:
        C = C + 1j * rng.normal(size=(l, new))
    if case["bi"]:
        Ct = rng.normal(size=(new, l))
    eff = C.conj().T if Ct is None else Ct
    bs.h, bs.s, bs.u, bs.dipole_moment, bs.spf = h, s, u, d, f
    first = u[0].copy()
    obj = SpatialOrbitalSystem(2, bs) if case["system"] else bs
    obj.change_basis(C, Ct)
    A, B = np.abs(C), np.abs(eff)
    tight("h", obj.h, o.t1(h, C, eff), o.t1(np.abs(h), A, B))
    tight("s", obj.s, o.t1(s, C, eff), o.t1(np.abs(s), A, B))
    tight("dipole_moment", obj.dipole_moment[0], o.t1(d[0], C, eff), o.t1(np.abs(d[0]), A, B))
    tight("spf", obj.spf, o.tket(f, C), o.tket(np.abs(f), A))
    tight("bra_spf", obj.bra_spf, o.tbra(f.conj(), eff), o.tbra(np.abs(f), B))
    tight("u", obj.u, o.t2(u, C, eff), o.t2(np.abs(u), A, B))
    same("two-body elements held by the caller", u[0], first)
    require(obj.l == new, f"basis size {obj.l}, expected {new}")


@st.composite
def wides(draw):
    big, small = draw(st.integers(29, 44)), draw(st.integers(1, 4))
    grow = draw(st.booleans())
    return {"l": small if grow else big, "new": big if grow else small, "seed": draw(SEEDS), "cplx": draw(st.booleans()), "bi": draw(st.booleans()), "system": draw(st.booleans())}


STATIC = st.fixed_dictionaries({"l": st.integers(1, 9), "new": st.integers(1, 9), "data": spec(), "C": spec(), "layout": st.sampled_from(["C", "C", "F", "strided", "readonly"])})
STATIC_BIG = st.fixed_dictionaries({"l": st.integers(10, 30), "new": st.integers(1, 30), "data": spec(), "C": spec(), "layout": st.sampled_from(["C", "C", "F", "strided", "readonly"])})

SUBS = [
    Sub(
        "history", history(), run, 1500, 20000,
        "at least two basis functions and a coefficient matrix that is not the identity",
        lambda c: c["l"] > 1 and len(c["steps"]) >= 1, shards=3, tshards=7,
    ),
    Sub(
        "history_large", history(min_l=6, max_l=14, max_steps=3, max_new=14), run, 150, 1500,
        "every case (six or more basis functions)", shards=2,
    ),
    Sub(
        "history_huge", history(min_l=15, max_l=28, max_steps=2, max_new=28), run, 10, 150,
        "every case (fifteen or more basis functions)", shards=2,
    ),
    Sub("static_helpers", STATIC, statics, 300, 3000, "l > 1", lambda c: c["l"] > 1),
    Sub("wide", wides(), wide, 2, 20, "always (29 or more functions on one side)", fixed=[
        {"l": 66, "new": 2, "seed": 1, "cplx": False, "bi": True, "system": False}, {"l": 2, "new": 66, "seed": 2, "cplx": False, "bi": False, "system": True}]),
    Sub("static_helpers_large", STATIC_BIG, statics, 20, 300, "always"),
]
