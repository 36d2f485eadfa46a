"""C02: spin doubling duplicates every spatial element into both spin channels."""
import numpy as np
from hypothesis import strategies as st

import families as fam
import oracles as o
from core import Sub, arr, dup, helper, is_complex, num, require, same, spec, tight

from quantum_systems import BasisSet, GeneralOrbitalSystem, SpatialOrbitalSystem

delta = helper("quantum_systems.system_helper", "delta")
spin_delta = helper("quantum_systems.system_helper", "spin_delta")

ANGLES = st.one_of(
    st.just([0.0, 0.0, 0.0, 0.0]),
    st.lists(num(0, 6.25), min_size=4, max_size=4),
    # tilted by very little, in some of the angles
    st.lists(st.one_of(num(0, 6.25), st.builds(lambda m, k: m * 10.0**-k, num(-2, 2), st.integers(4, 11))), min_size=4, max_size=4),
    st.sampled_from([[np.pi / 2, 0.0, 0.0, 0.0], [np.pi / 4, 0.0, 0.0, 0.0], [np.pi / 4, 0.0, np.pi / 2, 0.0]]),
)


@st.composite
def cases(draw, max_l=5, min_l=1):
    l = draw(st.integers(min_l, max_l))
    return {
        "l": l,
        "dim": draw(st.integers(1, 4)),
        "pts": draw(st.sampled_from([3, 3, 1, 0, 40])),
        "data": draw(spec()),
        "dip": draw(st.booleans()),
        "spf": draw(st.sampled_from(["none", "ket", "cached", "both"])),
        "spin": draw(ANGLES),
        "default_spin": draw(st.booleans()),
        "as_list": draw(st.booleans()),
        "antisym": draw(st.booleans()),
        "again": draw(st.booleans()),
        "route": draw(st.sampled_from(["basis", "gos", "construct"])),
        "nocc": draw(st.integers(0, l)),
        "enuc": draw(num(-3, 3, 0.0)),
        "grid": draw(st.booleans()),
    }


def grid_shape(case, l, dim):
    """0 points: as many as functions, in every direction while that is affordable."""
    if case["pts"]:
        return (l,) + (case["pts"], 2, 2, 2)[:dim]
    return (l,) * (dim + 1) if l**dim < 700 else (l, l) + (1,) * (dim - 1)


def build(case):
    l, dim, d = case["l"], case["dim"], case["data"]
    m = {"h": arr(d, (l, l), 1), "s": arr(d, (l, l), 2), "u": arr(d, (l,) * 4, 3)}
    m["dipole_moment"] = arr(d, (dim, l, l), 4) if case["dip"] else None
    shape = grid_shape(case, l, dim)
    m["spf"] = m["bra_spf"] = None
    if case["spf"] != "none":
        m["spf"] = arr(d, shape, 5)
        m["bra_spf"] = m["spf"].conj()
    if case["spf"] == "both":
        m["bra_spf"] = arr(d, shape, 6)
    bs = BasisSet(l, dim)
    for k, v in m.items():
        if v is not None and not (k == "bra_spf" and case["spf"] != "both"):
            setattr(bs, k, dup(v))
    if case["spf"] == "cached":
        bs.bra_spf
    bs.nuclear_repulsion_energy = case["enuc"]
    if case["grid"]:
        bs.grid = np.linspace(-1, 1, 3)
    return bs, m


def doubled(m, antisym):
    e = {"h": o.spin1(m["h"]), "s": o.spin1(m["s"]), "u": o.spin2(m["u"])}
    if antisym:
        e["u"] = o.asym(e["u"])
    e["dipole_moment"] = None if m["dipole_moment"] is None else np.array([o.spin1(x) for x in m["dipole_moment"]])
    e["spf"] = None if m["spf"] is None else o.spinf(m["spf"])
    e["bra_spf"] = None if m["bra_spf"] is None else o.spinf(m["bra_spf"])
    return e


def compare(tag, obj, e):
    for k, v in e.items():
        got = getattr(obj, k)
        if v is None:
            require(got is None, f"{tag}.{k}: was unset, now set")
        else:
            # an element is copied, or (antisymmetrised) a difference of two
            tight(f"{tag}.{k}", got, v, np.abs(v) + (np.abs(np.swapaxes(v, 2, 3)) if k == "u" else 0), 1e-14)
            is_complex(f"{tag}.{k}", got)


def run(case):
    bs, m = build(case)
    a, b = o.spin_basis(case["spin"])
    kw = {}
    if not case["default_spin"]:
        kw = {"a": list(a), "b": list(b)} if case["as_list"] else {"a": a, "b": b}
    l, n = case["l"], case["nocc"]
    e = doubled(m, case["antisym"])
    spas = None
    if case["route"] == "basis":
        out = bs.change_to_general_orbital_basis(anti_symmetrize=case["antisym"], **kw)
        require(out is bs, "the conversion does not return the converted basis")
        obj = bs
    elif case["route"] == "gos":
        obj = GeneralOrbitalSystem(2 * n, bs, anti_symmetrize=case["antisym"], **kw)
        require(obj.n == 2 * n and obj.l == 2 * l and obj.m == 2 * (l - n), "sizes of the general-orbital system")
    else:
        spas = SpatialOrbitalSystem(2 * n, bs)
        obj = spas.construct_general_orbital_system(anti_symmetrize=case["antisym"], **kw)
        require(obj.n == 2 * n and obj.l == 2 * l and obj.m == 2 * (l - n), "sizes of the general-orbital system")
    compare(case["route"], obj, e)
    require(obj.nuclear_repulsion_energy == case["enuc"], "nuclear repulsion energy changed")
    if case["grid"]:
        same("grid", obj.grid, np.linspace(-1, 1, 3))
    else:
        require(obj.grid is None, "grid appeared")
    if spas is None:
        require(bs.l == 2 * l and bs.includes_spin is True, "size or spin flag of the doubled basis")
        require(bs.dim == case["dim"], "dimension")
        require(bs.anti_symmetrized_u == case["antisym"], "antisymmetrised flag")
        # a second doubling changes nothing
        bs.change_to_general_orbital_basis(anti_symmetrize=case.get("again", True), **(kw if case.get("again", True) == case["antisym"] else {}))
        require(bs.anti_symmetrized_u == case["antisym"], "antisymmetrised flag after a second doubling")
        require(bs.l == 2 * l and bs.includes_spin is True, "second doubling changed the size")
        compare("second doubling", bs, e)
    else:
        require(spas.l == l and spas.n == n and bs.l == l and bs.includes_spin is False, "the spatial system was resized")
        require(bs.anti_symmetrized_u is False, "the spatial system was antisymmetrised")
        for k, v in m.items():
            if v is None:
                require(getattr(spas, k) is None, f"{k} appeared in the spatial system")
            else:
                same(f"{k} of the spatial system", getattr(spas, k), v)
        # and may be converted again, with the other choice
        other = spas.construct_general_orbital_system(anti_symmetrize=not case["antisym"])
        compare("second conversion", other, doubled(m, not case["antisym"]))
        compare("first conversion, later", obj, e)
    return ["route:" + case["route"], "spf:" + case["spf"], f"antisym:{case['antisym']}"]


def statics(case):
    l, d = case["l"], case["data"]
    h, u, f = arr(d, (l, l), 1), arr(d, (l,) * 4, 2), arr(d, (l, 2, 3), 3)
    keep = [h.copy(), u.copy(), f.copy()]
    tight("add_spin_one_body", BasisSet.add_spin_one_body(h, np=np), o.spin1(h), o.spin1(h), 1e-14)
    tight("add_spin_two_body", BasisSet.add_spin_two_body(u, np=np), o.spin2(u), o.spin2(u), 1e-14)
    tight("add_spin_spf", BasisSet.add_spin_spf(f, np), o.spinf(f), o.spinf(f), 1e-14)
    tight("add_spin_bra_spf", BasisSet.add_spin_bra_spf(f, np), o.spinf(f), o.spinf(f), 1e-14)
    for x, y in zip((h, u, f), keep):
        same("helper argument", x, y)


def twice(case):
    """A second doubling changes nothing, in any family and whatever it asks for."""
    bs = fam.build(case["basis"])
    if bs.l > 9:
        return
    if not bs.includes_spin:
        bs.change_to_general_orbital_basis(anti_symmetrize=case["first"])
    before = fam.snapshot(bs)
    for antisym in case["again"]:
        if case["angle"]:
            c, s = np.cos(case["angle"]), np.sin(case["angle"])
            bs.change_to_general_orbital_basis(a=[c, s], b=[-s, c], anti_symmetrize=antisym)
        else:
            bs.change_to_general_orbital_basis(anti_symmetrize=antisym)
        for k, v in fam.snapshot(bs).items():
            require((v is None) == (before[k] is None), f"second doubling: {k} is {'unset' if v is None else 'set'}")
            if isinstance(v, np.ndarray):
                same(f"second doubling: {k}", v, before[k])
            else:
                require(v == before[k], f"second doubling: {k} is {v}, was {before[k]}")
    return ["family:" + case["basis"]["fam"]]


TWICE = st.fixed_dictionaries(
    {"basis": st.one_of(fam.CHEAP, fam.DVR), "first": st.booleans(), "again": st.lists(st.booleans(), min_size=1, max_size=2), "angle": st.sampled_from([0.0, 0.0, 0.4])})

def deltas(case):
    """The deltas over orbital and spin-orbital indices, for any integers."""
    for p in case["p"]:
        for q in case["p"] + case["q"]:
            require(bool(delta(p, q)) == (p == q), f"delta({p}, {q}) is {delta(p, q)}")
            want = int((p - q) % 2 == 0)
            require(int(spin_delta(p, q)) == want, f"spin_delta({p}, {q}) is {spin_delta(p, q)}, the spins are {'equal' if want else 'opposite'}")
            # the same index convention as the doubled elements
            one = BasisSet.add_spin_one_body(np.ones((3, 3)), np=np)
            require(int(one[abs(p) % 6, abs(q) % 6]) == int(spin_delta(abs(p) % 6, abs(q) % 6)), "spin delta and doubled elements disagree")


INDEX = st.one_of(st.integers(0, 60), st.integers(-50, 50), st.integers(-(2**62), 2**62))

QUICK = 10
SUBS = [
    Sub("doubling", cases(), run, 1000, 12000, "at least two spatial orbitals", lambda c: c["l"] > 1, shards=3, tshards=6),
    Sub("doubling_large", cases(min_l=6, max_l=15), run, 40, 500, "every case (six or more spatial orbitals)", shards=4),
    Sub("doubling_wide", None, run, 0, 0, "every case (fixed, 34 spatial orbitals)", fixed=[
        {"l": 34, "dim": 1, "pts": 3, "data": {"kind": "gauss", "seed": 5, "cplx": False}, "dip": True, "spf": "ket", "spin": [0.3, 0.1, 0.2, 0.4], "default_spin": False,
         "as_list": False, "antisym": True, "route": "basis", "nocc": 3, "enuc": 1.5, "grid": False}]),
    Sub("deltas", st.fixed_dictionaries({"p": st.lists(INDEX, min_size=1, max_size=5), "q": st.lists(INDEX, max_size=3)}), deltas, 100, 1000, "at least two indices", lambda c: len(c["p"]) > 1),
    Sub("twice", TWICE, twice, 120, 1500, "at least two orbitals", lambda c: c["basis"]["l"] > 1),
    Sub(
        "static_helpers", st.fixed_dictionaries({"l": st.one_of(st.integers(1, 8), st.integers(9, 18)), "data": spec()}), statics, 150, 1500,
        "at least two spatial orbitals", lambda c: c["l"] > 1,
    ),
]
