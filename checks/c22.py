"""C22: system sizes partition the basis, and ill-shaped input is refused."""
import numpy as np
from hypothesis import strategies as st

from core import SEEDS, Sub, arr, must_refuse, require, same, spec, unitary

from quantum_systems import BasisSet, GeneralOrbitalSystem, ODSincDVR, RandomBasisSet, SpatialOrbitalSystem

ASSUMPTIONS = [
    "any exception counts as a refusal; python runs without -O",
    "arrays of another rank whose axes all have the right length are outside the property",
]


def basis(l, dim, sp, spin=False, antisym=False, dip=True, spf=True):
    bs = BasisSet(l, dim, includes_spin=spin, anti_symmetrized_u=antisym)
    bs.h, bs.u, bs.s = arr(sp, (l, l), 1), arr(sp, (l,) * 4, 2), np.eye(l)
    if dip:
        bs.dipole_moment = arr(sp, (dim, l, l), 3)
    if spf:
        bs.spf = arr(sp, (l,) + (3, 2, 2, 2)[:dim], 4)
    return bs


SIZE = ("n", "m", "l")


def counts(tag, system, n, l):
    require((system.n, system.m, system.l) == (n, l - n, l), f"{tag}: n, m, l = {(system.n, system.m, system.l)}, expected {(n, l - n, l)}")
    every = list(range(l))
    occ, virt = every[system.o], every[system.v]
    require(occ == every[:n] and virt == every[n:], f"{tag}: slices {system.o}, {system.v} for {n} of {l}")
    a = np.arange(l)
    require(list(a[system.o]) + list(a[system.v]) == every, f"{tag}: slices of an array")


def partition(tag, system, n, l):
    """n occupied of l functions: counts, slices and arrays all agree."""
    counts(tag, system, n, l)
    for k, rank in (("h", 2), ("s", 2), ("u", 4)):
        require(np.shape(getattr(system, k)) == (l,) * rank, f"{tag}: {k} has shape {np.shape(getattr(system, k))} for {l} functions")
    if system.dipole_moment is not None:
        require(np.shape(system.dipole_moment)[1:] == (l, l), f"{tag}: dipole moment has shape {np.shape(system.dipole_moment)}")
    for k in ("spf", "bra_spf"):
        if getattr(system, k) is not None:
            require(np.shape(getattr(system, k))[0] == l, f"{tag}: {k} has {np.shape(getattr(system, k))[0]} functions of {l}")
    if hasattr(system, "spin_x"):
        for k, rank in (("spin_x", 2), ("spin_y", 2), ("spin_z", 2), ("spin_2", 2), ("spin_2_tb", 4)):
            if getattr(system, k) is not None:
                require(np.shape(getattr(system, k)) == (l,) * rank, f"{tag}: {k} has shape {np.shape(getattr(system, k))}")
    f = np.asarray(system.construct_fock_matrix(system.h, system.u))
    require(f[system.o, system.o].shape == (n, n) and f[system.v, system.v].shape == (l - n, l - n), f"{tag}: Fock blocks")


OPS = st.one_of(
    st.fixed_dictionaries({"op": st.just("resize"), "n": st.integers(0, 14)}),
    st.fixed_dictionaries({"op": st.just("resize_bad"), "over": st.integers(1, 4), "l": st.integers(0, 6)}),
    st.fixed_dictionaries({"op": st.just("change"), "cols": st.integers(1, 12), "seed": SEEDS, "bi": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("change_bad"), "what": st.sampled_from(["few", "rows", "bra_rows", "bra_cols"]), "seed": SEEDS}),
    st.fixed_dictionaries({"op": st.just("copy")}),
    st.fixed_dictionaries({"op": st.just("convert"), "antisym": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("energy")}),
)


@st.composite
def size_cases(draw):
    kind = draw(st.sampled_from(["spatial", "general", "spinful"]))
    return {
        "kind": kind, "l": draw(st.one_of(st.integers(1, 6 if kind == "spinful" else 4), st.integers(5, 12 if kind == "spinful" else 7))), "n": draw(st.integers(0, 18)), "dim": draw(st.integers(1, 4)),
        "data": draw(spec()), "dip": draw(st.booleans()), "spf": draw(st.booleans()), "ops": draw(st.lists(OPS, max_size=6)),
    }


def state(system):
    d = {k: getattr(system, k) for k in SIZE}
    d["o"], d["v"] = (system.o.start, system.o.stop, system.o.step), (system.v.start, system.v.stop, system.v.step)
    for k in ("h", "s", "u", "dipole_moment", "spf", "bra_spf"):
        v = getattr(system, k)
        d[k] = None if v is None else np.array(v)
    return d


def unchanged(tag, system, before):
    after = state(system)
    for k, v in before.items():
        if isinstance(v, np.ndarray):
            same(f"{tag}: {k}", after[k], v)
        else:
            require(after[k] == v if not isinstance(after[k], np.ndarray) else False, f"{tag}: {k} became {after[k]}, was {v}")


def sizes(case):
    l, n, kind = case["l"], case["n"], case["kind"]
    bs = basis(l, case["dim"], case["data"], spin=kind == "spinful", dip=case["dip"], spf=case["spf"])
    if kind == "spatial":
        make, ok, occ, L = lambda: SpatialOrbitalSystem(n, bs), n % 2 == 0 and n // 2 <= l, n // 2, l
    elif kind == "general":
        make, ok, occ, L = lambda: GeneralOrbitalSystem(n, bs), n <= 2 * l, n, 2 * l
    else:
        make, ok, occ, L = lambda: GeneralOrbitalSystem(n, bs), n <= l, n, l
    if not ok:
        must_refuse(f"{n} particles in {l} {kind} functions", make)
        return ["refused", kind]
    system = make()
    partition(f"new {kind} system", system, occ, L)
    if kind == "spinful":
        must_refuse("a spin-dependent basis in a spatial system", lambda: SpatialOrbitalSystem(0, bs))
        must_refuse("a spin-dependent basis in a spatial system", lambda: SpatialOrbitalSystem(2 * (n // 2), bs))
    labels = {kind}
    for op in case["ops"]:
        k = op["op"]
        before = state(system)
        if k == "resize":
            occ = min(op["n"], L)
            system.set_system_size(occ, L)
        elif k == "resize_bad":
            must_refuse(f"{op['l'] + op['over']} particles in {op['l']} functions", lambda: system.set_system_size(op["l"] + op["over"], op["l"]))
            unchanged("after a refused resize", system, before)
        elif k == "change":
            new = max(1, occ, min(op["cols"], L + 2))
            C = arr({"kind": "gauss", "seed": op["seed"], "cplx": True}, (L, new))
            system.change_basis(C, arr({"kind": "gauss", "seed": op["seed"], "cplx": True}, (new, L), 1) if op["bi"] else None)
            L = new
        elif k == "change_bad":
            sq = unitary(op["seed"], L)
            if op["what"] == "few":
                if occ == 0:
                    continue
                args = (sq[:, : occ - 1],)
            elif op["what"] == "rows":
                args = (unitary(op["seed"], L + 1),)
            elif op["what"] == "bra_rows":
                args = (sq, unitary(op["seed"], L + 1)[:, :L])
            else:
                args = (sq, unitary(op["seed"], L + 1)[:L])
            must_refuse(f"ill-shaped coefficients ({op['what']})", lambda: system.change_basis(*args))
            unchanged("after a refused change of basis", system, before)
        elif k == "copy":
            system = system.copy_system()
        elif k == "convert":
            if kind != "spatial" or L > 5:
                continue
            system = system.construct_general_orbital_system(anti_symmetrize=op["antisym"])
            kind, L, occ = "general", 2 * L, 2 * occ
        else:
            system.compute_reference_energy()
        partition(f"{kind} system after {k}", system, occ, L)
        labels.add(k)
    return labels


def many(case):
    """Sizes of systems of many particles (no two-body elements needed)."""
    n, l = case["n"], case["l"]
    bs = BasisSet(l, 1)
    bs.h, bs.s = np.eye(l), np.eye(l)
    if n % 2 or n // 2 > l:
        must_refuse(f"{n} particles in {l} spatial functions", lambda: SpatialOrbitalSystem(n, bs))
        return ["refused"]
    system = SpatialOrbitalSystem(n, bs)
    counts("system of many particles", system, n // 2, l)
    k = min(case["k"], l)
    system.set_system_size(k, l)
    counts("resized system of many particles", system, k, l)
    must_refuse(f"{l + 1} particles in {l} functions", lambda: system.set_system_size(l + 1, l))
    counts("after a refused resize", system, k, l)
    return ["accepted"]


@st.composite
def shape_cases(draw):
    spin = draw(st.booleans())
    what = draw(st.sampled_from(["h", "s", "u", "dipole_moment", "spf", "bra_spf", "spin_x", "spin_y", "spin_z", "spin_2", "spin_2_tb"]))
    return {
        "l": draw(st.one_of(st.integers(1, 5), st.integers(6, 9))), "dim": draw(st.integers(1, 4)), "spin": spin, "what": what, "data": draw(spec()),
        "old": draw(st.booleans()),
        "how": draw(st.sampled_from(["fits", "axis", "axis", "outer"])),
        "axis": draw(st.integers(0, 3)), "delta": draw(st.sampled_from([-1, 1, 2, 5])), "extra": draw(st.sampled_from([1, 2, 1, 4])),
        "cls": draw(st.sampled_from(["BasisSet", "RandomBasisSet"])),
        "list": draw(st.booleans()), "odd_one": draw(st.one_of(st.none(), st.integers(0, 3))),
    }


def shapes(case):
    l, dim, what, spin = case["l"], case["dim"], case["what"], case["spin"]
    rank4 = what in ("u", "spin_2_tb")
    if what == "dipole_moment":
        shape = [dim, l, l]
    elif what in ("spf", "bra_spf"):
        shape = [l] + [2, 3, 2, 2][:dim]
    else:
        shape = [l] * (4 if rank4 else 2)
    how, fits = case["how"], case["how"] == "fits"
    if how == "outer" and what in ("dipole_moment", "spf", "bra_spf"):
        if what == "dipole_moment":
            shape[0] = dim + case["delta"]
        else:  # another number of spatial dimensions
            k = 1 + case["axis"] % len(shape)
            shape = shape[:-1] if case["delta"] < 0 else shape[:k] + [case["extra"]] + shape[k:]
    elif how != "fits":
        how = "axis"
        i = case["axis"] % len(shape)
        if what == "dipole_moment":
            i = 1 + case["axis"] % 2
        elif what in ("spf", "bra_spf"):
            i = 0
        shape[i] = shape[i] + case["delta"]
    shape = [max(0, k) for k in shape]
    if how == "outer" and what == "dipole_moment" and shape[0] == dim:
        fits = True
    new = arr(case["data"], tuple(shape), 8)
    given = list(new) if case["list"] and what == "dipole_moment" else new
    odd = case.get("odd_one")
    if isinstance(given, list) and odd is not None and not fits and how == "axis":
        # only one of the matrices does not fit
        given = [given[i] if i == odd % dim else arr(case["data"], (l, l), 20 + i) for i in range(dim)]
    cls = {"BasisSet": BasisSet, "RandomBasisSet": RandomBasisSet}[case["cls"]]
    bs = cls(l, dim, includes_spin=spin)
    old = None
    if case["cls"] == "BasisSet" and case["old"]:
        if what == "dipole_moment":
            old = arr(case["data"], (dim, l, l), 9)
        elif what in ("spf", "bra_spf"):
            old = arr(case["data"], (l,) + (2, 2, 2, 2)[:dim], 9)
        elif not what.startswith("spin") or spin:
            old = arr(case["data"], (l,) * (4 if rank4 else 2), 9)
        if old is not None:
            setattr(bs, what, old)
    stored = getattr(bs, what)
    values = None if stored is None else np.array(stored)
    ok = fits and (spin or not what.startswith("spin"))
    tag = f"{what} of shape {tuple(shape)} on a basis of {l} functions in {dim}D{'' if spin else ' without spin'}"
    if ok:
        setattr(bs, what, given)
        same(tag, np.asarray(getattr(bs, what)), new)
    else:
        must_refuse(tag, lambda: setattr(bs, what, given))
        after = getattr(bs, what)
        require((after is None) == (values is None), f"{tag}: refused, but the stored value appeared or vanished")
        if values is not None:
            same(f"{tag}: refused; the stored value", after, values)
    require(bs.l == l and bs.dim == dim and bs.includes_spin == spin, f"{tag}: size or flags changed")
    return ["accepted" if ok else "refused", what]


def sigma(case):
    l = case["l"]
    bs = BasisSet(l, 1)
    for k in ("sigma_x", "sigma_y", "sigma_z"):
        must_refuse(f"{k} on a spinless basis", lambda: setattr(bs, k, np.eye(2)))
        require(getattr(bs, k) is None, f"{k} stored although refused")
    sp = BasisSet(l, 1, includes_spin=True)
    for i, k in enumerate(("sigma_x", "sigma_y", "sigma_z")):
        setattr(sp, k, np.eye(2) * (i + 1))
        same(k, getattr(sp, k), np.eye(2) * (i + 1))


def dvr(case):
    """The sinc-DVR basis also takes the compact two-body form."""
    l = case["l"]
    bs = ODSincDVR(l, 4.0, u_repr=case["repr"])
    new = arr(case["data"], tuple([l] * (2 if case["compact"] else 4)), 1)
    bs.u = new
    same("u of a sinc-DVR basis", bs.u, new)
    require(bs.u_repr == ("2d" if case["compact"] else "4d"), "reported representation")
    bad = arr(case["data"], tuple([l] * (1 if case["compact"] else 3) + [l + case["delta"]]), 2)
    must_refuse("ill-shaped u on a sinc-DVR basis", lambda: setattr(bs, "u", bad))
    same("u of a sinc-DVR basis after a refusal", bs.u, new)
    must_refuse("unknown representation", lambda: ODSincDVR(l, 4.0, u_repr="3d"))
    must_refuse("unknown representation", lambda: bs.set_u_repr("3d"))
    same("u of a sinc-DVR basis after a refusal", bs.u, new)


@st.composite
def conversion_cases(draw):
    return {
        "l": draw(st.integers(1, 5)), "dim": draw(st.integers(1, 3)), "data": draw(spec()), "n": draw(st.integers(0, 10)), "over": draw(st.integers(1, 4)),
        "kind": draw(st.sampled_from(["spinless", "spinless", "spinful", "dvr"])), "dip": draw(st.booleans()), "spf": draw(st.booleans()),
        "what": draw(st.sampled_from(["length", "angle", "both", "parallel", "zero", "three", "one"])), "angle": draw(st.floats(0.0, 6.2)),
        "eps": draw(st.sampled_from([1e-3, 0.1, -0.5, 2.0])), "which": draw(st.integers(0, 1)), "via": draw(st.sampled_from(["basis", "general", "spatial", "particles", "particles"])),
        "antisym": draw(st.booleans()), "repr": draw(st.sampled_from(["2d", "4d"])),
    }


def basis_state(bs):
    names = ["l", "dim", "includes_spin", "anti_symmetrized_u", "nuclear_repulsion_energy", "h", "s", "u", "dipole_moment", "spf", "bra_spf", "grid",
             "spin_x", "spin_y", "spin_z", "spin_2", "spin_2_tb", "sigma_x", "sigma_y", "sigma_z"]
    return {k: np.array(getattr(bs, k)) if hasattr(getattr(bs, k), "shape") else getattr(bs, k) for k in names}


def conversions(case):
    """A refused doubling or system leaves the basis it was given as it was, and usable."""
    l, via, kind = case["l"], case["via"], case["kind"]
    if kind == "dvr":
        bs = ODSincDVR(l + 1, 4.0, u_repr=case.get("repr", "4d"))
        l = l + 1
    else:
        bs = basis(l, case["dim"], case["data"], spin=kind == "spinful", dip=case["dip"], spf=case["spf"])
    if kind == "spinful":
        via = "particles"
    c, s, e = np.cos(case["angle"]), np.sin(case["angle"]), case["eps"]
    a, b = np.array([c, s * 1j]), np.array([s * 1j, c])
    good = (a, b)
    pair = [a, b]
    i = case["which"]
    if case["what"] == "length":
        pair[i] = (1 + e) * pair[i]
    elif case["what"] == "angle":
        pair[i] = (pair[i] + e * pair[1 - i]) / np.sqrt(1 + e * e)
    elif case["what"] == "both":
        pair = [(1 + e) * a, b + e * a]
    elif case["what"] == "parallel":
        pair[i] = 1j * pair[1 - i]
    elif case["what"] == "zero":
        pair[i] = 0 * pair[i]
    elif case["what"] == "three":
        pair = [np.array([*x, 0.0]) for x in (0.5 * a, b)]
    else:
        pair[i] = pair[i][:1] * 0.5
    before = basis_state(bs)
    system = None
    if via == "basis":
        must_refuse("doubling with spin functions that are not orthonormal", lambda: bs.change_to_general_orbital_basis(a=pair[0], b=pair[1], anti_symmetrize=case["antisym"]))
    elif via == "general":
        must_refuse("a general system with spin functions that are not orthonormal", lambda: GeneralOrbitalSystem(min(case["n"], l), bs, a=pair[0], b=pair[1], anti_symmetrize=case["antisym"]))
    elif via == "spatial":
        system = SpatialOrbitalSystem(2 * min(case["n"], l), bs)
        must_refuse("a conversion with spin functions that are not orthonormal", lambda: system.construct_general_orbital_system(a=pair[0], b=pair[1], anti_symmetrize=case["antisym"]))
        counts("after a refused conversion", system, min(case["n"], l), l)
    else:
        many = l + case["over"] if kind == "spinful" else 2 * l + case["over"]
        must_refuse(f"{many} particles in {l} functions", lambda: GeneralOrbitalSystem(many, bs, anti_symmetrize=case["antisym"]))
        must_refuse("an odd number of particles, or too many", lambda: SpatialOrbitalSystem(many, bs))
    for k, v in basis_state(bs).items():
        if isinstance(v, np.ndarray) and isinstance(before[k], np.ndarray):
            same(f"after a refusal: {k}", v, before[k])
        else:
            require(type(v) is type(before[k]) and v == before[k], f"after a refusal: {k} is {v}, was {before[k]}")
    # what was refused may be corrected
    if kind != "spinful":
        other = basis(l, case["dim"], case["data"], dip=case["dip"], spf=case["spf"]) if kind != "dvr" else ODSincDVR(l, 4.0, u_repr=case.get("repr", "4d"))
        gos = GeneralOrbitalSystem(min(case["n"], 2 * l), bs, a=good[0], b=good[1], anti_symmetrize=case["antisym"])
        twin = GeneralOrbitalSystem(min(case["n"], 2 * l), other, a=good[0], b=good[1], anti_symmetrize=case["antisym"])
        for k in ("h", "s", "u", "dipole_moment", "spf", "spin_x", "spin_y", "spin_z", "spin_2", "spin_2_tb"):
            x, y = getattr(gos, k), getattr(twin, k)
            require((x is None) == (y is None), f"corrected after a refusal: {k}")
            if x is not None:
                same(f"corrected after a refusal: {k}", x, y)
    return [via, kind, case["what"]]


QUICK = 10
SUBS = [
    Sub("sizes", size_cases(), sizes, 500, 9000, "at least one particle or a refused particle number", lambda c: c["n"] > 0, shards=4, tshards=7),
    Sub("shapes", shape_cases(), shapes, 900, 15000, "input that must be refused, or replaces a stored value",
        lambda c: c["how"] != "fits" or c["old"], shards=2, tshards=4),
    Sub("conversions", conversion_cases(), conversions, 300, 4000, "at least two functions", lambda c: c["l"] > 1, shards=2, tshards=3),
    Sub("dvr", st.fixed_dictionaries({"l": st.integers(2, 5), "repr": st.sampled_from(["2d", "4d"]), "compact": st.booleans(), "data": spec(),
                                      "delta": st.sampled_from([-1, 1, 3])}), dvr, 60, 600, "every case", None),
    Sub("many_particles", st.fixed_dictionaries({"l": st.integers(10, 600), "n": st.integers(0, 700), "k": st.integers(0, 600)}), many, 60, 800, "at least one particle", lambda c: c["n"] > 0),
    Sub("pauli", None, sigma, 0, 0, "every case", None, fixed=[{"l": l} for l in (1, 2, 4)]),
]
