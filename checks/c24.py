"""C24: switching the array module or casting to complex preserves every value."""
import contextlib
import io

import numpy
import numpy as np
from hypothesis import strategies as st

import families as fam
from core import SEEDS, Sub, close, laid, num, require, same, unitary

from quantum_systems import BasisSet, GeneralOrbitalSystem, SpatialOrbitalSystem, construct_pyscf_system_ao, construct_pyscf_system_rhf
from quantum_systems.time_evolution_operators import AdiabaticSwitching, LaserField

ASSUMPTIONS = ["the other array module is a stand-in that delegates to numpy and has its own array type (no other module exists offline)"]


class Tagged(numpy.ndarray):
    """Array type of the stand-in module."""


class Module:
    """numpy under another name; makes its own arrays."""

    def __init__(self, name):
        self.__name__ = name

    def __getattr__(self, key):
        if key.startswith("__"):
            raise AttributeError(key)
        return getattr(numpy, key)

    def asarray(self, a, *args, **kw):
        return numpy.asarray(a, *args, **kw).view(Tagged)

    def array(self, a, *args, **kw):
        return numpy.array(a, *args, **kw).view(Tagged)


M = {"numpy": numpy, "one": Module("one"), "two": Module("two")}

SWITCH = st.one_of(
    st.fixed_dictionaries({"op": st.just("module"), "to": st.sampled_from(["one", "two", "numpy"])}),
    st.fixed_dictionaries({"op": st.just("module"), "to": st.sampled_from(["one", "two", "numpy"])}),
    st.fixed_dictionaries({"op": st.just("cast")}),
)
OTHER = st.one_of(
    st.fixed_dictionaries({"op": st.just("change"), "seed": SEEDS, "drop": st.integers(0, 1), "cplx": st.booleans(), "bi": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("double"), "antisym": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("antisym")}),
    st.fixed_dictionaries({"op": st.just("copy")}),
    st.fixed_dictionaries({"op": st.just("wrap"), "kind": st.sampled_from(["spatial", "general"]), "antisym": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("operator"), "kind": st.sampled_from(["laser", "switch"])}),
    st.fixed_dictionaries({"op": st.just("scale"), "which": st.sampled_from(["h", "u", "s"])}),
)


@st.composite
def cases(draw, basis):
    ops = draw(st.lists(st.one_of(SWITCH, OTHER), min_size=1, max_size=6))
    ops.insert(draw(st.integers(0, len(ops))), draw(SWITCH))
    return {"basis": draw(basis), "ops": ops, "touch": draw(st.booleans()), "t": draw(num(-1, 2)), "np": draw(st.sampled_from([None, None, None, "numpy", "one", "two"]))}


def is_basis(x):
    return not hasattr(x, "h_t")


def apply(x, op):
    """One ordinary operation; returns the object that goes on."""
    k = op["op"]
    if k == "change":
        n = x.l
        new = max(n - op["drop"], getattr(x, "n", 1), 1)
        C = unitary(op["seed"], n, op["cplx"])[:, :new]
        x.change_basis(C, 1.5 * C.conj().T if op["bi"] else None)
    elif k == "double":
        if is_basis(x):
            if not x.includes_spin and x.l <= 8:
                y = x.change_to_general_orbital_basis(anti_symmetrize=op["antisym"])
                require(y is x, "spin doubling returns another basis")
        elif isinstance(x, SpatialOrbitalSystem) and x.l <= 8:
            return x.construct_general_orbital_system(anti_symmetrize=op["antisym"])
    elif k == "antisym":
        if is_basis(x):
            x.anti_symmetrize_two_body_elements()
    elif k == "copy":
        return x.copy_basis() if is_basis(x) else x.copy_system()
    elif k == "wrap":
        if is_basis(x) and x.l <= 8:
            if op["kind"] == "spatial" and not x.includes_spin:
                return SpatialOrbitalSystem(2, x)
            return GeneralOrbitalSystem(1, x, anti_symmetrize=op["antisym"])
    elif k == "operator":
        if not is_basis(x) and (op["kind"] != "laser" or x.dipole_moment is not None):
            x.set_time_evolution_operator(LaserField(lambda t: 0.5 + t) if op["kind"] == "laser" else AdiabaticSwitching(lambda t: 1 + t))
    elif k == "scale":
        if is_basis(x) and getattr(x, op["which"]) is not None:
            setattr(x, op["which"], 2 * getattr(x, op["which"]))
    return x


def results(x, t):
    d = fam.snapshot(x)
    if not is_basis(x):
        d["h_t"], d["u_t"] = np.array(x.h_t(t)), np.array(x.u_t(t))
        if np.ndim(x.u) == 4:
            d["energy"] = np.array(x.compute_reference_energy())
            d["fock"] = np.array(x.construct_fock_matrix(x.h, x.u))
    if x.spf is not None:
        d["density"] = np.array(x.compute_particle_density(np.eye(x.l, dtype=complex)))
    return d


def agree(tag, got, want):
    require(set(got) == set(want), f"{tag}: reports {sorted(set(got) ^ set(want))} differently")
    for k, v in want.items():
        if v is None:
            require(got[k] is None, f"{tag}: {k} appeared")
        elif isinstance(v, np.ndarray):
            require(got[k] is not None, f"{tag}: {k} vanished")
            close(f"{tag}: {k}", got[k], v, 1e-11)
        else:
            require(got[k] == v, f"{tag}: {k} is {got[k]}, expected {v}")


def run(case):
    module, labels = M[case.get("np") or "numpy"], {"family:" + case["basis"]["fam"]}
    x, twin = fam.build(case["basis"], module=module if case.get("np") else None), fam.build(case["basis"])
    if case.get("np"):
        require(x.np is module, "a basis made with an array module reports another one")
        agree("made with an array module", fam.snapshot(x), fam.snapshot(twin))
        labels.add("made with a module")
    if case["touch"]:
        x.bra_spf, twin.bra_spf
    for i, op in enumerate(case["ops"]):
        k = op["op"]
        tag = f"after {k} ({i + 1})"
        if k == "module":
            before = fam.snapshot(x)
            sparse = np.ndim(x.u) == 2
            module = M[op["to"]]
            x.change_module(module)
            agree(tag, fam.snapshot(x), before)
            for name in fam.names(x):
                v = getattr(x, name)
                if v is not None and name != "grid":
                    require(np.asarray(v).dtype == before[name].dtype, f"{tag}: {name} has type {np.asarray(v).dtype}, was {before[name].dtype}")
                    if not sparse and op["to"] != "numpy":
                        require(isinstance(v, Tagged), f"{tag}: {name} is not an array of the new module")
            labels.add("module:" + ("basis" if is_basis(x) else "system"))
        elif k == "cast":
            if not is_basis(x):
                continue
            before = fam.snapshot(x)
            x.cast_to_complex()
            agree(tag, fam.snapshot(x), before)
            for name in fam.names(x):
                v = getattr(x, name)
                if v is not None and name != "grid":
                    require(np.asarray(v).dtype == np.complex128, f"{tag}: {name} has type {np.asarray(v).dtype}, expected complex128")
            labels.add("cast")
        else:
            x, twin = apply(x, op), apply(twin, op)
            labels.add(k)
        require(x.np is module, f"{tag}: reports another array module")
        agree(tag, results(x, case["t"]), results(twin, case["t"]))
    return labels


TYPES = ["int64", "int32", "float32", "float64", "complex64", "complex128"]


@st.composite
def typed_cases(draw):
    present = ["h", "s", "u", "dipole_moment", "spf", "bra_spf"]
    return {
        "l": draw(st.integers(1, 4)), "seed": draw(SEEDS), "big": draw(st.sampled_from([1, 1000, 2**25 + 1, 2**30])),
        "types": {k: draw(st.sampled_from(TYPES + ["unset"])) for k in present},
        "spin": draw(st.sampled_from(["none"] + TYPES)), "layout": draw(st.sampled_from(["C", "C", "F", "strided", "readonly"])),
        "switches": draw(st.lists(st.sampled_from(["cast", "one", "two", "numpy"]), min_size=1, max_size=3)),
    }


def typed(case):
    """Elements of any number type keep exactly their values."""
    l = case["l"]
    rng = np.random.RandomState(case["seed"])

    def make(shape, t):
        x = rng.randint(-case["big"], case["big"] + 1, size=shape)
        if t.startswith("int"):
            return x.astype(t)
        x = x + rng.normal(size=shape)
        return (x + 1j * rng.normal(size=shape) if t.startswith("complex") else x).astype(t)

    shape = {"h": (l, l), "s": (l, l), "u": (l,) * 4, "dipole_moment": (2, l, l), "spf": (l, 3, 2), "bra_spf": (l, 3, 2)}
    bs = BasisSet(l, 2, includes_spin=case["spin"] != "none")
    want = {}
    for k, t in case["types"].items():
        want[k] = None if t == "unset" else make(shape[k], t)
        if t != "unset":
            setattr(bs, k, laid(want[k], case.get("layout", "C")))
    for k in ("spin_x", "spin_y", "spin_z", "spin_2", "spin_2_tb"):
        want[k] = None if case["spin"] == "none" else make((l,) * (4 if k == "spin_2_tb" else 2), case["spin"])
        if want[k] is not None:
            setattr(bs, k, laid(want[k], case.get("layout", "C")))
    if want["bra_spf"] is None and want["spf"] is not None:
        want["bra_spf"] = want["spf"].conj()
    for sw in case["switches"]:
        if sw == "cast":
            bs.cast_to_complex()
        else:
            bs.change_module(M[sw])
            require(bs.np is M[sw], f"after {sw}: reports another array module")
        for k, v in want.items():
            x = getattr(bs, k)
            require((x is None) == (v is None), f"after {sw}: {k} is {'unset' if x is None else 'set'}")
            if v is not None:
                same(f"after {sw}: {k} ({v.dtype})", x, v)
                if sw == "cast":
                    require(np.asarray(x).dtype == np.complex128, f"after cast: {k} has type {np.asarray(x).dtype}")
                elif "cast" not in case["switches"]:
                    require(np.asarray(x).dtype == v.dtype, f"after {sw}: {k} has type {np.asarray(x).dtype}, was {v.dtype}")


@st.composite
def molecules(draw):
    return {
        "atom": draw(st.sampled_from(["he 0 0 0", "h 0 0 0; h 0 0 {d}", "he 0 0 0; h 0 {d} 0", "li 0 0 0; h {d} 0 0"])), "d": draw(num(1.0, 3.0)),
        "basis": draw(st.sampled_from(["sto-3g", "6-31g"])), "rhf": draw(st.booleans()), "spin": draw(st.booleans()), "antisym": draw(st.booleans()),
        "np": draw(st.sampled_from(["numpy", "one", "two"])), "to": draw(st.sampled_from(["none", "one", "two", "numpy"])), "t": draw(num(-1, 2)), "seed": draw(SEEDS),
    }


def molecule(case):
    """Molecular systems made with another array module (Hartree-Fock orbitals only where none are degenerate)."""
    kw = {"basis": case["basis"], "add_spin": case["spin"], "anti_symmetrize": case["antisym"]}
    if "he 0 0 0; h" in case["atom"]:
        kw["charge"] = 1
    make = construct_pyscf_system_rhf if case["rhf"] and "li" not in case["atom"] else construct_pyscf_system_ao
    module = M[case["np"]]
    with contextlib.redirect_stdout(io.StringIO()):
        x, twin = make(case["atom"].format(d=case["d"]), np=module, **kw), make(case["atom"].format(d=case["d"]), **kw)
    require(x.np is module and twin.np is numpy, "the system reports another array module")
    agree("made with an array module", results(x, case["t"]), results(twin, case["t"]))
    for y in (x, twin):
        y.change_basis(unitary(case["seed"], y.l, True))
    if case["to"] != "none":
        x.change_module(M[case["to"]])
        require(x.np is M[case["to"]], "the system reports another array module")
    agree("after a basis change", results(x, case["t"]), results(twin, case["t"]))
    if not case["spin"]:
        x, twin = (y.construct_general_orbital_system(anti_symmetrize=case["antisym"]) for y in (x, twin))
        agree("with spin", results(x, case["t"]), results(twin, case["t"]))


NT = lambda c: len(c["ops"]) > 1 and c["basis"]["l"] > 1
RULE = "at least two basis functions and an operation besides one switch"
SUBS = [
    Sub("number_types", typed_cases(), typed, 300, 3000, "at least two kinds of numbers", lambda c: len(set(c["types"].values())) > 1, shards=2),
    Sub("molecules", molecules(), molecule, 24, 400, "another array module", lambda c: c["np"] != "numpy" or c["to"] not in ("none", "numpy"), shards=1, tshards=4),
    Sub("cheap_families", cases(fam.CHEAP), run, 500, 9000, RULE, NT, shards=5, tshards=7),
    Sub("sinc_dvr", cases(fam.DVR), run, 120, 1500, RULE, NT, shards=2, tshards=7),
    Sub("two_dimensional", cases(fam.TWO_DIM), run, 16, 250, RULE, NT, shards=2, tshards=7),
]
