"""C08: copies are complete and fully independent."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

import families as fam
import oracles as o
from core import SEEDS, Sub, arr, close, num, require, same, unitary

from quantum_systems import GeneralOrbitalSystem, SpatialOrbitalSystem
from quantum_systems.time_evolution_operators import AdiabaticSwitching, CustomOneBodyOperator, LaserField

LATER = st.one_of(
    st.fixed_dictionaries({"op": st.just("edit"), "which": st.integers(0, 11), "val": num(-4, 4, 3.5)}),
    st.fixed_dictionaries({"op": st.just("edit"), "which": st.integers(0, 11), "val": num(-4, 4, 3.5)}),
    st.fixed_dictionaries({"op": st.just("change"), "seed": SEEDS, "drop": st.integers(0, 1), "bi": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("double"), "antisym": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("antisym")}),
    st.fixed_dictionaries({"op": st.just("eval"), "t": num(-2, 2)}),
    st.fixed_dictionaries({"op": st.just("set"), "which": st.integers(0, 4)}),
    st.fixed_dictionaries({"op": st.just("operator"), "kind": st.sampled_from(["none", "laser", "switch"])}),
    st.fixed_dictionaries({"op": st.just("cast")}),
    st.fixed_dictionaries({"op": st.just("copy")}),
    st.fixed_dictionaries({"op": st.just("given")}),
)


@st.composite
def cases(draw, basis):
    return {
        "basis": draw(basis),
        "kind": draw(st.sampled_from(["basis", "spatial", "general", "convert"])),
        "pre": draw(st.sampled_from(["none", "change", "touch_bra", "double", "freeze"])),
        "operator": draw(st.sampled_from(["none", "laser", "laser_fn", "switch", "custom"])),
        "evaluated": draw(st.booleans()),
        "seed": draw(SEEDS),
        "antisym": draw(st.booleans()),
        "victim": draw(st.sampled_from(["copy", "original", "both"])),
        "later": draw(st.lists(LATER, min_size=1, max_size=5)),
    }


def make_operator(kind, system, seed, given=None):
    """given: collects the arrays that the operator was made from."""
    given = [] if given is None else given
    if kind == "laser":
        return LaserField(0.75)
    if kind == "laser_fn":
        dim = len(system.dipole_moment)
        e = np.random.RandomState(seed % 2**32).normal(size=dim)
        given.append(e)
        return LaserField(lambda t: np.sin(t) + 0.5, e)
    if kind == "switch":
        return AdiabaticSwitching(lambda t: 0.3 + 0.1 * t)
    if kind == "custom":
        m = np.random.RandomState(seed % 2**32).normal(size=(system.l, system.l))
        given.append(m)
        return CustomOneBodyOperator(lambda t: 1.0 + t, m)
    return None


TS = (0.4, -1.3)


def extras(obj):
    """Further public arrays and tables of a basis (meshes, spin matrices, tables of states ...)."""
    if hasattr(obj, "h_t"):
        return {}
    d = {k: v for k, v in vars(obj).items() if not k.startswith("_") and isinstance(v, (np.ndarray, pd.DataFrame))}
    d.update({k: getattr(obj, k) for k in ("sigma_x", "sigma_y", "sigma_z") if isinstance(getattr(obj, k, None), np.ndarray)})
    return d


def snap(obj, with_t=True):
    d = fam.snapshot(obj)
    d.update({"attribute " + k: np.array(v, copy=True) for k, v in extras(obj).items()})
    if hasattr(obj, "h_t"):
        d["one_flag"] = obj.has_one_body_time_evolution_operator
        d["two_flag"] = obj.has_two_body_time_evolution_operator
        if with_t:
            for t in TS:
                d[f"h_t({t})"] = np.array(obj.h_t(t))
                d[f"u_t({t})"] = np.array(obj.u_t(t))
    return d


def compare(tag, obj, d, with_t=True, exact=True):
    e = snap(obj, with_t)
    require(set(e) == set(d), f"{tag}: reports {sorted(set(e) ^ set(d))} differently")
    for k, v in d.items():
        if v is None:
            require(e[k] is None, f"{tag}: {k} appeared")
        elif isinstance(v, np.ndarray):
            require(e[k] is not None, f"{tag}: {k} vanished")
            require(e[k].dtype == v.dtype, f"{tag}: {k} has type {e[k].dtype}, was {v.dtype}")
            if exact:
                same(f"{tag}: {k}", e[k], v)
            else:
                close(f"{tag}: {k}", e[k], v, 1e-12)
        else:
            require(e[k] == v, f"{tag}: {k} is {e[k]}, was {v}")


def no_shared_memory(a, b):
    for k in fam.names(a):
        x = getattr(a, k)
        for j in fam.names(b):
            y = getattr(b, j)
            if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.size and y.size:
                require(not np.shares_memory(x, y), f"copy shares memory: {k} of one with {j} of the other")
    more = extras(b)
    for k, x in extras(a).items():
        y = more.get(k)
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.size and y.size and (x.flags.writeable or y.flags.writeable):
            require(not np.shares_memory(x, y), f"copy shares memory: attribute {k}")


def apply(obj, op, alive):
    """Some later operation on one of the two."""
    k = op["op"]
    basis = not hasattr(obj, "h_t")
    if k == "edit":
        ns = fam.names(obj)
        name = ns[op["which"] % len(ns)]
        x = getattr(obj, name)
        more = extras(obj)
        if more and op["val"] > 1:
            x = more[sorted(more)[op["which"] % len(more)]]
        if isinstance(x, pd.DataFrame):
            x.iloc[:, 0] = x.iloc[:, 0] * 2 + 1
        elif isinstance(x, np.ndarray) and x.size and x.flags.writeable:
            x.flat[op["which"] % x.size] = op["val"] + 10
            x[...] = x * 2 + 1
    elif k == "change":
        n = obj.l
        lo = getattr(obj, "n", 1)
        new = max(n - op["drop"], lo, 1)
        C = unitary(op["seed"], n)[:, :new]
        obj.change_basis(C, C.conj().T * 2 if op["bi"] else None)
    elif k == "double":
        if basis and not obj.includes_spin:
            obj.change_to_general_orbital_basis(anti_symmetrize=op["antisym"])
        elif isinstance(obj, SpatialOrbitalSystem):
            obj.construct_general_orbital_system(anti_symmetrize=op["antisym"])
    elif k == "antisym":
        if basis:
            obj.anti_symmetrize_two_body_elements()
    elif k == "eval":
        if not basis:
            obj.h_t(op["t"]), obj.u_t(op["t"])
    elif k == "set":
        name = ["h", "s", "spf", "u", "dipole_moment"][op["which"]]
        if basis and getattr(obj, name) is not None:
            setattr(obj, name, np.asarray(getattr(obj, name)) * 3 + 1)
    elif k == "operator":
        if not basis and (op["kind"] != "laser" or obj.dipole_moment is not None):
            obj.set_time_evolution_operator(make_operator(op["kind"], obj, 3))
    elif k == "cast":
        if basis:
            obj.cast_to_complex()
    elif k == "copy":
        alive.append(obj.copy_basis() if basis else obj.copy_system())


def prepare(case, given=None):
    bs = fam.build(case["basis"])
    kind = case["kind"]
    spinful = bs.includes_spin
    if kind in ("spatial", "convert") and spinful:
        kind = "general"
    if kind == "basis":
        obj = bs
    elif kind in ("spatial", "convert"):
        obj = SpatialOrbitalSystem(2 if bs.l > 1 else 0, bs)
    else:
        obj = GeneralOrbitalSystem(1, bs, anti_symmetrize=case["antisym"])
    if case["pre"] == "change":
        obj.change_basis(unitary(case["seed"], obj.l))
    elif case["pre"] == "touch_bra":
        obj.bra_spf
    elif case["pre"] == "freeze":
        for k in fam.names(obj):
            x = getattr(obj, k)
            if isinstance(x, np.ndarray) and x.flags.owndata:
                x.flags.writeable = False
    elif case["pre"] == "double" and kind == "basis" and not obj.includes_spin and obj.l < 8:
        obj.change_to_general_orbital_basis(anti_symmetrize=case["antisym"])
    oper = case["operator"]
    if kind != "basis":
        if oper.startswith("laser") and obj.dipole_moment is None:
            oper = "none"
        if kind == "convert" and oper == "custom":
            oper = "switch"
        if oper != "none":
            obj.set_time_evolution_operator(make_operator(oper, obj, case["seed"], given))
        if case["evaluated"]:
            obj.h_t(0.1)
    else:
        oper = "none"
    return obj, kind, oper


def run(case):
    # what a separately built basis holds must not depend on what happens to this one
    again = case["basis"]["fam"] not in ("tdho", "tddw", "tdhob") or case["basis"]["l"] <= 3
    ref = snap(fam.build(case["basis"])) if again else None
    other = fam.build(case["basis"]) if again else None
    if again and case["seed"] % 3 == 0:
        # everything one basis holds is overwritten
        victim = fam.build(case["basis"])
        for k in fam.names(victim):
            x = getattr(victim, k)
            if isinstance(x, np.ndarray) and x.size and x.flags.writeable:
                x[...] = x * 2 + 1
        compare("a basis built separately, when another is overwritten", other, ref)
        compare("a basis built after another was overwritten", fam.build(case["basis"]), ref)
    labels = histories(case)
    if again:
        compare("a basis built separately, before", other, ref)
        compare("a basis built separately, afterwards", fam.build(case["basis"]), ref)
    return labels


def histories(case):
    given = []
    obj, kind, oper = prepare(case, given)
    # the copied object is asked nothing before the copy when "evaluated" is off: derived quantities
    # (bra functions, operator defaults) are then still unset, and a twin says what it should report
    module = obj.np
    exact = case["evaluated"]
    before = snap(obj if exact else prepare(case)[0])
    with_t = True
    if kind == "basis":
        new = obj.copy_basis()
    elif kind == "convert":
        new = obj.construct_general_orbital_system(anti_symmetrize=case["antisym"])
    else:
        new = obj.copy_system()
    compare("original after copying", obj, before, with_t, exact)
    require(obj.np is module, "the original lost its array module")
    require(new.np is module, "the copy has no array module")
    require(new is not obj, "the copy is the original")
    if kind == "convert":
        require(isinstance(new, GeneralOrbitalSystem), "kind of the converted system")
        close("h of the converted system", new.h, o.spin1(before["h"]))
        require(new.n == 2 * obj.n and new.l == 2 * obj.l, "sizes of the converted system")
        same("grid", 0 if new.grid is None else new.grid, 0 if before["grid"] is None else before["grid"])
        if oper != "none":
            for t in TS:
                close("h_t of the converted system", new.h_t(t), o.spin1(np.asarray(obj.h_t(t))))
            require(new.has_one_body_time_evolution_operator == obj.has_one_body_time_evolution_operator, "operator lost")
    else:
        require(type(new) is type(obj), "the copy has another type")
        compare("copy", new, before, with_t, exact)
    no_shared_memory(obj, new)
    snaps = {"original": snap(obj), "copy": snap(new)}
    objs = {"original": obj, "copy": new}
    custom = {k: oper == "custom" for k in objs}
    alive = []
    labels = {"family:" + case["basis"]["fam"], "kind:" + kind, "operator:" + oper}
    for i, op in enumerate(case["later"]):
        victim = case["victim"] if case["victim"] != "both" else ("copy", "original")[i % 2]
        other = "original" if victim == "copy" else "copy"
        if custom[victim] and op["op"] == "change":
            op = {**op, "drop": 0}  # its matrix is the user's and keeps its size
        if op["op"] == "operator" and (op["kind"] != "laser" or objs[victim].dipole_moment is not None):
            custom[victim] = False
        if op["op"] == "given":
            # the polarisation or operator matrix of the original, changed in place by its owner
            if victim == "copy":
                continue
            for x in given:
                x[...] = x * 2 + 1
        apply(objs[victim], op, alive)
        compare(f"{other} after {op['op']} on the {victim}", objs[other], snaps[other])
        if case["victim"] == "both":
            snaps[victim] = snap(objs[victim])
        labels.add("later:" + op["op"])
    require(obj.np is module and new.np is module, "array module lost")
    return labels


class OwnPotential:
    """A potential of the user's that holds arrays."""

    def __init__(self, a, b):
        self.coefficients = np.array([0.5 * b, 0.1, 0.5 * a**2])
        self.table = {"shift": [0.25]}

    def __call__(self, x):
        return self.coefficients[0] * x + self.coefficients[2] * (x - self.table["shift"][0]) ** 2


def potentials(case):
    """The potential belongs to the basis: changing that of one leaves that of its copy alone."""
    c = case["basis"]
    pot = OwnPotential(c["pa"], c["pb"]) if case["own"] else fam.potential(c["pot"], c["pa"], c["pb"])
    if c["fam"] == "odqd":
        bs = fam.ODQD(c["l"], c["len"], c["ng"], potential=pot)
    else:
        bs = fam.ODSincDVR(c["l"], c["len"], potential=pot, u_repr="2d" if c["fam"] == "dvr2" else "4d")
    new = bs.copy_basis()
    mine, its = (bs.potential, new.potential) if case["victim"] == "original" else (new.potential, bs.potential)
    x = np.linspace(-c["len"], c["len"], 23)
    before = np.array(its(x))
    same("potential of the copy", np.array(mine(x)), before)
    changed = False
    for k, v in list(getattr(mine, "__dict__", {}).items()):
        if isinstance(v, np.ndarray):
            v[...] = v * 2 + 1
        elif isinstance(v, dict):
            v["shift"][0] += 1
        elif isinstance(v, (int, float)):
            setattr(mine, k, v * 2 + 1)
        else:
            continue
        changed = True
    same("potential after that of the other was changed", np.array(its(x)), before)
    return ["changed" if changed else "nothing to change"]


NT = lambda c: c["basis"]["l"] > 1 and c["later"] != []
RULE = "at least two basis functions and at least one later operation"
SUBS = [
    Sub("cheap_families", cases(fam.CHEAP), run, 700, 8000, RULE, NT, shards=5, tshards=7),
    Sub("many_functions", cases(fam.custom(min_l=12, max_l=14, extra=[st.integers(15, 19)])), run, 8, 120, RULE, NT, shards=2, tshards=7),
    Sub("sinc_dvr", cases(fam.DVR), run, 120, 1500, RULE, NT, shards=2, tshards=7),
    Sub("potentials", st.fixed_dictionaries({"basis": fam.one_dim(["odqd", "dvr2", "dvr4"]), "own": st.booleans(), "victim": st.sampled_from(["original", "copy"])}),
        potentials, 60, 600, "at least two basis functions", lambda c: c["basis"]["l"] > 1),
    Sub("two_dimensional", cases(fam.TWO_DIM), run, 36, 400, RULE, NT, shards=3, tshards=7),
]
