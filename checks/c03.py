"""C03: two-body elements are antisymmetrised exactly once, and only on request."""
import warnings

import numpy as np
from hypothesis import strategies as st

import oracles as o
from core import SEEDS, Sub, arr, close, dup, require, spec, tight, unitary

from quantum_systems import BasisSet, GeneralOrbitalSystem, SpatialOrbitalSystem

OP = st.one_of(
    st.fixed_dictionaries({"op": st.just("antisym")}),
    st.fixed_dictionaries({"op": st.just("double"), "antisym": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("wrap"), "antisym": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("convert"), "antisym": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("copy"), "system": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("change"), "seed": SEEDS, "new": st.one_of(st.integers(2, 5), st.integers(1, 12)), "bi": st.booleans()}),
)


@st.composite
def cases(draw, max_l=3, max_ops=7):
    spin = draw(st.booleans())
    return {
        "l": draw(st.integers(1, max_l + 2 if spin else max_l)),
        "data": draw(spec()),
        "sym": draw(st.booleans()),
        "spin": spin,
        "declared": draw(st.booleans() if spin else st.sampled_from([False, False, False, True])),
        "stb": draw(st.booleans()),
        "ops": draw(st.lists(OP, min_size=1, max_size=max_ops)),
    }


def run(case):
    l, d = case["l"], case["data"]
    u = arr(d, (l,) * 4, 1)
    if case["sym"]:
        u = u + u.transpose(1, 0, 3, 2)
    if case["declared"]:
        u = o.asym(u)
    bs = BasisSet(l, 1, includes_spin=case["spin"], anti_symmetrized_u=case["declared"])
    bs.h, bs.s, bs.u = arr(d, (l, l), 2), np.eye(l), dup(u)
    tb = None
    if case["spin"] and case["stb"]:
        tb = arr(d, (l,) * 4, 3, cplx=True)
        if case["declared"]:
            tb = o.asym(tb)
        bs.spin_2_tb = dup(tb)
    big = np.abs(u)  # the same history on magnitudes: bounds the rounding errors
    both = lambda x: x + np.swapaxes(x, 2, 3)
    plain, plain_tb, spin, flag, declared = u.astype(complex), tb, case["spin"], case["declared"], case["declared"]
    system = None
    requests, mute = 0, False
    labels = set()
    for i, op in enumerate(case["ops"]):
        k = op["op"]
        if k == "antisym":
            bs.anti_symmetrize_two_body_elements()
            flag, requests = True, requests + 1
        elif k in ("double", "wrap") and flag and not spin and not declared:
            continue  # doubling an antisymmetrised spatial basis has no meaning
        elif k == "double":
            if not spin:
                bs.change_to_general_orbital_basis(anti_symmetrize=op["antisym"])
            else:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    bs.change_to_general_orbital_basis(anti_symmetrize=op["antisym"])  # changes nothing
                labels.add("doubled again")
        elif k == "wrap":
            if bs.l > 12 and not spin:
                continue
            system = GeneralOrbitalSystem(1, bs, anti_symmetrize=op["antisym"])
        elif k == "convert":
            if spin or bs.l > 10 or flag:
                continue
            system = SpatialOrbitalSystem(2 * min(1, bs.l), bs).construct_general_orbital_system(anti_symmetrize=op["antisym"])
        elif k == "copy":
            if op["system"] and system is not None and system.u is bs.u:
                system = system.copy_system()
                tight(f"op {i} copied system u", system.u, o.asym(plain) if flag and not declared else plain, both(big))
                system = None
                continue
            bs = bs.copy_basis()
            system = None
        else:
            n = bs.l
            new = op["new"] if not spin or op["new"] < n else n
            C = unitary(op["seed"], max(n, new))[:n, :new]
            Ct = None
            if op["bi"]:
                Ct = unitary(op["seed"] + 1, max(n, new))[:new, :n]
            if system is not None and system.u is bs.u and i % 2 and new >= 1:
                system.change_basis(C, Ct)
                labels.add("changed through the system")
            else:
                bs.change_basis(C, Ct)
            eff = C.conj().T if Ct is None else Ct
            plain, big = o.t2(plain, C, eff), o.t2(big, np.abs(C), np.abs(eff))
            if plain_tb is not None:
                plain_tb = o.t2(plain_tb, C, eff)
            system = None
        if k in ("double", "wrap"):
            if op["antisym"] and (k == "wrap" or not spin):
                flag, requests = True, requests + 1
            if not spin:
                spin = True
                plain, big = o.spin2(plain), o.spin2(big).real
                plain_tb = sum(np.einsum("pr,qs->pqrs", x, x) for x in (bs.spin_x, bs.spin_y, bs.spin_z))
                mute = declared  # nothing is said about the spin operator of a declared spatial basis
        if k == "convert":
            e = o.spin2(plain)
            tight(f"op {i} converted u", system.u, o.asym(e) if op["antisym"] else e, both(o.spin2(big).real))
            system = None
        labels.add(k)
        expect = o.asym(plain) if flag and not declared else plain
        tight(f"after op {i} ({k}): u", bs.u, expect, both(big))
        require(bs.anti_symmetrized_u == flag, f"after op {i} ({k}): flag is {bs.anti_symmetrized_u}, expected {flag}")
        if mute:
            pass
        elif plain_tb is not None:
            close(f"after op {i} ({k}): spin_2_tb", bs.spin_2_tb, o.asym(plain_tb) if flag and not declared else plain_tb)
        else:
            require(bs.spin_2_tb is None, f"after op {i}: two-body spin operator appeared")
        if system is not None:
            tight(f"after op {i} ({k}): system.u", system.u, expect, both(big))
        if flag and not mute:
            tight(f"after op {i}: exchange sign", bs.u, -np.swapaxes(bs.u, 2, 3), both(big))
    if requests > 1:
        labels.add("requested more than once")
    return labels


def nontrivial(c):
    kinds = [x["op"] for x in c["ops"]]
    return sum(k in ("antisym", "double", "wrap") for k in kinds) >= 1 and c["l"] > 1


def static(case):
    u = arr(case["data"], (case["l"],) * 4, 1)
    u0 = u.copy()
    tight("anti_symmetrize_u", BasisSet.anti_symmetrize_u(u), o.asym(u0), np.abs(u0) + np.abs(np.swapaxes(u0, 2, 3)), 1e-14)
    same_u = np.array_equal(u, u0)
    require(same_u, "anti_symmetrize_u changed its argument")


QUICK = 10
SUBS = [
    Sub("histories", cases(), run, 1500, 16000, "l > 1 and at least one antisymmetrising operation", nontrivial, shards=4, tshards=7),
    Sub("long_histories", cases(max_ops=12), run, 300, 4000, "l > 1 and at least one antisymmetrising operation", nontrivial, shards=2),
    Sub("larger", cases(max_l=10, max_ops=4), run, 80, 800, "l > 1 and at least one antisymmetrising operation", nontrivial, shards=3),
    Sub("static_helper", st.fixed_dictionaries({"l": st.integers(1, 24), "data": spec()}), static, 100, 800, "l > 1", lambda c: c["l"] > 1,
        fixed=[{"l": l, "data": {"kind": "gauss", "seed": l, "cplx": l % 2 > 0}} for l in (33, 40)]),
    Sub("wide", None, run, 0, 0, "every case (fixed, 34 functions)", None, fixed=[
        {"l": 34, "data": {"kind": "gauss", "seed": 3, "cplx": c}, "sym": False, "spin": True, "declared": d, "stb": True, "ops": [
            {"op": "wrap", "antisym": True}, {"op": "copy", "system": False}, {"op": "antisym"}, {"op": "change", "seed": 9, "new": 33, "bi": False}, {"op": "antisym"}]} for c, d in ((False, False), (True, True))]),
]
