"""C07: the time-dependent Hamiltonian is the current Hamiltonian plus the driving term."""
import numpy as np
from hypothesis import strategies as st

import oracles as o
from core import SEEDS, Kept, Sub, arr, close, num, require, same, spec, tight, unitary

from quantum_systems import BasisSet, GeneralOrbitalSystem, SpatialOrbitalSystem
from quantum_systems.time_evolution_operators import (
    AdiabaticSwitching,
    CustomOneBodyOperator,
    LaserField,
)
from quantum_systems.time_evolution_operators.operator import TimeEvolutionOperator

SIGNAL = st.fixed_dictionaries(
    {
        "kind": st.sampled_from(["const", "func", "step", "cplx", "cint", "cnp", "obj"]),
        "w": num(-3, 3, 0.0),
        "a": num(-2, 2, 1.0),
    }
)


class Pulse:
    """A callable object, and one that remembers nothing."""

    def __init__(self, a, w):
        self.a, self.w = a, w

    def __call__(self, t):
        return self.a * np.sin(self.w * t) - 0.5


def signal(sp):
    """(what the user passes, plain function of time)."""
    a, w = sp["a"], sp["w"]
    if sp["kind"] == "const":
        return a, lambda t: a
    if sp["kind"] == "cint":
        return int(round(a)), lambda t: int(round(a))
    if sp["kind"] == "cnp":
        return np.float64(a), lambda t: a
    if sp["kind"] == "obj":
        p = Pulse(a, w)
        return p, lambda t: a * np.sin(w * t) - 0.5
    if sp["kind"] == "func":
        f = lambda t: a * np.cos(w * t) + 0.25 * t
    elif sp["kind"] == "step":
        f = lambda t: a if t > w else 0.0
    else:
        f = lambda t: a * np.exp(1j * w * t)
    return f, f


def polarization(sp, dim):
    e = arr({"kind": "gauss", "seed": sp["seed"], "cplx": sp["cplx"]}, (dim,), 11)
    unit = np.zeros(dim)
    unit[0] = 1.0
    if sp["kind"] == "none":
        return None, lambda t: unit
    if sp["kind"] == "list":
        return list(e), lambda t: e
    if sp["kind"] == "array":
        return e.copy(), lambda t: e
    if sp["kind"] == "rotating":
        # along the first axis at time zero
        other = np.zeros(dim)
        other[-1] = 1.0
        f = lambda t: np.cos(0.7 * t) * unit + np.sin(0.7 * t) * other
        return f, f
    if sp["kind"] == "ramp":
        f = lambda t: t * e
        return f, f
    if sp["kind"] == "switched":
        f = lambda t: [list(unit), e][t > 0.4]
        return f, f
    f = lambda t: np.cos(0.7 * t) * e + np.sin(0.7 * t) * e[::-1]
    return f, f


POL = st.fixed_dictionaries(
    {"kind": st.sampled_from(["none", "array", "list", "func", "rotating", "switched", "ramp"]), "seed": SEEDS, "cplx": st.booleans()}
)
# rapidly varying signals: times that are almost equal, or large, are still different times
FAST = st.fixed_dictionaries(
    {
        "kind": st.sampled_from(["func", "cplx", "obj"]),
        "w": st.builds(lambda m, k: m * 10.0**k, num(-3, 3, 0.0), st.integers(0, 10)),
        "a": num(-2, 2, 1.0),
    }
)


@st.composite
def fast_times(draw):
    t = draw(st.one_of(num(-5, 5, 0.0), num(-1e6, 1e6, 0.0), num(-1e-6, 1e-6, 0.0)))
    step = draw(st.sampled_from([-1, 1])) * 10.0 ** draw(st.integers(-14, 1))
    return [t + k * step for k in draw(st.lists(st.integers(0, 6), min_size=2, max_size=5))]


T = st.one_of(st.sampled_from([0.0, 0.5, 1.5]), num(-5, 5, 0.0), num(-5, 5, 0.0), st.integers(-4, 200))
OP = st.one_of(
    st.fixed_dictionaries({"op": st.just("laser"), "pulse": SIGNAL, "pol": POL, "kw": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("laser"), "pulse": SIGNAL, "pol": POL, "kw": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("adiabatic"), "sig": SIGNAL}),
    st.fixed_dictionaries({"op": st.just("custom"), "sig": SIGNAL, "seed": SEEDS, "cplx": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("none")}),
    st.fixed_dictionaries({"op": st.just("eval"), "ts": st.lists(T, min_size=1, max_size=4)}),
    st.fixed_dictionaries({"op": st.just("eval"), "ts": st.lists(T, min_size=1, max_size=4)}),
    st.fixed_dictionaries({"op": st.just("change"), "seed": SEEDS, "new": st.integers(1, 4), "bi": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("assign"), "which": st.sampled_from(["h", "u", "dipole_moment"]), "data": spec()}),
    st.fixed_dictionaries({"op": st.just("inplace"), "which": st.sampled_from(["h", "u", "dipole_moment"]), "k": st.integers(0, 50)}),
    st.fixed_dictionaries({"op": st.just("copy"), "keep": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("convert"), "antisym": st.booleans()}),
)


@st.composite
def cases(draw, max_ops=7, max_l=4):
    return {
        "l": draw(st.integers(1, max_l)),
        "dim": draw(st.integers(1, 4)),
        "data": draw(spec()),
        "general": draw(st.sampled_from([False, False, True])),
        "ops": draw(st.lists(OP, min_size=2, max_size=max_ops)),
    }


class Model:
    def __init__(self, h, u, d):
        self.h, self.u, self.d = h, u, d
        self.op = None

    def h_t(self, t):
        if self.op is None:
            return self.h
        if self.op[0] == "laser":
            _, pulse, pol = self.op
            e = np.asarray(pol(t))
            return self.h + pulse(t) * sum(e[i] * self.d[i] for i in range(len(e)))
        if self.op[0] == "custom":
            return self.h + self.op[1](t) * self.op[2]
        return self.h

    def u_t(self, t):
        if self.op is not None and self.op[0] == "adiabatic":
            return self.op[1](t) * self.u
        return self.u

    def flags(self):
        k = None if self.op is None else self.op[0]
        return k in ("laser", "custom"), k == "adiabatic"


def evaluate(tag, system, model, ts):
    kept = Kept()
    for t in ts:
        got = system.h_t(t)
        close(f"{tag}: h_t({t})", got, model.h_t(t), 1e-10)
        kept.add(f"h_t({t})", got, system.h)
        got = system.u_t(t)
        close(f"{tag}: u_t({t})", got, model.u_t(t), 1e-10)
        kept.add(f"u_t({t})", got, system.u)
    kept.check()
    close(f"{tag}: stored h", system.h, model.h, 1e-10)
    close(f"{tag}: stored u", system.u, model.u, 1e-10)
    close(f"{tag}: stored dipole", system.dipole_moment, model.d, 1e-10)


def run(case):
    l, dim, d = case["l"], case["dim"], case["data"]
    bs = BasisSet(l, dim)
    h, u, dip = arr(d, (l, l), 1), arr(d, (l,) * 4, 2), arr(d, (dim, l, l), 3)
    bs.h, bs.u, bs.s, bs.dipole_moment = h.copy(), u.copy(), np.eye(l), dip.copy()
    if case["general"]:
        system = GeneralOrbitalSystem(0, bs, anti_symmetrize=False)
        h, u, dip = o.spin1(h), o.spin2(u), np.array([o.spin1(x) for x in dip])
    else:
        system = SpatialOrbitalSystem(0, bs)
    model = Model(h, u, dip)
    handle = bs
    others = []  # systems left behind, which must keep evaluating as they were
    labels = set()
    for i, op in enumerate(case["ops"]):
        k = op["op"]
        tag = f"op {i} ({k})"
        if k == "laser":
            pu, pf = signal(op["pulse"])
            po, qf = polarization(op["pol"], dim)
            if op["kw"]:
                kw = {} if po is None else {"polarization_vector": po}
                field = LaserField(laser_pulse=pu, **kw)
            else:
                field = LaserField(pu, po)
            system.set_time_evolution_operator(field)
            model.op = ("laser", pf, qf)
        elif k == "adiabatic":
            su, sf = signal(op["sig"])
            system.set_time_evolution_operator(AdiabaticSwitching(su))
            model.op = ("adiabatic", sf)
        elif k == "custom":
            su, sf = signal(op["sig"])
            m = arr({"kind": "gauss", "seed": op["seed"], "cplx": op["cplx"]}, (system.l, system.l), 5)
            keep = m.copy()
            system.set_time_evolution_operator(CustomOneBodyOperator(su, m))
            model.op = ("custom", sf, keep)
        elif k == "none":
            system.set_time_evolution_operator(None)
            model.op = None
        elif k == "eval":
            pass
        elif k == "change":
            n = system.l
            if n > 16:
                continue
            custom = model.op is not None and model.op[0] == "custom"
            new = n if custom else op["new"]
            C = unitary(op["seed"], max(n, new))[:n, :new]
            Ct = unitary(op["seed"] + 3, max(n, new))[:new, :n] if op["bi"] else None
            system.change_basis(C, Ct)
            eff = C.conj().T if Ct is None else Ct
            model.h, model.u = o.t1(model.h, C, eff), o.t2(model.u, C, eff)
            model.d = np.array([o.t1(x, C, eff) for x in model.d])
            # the matrix of a custom operator is the user's: it is added as given
        elif k == "assign":
            # through the basis set, which the caller still holds (not for copies)
            if handle is None:
                continue
            n, name = system.l, op["which"]
            x = arr(op["data"], {"h": (n, n), "u": (n,) * 4, "dipole_moment": (dim, n, n)}[name], 9)
            setattr(handle, name, x.copy())
            setattr(model, {"dipole_moment": "d"}.get(name, name), x)
        elif k == "inplace":
            name = op["which"]
            x = getattr(system, name)
            x[...] = x * 2
            x.reshape(-1)[op["k"] % x.size] += 3
            setattr(model, {"dipole_moment": "d"}.get(name, name), np.array(x))
        elif k == "copy":
            new = system.copy_system()
            m2 = Model(model.h.copy(), model.u.copy(), model.d.copy())
            m2.op = model.op
            if op["keep"]:
                others.append((new, m2))
            else:
                others.append((system, model))
                system, model, handle = new, m2, None
        elif k == "convert":
            if not isinstance(system, SpatialOrbitalSystem) or system.l > 8:
                continue
            if model.op is not None and model.op[0] == "custom":
                continue  # its matrix is given in the spatial basis
            g = system.construct_general_orbital_system(anti_symmetrize=op["antisym"])
            uu = o.spin2(model.u)
            m2 = Model(o.spin1(model.h), o.asym(uu) if op["antisym"] else uu, np.array([o.spin1(x) for x in model.d]))
            m2.op = model.op
            others.append((system, model))
            system, model, handle = g, m2, None
        labels.add(k)
        one, two = model.flags()
        require(bool(system.has_one_body_time_evolution_operator) == one, f"{tag}: one-body flag should be {one}")
        require(bool(system.has_two_body_time_evolution_operator) == two, f"{tag}: two-body flag should be {two}")
        # the last time before an operation is the first one after it
        evaluate(tag, system, model, op["ts"] if k == "eval" else [0.0, 0.5, 0.3 * i - 0.5, 0.5, 0.0])
    ts = [1.5, -0.25, 1.5]
    evaluate("finally", system, model, ts)
    for j, (s, m) in enumerate(others):
        evaluate(f"system {j} left behind", s, m, ts)
        one, two = m.flags()
        require(bool(s.has_one_body_time_evolution_operator) == one, f"system {j}: one-body flag")
        require(bool(s.has_two_body_time_evolution_operator) == two, f"system {j}: two-body flag")
    return labels


def untouched(case):
    """Evaluation alters neither stored elements nor what the user passed in (bitwise)."""
    l, dim, d = case["l"], case["dim"], case["data"]
    bs = BasisSet(l, dim)
    bs.h, bs.u, bs.s, bs.dipole_moment = arr(d, (l, l), 1), arr(d, (l,) * 4, 2), np.eye(l), arr(d, (dim, l, l), 3)
    system = SpatialOrbitalSystem(0, bs) if not case["general"] else GeneralOrbitalSystem(0, bs)
    snap = {k: np.array(getattr(system, k)) for k in ("h", "u", "s", "dipole_moment")}
    pu, pf = signal(case["sig"])
    po, _ = polarization(case["pol"], dim)
    m = arr(d, (system.l, system.l), 5)
    passed = [x for x in (po, m) if isinstance(x, (list, np.ndarray))]
    keep = [np.array(x) for x in passed]
    op = {"laser": lambda: LaserField(pu, po), "adiabatic": lambda: AdiabaticSwitching(pu), "custom": lambda: CustomOneBodyOperator(pu, m)}[case["which"]]()
    system.set_time_evolution_operator(op)
    model = Model(snap["h"], snap["u"], snap["dipole_moment"])
    kinds = {"laser": ("laser", pf, polarization(case["pol"], dim)[1]), "adiabatic": ("adiabatic", pf), "custom": ("custom", pf, m.copy())}
    model.op = kinds[case["which"]]
    kept = Kept()
    for t in [CLOCK[case["clock"]](t) for t in case["ts"]]:
        # nothing has been transformed: one multiplication and a few additions per element
        bh = np.abs(snap["h"])
        if case["which"] == "laser":
            bh = bh + np.abs(pf(t)) * np.einsum("i,ipq->pq", np.abs(np.asarray(model.op[2](t))), np.abs(snap["dipole_moment"]))
        elif case["which"] == "custom":
            bh = bh + np.abs(pf(t) * m)
        ht, ut = system.h_t(t), system.u_t(t)
        tight(f"h_t({t})", ht, model.h_t(t), bh, 1e-14)
        tight(f"u_t({t})", ut, model.u_t(t), np.abs(model.u_t(t)), 1e-14)
        kept.add(f"h_t({t})", ht, system.h)
        kept.add(f"u_t({t})", ut, system.u)
        kept.check()
        for k, v in snap.items():
            same(f"{k} after evaluating at {t}", getattr(system, k), v)
    for x, y in zip(passed, keep):
        same("operator argument", np.asarray(x), y)
    system.set_time_evolution_operator(None)
    same("h_t without operator", system.h_t(0.1), snap["h"])
    same("u_t without operator", system.u_t(0.1), snap["u"])


# the number types times come in
CLOCK = {"own": lambda t: t, "float64": np.float64, "array": lambda t: np.array(float(t)), "longdouble": np.longdouble}


class Kick(TimeEvolutionOperator):
    """An operator of the user's own, driving both parts."""

    def __init__(self, a, w):
        self.a, self.w = a, w

    @property
    def is_one_body_operator(self):
        return True

    @property
    def is_two_body_operator(self):
        return True

    def h_t(self, current_time):
        return self._system.h * (1 + self.a * current_time)

    def u_t(self, current_time):
        return self._system.u * np.cos(self.w * current_time)


def propagate(case):
    """A propagation: very many times, each evaluated once or a few times, on two systems in turn."""
    l, dim = case["l"], case["dim"]
    pu, pf = signal(case["sig"])
    systems = []
    for j in range(case["systems"]):
        d = {"kind": "gauss", "seed": case["seed"] + j, "cplx": case["cplx"]}
        h, u, dip = arr(d, (l, l), 1), arr(d, (l,) * 4, 2), arr(d, (dim, l, l), 3)
        bs = BasisSet(l, dim)
        bs.h, bs.u, bs.s, bs.dipole_moment = h.copy(), u.copy(), np.eye(l), dip.copy()
        s = SpatialOrbitalSystem(0, bs)
        model = Model(h, u, dip)
        po, qf = polarization(case["pol"], dim)
        m = arr(d, (l, l), 5)
        op, model.op = {
            "laser": lambda: (LaserField(pu, po), ("laser", pf, qf)), "adiabatic": lambda: (AdiabaticSwitching(pu), ("adiabatic", pf)),
            "custom": lambda: (CustomOneBodyOperator(pu, m.copy()), ("custom", pf, m)), "own": lambda: (Kick(case["sig"]["a"], case["sig"]["w"]), ("own",)),
        }[case["which"]]()
        s.set_time_evolution_operator(op)
        if case["which"] == "own":
            require(bool(s.has_one_body_time_evolution_operator) and bool(s.has_two_body_time_evolution_operator), "flags of a user's operator")
            a, w = case["sig"]["a"], case["sig"]["w"]
            model.h_t = lambda t, h=h: h * (1 + a * t)
            model.u_t = lambda t, u=u: u * np.cos(w * t)
        systems.append((s, model))
    t = case["t0"]
    seen = []
    for i in range(case["steps"]):
        back = case["back"] and i % case["back"] == 0 and seen
        now = seen[(7 * i) % len(seen)] if back else t
        for s, model in systems:
            close(f"step {i}: h_t({now})", s.h_t(now), model.h_t(now), 1e-10)
            close(f"step {i}: u_t({now})", s.u_t(now), model.u_t(now), 1e-10)
        seen.append(now)
        t += case["dt"]
    return ["operator:" + case["which"]]


def handover(case):
    """One operator object set on several systems in turn drives the last one, whatever becomes of the others."""
    l, dim = case["l"], case["dim"]
    pu, pf = signal(case["sig"])
    po, qf = polarization(case["pol"], dim)
    d = [{"kind": "gauss", "seed": case["seed"] + j, "cplx": case["cplx"]} for j in range(3)]
    m = arr(d[0], (l, l), 5)
    op, mop = {"laser": lambda: (LaserField(pu, po), ("laser", pf, qf)), "adiabatic": lambda: (AdiabaticSwitching(pu), ("adiabatic", pf)),
               "custom": lambda: (CustomOneBodyOperator(pu, m.copy()), ("custom", pf, m))}[case["which"]]()
    systems, models = [], []
    for j in range(3):
        h, u, dip = arr(d[j], (l, l), 1), arr(d[j], (l,) * 4, 2), arr(d[j], (dim, l, l), 3)
        bs = BasisSet(l, dim)
        bs.h, bs.u, bs.s, bs.dipole_moment = h.copy(), u.copy(), np.eye(l), dip.copy()
        systems.append(SpatialOrbitalSystem(0, bs))
        models.append(Model(h, u, dip))
    last = None
    for i, (j, how) in enumerate(case["ops"]):
        if how == "set":
            systems[j].set_time_evolution_operator(op)
            models[j].op, last = mop, j
        elif how == "remove":
            systems[j].set_time_evolution_operator(None)
            models[j].op = None
        elif how == "replace":
            systems[j].set_time_evolution_operator(AdiabaticSwitching(0.5))
            models[j].op = ("adiabatic", lambda t: 0.5)
        elif how == "discard":
            systems[j].copy_system().set_time_evolution_operator(None)
        for k, (s, mod) in enumerate(zip(systems, models)):
            # a system that gave its operator away is not asked
            if mod.op is not mop or k == last:
                evaluate(f"op {i} ({how} on system {j}), system {k}", s, mod, [0.0, 0.7, -1.3])
    return ["operator:" + case["which"]]


HANDOVER = st.fixed_dictionaries(
    {
        "l": st.integers(1, 3), "dim": st.integers(1, 3), "seed": SEEDS, "cplx": st.booleans(), "which": st.sampled_from(["laser", "adiabatic", "custom"]), "sig": SIGNAL, "pol": POL,
        "ops": st.lists(st.tuples(st.integers(0, 2), st.sampled_from(["set", "set", "remove", "replace", "discard"])), min_size=2, max_size=8),
    }
)

PROPAGATE = st.fixed_dictionaries(
    {
        "l": st.integers(1, 3), "dim": st.integers(1, 3), "seed": SEEDS, "cplx": st.booleans(), "which": st.sampled_from(["laser", "adiabatic", "custom", "own"]),
        "sig": SIGNAL, "pol": POL, "systems": st.integers(1, 2), "steps": st.one_of(st.integers(2, 40), st.integers(100, 700)), "t0": num(-3, 3, 0.0),
        "dt": st.sampled_from([0.01, 0.1, 1, 0.25, -0.05]), "back": st.integers(0, 5),
    }
)


@st.composite
def untouched_cases(draw, fast=False):
    return {
        "l": draw(st.integers(1, 4)), "dim": draw(st.integers(1, 3)), "data": draw(spec()), "general": draw(st.booleans()),
        "which": draw(st.sampled_from(["laser", "adiabatic", "custom"])), "sig": draw(FAST if fast else SIGNAL), "pol": draw(POL),
        "clock": draw(st.sampled_from(["own", "own", "float64", "array", "longdouble"])),
        "ts": draw(fast_times() if fast else st.lists(T, min_size=1, max_size=4)),
    }


def nontrivial(c):
    kinds = [x["op"] for x in c["ops"]]
    return any(k in ("laser", "adiabatic", "custom") for k in kinds) and c["l"] > 1


QUICK = 8
SUBS = [
    Sub("histories", cases(), run, 1500, 16000, "at least one operator set on at least two orbitals", nontrivial, shards=4, tshards=7),
    Sub("long_histories", cases(max_ops=14), run, 300, 4000, "at least one operator set on at least two orbitals", nontrivial, shards=2),
    Sub("larger", cases(max_ops=6, max_l=9), run, 150, 1500, "at least one operator set on at least two orbitals", nontrivial, shards=2),
    Sub("untouched", untouched_cases(), untouched, 200, 2000, "at least two orbitals", lambda c: c["l"] > 1),
    Sub("propagation", PROPAGATE, propagate, 40, 600, "at least a hundred times", lambda c: c["steps"] >= 100,
        fixed=[{"l": 1, "dim": 1, "seed": 5, "cplx": False, "which": w, "sig": {"kind": "func", "w": 1.3, "a": 0.7}, "pol": {"kind": "none", "seed": 0, "cplx": False},
                "systems": 2, "steps": 2600, "t0": 0.0, "dt": 0.01, "back": 3} for w in ("laser", "adiabatic", "custom")]),
    Sub("wide", None, untouched, 0, 0, "every case (fixed, 34 functions)", None, fixed=[
        {"l": 34, "dim": 2, "data": {"kind": "gauss", "seed": 8, "cplx": w != "adiabatic"}, "general": False, "which": w, "sig": {"kind": "func", "w": 1.3, "a": 0.7},
         "pol": {"kind": "none", "seed": 0, "cplx": False}, "clock": "own", "ts": [0.3, 0.7, 0.3]} for w in ("laser", "adiabatic", "custom")]),
    Sub("handover", HANDOVER, handover, 150, 1500, "the operator set on two systems", lambda c: len({j for j, how in c["ops"] if how == "set"}) > 1),
    Sub("resolution", untouched_cases(fast=True), untouched, 200, 2000, "at least two different times", lambda c: len(set(c["ts"])) > 1),
]
