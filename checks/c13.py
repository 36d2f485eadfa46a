"""C13: 2D oscillator orbital numbering is a shell-ordered bijection, energies included."""
from functools import lru_cache

import numpy as np
from hypothesis import strategies as st

from core import Sub, close, direct, num, require

from quantum_systems import TwoDimensionalHarmonicOscillator
from quantum_systems.quantum_dots.two_dim.two_dim_helper import get_index_p, get_indices_nm, get_one_body_elements

get_index_p, get_indices_nm, get_one_body_elements = map(direct, (get_index_p, get_indices_nm, get_one_body_elements))


@lru_cache(maxsize=None)
def table(shells):
    """Enumerate shell by shell, angular momentum ascending; returns list of (n, m)."""
    out = []
    for k in range(shells):
        for m in range(-k, k + 1, 2):
            out.append(((k - abs(m)) // 2, m))
    return out


def block(case):
    """A contiguous block of indices, both directions."""
    lo, hi = case["lo"], case["lo"] + case["size"]
    shells = 1
    while shells * (shells + 1) // 2 < hi:
        shells += 1
    ref = table(shells)
    for p in range(lo, hi):
        n, m = get_indices_nm(p)
        require((int(n), int(m)) == ref[p], f"orbital {p}: quantum numbers {(n, m)}, expected {ref[p]}")
        require(n == int(n) and m == int(m), f"orbital {p}: non-integer quantum numbers {(n, m)}")
        q = get_index_p(*ref[p])
        require(q == p, f"quantum numbers {ref[p]}: index {q}, expected {p}")
    return ["odd shell" if (shells - 1) % 2 else "even shell"]


def pair(case):
    """Any quantum-number pair, also far out, against the closed form of its position."""
    n, m = case["n"], case["m"]
    k = 2 * n + abs(m)
    p = k * (k + 1) // 2 + (m + k) // 2
    require(get_index_p(n, m) == p, f"index of {(n, m)}: {get_index_p(n, m)}, expected {p}")
    require(tuple(int(v) for v in get_indices_nm(p)) == (n, m), f"quantum numbers of orbital {p}: {get_indices_nm(p)}, expected {(n, m)}")
    return ["m<0" if m < 0 else "m=0" if m == 0 else "m>0"]


def energies(l):
    shells = 1
    while shells * (shells + 1) // 2 < l:
        shells += 1
    return np.array([2 * n + abs(m) + 1 for n, m in table(shells)[:l]], dtype=float)


def one_body(case):
    e = energies(case["l"])
    if case["l"] > 3000:
        h = get_one_body_elements(case["l"])
        require(h.shape == (case["l"],) * 2 and np.count_nonzero(h) == case["l"], "one-body matrix is not diagonal")
        close("one-body energies", np.diagonal(h), e, 1e-13)
        return
    close("one-body matrix", get_one_body_elements(case["l"]), np.diag(e), 1e-13)
    require(bool(np.all(np.diff(e) >= 0)), "oracle")


def basis(case):
    l, w = case["l"], case["omega"]
    bs = TwoDimensionalHarmonicOscillator(l, 4.0, case["ng"], omega=w, mass=case["mass"]) if not case["defaults"] else TwoDimensionalHarmonicOscillator(l, 4.0, case["ng"])
    w = 1.0 if case["defaults"] else w
    close("one-body matrix of the basis", bs.h, np.diag(w * energies(l)), 1e-13, w * l)
    close("overlap", bs.s, np.eye(l), 1e-13)
    ref = table(20)
    for p in range(l):
        require(tuple(int(v) for v in bs.get_indices_nm(p)) == ref[p], f"orbital {p} of the basis")
    require(bs.l == l and bs.dim == 2, "sizes")


QUICK = 2
SUBS = [
    Sub("blocks", st.fixed_dictionaries({"lo": st.one_of(st.integers(0, 20000), st.integers(0, 200000)), "size": st.integers(1, 250)}), block, 400, 4000, "more than one index",
        lambda c: c["size"] > 1, fixed=[{"lo": 0, "size": 1500}, {"lo": 1500, "size": 2000}], shards=2),
    Sub("pairs", st.fixed_dictionaries({"n": st.one_of(st.integers(0, 120), st.integers(0, 600)), "m": st.one_of(st.integers(-200, 200), st.integers(-600, 600))}), pair, 1500, 20000, "not the ground state",
        lambda c: (c["n"], c["m"]) != (0, 0), shards=2),
    Sub("far_pairs", st.fixed_dictionaries({"n": st.integers(0, 60000), "m": st.integers(-90000, 90000)}), pair, 300, 3000, "not the ground state", lambda c: (c["n"], c["m"]) != (0, 0)),
    Sub("one_body", st.fixed_dictionaries({"l": st.one_of(st.integers(1, 150), st.integers(150, 1200))}), one_body, 80, 400, "more than one orbital", lambda c: c["l"] > 1,
        fixed=[{"l": 2500}, {"l": 10500}]),
    Sub("basis", st.fixed_dictionaries({"l": st.integers(1, 12), "omega": st.one_of(num(0.05, 5.0, 1.0), num(0.001, 40.0), st.integers(-12, 8).map(lambda k: 3.0 * 10.0 ** k), st.integers(1, 4)), "mass": st.one_of(num(0.2, 3.0, 1.0), st.integers(1, 3)), "ng": st.integers(2, 5), "defaults": st.sampled_from([False] * 5 + [True])}),
        basis, 30, 250, "more than one orbital", lambda c: c["l"] > 1, shards=2),
]
