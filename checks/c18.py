"""C18: the Coulomb-element cache never changes results."""
import contextlib
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
from functools import lru_cache

import numpy as np
from hypothesis import strategies as st

from core import Sub, Violation, close, num, require, same

from quantum_systems import TwoDimensionalHarmonicOscillator
from quantum_systems.quantum_dots.two_dim.two_dim_helper import get_coulomb_elements

ASSUMPTIONS = [
    "a failed write is modelled by the operating system's file-size limit (EFBIG at a generated byte position), "
    "a crash by the same limit with the fatal signal left in place in a child process",
]

KEY = "QS_CACHE_TDHO"


@lru_cache(maxsize=None)
def reference(l):
    old = os.environ.pop(KEY, None)
    try:
        return np.array(get_coulomb_elements(l))
    finally:
        if old is not None:
            os.environ[KEY] = old


SIZE = st.one_of(st.integers(1, 7), st.integers(1, 7), st.integers(8, 13))
OP = st.one_of(
    st.fixed_dictionaries({"op": st.just("request"), "l": SIZE, "verbose": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("request"), "l": st.integers(1, 3), "verbose": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("on"), "value": st.sampled_from(["1", "true", "0", "no", "", "/nowhere"])}),
    st.fixed_dictionaries({"op": st.just("off")}),
    st.fixed_dictionaries({"op": st.just("delete"), "k": st.integers(0, 6)}),
    st.fixed_dictionaries({"op": st.just("failing"), "l": SIZE, "at": st.integers(0, 250000)}),
    st.fixed_dictionaries({"op": st.just("failing"), "l": SIZE, "at": st.integers(0, 200)}),
    st.fixed_dictionaries({"op": st.just("basis"), "l": st.integers(1, 3), "omega": num(0.5, 2.0, 1.0)}),
    st.fixed_dictionaries({"op": st.just("damage"), "k": st.integers(0, 6)}),
    st.fixed_dictionaries({"op": st.just("overwrite"), "l": st.integers(1, 4)}),
)


@contextlib.contextmanager
def sandbox(path):
    """Calling script's directory, working directory and environment, restored afterwards."""
    cwd, sp, env = os.getcwd(), list(sys.path), os.environ.get(KEY)
    os.chdir(path)
    sys.path.insert(0, path)
    try:
        yield
    finally:
        os.chdir(cwd)
        sys.path[:] = sp
        if env is None:
            os.environ.pop(KEY, None)
        else:
            os.environ[KEY] = env


@contextlib.contextmanager
def file_limit(n):
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    old = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        signal.signal(signal.SIGXFSZ, old)


def listing(path):
    out = {}
    for f in sorted(os.listdir(path)):
        p = os.path.join(path, f)
        if os.path.isfile(p):
            st_ = os.stat(p)
            out[f] = (st_.st_size, st_.st_mtime_ns, st_.st_ino)
    return out


def run(case):
    for op in case["ops"]:
        if "l" in op:
            reference(op["l"])  # also compiles everything before any limit is set
    path = tempfile.mkdtemp(prefix="c18")
    labels = set()
    try:
        with sandbox(path):
            os.environ.pop(KEY, None)
            if case["on"]:
                os.environ[KEY] = "1"
            cached, clean, damaged, unknown = {}, True, False, False
            for i, op in enumerate(case["ops"]):
                k = op["op"]
                on = KEY in os.environ
                tag = f"op {i} ({k})"
                before = listing(path)
                if k == "on":
                    if damaged:
                        continue
                    os.environ[KEY] = op["value"]
                elif k == "off":
                    os.environ.pop(KEY, None)
                elif k in ("request", "basis"):
                    if k == "request":
                        u = get_coulomb_elements(op["l"], verbose=op["verbose"])
                        same(f"{tag}, {op['l']} orbitals, cache {'on' if on else 'off'}", u, reference(op["l"]))
                        np.asarray(u)[...] = -1.0  # the caller's array is the caller's
                    else:
                        bs = TwoDimensionalHarmonicOscillator(op["l"], 2.0, 2, omega=op["omega"])
                        close(f"{tag}: elements of the basis", bs.u, np.sqrt(op["omega"]) * reference(op["l"]), 1e-12)
                    after = listing(path)
                    if not on:
                        require(after == before, f"{tag}: files touched with the cache off")
                    elif op["l"] in cached:
                        require(after == before, f"{tag}: files touched although the size was cached")
                    elif unknown:
                        pass  # whether this size is stored cannot be told from outside
                    elif clean:
                        new = set(after) - set(before)
                        require(len(new) == 1 and all(after[f] == before[f] for f in before), f"{tag}: {sorted(new)} appeared, expected one new file")
                        cached[op["l"]] = new.pop()
                    else:
                        new = [f for f in after if before.get(f) != after[f]]
                        require(len(new) >= 1, f"{tag}: nothing was cached")
                        cached[op["l"]] = new[0] if len(new) == 1 else None
                elif k == "failing":
                    if not on:
                        continue
                    size = reference(op["l"]).nbytes + 128
                    at = op["at"] % size
                    try:
                        with file_limit(at):
                            u = get_coulomb_elements(op["l"])
                    except OSError:
                        labels.add("write failed")
                        clean = False
                    else:
                        same(f"{tag}: elements", u, reference(op["l"]))
                        if op["l"] not in cached:
                            clean, unknown = False, True
                elif k == "delete":
                    fs = sorted(os.listdir(path))
                    if fs:
                        f = fs[op["k"] % len(fs)]
                        os.remove(os.path.join(path, f))
                        if f in cached.values():
                            cached = {l: g for l, g in cached.items() if g != f}
                        else:
                            cached, unknown = {}, True
                elif k == "damage":
                    if on or damaged:
                        continue  # with the cache off its files must not even be read
                    for f in os.listdir(path):
                        with open(os.path.join(path, f), "wb") as g:
                            g.write(b"not an array")
                    damaged = bool(os.listdir(path))
                elif k == "overwrite":
                    # a result already handed out must not change when the caller edits it
                    u = np.asarray(get_coulomb_elements(op["l"]))
                    same(f"{tag}: first request", u, reference(op["l"]))
                    u[...] = 5.0
                    same(f"{tag}: second request", get_coulomb_elements(op["l"]), reference(op["l"]))
                    if on and op["l"] not in cached and not unknown:
                        after = listing(path)
                        new = [f for f in after if before.get(f) != after[f]]
                        cached[op["l"]] = new[0] if len(new) == 1 else None
                labels.add(k + (" with cache" if on else ""))
    finally:
        shutil.rmtree(path, ignore_errors=True)
    return labels


CHILD = r"""
import os, resource, signal, sys
sys.path[0] = os.getcwd()
sys.path.insert(1, "/repo")
import numpy as np
from quantum_systems.quantum_dots.two_dim.two_dim_helper import get_coulomb_elements
l, at = int(sys.argv[1]), int(sys.argv[2])
get_coulomb_elements(l)
os.environ["QS_CACHE_TDHO"] = "1"
signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
resource.setrlimit(resource.RLIMIT_FSIZE, (at, resource.RLIM_INFINITY))
get_coulomb_elements(l)
"""


def crash(case):
    """A process dies while it writes the cache; another one then asks for the same elements."""
    l = case["l"]
    reference(l)
    path = tempfile.mkdtemp(prefix="c18")
    try:
        script = os.path.join(path, "script.py")
        with open(script, "w") as f:
            f.write(CHILD)
        env = {k: v for k, v in os.environ.items() if k not in (KEY, "PYTHONPATH")}
        size = reference(l).nbytes + 128
        p = subprocess.run([sys.executable, script, str(l), str(case["at"] % size)], cwd=path, env=env, capture_output=True)
        died = p.returncode == -signal.SIGXFSZ
        if not died and p.returncode != 0 and b"quantum_systems" not in p.stderr:
            raise RuntimeError(p.stderr.decode()[-2000:])
        os.remove(script)
        with sandbox(path):
            os.environ[KEY] = "1"
            for j in range(2):
                same(f"request {j} after a crash while writing", get_coulomb_elements(l), reference(l))
        return ["died while writing" if died else "survived"]
    finally:
        shutil.rmtree(path, ignore_errors=True)


HIST = st.fixed_dictionaries({"on": st.booleans(), "ops": st.lists(OP, min_size=2, max_size=9)})
QUICK = 2
SUBS = [
    Sub("histories", HIST, run, 260, 3000, "at least two requests", lambda c: sum("l" in x for x in c["ops"]) > 1, shards=4, tshards=7,
        fixed=[{"on": True, "ops": [{"op": "failing", "l": 4, "at": 1000}, {"op": "request", "l": 4, "verbose": False}, {"op": "request", "l": 4, "verbose": True}]},
               {"on": True, "ops": [{"op": "request", "l": l, "verbose": False} for l in (11, 11, 16, 11, 16)] + [{"op": "off"}, {"op": "request", "l": 11, "verbose": False}]}]),
    Sub("crashes", st.fixed_dictionaries({"l": st.integers(2, 8), "at": st.integers(1, 20000)}), crash, 8, 60, "every case", None, shards=4, tshards=7),
]
