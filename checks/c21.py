"""C21: sample collection calls every sampler in order, once per step, and dumps all samples losslessly."""
import os
import pathlib
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from core import SEEDS, Sub, arr, must_refuse, require

from quantum_systems import sampler as qs_sampler

SampleCollector, Sampler = qs_sampler.SampleCollector, qs_sampler.Sampler

ASSUMPTIONS = ["files are written with numpy.save of the array module given (numpy here), so '.npy' is appended when missing"]


class EnergySamples(SampleCollector):
    """A derived class, as the documentation intends."""


class Own(SampleCollector):
    def __init__(self, samplers, np):
        super().__init__(samplers, np)
        self.add_sample("made by", type(self).__name__)


CLASSES = {"base": SampleCollector, "derived": EnergySamples, "own": Own}

VALUE = st.one_of(
    st.integers(-5, 5), st.floats(-2, 2, allow_nan=False), st.booleans(), st.none(), st.text("abé ", max_size=3),
    st.fixed_dictionaries({"arr": st.sampled_from(["f", "c", "i", "empty", "scalar", "obj"]), "n": st.integers(1, 5), "seed": SEEDS}),
    st.lists(st.integers(0, 3), max_size=3),
)
KEY = st.one_of(st.sampled_from(["energy", "norm", "t", "x0"]), st.integers(0, 3), st.text("kαβ ", min_size=1, max_size=3))
PATHS = ["dump", "a", "a/b", "a/b/c", "sp ace/dump", "öre", ".hidden"]
NAMES = [None, None, "out", "out.npy", "with.dots.samples", "sp ace", "ünï"]
STUB = st.fixed_dictionaries(
    {
        "kind": st.sampled_from(["keep", "fresh", "count", "consume", "subclass", "drop", "new"]),
        "twin": st.booleans(),
        "key": KEY,
        "value": VALUE,
    }
)
OPS = st.one_of(
    st.fixed_dictionaries({"op": st.just("sample"), "step": st.one_of(st.integers(0, 5), st.floats(0, 3, allow_nan=False), st.integers(-2, -1))}),
    st.fixed_dictionaries({"op": st.just("sample"), "step": st.integers(0, 5)}),
    st.fixed_dictionaries(
        {
            "op": st.just("dump"), "path": st.sampled_from(PATHS + [None]), "name": st.sampled_from(NAMES), "exist_ok": st.booleans(),
            "save": st.sampled_from([True, True, False]), "kw": st.booleans(),
        }
    ),
    st.fixed_dictionaries({"op": st.just("add"), "key": KEY, "value": VALUE}),
    st.fixed_dictionaries({"op": st.just("get")}),
)


@st.composite
def histories(draw):
    return {
        "cls": draw(st.sampled_from(list(CLASSES))),
        "stubs": draw(st.lists(STUB, max_size=4)),
        "as": draw(st.sampled_from(["list", "tuple", "generator", "iterator", "dict", "dict_values", "map", "custom", "set"])),
        "ops": draw(st.lists(OPS, min_size=1, max_size=12)),
    }


def value(v):
    if isinstance(v, dict):
        d = {"kind": "gauss", "seed": v["seed"], "cplx": False}
        k = v["arr"]
        if k == "f":
            return arr(d, (v["n"], 2))
        if k == "c":
            return arr({**d, "cplx": True}, (v["n"],))
        if k == "i":
            return arr({**d, "kind": "int"}, (v["n"],)).astype(int)
        if k == "empty":
            return np.zeros((0, v["n"]))
        if k == "scalar":
            return np.float64(arr(d, ()))
        out = np.empty(v["n"], dtype=object)
        out[:] = [list(range(i)) for i in range(v["n"])]
        return out
    return v


def equal(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        if a.dtype != b.dtype or a.shape != b.shape:
            return False
        if a.dtype == object:
            return all(equal(x, y) for x, y in zip(a.ravel(), b.ravel()))
        return a.tobytes() == b.tobytes()
    return a == b or (a != a and b != b)


def dump_model(sp, steps, samples):
    """What a stub sampler does to the dictionary; the same code serves the model."""
    if sp["kind"] in ("keep", "subclass"):
        samples[sp["key"]] = value(sp["value"])
        return samples
    if sp["kind"] == "fresh":
        out = dict(samples)
        out[sp["key"]] = value(sp["value"])
        return out
    if sp["kind"] == "count":
        samples[("steps", sp["key"])] = np.array(steps, dtype=float)
        samples["dumps"] = samples.get("dumps", 0) + 1
        return samples
    if sp["kind"] == "drop":
        # hands on all but the entry it replaces
        out = {k: v for k, v in samples.items() if k != sp["key"]}
        out[("replaced", sp["key"])] = len(samples)
        return out
    if sp["kind"] == "new":
        return {"before": len(samples), "older": samples.get("before"), sp["key"]: value(sp["value"])}
    # reads what was put there before: sensitive to the order and to everything being handed on
    samples[("seen", sp["key"])] = sorted(str(k) for k in samples)
    return samples


class Stub:
    def __init__(self, i, sp, log):
        self.i, self.sp, self.log, self.steps = i, sp, log, []

    def sample(self, step):
        self.log.append(("sample", self.i, step))
        self.steps.append(step)

    def dump(self, samples):
        self.log.append(("dump", self.i))
        return dump_model(self.sp, self.steps, samples)


class Twin(Stub):
    """Samplers that compare equal are still different samplers."""

    def __eq__(self, other):
        return isinstance(other, Twin)

    def __hash__(self):
        return 1

    def __len__(self):
        return 0


class _Solver:
    system = "system"


class Sub_(Sampler):
    def __init__(self, i, sp, log):
        super().__init__(_Solver(), 3, np)
        self.i, self.sp, self.log, self.steps = i, sp, log, []
        require(self.system == "system" and self.num_samples == 3 and self.np is np, "Sampler attributes")

    sample = Stub.sample
    dump = Stub.dump


class Custom:
    """An iterable that is not a container."""

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


def container(kind, items):
    return {
        "list": lambda: list(items), "tuple": lambda: tuple(items), "generator": lambda: (x for x in items),
        "iterator": lambda: iter(items), "dict": lambda: {x: 1 for x in items}, "dict_values": lambda: dict(enumerate(items)).values(),
        "map": lambda: map(lambda x: x, items), "set": lambda: set(items), "custom": lambda: Custom(items),
    }[kind]()


def tree(root):
    out = {}
    for base, dirs, files in os.walk(root):
        for d in dirs:
            out[os.path.relpath(os.path.join(base, d), root) + "/"] = None
        for f in files:
            p = os.path.join(base, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = fh.read()
    return out


def run(case):
    root = tempfile.mkdtemp(prefix="c21.")
    cwd = os.getcwd()
    os.chdir(root)
    try:
        return history(case, root)
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)


def history(case, root):
    log, labels = [], set()
    twins = case["as"] not in ("set", "dict")
    stubs = [(Sub_ if sp["kind"] == "subclass" else Twin if sp["twin"] and twins else Stub)(i, sp, log) for i, sp in enumerate(case["stubs"])]
    cls = CLASSES[case["cls"]]
    given = container(case["as"], stubs)
    if case["as"] == "set":  # the order is the one in which the set iterates
        stubs = list(given)
        for i, x in enumerate(stubs):
            x.i = i
    col = cls(given, np)
    model, steps = ({"made by": "Own"} if case["cls"] == "own" else {}), []
    files = {}
    require(tree(root) == {}, "constructing a collector wrote files")
    for op in case["ops"]:
        del log[:]
        before = tree(root)
        if op["op"] == "sample":
            out = col.sample(op["step"])
            steps.append(op["step"])
            require(len(log) == len(stubs), f"sample: {len(log)} calls for {len(stubs)} samplers")
            for i, entry in enumerate(log):
                require(entry[:2] == ("sample", i), f"sample: call {i} went to sampler {entry[1]}, method {entry[0]}")
                require(type(entry[2]) is type(op["step"]) and entry[2] == op["step"], f"sample: step {entry[2]!r} instead of {op['step']!r}")
            require(tree(root) == before, "sample touched files")
            labels.add("sample")
        elif op["op"] == "add":
            col.add_sample(op["key"], value(op["value"]))
            model[op["key"]] = value(op["value"])
            require(log == [], "add_sample called a sampler")
        elif op["op"] == "get":
            require(equal(col.get_samples(), model), f"get_samples: {col.get_samples()!r}, expected {model!r}")
        else:
            labels |= dump(col, cls, case, op, stubs, steps, model, root, before, log, files)
            model = files.pop("__model__")
        require(equal(col.get_samples(), model), f"collected samples after {op['op']}: {col.get_samples()!r}, expected {model!r}")
    for path, want in files.items():
        got = np.load(os.path.join(root, path), allow_pickle=True)
        require(got.shape == () and equal(got.item(), want), f"{path}: loads as {got!r}, expected {want!r}")
    return sorted(labels)


def snapshot(model):
    import copy

    return copy.deepcopy(model)


def dump(col, cls, case, op, stubs, steps, model, root, before, log, files):
    path = op["path"] if op["path"] is not None else "dump"
    name = op["name"] if op["name"] is not None else f"tmp_{cls.__name__}.samples"
    final = os.path.join(path, name if name.endswith(".npy") else name + ".npy")
    args, kw = [], {}
    if op["kw"] or op["path"] is None:
        if op["path"] is not None:
            kw["path"] = op["path"]
        if op["name"] is not None:
            kw["filename"] = op["name"]
        if not op["exist_ok"]:
            kw["exist_ok"] = False
        if not op["save"]:
            kw["save_samples"] = False
    else:
        args = [op["path"], op["name"], op["exist_ok"], op["save"]]
    for x in stubs:
        model = dump_model(x.sp, steps, model)
    refused = op["save"] and not op["exist_ok"] and os.path.isdir(path)
    labels = set()
    if refused:
        must_refuse("dump into an existing directory with exist_ok=False", lambda: col.dump(*args, **kw), (OSError,))
        require(tree(root) == before, "a refused dump changed files")
        labels.add("refused")
        # the samplers may or may not have been asked before the refusal
        if not equal(col.get_samples(), model):
            require(log == [], "a refused dump asked the samplers and lost their samples")
            model = col.get_samples()
    else:
        out = col.dump(*args, **kw)
        require([e[0] for e in log] == ["dump"] * len(stubs), f"dump: calls {log}")
        require([e[1] for e in log] == list(range(len(stubs))), f"dump: order {[e[1] for e in log]}")
        require(equal(out, model), f"dump returned {out!r}, expected {model!r}")
        after = tree(root)
        if op["save"]:
            new = {k: v for k, v in after.items() if not k.endswith("/")}
            old = {k: v for k, v in before.items() if not k.endswith("/")}
            require(set(new) == set(old) | {final}, f"dump: files {sorted(new)}, expected {sorted(set(old) | {final})}")
            for k in old:
                require(k == final or new[k] == old[k], f"dump to {final} changed {k}")
            got = np.load(os.path.join(root, final), allow_pickle=True)
            require(got.shape == () and equal(got.item(), model), f"{final}: loads as {got!r}, expected {model!r}")
            labels.add("overwrite" if final in old else "new file")
            files[final] = snapshot(model)
        else:
            require(after == before, f"dump without saving wrote {sorted(set(after) ^ set(before))}")
            labels.add("not saved")
    files["__model__"] = model
    return labels


def many(case):
    """Long runs with many samplers; other objects as steps; absolute and path-like directories."""
    root = tempfile.mkdtemp(prefix="c21.")
    try:
        log = []
        stubs = [Stub(i, {"kind": "count" if i % 2 else "keep", "key": f"key {i}", "value": {"arr": "c", "n": case["n"], "seed": i}}, log) for i in range(case["samplers"])]
        cols = [SampleCollector(stubs, np) for _ in range(case["collectors"])]
        path = {"str": root, "slash": root + "/", "path": pathlib.Path(root), "deep": os.path.join(root, *["d"] * case["depth"])}[case["path"]]
        model, steps = {}, []
        for i in range(case["steps"]):
            step = {"int": i, "np": np.int64(i), "float": 0.1 * i, "str": f"s{i}", "tuple": (i, "x"), "none": None}[case["step"]]
            del log[:]
            for col in cols:
                col.sample(step)
            require([e[:2] for e in log] == [("sample", j) for _ in cols for j in range(len(stubs))], f"step {i}: samplers were called as {[e[1] for e in log][:10]}...")
            require(all(e[2] is step or e[2] == step for e in log), f"step {i}: some sampler was given another step")
            if case["every"] and i % case["every"] == 0:
                cols[0].add_sample(("added", i), i)
                model[("added", i)] = i
        if case["step"] in ("int", "np", "float"):
            for x in stubs:
                want = [({"int": j, "np": j, "float": 0.1 * j}[case["step"]]) for j in range(case["steps"]) for _ in cols]
                require([float(v) for v in x.steps] == [float(v) for v in want], "steps seen by a sampler")
        else:  # only what can be turned into numbers is dumped
            for x in stubs:
                x.steps[:] = range(len(x.steps))
        for x in stubs:
            model = dump_model(x.sp, x.steps, model)
        out = cols[0].dump(path, "all", True, True)
        require(equal(out, model), "dump of many samplers")
        got = np.load(os.path.join(os.fspath(path), "all.npy"), allow_pickle=True)
        require(got.shape == () and equal(got.item(), model), "file of many samplers")
        for col in cols[1:]:
            require(equal(col.get_samples(), {}), "samples of one collector turned up in another")
    finally:
        shutil.rmtree(root, ignore_errors=True)


class Faulty:
    """A sampler that raises at some of its calls (a full disk, an interrupted computation)."""

    def __init__(self, i, sp):
        self.i, self.sp, self.samples, self.dumps = i, sp, [], 0

    def sample(self, step):
        self.samples.append(step)
        if len(self.samples) in self.sp["bad_samples"]:
            raise OSError(f"sampler {self.i}")

    def dump(self, samples):
        self.dumps += 1
        if self.sp["late"]:
            samples[("from", self.i)] = self.dumps
        if self.dumps in self.sp["bad_dumps"]:
            raise OSError(f"sampler {self.i}")
        if self.sp["fresh"]:
            samples = dict(samples)
        samples[("from", self.i)] = self.dumps
        return samples


def faults(case):
    """A sampler that fails once takes nothing away from what was added before, or from later steps and dumps."""
    root = tempfile.mkdtemp(prefix="c21.")
    try:
        stubs = [Faulty(i, sp) for i, sp in enumerate(case["stubs"])]
        col = SampleCollector(stubs, np)
        added, labels, path = {}, set(), os.path.join(root, "out")
        for i, op in enumerate(case["ops"]):
            calls = [(len(x.samples), x.dumps) for x in stubs]
            if op == "add":
                col.add_sample(("added", i), i)
                added[("added", i)] = i
            elif op == "sample":
                try:
                    col.sample(i)
                except OSError:
                    labels.add("sampling failed")
                else:
                    require([len(x.samples) for x in stubs] == [c[0] + 1 for c in calls] and all(x.samples[-1] == i for x in stubs), f"op {i}: a step after a failure")
            else:
                try:
                    out = col.dump(path, "all", True, op == "dump")
                except OSError:
                    labels.add("dumping failed")
                else:
                    want = {**added, **{("from", x.i): x.dumps for x in stubs}}
                    require([x.dumps for x in stubs] == [c[1] + 1 for c in calls], f"op {i}: some sampler was not asked once")
                    require(dict(out) == want, f"op {i}: dump returned {out!r}, expected {want!r}")
                    if op == "dump":
                        got = np.load(path + "/all.npy", allow_pickle=True)
                        require(got.shape == () and got.item() == want, f"op {i}: the file holds {got!r}, expected {want!r}")
            have = col.get_samples()
            require(all(k in have and have[k] == v for k, v in added.items()), f"op {i} ({op}): added samples are {have!r}, expected at least {added!r}")
        return sorted(labels)
    finally:
        shutil.rmtree(root, ignore_errors=True)


NUMBERS = st.lists(st.integers(1, 4), max_size=2)
FAULTS = st.fixed_dictionaries(
    {
        "stubs": st.lists(st.fixed_dictionaries({"bad_samples": NUMBERS, "bad_dumps": NUMBERS, "late": st.booleans(), "fresh": st.booleans()}), min_size=1, max_size=4),
        "ops": st.lists(st.sampled_from(["add", "sample", "dump", "memory"]), min_size=2, max_size=12),
    }
)

MANY = st.fixed_dictionaries(
    {
        "samplers": st.integers(0, 40), "collectors": st.integers(1, 2), "steps": st.one_of(st.integers(0, 30), st.integers(30, 400)), "n": st.integers(1, 30),
        "path": st.sampled_from(["str", "slash", "path", "deep"]), "depth": st.integers(1, 12), "every": st.integers(0, 7),
        "step": st.sampled_from(["int", "np", "float", "str", "tuple", "none"]),
    }
)


def abstract(case):
    """Sampler is a skeleton: it is refused unless both methods are given."""

    body = {k: (lambda self, *a: None) for k in case["methods"]}
    T = type("T", (Sampler,), body)
    if set(case["methods"]) == {"sample", "dump"}:
        T(_Solver(), 2, np)
    else:
        must_refuse("a sampler without sample or dump", lambda: T(_Solver(), 2, np), (TypeError,))


QUICK = 10
SUBS = [
    Sub("history", histories(), run, 700, 20000, "at least two samplers and a step or a dump",
        lambda c: len(c["stubs"]) >= 2 and any(o["op"] in ("sample", "dump") for o in c["ops"]), shards=4, tshards=7),
    Sub("many", MANY, many, 60, 900, "at least five samplers and thirty steps", lambda c: c["samplers"] > 4 and c["steps"] >= 30,
        fixed=[{"samplers": 130, "collectors": 1, "steps": 3, "n": 2, "path": "str", "depth": 1, "every": 1, "step": "int"},
               {"samplers": 2, "collectors": 2, "steps": 3000, "n": 2000, "path": "deep", "depth": 30, "every": 0, "step": "float"}]),
    Sub("faults", FAULTS, faults, 150, 4000, "a sampler that fails and a dump", lambda c: any(x["bad_dumps"] or x["bad_samples"] for x in c["stubs"]) and bool({"dump", "memory"} & set(c["ops"]))),
    Sub("abstract", None, abstract, 0, 0, "every case", None,
        fixed=[{"methods": m} for m in ([], ["sample"], ["dump"], ["sample", "dump"])]),
]
