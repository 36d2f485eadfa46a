"""runner.py VERIF ID TIER [REPLAY]: run the check of one property, write evidence, print the verdict."""
import concurrent.futures as cf
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import re
import sys
import time


def load(pid):
    import quantum_systems

    if not os.path.realpath(quantum_systems.__file__).startswith("/repo/"):
        raise SystemExit(f"quantum_systems imported from {quantum_systems.__file__}")
    return importlib.import_module(pid.lower())


def task(args):
    pid, name, n, seed, budget, deadline, with_fixed = args
    budget = max(10.0, min(budget, deadline - time.time()))
    # package code may print; keep stdout for the verdict
    with contextlib.redirect_stdout(io.StringIO()):
        mod = load(pid)
        import core

        sub = {s.name: s for s in mod.SUBS}[name]
        return core.run_task(sub, n, seed, budget, with_fixed, limit(budget), current(name, seed))


def limit(budget):
    return 150 if budget <= 300 else 900


def current(name, seed):
    return os.path.join(os.environ["TMPDIR"], f"current-{name}-{seed}.json")


def stuck(tasks, budget):
    """A case that even its alarm cannot end (a loop in compiled code)."""
    for pid, name, _, seed, *_ in tasks:
        try:
            path = current(name, seed)
            if time.time() - os.path.getmtime(path) > limit(budget) + 30:
                return {
                    "sub": name, "evaluations": 1, "skipped_budget": 0, "distinct": set(), "samples": [], "labels": {}, "error": None, "wall_s": 0.0,
                    "failure": {"case": json.load(open(path)), "message": f"no result within {limit(budget)} s"},
                }
        except (OSError, ValueError):
            pass


def rerun(pid, name, keys):
    """In a fresh process: do these cases, in this order, end in a violation? Returns its message."""
    with contextlib.redirect_stdout(io.StringIO()):
        mod = load(pid)
        import core

        sub = {s.name: s for s in mod.SUBS}[name]
        for i, key in enumerate(keys):
            try:
                core.evaluate(sub, json.loads(key))
            except core.Violation as v:
                return str(v), i
            except core.HarnessError:
                return None, i
    return None, -1


def fresh(pid, name, keys, timeout):
    with cf.ProcessPoolExecutor(1, mp_context=mp.get_context("spawn")) as ex:
        fut = ex.submit(rerun, pid, name, keys)
        try:
            return fut.result(timeout)
        except BaseException:
            for p in list(getattr(ex, "_processes", {}).values()):
                p.kill()
            return None, -1


def settle(pid, r, end):
    """Give a failure a replay that works on its own: the shrunk case, else the shortest history found."""
    f = r["failure"]
    hist = f.pop("history", [])
    if "no result within" in f["message"]:
        return
    left = lambda: max(10.0, end - time.time())
    if time.time() > end:
        return
    msg, _ = fresh(pid, r["sub"], [json.dumps(f["case"])], left())
    if msg or not hist:
        return
    msg, i = fresh(pid, r["sub"], hist, left())
    if not msg:
        f["message"] += " [not seen again when re-executed on its own]"
        return
    hist = hist[: i + 1]
    # drop chunks of the history as long as the violation stays
    size = len(hist) // 2
    while size >= 1 and time.time() < end:
        k = 0
        while k < len(hist) - 1 and time.time() < end:
            cand = hist[:k] + hist[min(k + size, len(hist) - 1):]
            m, i = fresh(pid, r["sub"], cand, left())
            if m:
                hist, msg = cand[: i + 1], m
            else:
                k += size
        size //= 2
    f["history"] = [json.loads(k) for k in hist[:-1]]
    f["case"], f["message"] = json.loads(hist[-1]), msg + f" [after {len(hist) - 1} earlier cases in the same process]"


def main():
    verif, pid, tier, replay = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4]
    t0 = time.time()
    if tier == "replay":
        mod = load(pid)
        import core

        rec = json.load(open(replay))
        sub = {s.name: s for s in mod.SUBS}[rec["sub"]]
        try:
            for case in rec.get("history", []) + [rec["case"]]:
                core.evaluate(sub, case)
        except core.Violation as v:
            print(f"{v}")
            print(f"VIOLATION property={pid} replay={replay}")
            return 1
        print("the saved case passes")
        return 0

    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = load(pid)
    thorough = tier == "thorough"
    budget = 1500 if thorough else 300
    tasks = []
    for s in mod.SUBS:
        total = s.quick * getattr(mod, "QUICK", 4)
        if thorough:
            total = max(s.thorough, 8 * total)
        shards = max(s.tshards, 7) if thorough else max(s.shards, min(14, -(-total // 150)))
        for k in range(shards):
            sd = int(hashlib.sha256(f"{seed}:{pid}:{s.name}:{k}".encode()).hexdigest()[:12], 16)
            tasks.append((pid, s.name, -(-total // shards), sd, budget, t0 + (6000 if thorough else 480), k == 0))
    results, errors = [], []
    only = os.environ.get("VERIF_ONLY")
    if only:
        tasks = [t for t in tasks if re.search(only, t[1])]
    workers = max(1, min(len(tasks), 7))
    with cf.ProcessPoolExecutor(workers, mp_context=mp.get_context("spawn")) as ex:
        todo = {ex.submit(task, t) for t in tasks}
        while todo:
            done, todo = cf.wait(todo, timeout=10, return_when=cf.FIRST_COMPLETED)
            for fut in done:
                try:
                    results.append(fut.result())
                except BaseException as e:
                    errors.append(f"{type(e).__name__}: {e}")
            hang = stuck(tasks, budget)
            if hang:
                results.append(hang)
            if hang or os.environ.get("VERIF_FAILFAST") and any(r["failure"] for r in results):
                for p in list(ex._processes.values()):
                    p.kill()
                break
    order = {t[1]: i for i, t in reversed(list(enumerate(tasks)))}
    results.sort(key=lambda r: (order[r["sub"]], r["failure"] is None, len(json.dumps((r["failure"] or {}).get("case")))))
    errors += [r["error"] for r in results if r["error"]]
    failures = [r for r in results if r["failure"]]

    known_lines = []
    if hasattr(mod, "known_findings"):
        with contextlib.redirect_stdout(io.StringIO()):
            known_lines = mod.known_findings()

    distinct = sum(len(set().union(*[r["distinct"] for r in results if r["sub"] == s.name] or [set()])) for s in mod.SUBS)
    subs = {}
    for s in mod.SUBS:
        rs = [r for r in results if r["sub"] == s.name]
        labels = {}
        for r in rs:
            for k, v in r["labels"].items():
                labels[k] = labels.get(k, 0) + v
        subs[s.name] = {
            "evaluations": sum(r["evaluations"] for r in rs),
            "distinct_nontrivial": len(set().union(*[r["distinct"] for r in rs] or [set()])),
            "rule": s.rule,
            "labels": dict(sorted(labels.items())),
            "cut_by_time_budget": sum(r["skipped_budget"] for r in rs),
            "cpu_s": round(sum(r["wall_s"] for r in rs), 1),
        }
    ev = {
        "property": pid,
        "tier": "thorough" if thorough else "quick",
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": distinct,
            "rule": "Hypothesis-generated cases per sub-check (fixed boundary cases first); non-trivial: "
            + "; ".join(f"[{s.name}] {s.rule}" for s in mod.SUBS),
            "samples": [{"sub": r["sub"], "case": c} for r in results for c in r["samples"][:2]][:12],
            "subchecks": subs,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(verif, "evidence"), exist_ok=True)
    with open(os.path.join(verif, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)

    for s, d in subs.items():
        print(f"{pid}/{s}: {d['evaluations']} cases, {d['distinct_nontrivial']} distinct non-trivial, {d['cpu_s']} s")
    for line in known_lines:
        print(f"KNOWN-FINDING: property={pid} {line}")
    if failures:
        os.makedirs(os.path.join(verif, "replays"), exist_ok=True)
        seen = set()
        end = time.time() + 150
        for r in failures:
            if r["sub"] in seen:
                continue
            seen.add(r["sub"])
            if os.environ.get("VERIF_FAILFAST"):
                r["failure"].pop("history", None)
            else:
                settle(pid, r, end)
            path = os.path.join(verif, "replays", f"{pid}-{r['sub']}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "sub": r["sub"], **r["failure"]}, f, indent=1)
            print(f"{pid}/{r['sub']}: {r['failure']['message']}\n  case: {json.dumps(r['failure']['case'])}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        for e in errors:
            print("CHECK ERROR: " + e, file=sys.stderr)
        return 2
    print(f"{pid}: held on {ev['coverage']['evaluations']} cases ({distinct} distinct non-trivial) in {ev['wall_s']} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
