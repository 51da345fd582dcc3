"""Runs plans: one by one, in bulk over worker processes, and minimises those
that violate a property."""

import copy
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter

from . import boot

REAL_OPEN = open
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(prop):
    return importlib.import_module(f"hvsim.props.{prop.lower()}")


def run_seed(base, prop, index):
    text = f"{base}/{prop}/{index}".encode()
    return int.from_bytes(hashlib.sha256(text).digest()[:6], "big")


def make_plan(module, prop, base, index, tier):
    seed = run_seed(base, prop, index)
    rng = random.Random(seed)
    plan = module.gen(rng, tier, index)
    plan.update(property=prop, seed=seed, index=index)
    # Exactly what a replay file can hold
    return json.loads(json.dumps(plan))


class Result:
    def __init__(self):
        self.violation = None
        self.known = []
        self.error = None
        self.timeout = False


RUN_TIMEOUT = 120
PRISTINE = []  # state of the library before the first run


def run_plan(module, plan, root, collect=False):
    """Execute a plan. The result depends on nothing but the plan."""
    import numpy as np

    from .core import SIM, Violation
    from .world import Timeout, scratch_fs

    from . import pool

    result = Result()
    if not PRISTINE:
        PRISTINE.append(pool.library_state())
    SIM.fs = None
    SIM.sched = None
    SIM.reset(plan["seed"])
    SIM.collect = [] if collect else None
    SIM.known = {e["kind"]: e["what"] for e in known_findings(plan["property"])}
    random.seed(plan["seed"])
    np.random.seed(plan["seed"] % 2**32)
    scratch_fs(root)

    def on_alarm(*args):
        raise Timeout()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(RUN_TIMEOUT)
    began = time.perf_counter()
    try:
        module.run(plan)
    except Violation as violation:
        signature = f"{violation.kind}"
        result.violation = {"kind": signature, "detail": violation.detail}
    except Timeout:
        result.timeout = True
        if getattr(module, "TIMEOUT_IS_VIOLATION", False):
            result.violation = {"kind": "hang", "detail": "no end in real time"}
        else:
            result.error = f"run exceeded {RUN_TIMEOUT} s"
    except Exception as error:
        if not_readable(error):
            # A result that does not have the form it should have
            result.violation = {
                "kind": f"unreadable_{type(error).__name__}",
                "detail": traceback.format_exc()[-600:],
            }
        else:
            result.error = traceback.format_exc()
    finally:
        signal.alarm(0)
        sys.settrace(None)
        SIM.fs.active = False
        SIM.fs.finish()
        SIM.sched = None
        os.chdir("/")
        pool.use_real(False)
    result.wall = time.perf_counter() - began
    result.digest = SIM.digest.hexdigest()
    result.stats = Counter(SIM.stats)
    result.now = SIM.now
    result.events = SIM.events
    result.trace = SIM.collect
    result.known = SIM.known_seen
    result.narrow = SIM.narrow
    result.observed = SIM.observed
    SIM.collect = None
    result.nontrivial = bool(
        any(k.startswith("fault:") for k in result.stats)
        or result.stats["switches"]
        or result.stats["tasks"] > 1
        or result.stats["ops"] > 3
    )
    for life, ref in SIM.pools:
        p = ref()
        if p is not None:
            p.terminate()
    pool.restore_state(PRISTINE[0])
    return result


READERS = ("props", "study.py", "world.py", "tri.py")


def not_readable(error):
    """Whether the error was raised where results of the library are read."""
    if not isinstance(error, (LookupError, TypeError, AttributeError, ValueError)):
        return False
    last = traceback.extract_tb(error.__traceback__)[-1].filename
    path = os.path.relpath(last, os.path.join(HERE, "hvsim"))
    return path.split(os.sep)[0] in READERS


# Minimisation
LISTS = ("ops", "comps", "faults", "gaps", "children", "tf", "curv", "vtf", "threads",
         "schedules", "files", "rounds", "params", "extra", "steps")
NEEDED = ("comps", "children", "schedules", "params")
OPTIONAL = ("clust", "mod", "curv", "tf", "reflect", "name", "own_name", "ghost",
            "angle", "vtf", "inprocess", "tuple_form", "prefix", "merge", "verbosity")


def _paths(node, path=()):
    yield path, node
    if isinstance(node, dict):
        for k in sorted(node):
            yield from _paths(node[k], path + (k,))
    elif isinstance(node, list):
        for i, item in enumerate(node):
            if isinstance(item, (dict, list)):
                yield from _paths(item, path + (i,))


def _get(node, path):
    for p in path:
        node = node[p]
    return node


def candidates(plan):
    """Simpler plans."""
    for path, node in list(_paths(plan)):
        if not path:
            continue
        key = path[-1]
        if isinstance(node, list) and key in LISTS and node:
            n = len(node)
            size = n
            while size >= 1:
                for start in range(0, n, size):
                    new = copy.deepcopy(plan)
                    target = _get(new, path)
                    del target[start : start + size]
                    if target or key not in NEEDED:
                        yield new
                if size == 1:
                    break
                size = size // 2 if size > 2 else 1
        if isinstance(key, str) and key in OPTIONAL and node:
            new = copy.deepcopy(plan)
            parent = _get(new, path[:-1])
            parent[key] = type(node)() if isinstance(node, (list, dict, int, float)) else None
            yield new
        if key == "res" and node != 1:
            new = copy.deepcopy(plan)
            _get(new, path[:-1])[key] = 1
            yield new
        if key == "workers" and node != 1:
            new = copy.deepcopy(plan)
            _get(new, path[:-1])[key] = 1
            yield new


def minimise(module, plan, root, kind, budget=45.0):
    """Greedy reduction that keeps the kind of violation."""
    end = time.perf_counter() + budget
    tried = 0
    best = plan
    seen = set()
    improved = True
    while improved and time.perf_counter() < end:
        improved = False
        for candidate in candidates(best):
            if time.perf_counter() > end:
                break
            key = json.dumps(candidate, sort_keys=True)
            if key in seen:
                continue
            seen.add(key)
            tried += 1
            result = run_plan(module, candidate, root)
            if result.violation and result.violation["kind"] == kind:
                best = candidate
                improved = True
                break
    return best, tried


# Worker process
def worker(config_path):
    with open(config_path) as f:
        config = json.load(f)
    boot.install()
    module = load(config["property"])
    root = config["root"]
    prop, base, tier = config["property"], config["seed"], config["tier"]
    end = time.perf_counter() + config["seconds"]
    out = {
        "runs": 0,
        "digests": {},
        "trivial": [],
        "nontrivial": 0,
        "stats": Counter(),
        "now": 0.0,
        "events": 0,
        "samples": [],
        "violation": None,
        "known": Counter(),
        "error": None,
        "checked": {},
        "observed": {},
        "observed_again": {},
        "wall": 0.0,
        "stopped_early": False,
        "max_wall": 0.0,
    }
    try:
        for index in config["indices"]:
            if time.perf_counter() > end:
                out["stopped_early"] = True
                break
            plan = make_plan(module, prop, base, index, tier)
            result = run_plan(module, plan, root)
            out["runs"] += 1
            out["wall"] += result.wall
            out["max_wall"] = max(out["max_wall"], result.wall)
            if result.error:
                out["error"] = f"run {index} (seed {plan['seed']}): {result.error}"
                break
            out["digests"][str(index)] = result.digest
            if result.observed:
                out["observed"][str(index)] = result.observed
            out["stats"].update(result.stats)
            out["now"] += result.now
            out["events"] += result.events
            out["nontrivial"] += result.nontrivial
            if not result.nontrivial:
                out["trivial"].append(str(index))
            for kind in result.known:
                out["known"][kind] += 1
            if len(out["samples"]) < 2 and result.nontrivial:
                out["samples"].append(plan)
            if result.violation:
                kind = result.violation["kind"]
                original = plan
                if result.narrow:
                    narrowed = dict(plan, **result.narrow)
                    attempt = run_plan(module, narrowed, root)
                    if attempt.violation and attempt.violation["kind"] == kind:
                        plan = narrowed
                small, tried = minimise(
                    module, plan, root, kind, config.get("minimise", 45)
                )
                final = run_plan(module, small, root, collect=True)
                again = run_plan(module, small, root)
                out["violation"] = {
                    "plan": small,
                    "original": original,
                    "result": final.violation or result.violation,
                    "trace": final.trace,
                    "digest": final.digest,
                    "reproduced": again.digest == final.digest
                    and again.violation == final.violation,
                    "tried": tried,
                    "index": index,
                }
                break
        if not out["violation"] and not out["error"]:
            for index in config["recheck"]:
                if config["cross"] and time.perf_counter() > end + config["seconds"]:
                    break
                plan = make_plan(module, prop, base, index, tier)
                result = run_plan(module, plan, root)
                out["checked"][str(index)] = result.digest
                if result.observed:
                    out["observed_again"][str(index)] = result.observed
    except Exception:
        out["error"] = traceback.format_exc()
    with open(config["out"], "w") as f:
        json.dump(out, f)


def known_findings(prop):
    path = os.path.join(HERE, "known_findings.txt")
    entries = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("{"):
                    entry = json.loads(line)
                    if entry.get("property") == prop and entry.get("status") == "open":
                        entries.append(entry)
    return entries


# Check: the command registered for a property
COMPONENTS_REAL = [
    "hypervehicle (all modules, from /repo/src)",
    "numpy, scipy, pandas, numpy-stl, dill, xml",
    "kernel file system for the scratch directory",
]
COMPONENTS_STUB = [
    "multiprocess.pool.Pool (SimPool)",
    "open() and os file functions (events, faults; real files underneath)",
    "thread scheduling, locks created by the library",
    "clock, sleep, processor count",
    "user functions and generators",
    "pymesh",
]


def check(prop, tier, seed, replay=None):
    module_info = read_info(prop)
    settings = module_info[tier]
    began = time.perf_counter()
    processes = min(8, max(2, (os.cpu_count() or 4)))
    runs = settings["runs"]
    seconds = settings.get("seconds", 90 if tier == "quick" else 600)
    scratch = tempfile.mkdtemp(prefix=f"hvsim-{prop}-")
    try:
        outputs = launch(
            prop, tier, seed, runs, seconds, processes, scratch, module_info.get("cross")
        )
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return report(prop, tier, seed, outputs, began, module_info)


def read_info(prop):
    """Settings of a check, without importing the library here."""
    namespace = {}
    path = os.path.join(HERE, "hvsim", "props", "settings.py")
    with open(path) as f:
        exec(compile(f.read(), path, "exec"), namespace)
    return namespace["SETTINGS"][prop]


def hash_seed(seed, w):
    return (seed * 31 + w * 7919 + 1) % 4294967295


def launch(prop, tier, seed, runs, seconds, processes, scratch, cross=False):
    """Run worker processes. With cross, every run is made by two of them."""
    procs = []
    for w in range(processes):
        base = os.path.join(scratch, str(w))
        os.makedirs(os.path.join(base, "disk"))
        indices = list(range(w, runs, processes))
        other = list(range((w + 1) % processes, runs, processes))
        config = {
            "property": prop,
            "seed": seed,
            "tier": tier,
            "indices": indices,
            "recheck": other if cross else other[: 3 if tier == "quick" else 10],
            "cross": cross,
            "seconds": seconds,
            "root": os.path.join(base, "disk"),
            "out": os.path.join(base, "out.json"),
        }
        path = os.path.join(base, "config.json")
        with open(path, "w") as f:
            json.dump(config, f)
        env = dict(os.environ)
        env.update(
            PYTHONHASHSEED=str(hash_seed(seed, w)),
            OPENBLAS_NUM_THREADS="1",
            OMP_NUM_THREADS="1",
            MKL_NUM_THREADS="1",
            PYTHONPATH=HERE,
            TMPDIR=base,
        )
        log = open(os.path.join(base, "log"), "wb")
        procs.append(
            (
                subprocess.Popen(
                    [sys.executable, "-m", "hvsim", "worker", path],
                    cwd=HERE,
                    env=env,
                    stdin=subprocess.DEVNULL,
                    stdout=log,
                    stderr=log,
                ),
                config,
                base,
            )
        )
    outputs = []
    limit = time.perf_counter() + seconds * (2 if cross else 1) + RUN_TIMEOUT + 100
    for proc, config, base in procs:
        try:
            proc.wait(max(1, limit - time.perf_counter()))
        except subprocess.TimeoutExpired:
            proc.kill()
            proc.wait()
            outputs.append({"error": "worker process did not end in time"})
            continue
        try:
            with open(config["out"]) as f:
                outputs.append(json.load(f))
        except (OSError, ValueError):
            with open(os.path.join(base, "log"), errors="replace") as f:
                log = f.read()[-3000:]
            outputs.append(
                {"error": f"worker process ended with {proc.returncode}:\n{log}"}
            )
    return outputs


def report(prop, tier, seed, outputs, began, info):
    errors = [o["error"] for o in outputs if o.get("error")]
    good = [o for o in outputs if "runs" in o]
    violations = [o["violation"] for o in good if o.get("violation")]
    stats = Counter()
    known = Counter()
    digests = {}
    for o in good:
        stats.update(o["stats"])
        known.update(o["known"])
        digests.update(o["digests"])
    trivial = {i for o in good for i in o["trivial"]}
    interesting = {d for i, d in digests.items() if i not in trivial}
    compared, mismatches = 0, []
    for o in good:
        for index, digest in o["checked"].items():
            if index in digests:
                compared += 1
                if digests[index] != digest:
                    mismatches.append(index)
    tolerated = []
    if info.get("cross"):
        _, differing = cross_violation(prop, tier, seed, good)
        if differing is not None and not violations:
            violations = [differing]
        # What counts is what was observed, not the order of events
        tolerated, mismatches = mismatches, []
    wall = time.perf_counter() - began
    runs = sum(o["runs"] for o in good)
    samples = [s for o in good for s in o["samples"]][:3]
    busy = sum(o["wall"] for o in good)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": info.get("level", "exploration"),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(interesting),
            "nontrivial_runs": sum(o["nontrivial"] for o in good),
            "rule": info["rule"]
            + " Non-trivial: at least one fault took effect, threads were switched,"
            " several tasks were scheduled or more than three operations were made;"
            " distinct: different digests of the sequence of all simulated events"
            " (operations, tasks, file operations, switches, faults, outcomes).",
            "samples": samples,
            "runs_per_hour": round(runs / wall * 3600) if wall else 0,
            "seeds": "one per run: sha256(VERIF_SEED/property/index)",
            "simulated_time_s": round(sum(o["now"] for o in good), 1),
            "simulated_events": sum(o["events"] for o in good),
            "faults_fired": {
                k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")
            },
            "file_operations": {
                k[3:]: v for k, v in sorted(stats.items()) if k.startswith("fs:")
            },
            "other_counts": {
                k: v
                for k, v in sorted(stats.items())
                if not k.startswith(("fault:", "fs:"))
            },
            "determinism": {
                "runs_repeated_in_another_process": compared,
                "differences": len(mismatches) + len(tolerated),
            },
            "components_real": COMPONENTS_REAL,
            "components_stub": COMPONENTS_STUB,
            "longest_run_s": round(max([o["max_wall"] for o in good] or [0]), 2),
            "processor_seconds": round(busy, 1),
            "processes": len(outputs),
            "stopped_by_time": any(o["stopped_early"] for o in good),
            "known_findings": dict(known),
        },
        "assumptions": info.get("assumptions", []),
        "violations": [],
        "wall_s": round(wall, 2),
    }
    code = 0
    lines = []
    if violations:
        violation = min(violations, key=lambda v: v["index"])
        path = os.path.join(HERE, "evidence", f"{prop}.replay.json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump(violation, f, indent=1)
        evidence["violations"] = [
            {
                "kind": violation["result"]["kind"],
                "detail": violation["result"]["detail"],
                "seed": violation["plan"]["seed"],
                "replay": path,
                "reproduced": violation["reproduced"],
            }
        ]
        lines.append(
            f"{violation['result']['kind']}: {violation['result']['detail']}"
            f" (seed {violation['plan']['seed']}, run {violation['index']},"
            f" minimised in {violation['tried']} runs)"
        )
        lines.append(f"VIOLATION property={prop} replay={path}")
        code = 1
    elif errors:
        lines.append("ERROR of the check:\n" + errors[0])
        code = 2
    elif runs == 0:
        lines.append("ERROR of the check: nothing was run")
        code = 4
    if mismatches:
        # The order of events may depend on the hash seed, if the results do not
        lines.append(
            f"NOTE: the events of {len(mismatches)} of {compared} repeated runs"
            f" depend on the process, such as those of run {mismatches[0]}"
        )
    for what in known:
        lines.append(f"KNOWN-FINDING: property={prop} {what}")
    path = os.path.join(HERE, "evidence", f"{prop}.json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(evidence, f, indent=1)
    lines.append(
        f"{prop} {tier}: {runs} runs, {evidence['coverage']['distinct_nontrivial']} distinct,"
        f" {sum(v for k, v in stats.items() if k.startswith('fault:'))} faults,"
        f" {wall:.1f} s"
    )
    return code, lines


def first_difference(a, b):
    for (label, x), (other, y) in zip(a, b):
        if (label, x) != (other, y):
            return label
    return "number of results" if len(a) != len(b) else None


def cross_violation(prop, tier, seed, outputs):
    """Compare the results of the same runs in different processes."""
    observed = {}
    for w, o in enumerate(outputs):
        for index, found in o["observed"].items():
            observed[index] = (w, found)
    compared = 0
    for w, o in enumerate(outputs):
        for index in sorted(o["observed_again"], key=int):
            if index not in observed:
                continue
            compared += 1
            other, found = observed[index]
            label = first_difference(found, o["observed_again"][index])
            if label is None:
                continue
            plan = make_plan(load_plain(prop), prop, seed, int(index), tier)
            return compared, {
                "plan": plan,
                "original": plan,
                "hash_seeds": [hash_seed(seed, other), hash_seed(seed, w)],
                "result": {"kind": "process_dependent", "detail": label},
                "trace": [],
                "digest": None,
                "reproduced": True,
                "tried": 0,
                "index": int(index),
            }
    return compared, None


def load_plain(prop):
    """The module of a property, in this process, for its plans only."""
    if "hypervehicle" not in sys.modules:
        boot.install()
    return load(prop)


def observe(plan_path, out_path):
    """Run a plan and write what it observes."""
    with open(plan_path) as f:
        plan = json.load(f)["plan"]
    boot.install()
    module = load(plan["property"])
    root = tempfile.mkdtemp(prefix="hvsim-observe-")
    try:
        result = run_plan(module, plan, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    with REAL_OPEN(out_path, "w") as f:
        json.dump({"observed": result.observed, "violation": result.violation}, f)


def replay_cross(path, data):
    """Run a plan in two processes with the hash seeds recorded."""
    found = []
    scratch = tempfile.mkdtemp(prefix="hvsim-cross-")
    try:
        for k, value in enumerate(data["hash_seeds"]):
            out = os.path.join(scratch, f"{k}.json")
            env = dict(
                os.environ,
                PYTHONHASHSEED=str(value),
                PYTHONPATH=HERE,
                OPENBLAS_NUM_THREADS="1",
                OMP_NUM_THREADS="1",
                MKL_NUM_THREADS="1",
            )
            subprocess.run(
                [sys.executable, "-m", "hvsim", "observe", os.path.abspath(path), out],
                cwd=HERE,
                env=env,
                check=True,
                timeout=600,
            )
            with open(out) as f:
                found.append(json.load(f)["observed"])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return first_difference(*found)


def replay(path):
    """Run a replay file; True if it shows the same violation again."""
    with open(path) as f:
        data = json.load(f)
    plan = data["plan"]
    boot.install()
    module = load(plan["property"])
    root = tempfile.mkdtemp(prefix="hvsim-replay-")
    try:
        result = run_plan(module, plan, root, collect=True)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return data, result
