"""Parts shared by the properties: drawing faults, running operations."""

import copy
import math

import numpy as np

from .. import build, model, world
from ..core import SIM, Violation
from ..world import VehicleWorld, call, expect

ERRORS = ["any", "any", "any", "value", "memory", "oserror", "index", "key", "fault"]
DURATIONS = ["random", "random", "equal", "lifo", "heavy", "slow"]


def log_uniform(rng, high):
    return int(math.exp(rng.uniform(0.0, math.log(high)))) - 1


def draw_gaps(rng, scope, high, count):
    """After how many yield points to switch, and to which thread."""
    if scope == "state" and rng.random() < 0.7:
        # Few yield points, so switch at many of them
        often = rng.choice([2, 3, 6])
        return [[log_uniform(rng, often), rng.randrange(3)] for _ in range(150)]
    return [[log_uniform(rng, high), rng.randrange(3)] for _ in range(count)]


def machine(rng):
    """Number of processors and distribution of task durations."""
    return {
        "workers": rng.choice([1, 1, 2, 2, 3, 4, 5, 8, 16, 64]),
        "durations": rng.choice(DURATIONS),
    }


def use_machine(m):
    SIM.cpu_count = m["workers"]
    SIM.durations = m["durations"]
    SIM.log("machine", m["workers"], m["durations"])


POOL_KINDS = ["task", "task", "encoding", "pool_start", "wait", "call", "line"]
PROCESS_KINDS = ["call", "call", "line"]


def draw_fault(rng, inprocess, kinds=None):
    """A fault that hits meshing."""
    usual = PROCESS_KINDS if inprocess else POOL_KINDS
    usual = [k for k in usual if kinds is None or k in kinds] or list(kinds)
    kind = rng.choice(usual)
    if kind == "task":
        n = rng.choice([0, 0, 1, 2, 3, rng.randrange(12)])
        return {"t": "task", "n": n, "kind": "raise_" + rng.choice(ERRORS)}
    if kind == "encoding":
        return {"t": "task", "n": rng.choice([0, 1, 2, 4]), "kind": "encoding"}
    if kind == "kill":
        return {"t": "task", "n": rng.choice([0, 1, 2, 4]), "kind": "kill"}
    if kind == "stall":
        return {"t": "task", "n": rng.choice([0, 1, 2, 4]), "kind": "stall"}
    if kind == "pool_start":
        fault = {"t": "pool_start", "pool": rng.choice([0, 0, 0, 1])}
        if rng.random() < 0.3:
            # None can be started from then on
            fault["sticky"] = True
        return fault
    if kind == "wait":
        return {
            "t": "wait",
            "n": rng.choice([0, 0, 1, 2, 4]),
            "kind": rng.choice(["interrupt", "interrupt", "memory"]),
        }
    if kind == "call":
        errors = ERRORS + (["interrupt"] if inprocess else [])
        fault = {"t": "call", "n": log_uniform(rng, 400), "kind": rng.choice(errors)}
        if rng.random() < 0.3:
            # Every further call fails, too
            fault["sticky"] = True
        return fault
    scope = rng.choice(["core", "core", "all"])
    return {
        "t": "line",
        "scope": scope,
        "n": rng.randrange(90) if scope == "core" else log_uniform(rng, 20000),
        "kind": rng.choice(["interrupt", "interrupt", "memory"]),
    }


def tally(outcome):
    """Log whether faults took effect."""
    return bool(outcome.fired)


def checked_call(function, *args, faults=None, label="", **kwargs):
    """Call that may raise only if a fault took effect."""
    outcome = call(function, *args, faults=faults, label=label, **kwargs)
    if not outcome.ok and not outcome.fired:
        raise Violation(
            f"unexpected_{type(outcome.error).__name__}",
            f"{label} {outcome.describe()} although nothing went wrong",
        )
    return outcome


def pick(items, index):
    return items[index % len(items)]


def hash_mesh(vectors):
    import hashlib

    return hashlib.sha256(np.ascontiguousarray(vectors).tobytes()).hexdigest()[:16]


def freeze(value):
    """Comparable copy of caller data."""
    return copy.deepcopy(value)


def same(a, b):
    """Deep equality of plain data, arrays and vectors."""
    if isinstance(a, dict):
        return (
            isinstance(b, dict)
            and list(a) == list(b)
            and all(same(a[k], b[k]) for k in a)
        )
    if isinstance(a, (list, tuple)):
        return (
            type(a) is type(b)
            and len(a) == len(b)
            and all(same(x, y) for x, y in zip(a, b))
        )
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and np.array_equal(a, b, equal_nan=True)
    if hasattr(a, "to_csv"):
        return type(a) is type(b) and a.equals(b) and list(a.index) == list(b.index)
    if hasattr(a, "x") and hasattr(a, "y") and hasattr(a, "z"):
        return (a.x, a.y, a.z) == (b.x, b.y, b.z)
    if hasattr(a, "spec"):
        return a.spec == b.spec
    if isinstance(a, float) and a != a:
        return b != b
    return a == b


# Faults of files
def file_faults(trace, sizes, rng, limit):
    """All faults that can hit the events of an operation; a random choice of
    them if there are more than the limit."""
    faults = []
    for ev, (kind, name, size) in enumerate(trace):

        def add(**fault):
            faults.append(dict(fault, ev=ev))

        add(kind="crash", part=0)
        if kind == "open_r":
            add(kind="error", errno="EACCES")
            add(kind="error", errno="EIO")
        elif kind == "open_w":
            add(kind="error", errno="EACCES")
            add(kind="error", errno="ENOSPC")
            add(kind="crash", part=1)
            final = sizes.get(name, 100)
            for portion in sorted({0, final // 2, max(final - 1, 0)}):
                add(kind="limit", bytes=portion)
        elif kind == "write":
            add(kind="error", errno="ENOSPC")
            add(kind="error", errno="EIO")
            add(kind="short")
            for part in (0.5, 0.99):
                add(kind="torn", part=part)
                add(kind="crash", part=part)
            add(kind="crash", part=1)
        elif kind == "close":
            add(kind="error", errno="EIO")
        else:
            add(kind="error", errno="EACCES")
            add(kind="error", errno="ENOSPC")
            add(kind="crash", part=1)
    if len(faults) > limit:
        faults = rng.sample(faults, limit)
    return faults


def then(faults, rng):
    """Draw what the user does after each fault: repeat, clean up first, go elsewhere."""
    return [dict(f, then=rng.choice(["same", "same", "clean", "other"])) for f in faults]


def describe(fault):
    text = fault["kind"]
    for key in ("errno", "part", "bytes"):
        if key in fault:
            text += f" {fault[key]}"
    return f"{text} at file event {fault['ev']}"
