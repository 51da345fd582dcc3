"""C08 A merged export holds exactly the components just exported."""

import io
import os
from collections import Counter

import numpy as np

from .. import build
from ..core import SIM, Violation
from ..fs import REAL_OPEN, snapshot
from ..stub_pymesh import read_stl
from ..world import VehicleWorld, call, expect
from . import c06, common

PREFIXES = [None, "m", "m-1", "m*", "mm", "[x]", "a b", "m.2", "v.stl", "%s{0}"]


def gen(rng, tier, index):
    vehicles = []
    for _ in range(rng.choice([1, 1, 2])):
        vehicle = build.draw_vehicle(
            rng, count=rng.choice([1, 2, 3]), max_res=2, rate=0.25
        )
        for comp in vehicle["comps"]:
            if rng.random() < 0.3:
                comp["opts"]["ghost"] = True
        if all(c["opts"].get("ghost") for c in vehicle["comps"]):
            vehicle["comps"][0]["opts"]["ghost"] = False
        vehicles.append(vehicle)
    prefixes = rng.sample(PREFIXES, 3)
    ops = []
    for _ in range(rng.randint(1, 5)):
        op = {
            "vehicle": rng.randrange(2),
            "prefix": rng.choice(prefixes),
            "merge": rng.random() < 0.8,
            "listed": rng.random() < 0.05,
            "analyse": rng.random() < 0.15,
            "properties": rng.random() < 0.15,
            "transform": rng.random() < 0.3,
            "then": rng.choice(["same", "same", "clean", "other"]),
            "faults": [],
        }
        if rng.random() < 0.5:
            op["faults"].append(
                {
                    "t": "fs",
                    "place": round(rng.random(), 3),
                    "choice": round(rng.random(), 3),
                }
            )
        ops.append(op)
    left = rng.sample(
        ["m-old.stl", "m.stl", "vehicle.stl", "vehicle-old-7.stl", "x.stl", "combined_mesh.stl", "v.stl"],
        rng.randrange(4),
    )
    return {"vehicles": vehicles, "ops": ops, "left": left, "workers": rng.choice([1, 4])}


OLD = np.array([[[9, 9, 9], [9, 9, 8], [9, 8, 9]]], np.float32)


def old_file():
    from .. import stub_pymesh

    record = np.zeros(1, stub_pymesh.RECORD)
    record["v"] = OLD
    return b"old".ljust(80) + (1).to_bytes(4, "little") + record.tobytes()


def run(plan):
    SIM.cpu_count = plan["workers"]
    worlds = []
    for spec in plan["vehicles"]:
        w = VehicleWorld(spec)
        expect(w.vehicle.generate, label="generate")
        w.model_generate()
        worlds.append(w)
    for name in plan["left"]:
        with REAL_OPEN(os.path.join(SIM.fs.root, name), "wb") as f:
            f.write(old_file())
    for op in plan["ops"]:
        step(common.pick(worlds, op["vehicle"]), op)


def step(w, op):
    if op["transform"]:
        expect(w.vehicle.transform, [("rotate", 25, "x")], label="transform")
        w.model_transform([("rotate", 25, "x")])
    if op["analyse"]:
        call(w.vehicle.analyse, w.densities([1.0]), label="analyse")
    if op["properties"]:
        expect(w.vehicle.add_property, "n", 1.5, label="add_property")
    start = snapshot(SIM.fs.root)
    if op["listed"]:
        # Merging by name is not there yet: it must not seem to have worked
        keywords = {"prefix": op["prefix"], "merge": w.names()}
        outcome = call(w.vehicle.to_stl, label="to_stl by name", **keywords)
        found = snapshot(SIM.fs.root)
        w.check_stl_files(op["prefix"], found, "of an export by name")
        if outcome.ok:
            complete(w, dict(op, merge=True), start, found, "merged by name")
        return
    faults = []
    if op["faults"]:
        # Rehearse in order to place the fault
        rehearsal = export(w, op)
        usual = snapshot(SIM.fs.root)
        sizes = {k: len(v) for k, v in usual.items() if v is not None}
        c06.fill(start)
        possible = common.file_faults(rehearsal.fs_trace, sizes, None, 10**9)
        for f in op["faults"] if possible else []:
            at = int(f["place"] * len(rehearsal.fs_trace))
            here = [p for p in possible if p["ev"] == at] or possible
            fault = here[int(f["choice"] * len(here)) % len(here)]
            faults.append(dict(fault, t="fs"))
    outcome = export(w, op, faults)
    found = snapshot(SIM.fs.root)
    label = f"with prefix {op['prefix']}"
    if outcome.ok:
        complete(w, op, start, found, label)
        return
    if not outcome.fired:
        raise Violation(
            f"unexpected_{type(outcome.error).__name__}", f"{outcome.describe()} {label}"
        )
    own = set(filter(None, w.stl_names(op["prefix"])))
    merged = merged_name(w, op)
    hit = outcome.fs_trace[faults[0]["ev"]]
    if op["merge"] and (hit[0] == "open_r" or hit[1] == merged):
        # Merging failed: the files of the components are there
        w.check_stl_files(op["prefix"], found, f"after a failed merge {label}")
    for name, data in start.items():
        touched = name in own or (op["merge"] and name == merged) or "_properties" in name
        if not touched and found.get(name, b"") != data:
            raise Violation("bystander_harmed", f"{name} {label}")
    if op.get("then") == "clean":
        c06.fill(start)
    elif op.get("then") == "other":
        other = dict(op, prefix="second")
        again = export(w, other)
        if not again.ok:
            raise Violation("not_repeatable", f"{again.describe()} elsewhere, {label}")
        complete(w, other, None, snapshot(SIM.fs.root), "elsewhere after an export " + label)
    again = export(w, op)
    if not again.ok:
        raise Violation("not_repeatable", f"{again.describe()} {label}")
    complete(w, op, None, snapshot(SIM.fs.root), label + ", repeated")


def merged_name(w, op):
    return f"{op['prefix'] or w.vehicle.name}.stl"


def export(w, op, faults=None):
    keywords = {"merge": op["merge"]}
    if op["prefix"] is not None:
        keywords["prefix"] = op["prefix"]
    return call(w.vehicle.to_stl, faults=faults, label="to_stl", **keywords)


def bag(vectors):
    return Counter(v.tobytes() for v in np.ascontiguousarray(vectors, np.float32))


def load(found, name):
    return c06.parse(
        found, name, lambda d: read_stl(name, opener=lambda p, m: io.BytesIO(d)), "merged"
    )


def complete(w, op, start, found, label):
    w.check_stl_files(op["prefix"], found, label)
    own = [n for n in w.stl_names(op["prefix"]) if n]
    merged = merged_name(w, op)
    if op["merge"]:
        wanted = Counter()
        for name in own:
            wanted += bag(load(found, name))
        got = bag(load(found, merged))
        if got != wanted:
            raise Violation(
                "wrong_merge",
                f"{merged} {label}: {sum((got - wanted).values())} triangles too many,"
                f" {sum((wanted - got).values())} missing",
            )
    if start is not None:
        for name, data in start.items():
            touched = name in own or (op["merge"] and name == merged) or "_properties" in name
            if not touched and found.get(name, b"") != data:
                raise Violation("bystander_harmed", f"{name} {label}")
        for name in found:
            new = name not in start and name not in own and "_properties" not in name
            if new and not (op["merge"] and name == merged):
                raise Violation("extra_file", f"{name} {label}")
