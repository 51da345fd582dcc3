"""C07 Analysis results always describe the current geometry."""

import io

import numpy as np
import pandas as pd

from .. import build
from ..core import SIM, Violation
from ..fs import snapshot
from ..world import VehicleWorld, call, expect
from . import c06, common

OPS = [
    "analyse",
    "analyse",
    "bad_analyse",
    "transform",
    "transform",
    "bad_transform",
    "generate",
    "after_generating",
    "export",
    "read",
    "mutate",
    "component",
]
KINDS = ["task", "pool_start", "wait", "call", "encoding"]


def gen(rng, tier, index):
    vehicle = build.draw_vehicle(
        rng,
        count=rng.choice([1, 2, 2, 3]),
        max_res=rng.choice([1, 2, 3]),
        closed=True,
        rate=rng.choice([0.1, 0.3]),
        allowed=["tf", "reflect", "ghost", "clust"],
    )
    for comp in vehicle["comps"]:
        comp["opts"].pop("append", None)
        if comp["opts"].get("reflect"):
            comp["opts"]["append"] = False
        for child in comp.get("children", ()):
            if child["opts"].get("reflect"):
                child["opts"]["append"] = False
    enabled = rng.sample(OPS[1:], rng.randint(3, len(OPS) - 1)) + OPS[:1]
    ops = []
    values = build.draw_densities(rng, 3, 5)
    for _ in range(rng.randint(3, 9)):
        op = {"op": rng.choice(enabled), "faults": []}
        if op["op"] in ("analyse", "after_generating"):
            if rng.random() < 0.5:
                values = build.draw_densities(rng, 3, 5)
            op["values"] = list(values)
        if op["op"] == "component":
            op["comp"] = rng.randrange(4)
            op["tf"] = [build.draw_transformation(rng, functions=False)]
            op["read"] = rng.random() < 0.5
        if op["op"] == "bad_analyse":
            op["how"] = rng.choice(["missing", "empty", "text"])
            op["at"] = rng.randrange(4)
            op["values"] = build.draw_densities(rng, 3, 5)
        if op["op"] in ("transform", "bad_transform"):
            op["tf"] = [
                build.draw_transformation(rng, functions=False)
                for _ in range(rng.choice([1, 1, 2]))
            ]
        if op["op"] == "export":
            op["prefix"] = rng.choice([None, "p", "q"])
        if op["op"] in ("analyse", "transform", "generate") and rng.random() < 0.3:
            op["faults"].append(common.draw_fault(rng, vehicle["inprocess"], KINDS))
        ops.append(op)
    return {"vehicle": vehicle, "ops": ops, "workers": rng.choice([1, 2, 8])}


class State:
    densities = None  # of the results that are valid
    last = None
    automatic = None
    given = None  # dictionary of the caller, and what it should hold
    moved = 0
    stale = False  # a component was moved on its own after the last analysis


def run(plan):
    SIM.cpu_count = plan["workers"]
    w = VehicleWorld(plan["vehicle"])
    expect(w.vehicle.generate, label="generate")
    w.model_generate()
    s = State()
    for op in plan["ops"]:
        step(w, s, op)
        verify(w, s, f"after {op['op']}")
    step(w, s, {"op": "export", "prefix": "end"})


def step(w, s, op):
    v = w.vehicle
    kind = op["op"]
    faults = op.get("faults")
    if kind == "analyse":
        densities = w.densities(op["values"])
        given = dict(densities)
        outcome = common.checked_call(v.analyse, given, faults=faults, label="analyse")
        if given != densities:
            raise Violation("changed_input", "densities")
        if outcome.ok:
            s.densities = s.last = densities
            s.given = given
            s.stale = False
            compare_tuple(w, s, outcome.value)
    elif kind == "bad_analyse":
        densities = w.densities(op["values"])
        name = common.pick(w.names(), op["at"])
        if op["how"] == "missing":
            del densities[name]
        elif op["how"] == "empty":
            densities = {}
        else:
            densities[name] = "heavy"
        outcome = call(v.analyse, densities, label="bad analyse")
        if outcome.ok:
            raise Violation("accepted", f"densities that are {op['how']}")
    elif kind == "mutate" and s.given:
        # The dictionary belongs to the caller
        for k in s.given:
            s.given[k] = 77.0
    elif kind == "transform":
        s.moved += sum(t[0] != "rotate" for t in op["tf"])
        if s.moved > 3:
            return
        made = build.make_transformations(op["tf"])
        outcome = common.checked_call(v.transform, made, faults=faults, label="transform")
        if outcome.ok:
            w.model_transform(op["tf"])
            s.stale = False
    elif kind == "component":
        s.moved += sum(t[0] != "rotate" for t in op["tf"])
        if s.moved > 3:
            return
        i = op["comp"] % len(w.components)
        name, *args = build.make_transformations(op["tf"])[0]
        expect(getattr(w.components[i], name), *args, label=f"component {name}")
        w.model_transform(op["tf"], only=i)
        s.stale = True
        if op["read"]:
            w.check_meshes("read")
    elif kind == "bad_transform":
        made = build.make_transformations(op["tf"]) + [("spin", 1)]
        outcome = call(v.transform, made, label="bad transform")
        if outcome.ok:
            raise Violation("accepted", "a transformation that is not valid")
    elif kind == "generate":
        outcome = common.checked_call(v.generate, faults=faults, label="generate")
        s.moved = 0
        if not outcome.ok:
            expect(v.generate, label="generate")
        w.model_generate()
        s.stale = False
        s.densities = s.automatic
        s.last = s.automatic or s.last
    elif kind == "after_generating":
        s.automatic = w.densities(op["values"])
        expect(v.analyse_after_generating, dict(s.automatic), label="after_generating")
    elif kind == "export":
        before = snapshot(SIM.fs.root)
        prefix = op["prefix"]
        args = () if prefix is None else (prefix,)
        expect(v.to_stl, *args, label="to_stl")
        found = snapshot(SIM.fs.root)
        w.check_stl_files(prefix, found, "exported")
        files(w, s, prefix, before, found)
    elif kind == "read":
        w.check_meshes("read")


def scales(w, parts):
    length = w.extent()
    mass = sum(abs(p["mass"]) for p in parts.values())
    area = sum(p["area"] for p in parts.values())
    return {
        "volume": 1e-5 * area * length,
        "mass": 1e-4 * mass,
        "area": 1e-4 * area,
        "cog": 1e-3 * length,
        "moi": 1e-3 * mass * length**2,
    }


def close(got, wanted, tolerance):
    try:
        got = np.asarray(got, float)
    except (TypeError, ValueError):
        return False
    wanted = np.asarray(wanted, float)
    if got.shape != wanted.shape:
        return False
    return bool(np.all(np.abs(got - wanted) <= tolerance + 1e-4 * np.abs(wanted)))


def expected(w, s):
    densities = s.densities
    if densities is None and w.vehicle.analysis_results:
        densities = s.last
        if densities is None:
            raise Violation("results_from_nothing", "results without an analysis")
    if densities is None:
        return None
    return w.expected_analysis(densities) or "unknown"


def verify(w, s, when):
    v = w.vehicle
    wanted = expected(w, s)
    if wanted is None or s.stale:
        return
    if not v.analysis_results:
        raise Violation("results_lost", when)
    if wanted == "unknown":
        SIM.count("badly conditioned")
        return
    SIM.count("results compared")
    parts, total = wanted
    tolerance = scales(w, parts)
    for key in ("volume", "mass", "area", "cog", "moi"):
        if not close(getattr(v, key), total[key], tolerance[key]):
            raise Violation(
                "wrong_results", f"{key} {when}: {getattr(v, key)} instead of {total[key]}"
            )
        if key != "area" and not close(v.analysis_results[key], total[key], tolerance[key]):
            raise Violation("wrong_results", f"analysis_results[{key}] {when}")
        table = v.component_properties[key]
        if sorted(table) != sorted(parts):
            raise Violation("wrong_results", f"components {sorted(table)} {when}")
        for name, part in parts.items():
            limit = tolerance[key]
            if not close(table[name], part[key], limit):
                raise Violation(
                    "wrong_results",
                    f"{key} of {name} {when}: {table[name]} instead of {part[key]}",
                )


def compare_tuple(w, s, value):
    wanted = expected(w, s)
    if wanted is None or wanted == "unknown":
        return
    parts, total = wanted
    tolerance = scales(w, parts)
    for key, got in zip(("volume", "mass", "cog", "moi"), value):
        if not close(got, total[key], tolerance[key]):
            raise Violation("wrong_results", f"{key} returned: {got}")


def files(w, s, prefix, before, found, only=None):
    base = prefix or w.vehicle.name
    directory = f"{base}_properties/{base}"
    wanted = expected(w, s)
    changed = {k for k in found if found[k] != before.get(k) or k not in before}
    if wanted is None:
        if f"{directory}_volmass.csv" in changed:
            raise Violation("results_from_nothing", "exported without an analysis")
        return
    if wanted == "unknown" or s.stale:
        return
    parts, total = wanted
    tolerance = scales(w, parts)
    for key in ("cog", "moi"):
        name = f"{directory}_{key}.txt"
        if only not in (None, f"{key}.txt"):
            continue
        got = c06.parse(found, name, c06.numbers, "")
        if not close(got, np.ravel(total[key]), tolerance[key]):
            raise Violation("wrong_file", f"{name}: {got} instead of {total[key]}")
    if only not in (None, "volmass.csv"):
        return
    name = f"{directory}_volmass.csv"
    table = c06.parse(found, name, lambda d: pd.read_csv(io.BytesIO(d), index_col=0), "")
    rows = dict(parts, vehicle=total)
    if sorted(map(str, table.index)) != sorted(rows):
        raise Violation("wrong_file", f"{name}: rows {list(table.index)}")
    for row, values in rows.items():
        for key in ("mass", "volume", "area"):
            if not close(table.loc[row, key], values[key], tolerance[key]):
                raise Violation("wrong_file", f"{name}: {key} of {row}")
