"""C02 A failed or interrupted meshing never leaves a partial mesh."""

import os

from .. import build
from ..core import SIM, Violation
from ..fs import snapshot
from ..world import VehicleWorld, call, expect
from . import common

READS = ["mesh", "mesh", "surface", "component_stl", "vehicle_stl", "analyse", "generate"]


def gen(rng, tier, index):
    vehicle = build.draw_vehicle(
        rng, count=rng.choice([1, 1, 2]), max_res=rng.choice([1, 2, 3]), slow=0.03,
        hangar=0.02,
    )
    rate = rng.choice([0.5, 0.8])
    kinds = None
    if rng.random() < 0.5:
        kinds = rng.sample(["task", "call", "line", "wait", "pool_start"], 2)
    ops = []
    for _ in range(rng.randint(2, 7)):
        op = {
            "op": rng.choice(READS),
            "comp": rng.randrange(4),
            "faults": [],
            "verify": rng.random() < 0.5,
            "fresh": rng.random() < 0.7,
        }
        op.update(common.machine(rng))
        if rng.random() < rate:
            fault = common.draw_fault(rng, vehicle["inprocess"], kinds)
            if fault["t"] == "line" and op["op"] == "analyse":
                # Interrupted between two assignments: not a matter of meshing
                op["op"] = "mesh"
            op["faults"].append(fault)
        ops.append(op)
    early = [rng.choice(["mesh", "surface", "component_stl", "vehicle_stl"])]
    early = early if rng.random() < 0.15 else []
    return {"vehicle": vehicle, "ops": ops, "extra": early}


def too_early(w, kind):
    """There is nothing to mesh yet: no empty mesh is made."""
    i = 0
    component = w.components[i]
    if kind == "mesh":
        outcome = call(lambda: component.mesh, label="early mesh")
    elif kind == "surface":
        outcome = call(component.surface, label="early surface")
    elif kind == "component_stl":
        outcome = call(component.to_stl, "early.stl", label="early to_stl")
    else:
        outcome = call(w.vehicle.to_stl, "early", label="early export")
    files = snapshot(SIM.fs.root)
    for name in files:
        if name.endswith(".stl"):
            owner = i if kind == "component_stl" else w.stl_names("early").index(name)
            check_file(w, owner, files, name)
    if kind == "mesh" and outcome.ok:
        w.check_vectors(i, outcome.value.vectors, "before generation")
    if kind == "vehicle_stl" and outcome.ok:
        w.check_stl_files("early", files, "before generation")
    if kind == "component_stl" and outcome.ok and not w.ghost(i):
        check_file(w, i, files, "early.stl")


def run(plan):
    w = VehicleWorld(plan["vehicle"])
    w.model_generate()
    for kind in plan["extra"]:
        too_early(w, kind)
    expect(w.vehicle.generate, label="generate")
    densities = w.densities([1.0, 2.5])
    held = []
    generated = True
    for op in plan["ops"]:
        common.use_machine(op)
        i = op["comp"] % len(w.components)
        component = w.components[i]
        kind = op["op"]
        if not generated or op["fresh"]:
            # Generation failed before: it has to be repeated first
            expect(w.vehicle.generate, label="generate")
            generated = True
        exported = f"single-{i}.stl"
        if kind == "mesh":
            function, args = (lambda: component.mesh), ()
        elif kind == "surface":
            function, args = component.surface, ()
        elif kind == "component_stl":
            function, args = component.to_stl, (exported,)
        elif kind == "vehicle_stl":
            function, args = w.vehicle.to_stl, ("all",)
        elif kind == "analyse":
            function, args = w.vehicle.analyse, (densities,)
        else:
            function, args = w.vehicle.generate, ()
        before = snapshot(SIM.fs.root)
        outcome = common.checked_call(
            function, *args, faults=op["faults"], label=kind
        )
        files = snapshot(SIM.fs.root)
        hit_by_line = any(f["t"] == "line" for f in op["faults"])
        if outcome.ok:
            if kind == "mesh":
                w.check_vectors(i, outcome.value.vectors, "returned")
                held.append((i, outcome.value, op))
            elif kind == "vehicle_stl":
                w.check_stl_files("all", files, "after export")
            elif kind == "component_stl" and not w.ghost(i):
                check_file(w, i, files, exported)
        else:
            outcome.value = None
            if kind == "generate":
                generated = False
            if not hit_by_line:
                # What was exported before the failure is complete
                for name in files:
                    if name.endswith(".stl") and files[name] != before.get(name):
                        owner = i if name == exported else w.stl_names("all").index(name)
                        check_file(w, owner, files, name)
        if generated and op["verify"]:
            for k in range(len(w.components)):
                w.check_mesh(k, f"after {kind} {outcome.describe()}")
    if not generated:
        expect(w.vehicle.generate, label="generate")
    w.check_meshes("at the end")
    expect(w.vehicle.to_stl, "end", label="to_stl")
    w.check_stl_files("end", snapshot(SIM.fs.root), "at the end")
    for i, mesh, op in held:
        w.check_vectors(i, mesh.vectors, "held since before")


def check_file(w, i, files, name):
    from ..stub_pymesh import read_stl
    import io

    if name not in files:
        raise Violation("missing_file", name)
    try:
        vectors = read_stl(name, opener=lambda p, mode: io.BytesIO(files[p]))
    except ValueError as error:
        raise Violation("incomplete_file", f"{name}: {error}")
    w.check_vectors(i, vectors, f"in {name}")
