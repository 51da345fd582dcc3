"""C04 Generating a vehicle always reproduces its definition."""

from .. import build
from ..core import SIM, Violation
from ..world import VehicleWorld, call, expect
from . import common

OPS = [
    "generate",
    "generate",
    "generate",
    "mesh",
    "transform",
    "component_transform",
    "analyse",
    "export",
    "add",
    "reject",
    "add_vtf",
    "angle",
    "study",
    "patches",
    "analysis_first",
]


def gen(rng, tier, index):
    vehicle = build.draw_vehicle(
        rng,
        count=rng.choice([1, 2, 2, 3]),
        max_res=2,
        slow=0.04,
        hangar=0.03,
    )
    for comp in vehicle["comps"]:
        if comp["kind"] in ("revolved", "swept") and rng.random() < 0.4:
            comp["custom"] = True
    enabled = rng.sample(OPS[3:], rng.randint(2, len(OPS) - 3)) + OPS[:3]
    ops = []
    for _ in range(rng.randint(2, 8)):
        op = {"op": rng.choice(enabled), "comp": rng.randrange(6), "faults": []}
        if op["op"] == "generate" and rng.random() < 0.5:
            if rng.random() < 0.3:
                op["faults"].append(
                    {"t": "call", "n": rng.randrange(6), "kind": rng.choice(common.ERRORS)}
                )
            else:
                scope = rng.choice(["core", "all"])
                op["faults"].append(
                    {
                        "t": "line",
                        "scope": scope,
                        "n": common.log_uniform(rng, 300 if scope == "core" else 900),
                        "kind": rng.choice(["interrupt", "memory"]),
                    }
                )
        if op["op"] in ("transform", "component_transform", "add_vtf"):
            op["tf"] = [build.draw_transformation(rng, functions=False)]
        if op["op"] == "add":
            op["component"] = build.draw_component(
                rng, ["revolved", "swept", "composite"], 2, 0.4
            )
        if op["op"] == "reject":
            op["how"] = rng.choice(["type", "clustering", "keyword", "none"])
        if op["op"] == "angle":
            op["angle"] = build.number(rng, -20, 20)
        ops.append(op)
    return {"vehicle": vehicle, "ops": ops, "workers": rng.choice([1, 3, 8])}


def run(plan):
    SIM.cpu_count = plan["workers"]
    w = VehicleWorld(plan["vehicle"])
    generated = False
    translations = 0
    for op in plan["ops"]:
        kind = op["op"]
        component = common.pick(w.components, op["comp"])
        if kind == "generate":
            outcome = common.checked_call(
                w.vehicle.generate, faults=op["faults"], label="generate"
            )
            generated = outcome.ok
            translations = 0
            if outcome.ok:
                w.model_generate()
                w.check_meshes("after generation")
        elif kind == "add":
            w.add(op["component"])
            generated = False
        elif kind == "reject":
            reject(w, op)
            generated = generated and kind != "reject"
        elif kind == "add_vtf":
            if len(w.vtf) < 3:
                w.add_vtf(op["tf"])
        elif kind == "angle":
            w.vehicle.vehicle_angle_offset = op["angle"]
            w.angle = op["angle"]
        elif kind == "analysis_first":
            # Analysis generates a vehicle that was not generated before
            call(w.vehicle.analyse, w.densities([1.0]), label="analyse")
            translations = 0
        elif kind == "patches":
            call(component.generate_patches, label="generate_patches")
        elif not generated:
            continue
        elif kind == "mesh":
            call(lambda: component.mesh, label="mesh")
        elif kind in ("transform", "component_transform"):
            translations += 1
            if translations > 2:
                continue
            made = build.make_transformations(op["tf"])
            if kind == "transform":
                call(w.vehicle.transform, made, label="transform")
            else:
                name, *args = made[0]
                call(getattr(component, name), *args, label=name)
        elif kind == "analyse":
            call(w.vehicle.analyse, w.densities([1.0, 2.0]), label="analyse")
        elif kind == "export":
            call(w.vehicle.to_stl, "x", label="to_stl")
        elif kind == "study":
            study(w)
    expect(w.vehicle.generate, label="generate")
    w.model_generate()
    w.check_meshes("after the last generation")
    expect(w.vehicle.generate, label="generate")
    w.check_meshes("after generating twice")


def study(w):
    """Another way to use components: on their own."""
    for component in w.components[:2]:
        call(component.rotate, 10, "z", label="rotate")
        call(component.surface, label="surface")


class Unknown(build.RevolvedComponent):
    componenttype = "unknown"


def reject(w, op):
    """An attempt to add a component that the library rejects."""
    line = build.make_path(["line", [[0, 1, 0], [1, 1, 0]]])
    if op["how"] == "type":
        outcome = call(w.vehicle.add_component, Unknown(line), label="reject")
    elif op["how"] == "clustering":
        outcome = call(
            w.vehicle.add_component,
            build.RevolvedComponent(line),
            clustering={"k_clustering_func": None},
            label="reject",
        )
    elif op["how"] == "keyword":
        outcome = call(
            w.vehicle.add_component, build.RevolvedComponent(line), mirror="x", label="reject"
        )
    else:
        outcome = call(w.vehicle.add_component, None, label="reject")
    if outcome.ok:
        raise Violation("accepted", f"a component that is not valid ({op['how']})")
    if len(w.vehicle.components) != len(w.components):
        raise Violation("rejected_component_kept", op["how"])
