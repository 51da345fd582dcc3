"""C05 Geometry follows every transformation exactly once, or not at all."""

from .. import build, model
from ..core import SIM, Violation
from ..fs import snapshot
from ..world import VehicleWorld, call, expect
from . import common
from .c02 import check_file

OPS = [
    "transform",
    "transform",
    "bad_transform",
    "bad_transform",
    "component",
    "bad_component",
    "mesh",
    "surface",
    "analyse",
    "export",
    "component_stl",
    "reflect",
    "check",
    "stl_check",
    "component_analyse",
    "repair",
    "modifier",
    "curve",
    "generate",
    "bad_analyse",
]


def gen(rng, tier, index):
    vehicle = build.draw_vehicle(
        rng,
        count=rng.choice([1, 2, 3]),
        max_res=2,
        slow=0.02,
        hangar=0.03,
        rate=rng.choice([0.1, 0.3]),
    )
    enabled = rng.sample(OPS[2:], rng.randint(2, len(OPS) - 2)) + OPS[:2]
    ops = []
    for _ in range(rng.randint(2, 9)):
        op = {"op": rng.choice(enabled), "comp": rng.randrange(6)}
        op["verify"] = rng.choice(["all", "one", "none"])
        if op["op"] in ("mesh", "analyse", "export") and rng.random() < 0.35:
            kinds = ["task", "pool_start", "wait", "call"]
            op["faults"] = [common.draw_fault(rng, vehicle["inprocess"], kinds)]
        if op["op"] in ("transform", "bad_transform", "component"):
            n = 1 if op["op"] == "component" else rng.choice([1, 1, 2])
            op["tf"] = [
                build.draw_transformation(rng, functions=rng.random() < 0.3)
                for _ in range(n)
            ]
            op["form"] = rng.choice(["list", "list", "tuple"])
            op["faults"] = []
            if op["op"] == "transform" and rng.random() < 0.3:
                # Hits the analysis that follows, if there was one before
                if rng.random() < 0.7:
                    ops.append({"op": "analyse", "comp": 0, "verify": "none"})
                op["faults"].append(
                    common.draw_fault(
                        rng, vehicle["inprocess"], ["task", "pool_start", "wait", "call"]
                    )
                )
        if op["op"] in ("bad_transform", "bad_component"):
            op["bad"] = rng.choice(list(BAD))
            op["at"] = rng.randrange(3)
        if op["op"] == "reflect":
            op["axis"] = rng.choice("xyz")
        ops.append(op)
    return {"vehicle": vehicle, "ops": ops, "workers": rng.choice([1, 2, 8])}


BAD = {
    "unknown": ("spin", 10, "x"),
    "arguments": ("rotate", 10, "x", 1, 2),
    "angle": ("rotate", "ten", "x"),
    "axis": ("rotate", 10, 3),
    "none": ("translate",),
    "empty": (),
    "number": (7, 1),
}


def run(plan):
    SIM.cpu_count = plan["workers"]
    w = VehicleWorld(plan["vehicle"])
    expect(w.vehicle.generate, label="generate")
    w.model_generate()
    moved = [0] * len(w.components)
    for op in plan["ops"]:
        kind = op["op"]
        i = op["comp"] % len(w.components)
        component = w.components[i]
        if kind == "transform":
            cost = sum(t[0] != "rotate" for t in op["tf"])
            if max(moved) + cost > 4:
                continue
            made = build.make_transformations(op["tf"])
            if op["form"] == "tuple" and len(made) == 1:
                made = made[0]
            outcome = common.checked_call(
                w.vehicle.transform, made, faults=op["faults"], label="transform"
            )
            if not outcome.ok:
                w.check_mesh(i, "after a transformation that failed")
                continue
            w.model_transform(op["tf"])
            moved = [m + cost for m in moved]
        elif kind == "bad_transform":
            made = build.make_transformations(op["tf"])
            made.insert(op["at"] % (len(made) + 1), BAD[op["bad"]])
            refuse(w.vehicle.transform, made, op["bad"])
        elif kind == "component":
            cost = sum(t[0] != "rotate" for t in op["tf"])
            if moved[i] + cost > 4:
                continue
            moved[i] += cost
            name, *args = build.make_transformations(op["tf"])[0]
            expect(getattr(component, name), *args, label=name)
            w.model_transform(op["tf"], only=i)
        elif kind == "bad_component":
            bad = BAD[op["bad"]]
            if op["bad"] in ("arguments", "angle", "axis", "none"):
                refuse(getattr(component, bad[0]), bad[1:], op["bad"], star=True)
        elif kind == "reflect":
            if w.specs[i]["opts"].get("reflect"):
                continue
            if len(w.grids[i]) > 16:
                continue
            expect(component.reflect, op["axis"], label="reflect")
            options = {"reflect": op["axis"], "append": True}
            w.grids[i] = mirrored(w.grids[i], options)
            w._triangles = {}
        elif kind == "mesh":
            outcome = attempt(op, lambda: component.mesh)
            if outcome.ok:
                w.check_vectors(i, outcome.value.vectors, "read")
        elif kind == "surface":
            expect(component.surface, label="surface")
        elif kind == "analyse":
            attempt(op, w.vehicle.analyse, w.densities([1.0, 3.0]))
        elif kind == "bad_analyse":
            call(w.vehicle.analyse, {"nothing": 1.0}, label="bad analyse")
        elif kind == "export":
            if attempt(op, w.vehicle.to_stl, "e").ok:
                w.check_stl_files("e", snapshot(SIM.fs.root), "exported")
        elif kind == "component_stl":
            expect(component.to_stl, "single.stl", label="component to_stl")
            if not w.ghost(i):
                check_file(w, i, snapshot(SIM.fs.root), "single.stl")
        elif kind == "stl_check":
            expect(component.stl_check, label="stl_check")
        elif kind == "repair":
            # Moves vertices by less than the tolerance of the comparison
            if len(w.expected(i)) <= 100:
                expect(component.stl_repair, label="stl_repair")
        elif kind in ("modifier", "curve"):
            # The option of the component once more
            option = w.specs[i]["opts"].get("mod" if kind == "modifier" else "curv")
            if not option or moved[i] + 1 > 4:
                continue
            moved[i] += 1
            if kind == "modifier":
                expect(component.apply_modifier, label=kind)
                change = lambda g: g + model.field(option, g)
            else:
                expect(component.curve, label=kind)
                change = lambda g: model.curve(g, option)
            w.grids[i] = [(k, change(g)) for k, g in w.grids[i]]
            w._triangles = {}
        elif kind == "component_analyse":
            call(component.analyse, label="component analyse")
        elif kind == "generate":
            expect(w.vehicle.generate, label="generate")
            w.model_generate()
            moved = [0] * len(w.components)
        if op["verify"] == "all" or kind == "check":
            w.check_meshes(f"after {kind}")
        elif op["verify"] == "one":
            w.check_mesh(i, f"after {kind}")
    w.check_meshes("at the end")
    expect(w.vehicle.to_stl, "end", label="to_stl")
    w.check_stl_files("end", snapshot(SIM.fs.root), "at the end")


def attempt(op, function, *args):
    """Something that moves nothing, whether it succeeds or not."""
    faults = op.get("faults", [])
    return common.checked_call(function, *args, faults=faults, label=op["op"])


def mirrored(grids, options):
    names = {k for k, _ in grids}
    out = model.reflect(grids, options)
    merged = dict(grids)
    for k, g in out[len(grids) :]:
        merged[k] = g
    assert names <= set(merged)
    return list(merged.items())


def refuse(function, argument, label, star=False):
    args = tuple(argument) if star else (argument,)
    outcome = call(function, *args, label=f"bad {label}")
    if outcome.ok:
        raise Violation("accepted", f"a transformation that is not valid ({label})")
