"""C01 Meshes do not depend on how meshing work is scheduled."""

import copy

import numpy as np

from .. import build, model, pool
from ..core import SIM, Violation
from ..world import VehicleWorld, expect, mesh_difference
from . import common


def gen(rng, tier, index):
    vehicle = build.draw_vehicle(
        rng,
        count=rng.choice([1, 1, 2]),
        max_res=rng.choice([2, 3, 5]),
        slow=0.05,
    )
    schedules = []
    for _ in range(rng.choice([2, 2, 3])):
        m = common.machine(rng)
        m["inprocess"] = rng.random() < 0.25
        m["read"] = rng.choice(["mesh", "mesh", "surface", "both", "vehicle"])
        m["order"] = rng.randrange(6)
        m["resolution"] = rng.choice([None, None, None, 1, 2, 4])
        schedules.append(m)
    return {
        "vehicle": vehicle,
        "schedules": schedules,
        "real": rng.random() < 0.01,
        "probe": [build.number(rng, 0, 1) for _ in range(4)],
    }


def samples(component, probe):
    """The patches as seen from outside."""
    out = []
    for key, patch in component.patches.items():
        for r, s in ((probe[0], probe[1]), (probe[2], probe[3])):
            p = patch(r, s)
            out.append((key, float(p.x), float(p.y), float(p.z)))
    return out


def definition(component):
    return common.freeze(
        {
            "resolution": component.stl_resolution,
            "name": component.name,
            "keys": list(component.patches),
        }
    )


def run(plan):
    reference = {}
    usual = probe_library()
    for number, m in enumerate(plan["schedules"]):
        common.use_machine(m)
        spec = dict(plan["vehicle"], inprocess=m["inprocess"])
        given = common.freeze(spec)
        w = VehicleWorld(spec)
        expect(w.vehicle.generate, label="generate")
        w.model_generate()
        count = len(w.components)
        order = list(range(count))
        if m["order"] % 2:
            order.reverse()
        special = set()
        pool.use_real(plan["real"] and number == 0)
        for i in order:
            component = w.components[i]
            before = samples(component, plan["probe"]), definition(component)
            resolution = m["resolution"]
            if isinstance(w.specs[i]["res"], dict):
                resolution = None
            if m["read"] == "vehicle" and not w.ghost(i):
                expect(w.vehicle.to_stl, label="to_stl")
                mesh = expect(lambda: component.mesh, label="mesh")
            elif resolution and m["read"] == "surface":
                # A resolution for this meshing only
                expect(component.surface, resolution, label="surface")
                mesh = expect(lambda: component.mesh, label="mesh")
                other = copy.deepcopy(w.specs[i])
                other["res"] = resolution
                grids = model.generate(other, w.angle)
                grids = [(k, model.transform(g, w.vtf)) for k, g in grids]
                difference = mesh_difference(mesh.vectors, model.triangles(grids))
                if difference:
                    raise Violation("wrong_mesh", f"at resolution {resolution}: {difference}")
                if component.stl_resolution != w.specs[i]["res"]:
                    raise Violation("changed_definition", "resolution of the component")
                check_unchanged(component, before, plan["probe"])
                special.add(i)
                continue
            else:
                if m["read"] in ("surface", "both"):
                    expect(component.surface, label="surface")
                mesh = expect(lambda: component.mesh, label="mesh")
                if m["read"] == "both":
                    expect(component.surface, label="surface")
            w.check_vectors(i, mesh.vectors, f"with {m['workers']} workers")
            digest = common.hash_mesh(mesh.vectors)
            SIM.log("mesh", i, digest)
            if reference.setdefault(i, digest) != digest:
                raise Violation(
                    "schedule_dependent", f"mesh of component {i} under schedule {number}"
                )
            if expect(lambda: component.mesh, label="mesh") is not mesh:
                w.check_mesh(i, "read again")
            check_unchanged(component, before, plan["probe"])
        pool.use_real(False)
        if spec != given:
            raise Violation("changed_input", "data passed in by the caller")
        # The library still behaves as it did
        for i in set(order) - special:
            w.check_mesh(i, "after all were meshed")
        if probe_library() != usual:
            raise Violation("changed_library", "a component with default options")


def check_unchanged(component, before, probe):
    if definition(component) != before[1]:
        raise Violation("changed_definition", f"{definition(component)} was {before[1]}")
    if samples(component, probe) != before[0]:
        raise Violation("changed_patches", "patches after meshing")


LINE = ["line", [[0, 0.5, 0], [1, 1, 0]]]


def probe_library():
    """Mesh of a component that is defined with defaults only."""
    component = build.RevolvedComponent(build.make_path(LINE))
    vehicle = build.Vehicle()
    expect(vehicle.add_component, component, label="add_component")
    expect(vehicle.generate, label="generate")
    mesh = expect(lambda: component.mesh, label="mesh")
    return common.hash_mesh(mesh.vectors), vehicle.verbosity, component.verbosity
