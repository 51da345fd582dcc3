"""C03 Meshing always ends and always releases its workers."""

from .. import build, pool
from ..core import SIM, Violation
from ..world import VehicleWorld, call, expect
from . import common

TIMEOUT_IS_VIOLATION = True
KINDS = ["task", "encoding", "pool_start", "wait", "call", "kill", "stall"]
OPS = ["mesh", "mesh", "surface", "component_stl", "vehicle_stl", "analyse", "meshes"]


def gen(rng, tier, index):
    vehicle = build.draw_vehicle(
        rng, count=rng.choice([1, 2, 3]), max_res=rng.choice([1, 2, 3]), slow=0.03
    )
    vehicle["inprocess"] = rng.random() < 0.05
    kinds = rng.sample(KINDS, rng.choice([1, 2, 4]))
    ops = []
    for _ in range(rng.randint(1, 6)):
        op = {"op": rng.choice(OPS), "comp": rng.randrange(4), "faults": []}
        op["fresh"] = rng.random() < 0.7
        op.update(common.machine(rng))
        for _ in range(rng.choice([0, 1, 1, 2])):
            fault = common.draw_fault(rng, vehicle["inprocess"], kinds)
            if fault.get("kind") == "kill":
                op["faults"] = [fault]
                break
            op["faults"].append(fault)
        ops.append(op)
    return {"vehicle": vehicle, "ops": ops}


def run(plan):
    w = VehicleWorld(plan["vehicle"])
    errors = []
    expect(w.vehicle.generate, label="generate")
    w.model_generate()
    densities = w.densities([1.0, 2.0])
    for op in plan["ops"]:
        common.use_machine(op)
        component = common.pick(w.components, op["comp"])
        if op["fresh"]:
            expect(w.vehicle.generate, label="generate")
        if op["op"] == "mesh":
            outcome = run_one(op, lambda: component.mesh)
        elif op["op"] == "surface":
            outcome = run_one(op, component.surface)
        elif op["op"] == "component_stl":
            outcome = run_one(op, lambda: component.to_stl("single.stl"))
        elif op["op"] == "vehicle_stl":
            outcome = run_one(op, lambda: w.vehicle.to_stl("all"))
        elif op["op"] == "analyse":
            outcome = run_one(op, lambda: w.vehicle.analyse(densities))
        else:
            outcome = run_one(op, lambda: [c.mesh for c in w.components])
        if not outcome.ok:
            # The caller keeps the error, and with it the frames of the call
            errors.append(outcome.error)
        left = pool.unreleased()
        if left:
            raise Violation(
                "workers_left",
                f"{len(left)} pools are not released after {op['op']}"
                f" {outcome.describe()}",
            )
    expect(w.vehicle.generate, label="generate")
    w.check_meshes("at the end")
    if pool.unreleased():
        raise Violation("workers_left", "pools are not released at the end")


def run_one(op, function):
    outcome = call(function, faults=op["faults"], label=op["op"])
    if outcome.hung:
        if any(kind == "worker_kill" for kind, _ in outcome.fired):
            SIM.violation("hang_worker_killed", "meshing does not end when a worker was killed")
        else:
            raise Violation("hang", f"{op['op']} does not end: {outcome.error}")
    elif not outcome.ok and not outcome.fired:
        raise Violation(
            f"unexpected_{type(outcome.error).__name__}", f"{op['op']} {outcome.describe()}"
        )
    return outcome
