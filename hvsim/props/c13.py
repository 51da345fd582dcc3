"""C13 Vehicles and studies do not influence each other."""

import copy

import numpy as np
from hypervehicle import transformations

from .. import build, study as st
from ..core import SIM, Violation
from ..fs import snapshot
from ..sched import Scheduler
from ..world import VehicleWorld, call, captured, expect
from . import c07, common

CART3D = [["rotate", 180, "z"], ["rotate", 90, "x"]]
OPS = [
    "generate",
    "transform",
    "transform",
    "mesh",
    "mesh",
    "analyse",
    "export",
    "define",
    "property",
    "dvdp",
    "csv",
]


def gen(rng, tier, index):
    closed = rng.random() < 0.45
    pool = build.draw_vehicle(
        rng,
        count=rng.choice([1, 2, 3]),
        max_res=rng.choice([1, 2]),
        rate=rng.choice([0.2, 0.5]),
        closed=closed,
        slow=0.03,
    )
    # The same lists and functions for several of them
    for comp in pool["comps"]:
        for key in ("tf", "curv", "clust", "mod"):
            if key in pool["comps"][0]["opts"] and rng.random() < 0.5:
                comp["opts"][key] = copy.deepcopy(pool["comps"][0]["opts"][key])
        if "tf" in comp["opts"]:
            comp["opts"]["tf"] = comp["opts"]["tf"][:1]
    threads = rng.random() < 0.45
    slots = []
    spec = st.draw_spec(rng, count=1)
    for k in range(rng.choice([2, 2, 3])):
        if rng.random() < 0.2:
            slots.append({"kind": "study", "combined": f"combined{k}.csv"})
            continue
        chosen = rng.sample(range(len(pool["comps"])), rng.randint(1, len(pool["comps"])))
        vehicle = dict(pool, comps=[copy.deepcopy(pool["comps"][i]) for i in chosen])
        vehicle["inprocess"] = rng.random() < 0.3
        long = any(c["kind"] in ("wing", "fin") for c in vehicle["comps"])
        if rng.random() < 0.3 and not long:
            vehicle["vtf"] = copy.deepcopy(CART3D)
        if rng.random() < 0.06 and not threads:
            # (too slow when every line is traced)
            vehicle = build.draw_vehicle(rng, hangar=1.0)
        slots.append({"kind": "vehicle", "vehicle": vehicle})
    ops = []
    kinds = rng.sample(OPS, rng.randint(4, len(OPS))) + ["mesh"]
    tfs = [
        CART3D,
        [build.draw_transformation(rng)],
        [build.draw_transformation(rng), ["rotate", 30, "y"]],
    ]
    for _ in range(rng.randint(3, 9) + (3 if threads else 0)):
        op = {"slot": rng.randrange(4), "op": rng.choice(kinds), "faults": []}
        if op["op"] in ("transform", "define"):
            op["tf"] = copy.deepcopy(rng.choice(tfs))
        if op["op"] == "analyse":
            op["values"] = [build.number(rng, 0.5, 4)]
        op["args"] = st.draw_study(rng, spec)
        if not threads:
            if rng.random() < 0.15:
                op["op"] = rng.choice(["copy", "copy_component"])
                if op["op"] == "copy_component":
                    op["opts"] = build.draw_options(rng, 0.5, allowed=["tf", "clust", "mod"])
            elif rng.random() < 0.15:
                op["faults"].append(
                    common.draw_fault(rng, False, ["task", "pool_start", "call"])
                )
        ops.append(op)
        if op["op"] == "copy" and rng.random() < 0.5:
            # Something is done with one of the two
            one = dict(op, op=rng.choice(["transform", "define", "generate"]), again=True)
            one["tf"] = copy.deepcopy(rng.choice(tfs))
            if rng.random() < 0.5:
                one["slot"] = "last"
            ops.append(one)
    plan = {"slots": slots, "spec": spec, "ops": ops, "threads": None}
    plan.update(common.machine(rng))
    if threads:
        plan["scope"] = rng.choice(["core", "state", "all", None])
        plan["gaps"] = common.draw_gaps(rng, plan["scope"], 300, 30)
        plan["twin"] = rng.random() < 0.4  # a deep copy of the first vehicle
        plan["parallel"] = True
    return plan


class Shared(dict):
    """Objects passed in by the caller, with what they looked like at first."""

    def __init__(self):
        super().__init__()
        self.looks = {}

    def __setitem__(self, key, value):
        super().__setitem__(key, value)
        self.looks[key] = look(value)

    def check(self, when):
        for key, value in self.items():
            if look(value) != self.looks[key]:
                raise Violation("changed_input", f"{key} {when}: {look(value)!r:.300}")


def look(value):
    """What can be seen of an object."""
    if isinstance(value, dict):
        return [(k, look(v)) for k, v in value.items()]
    if isinstance(value, (list, tuple)):
        return type(value).__name__, [look(v) for v in value]
    if isinstance(value, (int, float, str, type(None))):
        return value
    if hasattr(value, "x") and hasattr(value, "y") and hasattr(value, "z"):
        return value.x, value.y, value.z
    if type(value).__module__.startswith("hvsim"):
        return [(k, look(v)) for k, v in vars(value).items()]
    if callable(value):
        # A path or clustering function
        return [look(value(t)) for t in (0.0, 0.3, 0.75, 1.0)]
    return repr(value)


class Slot:
    """A vehicle or a study, with the model."""

    def __init__(self, number, study=None, world=None):
        self.number = number
        self.study = study
        self.world = world
        self.generated = False
        self.densities = None
        self.moved = 0
        self.expected = None
        self.properties = {}


def run(plan):
    common.use_machine(plan)
    shared = Shared()
    generator = st.make_generator(plan["spec"])
    slots = []
    for k, s in enumerate(plan["slots"]):
        if s["kind"] == "study":
            study = expect(st.SensitivityStudy, generator, verbosity=0, label="study")
            study.combined_fn = s["combined"]
            slots.append(Slot(k, study=study))
        else:
            slots.append(Slot(k, world=VehicleWorld(s["vehicle"], shared)))
    if plan.get("parallel"):
        if plan.get("twin") and slots[0].world:
            slots.append(copied(slots[0], None, "copy", len(slots)))
        in_threads(plan, slots, shared)
    else:
        in_turn(plan, slots, shared)
    for slot in slots:
        verify(slot, plan["spec"], "at the end")
    shared.check("at the end")
    if transformations.CART3D != [tuple(t) for t in CART3D]:
        raise Violation("changed_input", f"CART3D is {transformations.CART3D}")


def made(shared, tf):
    if tf == CART3D:
        return transformations.CART3D
    return build._shared(shared, tf, build.make_transformations)


def possible(slot, op):
    """Operation that can be made with this slot, or None."""
    kind = op["op"]
    if slot.study:
        return {"csv": "csv"}.get(kind, "dvdp") if slot.expected else "dvdp"
    if kind in ("dvdp", "csv"):
        kind = "generate"
    if kind in ("copy", "copy_component", "define", "property"):
        return kind
    if not slot.generated:
        return "generate"
    if kind == "transform":
        if slot.moved + len(op.get("tf", ())) > 5:
            return "generate"
    return kind


def library_step(slot, op, kind, spec, shared):
    """The operation, on the library only."""
    if kind == "dvdp":
        params = st.params_of(spec, op["args"])
        overrides = {k: v for k, v in op["args"]["overrides"].items() if k not in params}
        return slot.study.dvdp(
            params,
            overrides=overrides,
            perturbation=op["args"]["perturbation"],
            write_nominal_stl=False,
        )
    if kind == "csv":
        return slot.study.to_csv(f"study{slot.number}")
    v = slot.world.vehicle
    if kind == "generate":
        return v.generate()
    if kind == "transform":
        return v.transform(made(shared, op["tf"]))
    if kind == "mesh":
        return [np.array(c.mesh.vectors) for c in slot.world.components]
    if kind == "analyse":
        return v.analyse(slot.world.densities(op["values"]))
    if kind == "export":
        return v.to_stl(f"v{slot.number}")
    if kind == "define":
        return v.add_vehicle_transformations(made(shared, op["tf"]))
    if kind == "property":
        return v.add_property(f"p{slot.number}", 1.0 + slot.number)


def model_step(slot, op, kind, value, spec):
    """What it means."""
    if kind == "dvdp":
        params = st.params_of(spec, op["args"])
        overrides = {k: v for k, v in op["args"]["overrides"].items() if k not in params}
        slot.expected = st.Expected(spec, params, overrides, op["args"]["perturbation"])
        slot.returned = value
        return
    if kind == "csv":
        return
    w = slot.world
    if kind == "generate":
        w.model_generate()
        slot.generated = True
        slot.densities = None
        slot.moved = 0
    elif kind == "transform":
        w.model_transform(op["tf"])
        slot.moved += len(op["tf"])
    elif kind == "mesh":
        for i, vectors in enumerate(value):
            w.check_vectors(i, vectors, f"of vehicle {slot.number}")
    elif kind == "analyse":
        slot.densities = w.densities(op["values"])
        compare_tuple(slot, value)
    elif kind == "export":
        w.check_stl_files(f"v{slot.number}", snapshot(SIM.fs.root), "exported")
    elif kind == "define":
        w.vtf = w.vtf + op["tf"]
    elif kind == "property":
        slot.properties[f"p{slot.number}"] = 1.0 + slot.number


def compare_tuple(slot, value):
    wanted = slot.world.expected_analysis(slot.densities)
    if wanted is None:
        return
    parts, total = wanted
    tolerance = c07.scales(slot.world, parts)
    for key, got in zip(("volume", "mass", "cog", "moi"), value):
        if not c07.close(got, total[key], tolerance[key]):
            raise Violation("wrong_results", f"{key} returned: {got}")


def verify(slot, spec, when):
    if slot.study:
        if slot.expected:
            slot.expected.check(slot.study, slot.returned)
        elif any(st.results(slot.study).values()):
            raise Violation("results_from_nothing", "study that was not run")
        return
    w = slot.world
    v = w.vehicle
    if len(v.components) != len(w.specs) or list(v._named_components) != w.names():
        raise Violation("wrong_components", f"{list(v._named_components)} {when}")
    if v.properties != slot.properties:
        raise Violation("wrong_properties", f"{v.properties} {when}")
    if not slot.generated:
        if v.analysis_results or any(c.patches for c in v.components if not slot.copied):
            raise Violation("results_from_nothing", when)
        return
    w.check_meshes(f"of vehicle {slot.number} {when}")
    if slot.densities is None:
        if v.analysis_results:
            raise Violation("results_from_nothing", when)
        return
    if not v.analysis_results:
        raise Violation("results_lost", when)
    state = c07.State()
    state.densities = state.last = slot.densities
    c07.verify(w, state, f"of vehicle {slot.number} {when}")


Slot.copied = False


def in_turn(plan, slots, shared):
    for op in plan["ops"]:
        last = op["slot"] == "last"
        slot = slots[-1 if last else op["slot"] % len(slots)]
        kind = possible(slot, op)
        if kind == "copy" or kind == "copy_component":
            if len(slots) < 5:
                made = copied(slot, op, kind, len(slots))
                slots.extend([made] if made else [])
            continue
        faults = op["faults"] if kind in ("mesh", "export", "analyse", "dvdp") else []
        outcome = common.checked_call(
            library_step, slot, op, kind, plan["spec"], shared, faults=faults, label=kind
        )
        if outcome.ok:
            model_step(slot, op, kind, outcome.value, plan["spec"])
        shared.check(f"after {kind}")
        for other in slots:
            if other is not slot and kind in ("transform", "generate", "define", "dvdp"):
                if other.generated and (op.get("again") or SIM.rng.random() < 0.3):
                    verify(other, plan["spec"], f"after {kind} of another")


def copied(slot, op, kind, number):
    """A deep copy as another slot."""
    w = slot.world
    new = Slot(number)
    if kind == "copy":
        twin = copy.copy(w)
        twin.vehicle = expect(copy.deepcopy, w.vehicle, label="deepcopy")
        twin.components = list(twin.vehicle.components)
        twin.specs = copy.deepcopy(w.specs)
        twin.grids = list(w.grids) if w.grids is not None else None
        twin._triangles = dict(w._triangles)
        twin.shared = None
        for a, b in zip(w.components, twin.components):
            if a is b:
                raise Violation("not_a_copy", "component of a deep copy")
        new.world = twin
        new.generated, new.moved = slot.generated, slot.moved
        new.densities = slot.densities
        new.properties = dict(slot.properties)
        new.copied = True
        return new
    if "hangar" in w.specs[0]:
        return None
    # A copy of a component in a vehicle of its own, with other options
    original = w.components[0]
    component = expect(copy.deepcopy, original, label="deepcopy")
    spec = copy.deepcopy(w.specs[0])
    name = w.given_name(spec)
    spec["opts"] = {**spec["opts"], **op["opts"], "ghost": op["opts"].get("ghost")}
    if "clust" in op["opts"]:
        spec["opts"]["clust"] = {**w.specs[0]["opts"].get("clust", {}), **op["opts"]["clust"]}
    if name:
        spec["opts"]["name"] = name
    if spec["kind"] in ("wing", "fin"):
        op = dict(op, opts={})
        spec["opts"] = dict(w.specs[0]["opts"], ghost=None, **({"name": name} if name else {}))
    twin = VehicleWorld({"comps": [], "inprocess": w.spec.get("inprocess")})
    arguments = build.add_arguments(op["opts"])
    expect(twin.vehicle.add_component, component, label="add_component", **arguments)
    twin.components.append(component)
    twin.specs.append(spec)
    new.world = twin
    new.copied = True
    return new


def in_threads(plan, slots, shared):
    """Every vehicle and study is used by a thread of its own."""
    scripts = {slot.number: [] for slot in slots}
    for slot in slots:
        scripts[slot.number].append(({"op": "generate", "args": None}, None))
    for op in plan["ops"]:
        slot = slots[op["slot"] % len(slots)]
        scripts[slot.number].append((op, None))
    # Which operations will be made is known beforehand
    steps = {}
    for slot in slots:
        todo = []
        ready, moved, studied = False, 0, False
        for op, _ in scripts[slot.number]:
            probe = Slot(slot.number, slot.study, slot.world)
            probe.generated, probe.moved, probe.expected = ready, moved, studied
            kind = possible(probe, op)
            if slot.study and op.get("args") is None:
                continue
            if kind in ("copy", "copy_component"):
                continue
            todo.append((op, kind))
            if kind == "generate":
                ready, moved = True, 0
            elif kind == "transform":
                moved += len(op["tf"])
            elif kind == "dvdp":
                studied = True
        steps[slot.number] = todo
    for op in plan["ops"]:
        if op["op"] in ("transform", "define"):
            made(shared, op["tf"])

    def body(slot):
        def work():
            return [
                library_step(slot, op, kind, plan["spec"], shared)
                for op, kind in steps[slot.number]
            ]

        return work

    SIM.fs.begin({})
    SIM.begin_op()
    SIM.fs.active = True
    try:
        with captured():
            scheduler = Scheduler(plan["gaps"], plan["scope"])
            outcomes = scheduler.run([body(slot) for slot in slots])
    finally:
        SIM.fs.active = False
        SIM.fs.finish()
    for slot, (kind, value) in zip(slots, outcomes):
        if kind == "error":
            raise Violation(
                f"concurrent_{type(value).__name__}",
                f"thread {slot.number}: {value!r:.300}",
            )
        results = iter(value)
        exported = None
        for op, kind in steps[slot.number]:
            result = next(results)
            if kind == "export":
                # Later exports replace the files
                exported = list(slot.world.grids)
                continue
            model_step(slot, op, kind, result, plan["spec"])
        if exported is not None:
            now = slot.world.grids
            slot.world.grids, slot.world._triangles = exported, {}
            slot.world.check_stl_files(
                f"v{slot.number}", snapshot(SIM.fs.root), "exported by a thread"
            )
            slot.world.grids, slot.world._triangles = now, {}
