"""C09 A sensitivity study is right and complete, or changes nothing."""

from .. import build, study as st
from ..core import SIM, Violation
from ..fs import snapshot
from ..world import call, expect
from . import common


def gen(rng, tier, index):
    specs = [st.draw_spec(rng) for _ in range(rng.choice([1, 1, 2]))]
    kinds = None
    if rng.random() < 0.5:
        kinds = rng.sample(["task", "call", "wait", "pool_start", "generator", "fs"], 2)
    ops = []
    for _ in range(rng.randint(1, 3)):
        spec = rng.randrange(2)
        op = {
            "spec": spec,
            "study": rng.randrange(2),
            "faults": [],
            "args": st.draw_study(rng, common.pick(specs, spec)),
        }
        op.update(common.machine(rng))
        if rng.random() < 0.65:
            count = len(op["args"]["chosen"])
            op["faults"].append(draw_fault(rng, common.pick(specs, spec), kinds, count))
            if op["faults"][0]["t"] == "fs":
                op["args"]["write"] = True
        ops.append(op)
    return {"specs": specs, "ops": ops}


def draw_fault(rng, spec, kinds, count):
    kind = rng.choice(kinds or ["mesh", "mesh", "generator", "fs", "line"])
    if kind == "generator":
        return {"t": "call", "n": rng.randrange(10), "kind": rng.choice(common.ERRORS)}
    if kind == "fs":
        return {
            "t": "fs",
            "ev": rng.randrange(12),
            "kind": "error",
            "errno": rng.choice(["ENOSPC", "EACCES", "EIO"]),
        }
    if kind == "line":
        return {
            "t": "line",
            "scope": "core",
            "n": common.log_uniform(rng, 1500),
            "kind": "interrupt",
        }
    wanted = ["task", "encoding", "pool_start", "wait", "call"] if kind == "mesh" else [kind]
    fault = common.draw_fault(rng, spec["vehicle"]["inprocess"], wanted)
    if fault["t"] == "task":
        fault["n"] = rng.randrange(30)
    if fault["t"] == "pool_start":
        fault["pool"] = rng.randrange(5)
    if fault["t"] == "wait":
        fault["n"] = rng.randrange(30)
    if fault["t"] != "line" and rng.random() < 0.6:
        # Counted from the moment the nominal vehicle or that of a parameter is made
        fault["vehicle"] = rng.randrange(count + 1)
        if fault["t"] == "pool_start":
            fault["pool"] = rng.randrange(2)
        elif fault["t"] == "call":
            fault["n"] = common.log_uniform(rng, 100)
        else:
            fault["n"] = rng.randrange(8)
    return fault


def run(plan):
    generators = [st.make_generator(s) for s in plan["specs"]]
    studies = {}
    current = {}
    for op in plan["ops"]:
        common.use_machine(op)
        spec = common.pick(plan["specs"], op["spec"])
        key = (op["spec"] % len(plan["specs"]), op["study"])
        if key not in studies:
            studies[key] = expect(
                st.SensitivityStudy,
                common.pick(generators, op["spec"]),
                verbosity=op["study"],
                label="SensitivityStudy",
            )
        study = studies[key]
        previous = st.results(study)
        held = common.freeze(previous)
        outcome = perform(study, spec, op["args"], op["faults"])
        if outcome.ok:
            wanted = verify(study, spec, op["args"], outcome.value)
            current[key] = wanted
        else:
            if op["faults"][0]["t"] != "line":
                unchanged(study, previous, held)
            outcome = perform(study, spec, op["args"], [])
            current[key] = verify(study, spec, op["args"], outcome.value)
        for other, wanted in current.items():
            if other != key:
                wanted.check(studies[other])


def perform(study, spec, args, faults):
    params = st.params_of(spec, args)
    overrides = {k: v for k, v in args["overrides"].items() if k not in params}
    given = dict(params), dict(overrides)
    outcome = common.checked_call(
        study.dvdp,
        params,
        overrides=overrides,
        perturbation=args["perturbation"],
        write_nominal_stl=args["write"],
        nominal_stl_prefix=args["prefix"],
        faults=faults,
        label="dvdp",
    )
    if (params, overrides) != given or list(params) != list(given[0]):
        raise Violation("changed_input", "parameters or overrides")
    return outcome


def verify(study, spec, args, returned):
    params = st.params_of(spec, args)
    overrides = {k: v for k, v in args["overrides"].items() if k not in params}
    wanted = st.Expected(spec, params, overrides, args["perturbation"])
    wanted.check(study, returned)
    nominal = study.nominal_vehicle_instance
    from ..world import mesh_difference

    for name, mesh in wanted.nominal.meshes.items():
        got = expect(lambda: nominal._named_components[name].mesh, label="nominal mesh")
        difference = mesh_difference(got.vectors, mesh)
        if difference:
            raise Violation("wrong_nominal", f"{name}: {difference}")
    if args["write"]:
        check_files(wanted, args, snapshot(SIM.fs.root), nominal)
    return wanted


def check_files(wanted, args, found, nominal):
    from . import c08

    comps = wanted.nominal.actual["comps"]
    counts = {}
    for comp, name in zip(comps, wanted.nominal.names):
        no = counts.get(comp["kind"], 0)
        counts[comp["kind"]] = no + 1
        if comp["opts"].get("ghost"):
            continue
        given = comp["opts"].get("name") or comp.get("own_name")
        prefix = args["prefix"]
        if given:
            file = f"{prefix}-{given}.stl" if prefix else f"{given}.stl"
        else:
            file = f"{prefix or nominal.name}-{comp['kind']}-{no}.stl"
        from ..world import mesh_difference

        difference = mesh_difference(c08.load(found, file), wanted.nominal.meshes[name])
        if difference:
            raise Violation("wrong_file", f"{file}: {difference}")


def unchanged(study, previous, held):
    now = st.results(study)
    for key in now:
        if not common.same(now[key], held[key]):
            raise Violation("results_lost", f"{key} changed by a study that failed")
