"""C14 Concurrent readers of a vehicle always see complete results."""

import numpy as np

from .. import build
from ..core import SIM, Violation
from ..fs import snapshot
from ..sched import Scheduler
from ..world import VehicleWorld, captured, expect
from . import c06, c07, common


ATTRIBUTES = ["area", "moi", "cog", "mass", "volume"]


def gen(rng, tier, index):
    vehicle = build.draw_vehicle(
        rng,
        count=rng.choice([1, 1, 2, 3]),
        max_res=rng.choice([1, 1, 2]),
        rate=rng.choice([0.1, 0.3]),
        closed=True,
        allowed=["tf", "reflect", "clust", "ghost"],
    )
    for comp in vehicle["comps"]:
        for c in [comp] + comp.get("children", []):
            if c["opts"].get("reflect"):
                c["opts"]["append"] = False
            c["opts"]["tf"] = c["opts"].get("tf", [])[:1]
    if all(c["opts"].get("ghost") for c in vehicle["comps"]):
        # Something to export
        vehicle["comps"][0]["opts"]["ghost"] = False
    kinds = ["mesh", "surface", "analyse", "export", "merge", "results", "attributes",
             "names", "check"]
    if rng.random() < 0.4:
        # One thing against another
        kinds = [rng.choice(["mesh", "analyse", "analyse"]), rng.choice(kinds)]
    else:
        kinds = rng.sample(kinds, rng.randint(2, 8))
    threads = []
    for k in range(rng.choice([2, 2, 3, 4])):
        steps = []
        for _ in range(rng.choice([1, 2, 3])):
            step = {"op": rng.choice(kinds), "comp": rng.randrange(4)}
            steps.append(step)
        threads.append({"steps": steps})
    return {
        "vehicle": vehicle,
        "threads": threads,
        "rounds": [draw_round(rng) for _ in range(rng.choice([1, 2]))],
        "values": build.draw_densities(rng, 4, 4, weightless=False),
        "different": rng.random() < 0.3,
        "analysed": rng.random() < 0.4,
        "properties": rng.random() < 0.3,
        **common.machine(rng),
    }


def draw_round(rng):
    scope = rng.choice(["core", "core", "state", "state", "all", None])
    high, count = rng.choice([5, 40, 300]), rng.randint(2, 40)
    return {"gaps": common.draw_gaps(rng, scope, high, count), "scope": scope}


def run(plan):
    common.use_machine(plan)
    w = VehicleWorld(plan["vehicle"])
    v = w.vehicle
    if plan["properties"]:
        expect(v.add_property, "span", 2.5, label="add_property")
    for number, settings in enumerate(plan["rounds"]):
        # Nothing is meshed yet when the threads start
        expect(v.generate, label="generate")
        w.model_generate()
        if plan["analysed"]:
            expect(v.analyse, densities(w, plan, 0), label="analyse")
            if number % 2:
                for c in w.components:
                    c.surfaces = c.mesh = None
        together(plan, settings, w, number)
        w.check_meshes("after the threads")


def densities(w, plan, k):
    """Densities thread k analyses with."""
    values = plan["values"]
    if plan["different"]:
        values = values[k:] + values[:k]
    return w.densities(values)


def together(plan, settings, w, number):
    def body(k, thread):
        def work():
            return [read(w, plan, step, f"t{k}{j}n{number}", k)
                    for j, step in enumerate(thread["steps"])]

        return work

    SIM.fs.begin({})
    SIM.begin_op()
    SIM.fs.active = True
    try:
        with captured():
            scheduler = Scheduler(settings["gaps"], settings["scope"])
            outcomes = scheduler.run(
                [body(k, t) for k, t in enumerate(plan["threads"])]
            )
    finally:
        SIM.fs.active = False
        SIM.fs.finish()
    found = snapshot(SIM.fs.root)
    for k, (kind, value) in enumerate(outcomes):
        if kind == "error":
            raise Violation(
                f"concurrent_{type(value).__name__}", f"thread {k}: {value!r:.300}"
            )
        for j, result in enumerate(value):
            check(w, plan, j, f"t{k}{j}n{number}", result, found, k)


def read(w, plan, step, prefix, k):
    v = w.vehicle
    kind = step["op"]
    component = w.components[step["comp"] % len(w.components)]
    if kind == "mesh":
        return np.array(component.mesh.vectors)
    if kind == "surface":
        component.surface()
        surfaces = component.surfaces
        return np.concatenate([s.vectors for s in surfaces.values()])
    if kind == "analyse":
        return v.analyse(densities(w, plan, k))
    if kind == "check":
        return component.stl_check()
    if kind == "export":
        return v.to_stl(prefix)
    if kind == "merge":
        return v.to_stl(prefix, merge=True)
    if kind == "results":
        results = v.analysis_results
        return dict(results) if results else None
    if kind == "attributes":
        parts = v.component_properties
        parts = {key: dict(parts[key]) for key in ("mass", "volume", "area")} if parts else None
        return {key: getattr(v, key) for key in ATTRIBUTES}, parts
    return list(v.get_non_ghost_components())


def check(w, plan, j, prefix, value, found, k):
    steps = plan["threads"][k]["steps"]
    step = steps[j]
    kind = step["op"]
    # Results exist from the first analysis on
    analysed = plan["analysed"] or "analyse" in [s["op"] for s in steps[:j]]
    if kind in ("mesh", "surface"):
        i = step["comp"] % len(w.components)
        w.check_vectors(i, value, f"read by thread {k}")
    elif kind == "check":
        if not isinstance(value, bool):
            raise Violation("wrong_check", f"{value!r} for thread {k}")
    elif kind == "analyse":
        compare(w, plan, [k], value, f"returned to thread {k}")
    elif kind in ("export", "merge"):
        w.check_stl_files(prefix, found, f"of thread {k}")
        if kind == "merge":
            check_merged(w, prefix, found, k)
        check_results(w, plan, prefix, found, analysed)
    elif kind == "results":
        if value is None:
            if analysed:
                raise Violation("results_lost", f"read by thread {k}")
        else:
            if sorted(value) != ["cog", "mass", "moi", "volume"]:
                raise Violation("incomplete_results", f"{sorted(value)}")
            value = [value[key] for key in ("volume", "mass", "cog", "moi")]
            compare(w, plan, candidates(plan), value, f"read by thread {k}")
    elif kind == "attributes":
        check_attributes(w, plan, value, analysed, f"read by thread {k}")
    elif value != [n for i, n in enumerate(w.names()) if not w.ghost(i)]:
        raise Violation("wrong_names", f"{value}")


def candidates(plan):
    return range(len(plan["threads"])) if plan["different"] else [0]


def compare(w, plan, who, value, what):
    """The values are those of the densities of one of the threads."""
    problems = []
    for k in who:
        wanted = w.expected_analysis(densities(w, plan, k))
        if wanted is None:
            SIM.count("badly conditioned")
            return
        parts, total = wanted
        tolerance = c07.scales(w, parts)
        wrong = [
            key
            for key, got in zip(("volume", "mass", "cog", "moi"), value)
            if not c07.close(got, total[key], tolerance[key])
        ]
        if not wrong:
            SIM.count("results compared")
            return
        problems = wrong
    raise Violation("wrong_results", f"{problems} {what}")


def check_merged(w, prefix, found, k):
    from . import c08

    name = f"{prefix}.stl"
    got = c08.load(found, name)
    wanted = [w.expected(i) for i in range(len(w.specs)) if not w.ghost(i)]
    if sum(len(x) for x in wanted) != len(got):
        raise Violation("wrong_file", f"{name}: {len(got)} triangles")


def check_results(w, plan, prefix, found, analysed):
    base = f"{prefix}_properties/{prefix}"
    if plan["properties"] and f"{base}_properties.csv" not in found:
        raise Violation("missing_file", f"{base}_properties.csv")
    names = [f"{base}_{n}" for n in ("volmass.csv", "cog.txt", "moi.txt")]
    there = [n for n in names if n in found]
    if analysed and len(there) != 3:
        raise Violation("missing_file", f"{set(names) - set(there)}")
    if there and len(there) != 3:
        raise Violation("missing_file", f"{set(names) - set(there)}")
    if not there:
        return
    # The files are those of the analysis of one of the threads
    for kind in ("cog.txt", "moi.txt", "volmass.csv"):
        problem = None
        for k in candidates(plan):
            state = c07.State()
            state.densities = state.last = densities(w, plan, k)
            try:
                c07.files(w, state, prefix, {}, found, kind)
            except Violation as violation:
                problem = violation
            else:
                break
        else:
            raise problem


def check_attributes(w, plan, value, analysed, what):
    """Each of them is complete, and that of one of the analyses."""
    values, parts = value
    for key, got in list(values.items()) + [("parts", parts)]:
        if got is None:
            if analysed:
                raise Violation("results_lost", f"{key} {what}")
            continue
        for k in candidates(plan):
            wanted = w.expected_analysis(densities(w, plan, k))
            if wanted is None:
                SIM.count("badly conditioned")
                return
            tolerance = c07.scales(w, wanted[0])
            if key != "parts":
                right = c07.close(got, wanted[1][key], tolerance[key])
            else:
                right = all(
                    name in got[part] and c07.close(got[part][name], row[part], tolerance[part])
                    for name, row in wanted[0].items()
                    for part in ("mass", "volume", "area")
                )
            if right:
                break
        else:
            raise Violation("wrong_results", f"{key} {what}")
