"""C06 An STL export that returns has written everything, completely."""

import io
import os

import numpy as np
import pandas as pd

from .. import build
from ..core import SIM, Violation
from ..fs import REAL_OPEN, snapshot, wipe
from ..world import VehicleWorld, expect
from . import common

PREFIXES = [None, None, "exp", "a b", "v1.2", "m*", "%s{0}"]


def gen(rng, tier, index):
    closed = rng.random() < 0.6
    vehicle = build.draw_vehicle(
        rng, count=rng.choice([1, 2, 3]), max_res=2, closed=closed, slow=0.02, rate=0.2,
        hangar=0.02,
    )
    plan = {
        "vehicle": vehicle,
        "prefix": rng.choice(PREFIXES),
        "analyse": closed and rng.random() < 0.7,
        "properties": rng.choice([0, 0, 1, 3]),
        "before": rng.choice(["nothing", "stale", "previous"]),
        "transform": rng.random() < 0.3,
        "fresh": rng.random() < 0.3,
        "component": rng.random() < 0.25,
        "others": rng.random() < 0.5,
        "faults": None,
        "limit": 40 if tier == "quick" else 400,
        "workers": rng.choice([1, 4]),
    }
    return plan


BYSTANDERS = {
    "notes.txt": b"keep me\n",
    "other-body.stl": b"solid other\nendsolid\n",
    "sub/exp-body.stl": b"in another directory",
    "body.stl.bak": b"backup",
}


def fill(files):
    wipe(SIM.fs.root)
    for name, data in files.items():
        path = os.path.join(SIM.fs.root, name)
        if name.endswith("/"):
            os.makedirs(path, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with REAL_OPEN(path, "wb") as f:
            f.write(data)


def run(plan):
    SIM.cpu_count = plan["workers"]
    w = VehicleWorld(plan["vehicle"])
    expect(w.vehicle.generate, label="generate")
    w.model_generate()
    prefix = plan["prefix"]
    names = ["length", "wet area", "n"][: plan["properties"]]
    for k, name in enumerate(names):
        expect(w.vehicle.add_property, name, 0.1 + 1.0 / (3 + k), label="add_property")
    if plan["analyse"]:
        expect(w.vehicle.analyse, w.densities([1.0, 2.0]), label="analyse")
    target = "part.stl" if plan["component"] else None

    start = dict(BYSTANDERS)
    label = prefix or w.vehicle.name
    for name in (f"{label}-old.stl", f"{label}.stl", f"{label}_properties/notes.txt"):
        if plan["others"]:
            start[name] = b"of somebody else"
    expected = set(filter(None, w.stl_names(prefix)))
    if target:
        expected = {target} if not w.ghost(0) else set()
    if plan["before"] == "stale":
        # Longer files of the same names, as from another resolution
        for name in expected:
            start[name] = b"x" * 90000
    elif plan["before"] == "previous":
        fill(start)
        export(w, prefix, target)
        start = snapshot(SIM.fs.root)
        if plan["transform"]:
            expect(w.vehicle.transform, [("rotate", 30, "z")], label="transform")
            w.model_transform([("rotate", 30, "z")])

    # Rehearsal: without a fault, and to learn the events
    fill(start)
    start = snapshot(SIM.fs.root)
    if plan["fresh"]:
        expect(w.vehicle.generate, label="generate")
        if plan["before"] == "previous" and plan["transform"]:
            w.model_generate()
    before = state(w)
    outcome = export(w, prefix, target)
    if not outcome.ok:
        raise Violation(f"unexpected_{type(outcome.error).__name__}", outcome.describe())
    found = snapshot(SIM.fs.root)
    complete(w, prefix, target, start, found, "")
    for name in found:
        if name not in start and not allowed(w, prefix, name, expected):
            raise Violation("extra_file", f"{name} was created")
    w.check_meshes("after export")
    if not common.same(state(w), before):
        raise Violation("changed_vehicle", "results or properties changed by the export")
    sizes = {k: len(v) for k, v in found.items() if v is not None}
    SIM.log("files", sorted(found))

    faults = plan["faults"]
    if faults is None:
        faults = common.file_faults(outcome.fs_trace, sizes, SIM.rng, plan["limit"])
        faults = common.then(faults, SIM.rng)
    for fault in faults:
        SIM.narrow = {"faults": [fault]}
        fill(start)
        if plan["fresh"] and fault["ev"] % 3 == 0:
            expect(w.vehicle.generate, label="generate")
            if plan["analyse"]:
                expect(w.vehicle.analyse, w.densities([1.0, 2.0]), label="analyse")
        outcome = export(w, prefix, target, [dict(fault, t="fs")])
        after = snapshot(SIM.fs.root)
        where = f"with {common.describe(fault)}"
        if outcome.ok:
            complete(w, prefix, target, start, after, where)
        elif not outcome.fired:
            raise Violation(
                f"unexpected_{type(outcome.error).__name__}", f"{outcome.describe()} {where}"
            )
        unharmed(start, after, expected, prefix, w, where)
        w.check_mesh(fault["ev"] % len(w.components), f"after an export {where}")
        if fault.get("then") == "clean":
            fill(start)
        elif fault.get("then") == "other":
            second = "second.stl" if target else "second"
            again = export(w, second, target and second)
            if not again.ok:
                raise Violation("not_repeatable", f"{again.describe()} elsewhere, {where}")
            found = snapshot(SIM.fs.root)
            complete(w, second, target and second, start, found, f"elsewhere, after one {where}")
        again = export(w, prefix, target)
        if not again.ok:
            raise Violation("not_repeatable", f"{again.describe()} after an export {where}")
        complete(w, prefix, target, start, snapshot(SIM.fs.root), f"again, after one {where}")
        unharmed(start, snapshot(SIM.fs.root), expected, prefix, w, where)
    SIM.narrow = None


def export(w, prefix, target, faults=None):
    from ..world import call

    if target:
        return call(w.components[0].to_stl, target, faults=faults, label="component to_stl")
    if prefix is None:
        return call(w.vehicle.to_stl, faults=faults, label="to_stl")
    return call(w.vehicle.to_stl, prefix, faults=faults, label="to_stl")


def state(w):
    v = w.vehicle
    return common.freeze(
        [v.analysis_results, v.properties, v.volume, v.mass, v.cog, v.moi, v.area]
    )


def base(w, prefix):
    return prefix or w.vehicle.name


def allowed(w, prefix, name, expected):
    directory = f"{base(w, prefix)}_properties"
    if name in expected:
        return True
    if not (w.vehicle.analysis_results or w.vehicle.properties):
        return False
    return name == directory + "/" or name.startswith(directory + "/" + base(w, prefix) + "_")


def unharmed(start, after, expected, prefix, w, where):
    for name, data in start.items():
        if allowed(w, prefix, name, expected):
            continue
        if after.get(name, b"") != data or name not in after:
            raise Violation("bystander_harmed", f"{name} {where}")


def numbers(data):
    return np.array([float(x) for x in data.decode().replace(",", " ").split()])


def complete(w, prefix, target, start, found, where):
    """All files of the export are there and right."""
    if target:
        if not w.ghost(0):
            check_one(w, 0, found, target, where)
            exact(w, 0, found[target], f"{target} {where}")
        elif target in found and found[target] != start.get(target):
            raise Violation("ghost_exported", target)
        return
    w.check_stl_files(prefix, found, where)
    for i, name in enumerate(w.stl_names(prefix)):
        if name:
            exact(w, i, found[name], f"{name} {where}")
    v = w.vehicle
    directory = f"{base(w, prefix)}_properties/{base(w, prefix)}"
    if v.analysis_results:
        for key in ("cog", "moi"):
            name = f"{directory}_{key}.txt"
            got = parse(found, name, numbers, where)
            wanted = np.asarray(v.analysis_results[key], float).ravel()
            if got.shape != wanted.shape or not np.allclose(
                got, wanted, rtol=1e-9, atol=0, equal_nan=True
            ):
                raise Violation("wrong_file", f"{name} {where}: {got} instead of {wanted}")
        name = f"{directory}_volmass.csv"
        table = parse(found, name, lambda d: pd.read_csv(io.BytesIO(d), index_col=0), where)
        rows = w.names() + ["vehicle"]
        if sorted(map(str, table.index)) != sorted(rows):
            raise Violation("wrong_file", f"{name} {where}: rows {list(table.index)}")
        for key, value in (("mass", v.mass), ("volume", v.volume), ("area", v.area)):
            if not np.isclose(table.loc["vehicle", key], value, rtol=1e-6, equal_nan=True):
                raise Violation("wrong_file", f"{name} {where}: {key}")
            for row, part in v.component_properties[key].items():
                if not np.isclose(table.loc[row, key], part, rtol=1e-6, equal_nan=True):
                    raise Violation("wrong_file", f"{name} {where}: {key} of {row}")
    if v.properties:
        name = f"{directory}_properties.csv"
        table = parse(found, name, lambda d: pd.read_csv(io.BytesIO(d), index_col=0), where)
        got = {str(k): float(x) for k, x in table.iloc[:, 0].items()}
        if got != v.properties:
            raise Violation("wrong_file", f"{name} {where}: {got}")


def exact(w, i, data, where):
    """The file holds the bits of the mesh, and normals that belong to it."""
    mesh = expect(lambda: w.components[i].mesh, label="mesh")
    vectors, normals = facets(data)
    if vectors.tobytes() != np.ascontiguousarray(mesh.vectors, np.float32).tobytes():
        raise Violation("not_exact", f"{where} differs from the mesh in memory")
    vectors = vectors.astype(float)
    wanted = np.cross(vectors[:, 1] - vectors[:, 0], vectors[:, 2] - vectors[:, 0])
    edges = np.linalg.norm(vectors - np.roll(vectors, 1, axis=1), axis=2)
    length = np.linalg.norm(wanted, axis=1)
    size = np.linalg.norm(normals, axis=1)
    extent = float(np.max(np.abs(vectors))) + 1.0
    clear = (length > 1e-3 * np.max(edges, axis=1) ** 2) & (length > 1e-3 * extent**2)
    if np.any(size[clear] == 0):
        raise Violation("wrong_normals", f"{where}: missing")
    with np.errstate(all="ignore"):
        cosine = np.sum(wanted * normals, axis=1) / (length * size)
    if np.any(~(cosine[clear] > 0.99)):
        raise Violation("wrong_normals", where)


def facets(data):
    from .. import stub_pymesh

    count = int.from_bytes(data[80:84], "little")
    record = np.frombuffer(data, stub_pymesh.RECORD, count, 84)
    return np.ascontiguousarray(record["v"]), record["n"].astype(float)


def parse(found, name, function, where):
    if name not in found:
        raise Violation("missing_file", f"{name} {where}")
    try:
        return function(found[name])
    except Exception as error:
        raise Violation("incomplete_file", f"{name} {where}: {error}")


def check_one(w, i, found, name, where):
    from ..stub_pymesh import read_stl

    vectors = parse(
        found, name, lambda d: read_stl(name, opener=lambda p, m: io.BytesIO(d)), where
    )
    from ..world import mesh_difference

    difference = mesh_difference(vectors, w.expected(i))
    if difference:
        raise Violation("wrong_file", f"{name} {where}: {difference}")
