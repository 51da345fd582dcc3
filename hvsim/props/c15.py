"""C15 Results are reproducible in every process and environment."""

import gc
import hashlib
import os
import random
import sys
import time

import numpy as np

from .. import boot, build, study as st, tri
from ..core import SIM, Violation
from ..fs import snapshot
from ..world import VehicleWorld, call, expect
from . import common

VARIABLES = {
    "TZ": ["UTC", "Asia/Tokyo", "EST5EDT"],
    "LANG": ["C", "de_DE.UTF-8"],
    "LC_ALL": ["C", "POSIX"],
    "COLUMNS": ["20", "200"],
    "HOME": ["/nonexistent", "/root"],
    "USER": ["a", "b"],
    "OMP_NUM_THREADS": ["1", "7"],
    "NO_COLOR": ["1"],
    "CI": ["true"],
    "DEBUG": ["1"],
}


def gen(rng, tier, index):
    workload = []
    vehicle = build.draw_vehicle(
        rng,
        count=rng.choice([1, 2, 3]),
        max_res=rng.choice([1, 2, 3]),
        rate=rng.choice([0.2, 0.5]),
        slow=0.04,
        hangar=0.04,
        closed=rng.random() < 0.3,
    )
    for comp in vehicle["comps"]:
        if "tf" in comp["opts"]:
            comp["opts"]["tf"] = comp["opts"]["tf"][:1]
    spec = st.draw_spec(rng)
    kinds = ["mesh", "analyse", "export", "merge", "transform", "study", "append"]
    for _ in range(rng.randint(2, 4)):
        step = {"op": rng.choice(kinds)}
        if step["op"] == "transform":
            step["tf"] = [build.draw_transformation(rng, functions=False)]
        if step["op"] == "study":
            step["args"] = st.draw_study(rng, spec)
        workload.append(step)
    envs = []
    for k in range(2):
        env = common.machine(rng)
        env.update(
            random=rng.randrange(10**6),
            clock=rng.choice([0.0, 1.7e9, 4.0e9, 1e8 + rng.random() * 1e9]),
            directory=rng.choice(["", "work", "a/b c"]),
            variables={
                v: rng.choice(VARIABLES[v])
                for v in rng.sample(sorted(VARIABLES), rng.randint(0, 5))
            },
            unknown=rng.random() < 0.4,
            earlier=rng.choice([None, None, "vehicle", "failure"]),
            printing=rng.random() < 0.3,
            collect=rng.random() < 0.2,
        )
        envs.append(env)
    return {
        "vehicle": vehicle,
        "spec": spec,
        "doc": tri.draw(rng, points=rng.randint(1, 5)),
        "steps": workload,
        "envs": envs,
        "another": build.draw_vehicle(rng, count=1, max_res=1, rate=0.2),
    }


def run(plan):
    seen = []
    for env in plan["envs"]:
        with Environment(env):
            if env["earlier"]:
                earlier(plan["another"], env["earlier"])
            before = caller_state()
            seen.append(workload(plan))
            after = caller_state()
        for key in before:
            if before[key] != after[key]:
                raise Violation("changed_caller", f"{key} was changed")
    first = seen[0]
    for other in seen[1:]:
        for (label, a), (_, b) in zip(first, other):
            if a != b:
                raise Violation("environment_dependent", label)
        if len(first) != len(other):
            raise Violation("environment_dependent", "number of results")
    for label, digest in first:
        SIM.observe(label, digest)


class Environment:
    def __init__(self, env):
        self.env = env

    def __enter__(self):
        env = self.env
        common.use_machine(env)
        random.seed(env["random"])
        np.random.seed(env["random"])
        SIM.time_offset = env["clock"]
        SIM.entropy = random.Random(env["random"])
        SIM.pid = 100 + env["random"] % 30000
        self.variables = dict(os.environ)
        os.environ.update(env["variables"])
        time.tzset()
        SIM.env_default = "1" if env["unknown"] else None
        from ..fs import wipe

        os.chdir(SIM.fs.root)
        wipe(SIM.fs.root)
        self.directory = os.path.join(SIM.fs.root, env["directory"])
        os.makedirs(self.directory, exist_ok=True)
        os.chdir(self.directory)
        self.printing = np.get_printoptions()
        if env["printing"]:
            np.set_printoptions(precision=2, suppress=True, threshold=3)
        if env["collect"]:
            gc.collect()

    def __exit__(self, *exc):
        np.set_printoptions(**self.printing)
        SIM.env_default = None
        for key in set(os.environ) - set(self.variables):
            del os.environ[key]
        os.environ.update(self.variables)
        time.tzset()
        os.chdir(SIM.fs.root)


def caller_state():
    state = np.random.get_state()
    mask = os.umask(0)
    os.umask(mask)
    return {
        "random state": random.getstate(),
        "numpy random state": (state[0], state[1].tobytes()) + tuple(state[2:]),
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "numpy error handling": np.geterr(),
        "numpy print options": repr(np.get_printoptions()),
        "recursion limit": sys.getrecursionlimit(),
        "file mode": mask,
        "search path": list(sys.path),
        "standard output": (id(sys.stdout), id(sys.stderr)),
    }


def earlier(spec, how):
    """Something else happened before."""
    w = VehicleWorld(dict(spec, inprocess=False))
    faults = []
    if how == "failure":
        faults = [{"t": "task", "n": 0, "kind": "raise_value"}]
    expect(w.vehicle.generate, label="generate")
    call(lambda: [c.mesh for c in w.components], faults=faults, label="earlier")


def digest(data):
    return hashlib.sha256(data).hexdigest()[:20]


def frame_bytes(frame):
    return (
        repr(list(frame.columns)).encode()
        + repr(list(frame.index)).encode()
        + np.ascontiguousarray(frame.to_numpy(float)).tobytes()
    )


def value_bytes(value):
    if hasattr(value, "to_csv") and hasattr(value, "columns"):
        return frame_bytes(value)
    if isinstance(value, dict):
        return b"".join(str(k).encode() + value_bytes(v) for k, v in value.items())
    if isinstance(value, (list, tuple)):
        return b"".join(value_bytes(v) for v in value)
    if value is None or isinstance(value, (str, bool)):
        return repr(value).encode()
    return np.ascontiguousarray(np.asarray(value, float)).tobytes()


def workload(plan):
    seen = []

    def note(label, data):
        seen.append((label, digest(data)))

    w = VehicleWorld(plan["vehicle"])
    v = w.vehicle
    expect(v.generate, label="generate")
    for k, step in enumerate(plan["steps"]):
        kind = step["op"]
        label = f"step {k} ({kind})"
        if kind == "mesh":
            for i, c in enumerate(w.components):
                mesh = expect(lambda: c.mesh, label="mesh")
                note(f"{label}: mesh {i}", np.ascontiguousarray(mesh.vectors).tobytes())
        elif kind == "analyse":
            value = expect(v.analyse, w.densities([1.5, 2.5]), label="analyse")
            note(f"{label}: returned", value_bytes(value))
            note(f"{label}: results", value_bytes(v.analysis_results))
            note(f"{label}: components", value_bytes(v.component_properties))
        elif kind == "transform":
            expect(v.transform, build.make_transformations(step["tf"]), label=kind)
        elif kind in ("export", "merge"):
            merge = kind == "merge" and not all(w.ghost(i) for i in range(len(w.specs)))
            expect(v.to_stl, f"s{k}", merge=merge, label="to_stl")
        elif kind == "study":
            study = expect(
                st.SensitivityStudy,
                st.make_generator(plan["spec"]),
                verbosity=0,
                label="SensitivityStudy",
            )
            args = step["args"]
            params = st.params_of(plan["spec"], args)
            value = expect(
                study.dvdp,
                params,
                perturbation=args["perturbation"],
                write_nominal_stl=args["write"],
                nominal_stl_prefix=f"n{k}",
                label="dvdp",
            )
            note(f"{label}: returned", value_bytes(value))
            for key, found in st.results(study).items():
                note(f"{label}: {key}", value_bytes(found))
            expect(study.to_csv, f"out{k}", label="to_csv")
        elif kind == "append":
            doc = plan["doc"]
            base = os.path.relpath(os.getcwd(), SIM.fs.root)
            tri.store(f"{base}/g{k}.tri", tri.document(doc))
            names = []
            for n in range(len(doc["files"])):
                names.append(f"c{n}_sensitivity.csv")
                tri.store(f"{base}/{names[-1]}", tri.sens_file(doc, n))
            value = expect(
                tri.append_sensitivities_to_tri,
                names,
                components_filepath=f"g{k}.tri",
                match_tolerance=doc["tolerance"],
                rounding_tolerance=doc["rounding"],
                verbosity=0,
                label="append",
            )
            note(f"{label}: fraction", value_bytes(value))
    for name, data in sorted(snapshot(os.getcwd()).items()):
        if data is None:
            data = b""
        elif name.endswith(".stl"):
            data = data[80:]
        note(f"file {name}", data)
    for i, c in enumerate(w.components):
        mesh = expect(lambda: c.mesh, label="mesh")
        note(f"mesh {i}", np.ascontiguousarray(mesh.vectors).tobytes())
    return seen
