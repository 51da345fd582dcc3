"""Sensitivity studies next to the model."""

import copy

import numpy as np
from scipy.spatial import cKDTree
from hypervehicle import Vehicle
from hypervehicle.generator import Generator
from hypervehicle.utilities import SensitivityStudy

from . import build, model
from .core import SIM, Violation
from .world import VehicleWorld


def substitute(spec, binds, values):
    """The vehicle for these values of the parameters."""
    spec = copy.deepcopy(spec)
    for bind in binds:
        target = spec["comps"][bind["comp"] % len(spec["comps"])]
        if bind["kind"] == "offset":
            t = ["translate", [0.0, 0.0, 0.0]]
            t[1][bind["axis"]] = bind["scale"] * values[bind["param"]]
            target.setdefault("opts", {}).setdefault("tf", []).append(t)
        elif bind["kind"] == "size":
            factor = values[bind["param"]] / bind["nominal"]
            if bind.get("child") and target["kind"] == "composite":
                target = target["children"][-1]
            resize(target, bind["axis"], factor)
    return spec


def resize(comp, axis, factor):
    """Scale the defining points of a component along an axis."""
    if comp["kind"] == "composite":
        for child in comp["children"]:
            resize(child, axis, factor)
    elif comp["kind"] == "revolved":
        for p in comp["line"][1]:
            p[axis if axis < 2 else 1] *= factor
    elif comp["kind"] == "swept":
        for section in comp["sections"]:
            for p in section:
                p[axis] *= factor
    elif comp["kind"] == "cube":
        comp["a"] *= factor
    elif comp["kind"] == "sphere":
        comp["r"] *= factor


def make_generator(spec):
    """Generator class of a parametric vehicle."""

    class SimGenerator(Generator):
        defaults = dict(spec["params"])

        def __init__(self, **kwargs):
            SIM.next_vehicle()
            SIM.user_call("generator")
            for k, v in self.defaults.items():
                setattr(self, k, v)
            self.scale = 1.0
            super().__init__(**kwargs)

        def create_instance(self):
            SIM.user_call("create_instance")
            values = {k: getattr(self, k) for k in self.defaults}
            return make_vehicle(spec, values, self.scale)

    return SimGenerator


def make_vehicle(spec, values, scale=1.0):
    actual = substitute(spec["vehicle"], spec["binds"], values)
    vehicle = Vehicle()
    vehicle.configure(name=actual.get("name"), verbosity=0)
    for comp in actual["comps"]:
        component = build.make_component(comp)
        vehicle.add_component(component, **build.add_arguments(comp.get("opts", {})))
        if actual.get("inprocess"):
            component._multiprocess = False
    vehicle.vehicle_angle_offset = actual.get("angle", 0)
    if actual.get("vtf"):
        vehicle.add_vehicle_transformations(build.make_transformations(actual["vtf"]))
    for name, weights in spec["properties"].items():
        vehicle.add_property(name, property_value(weights, values, scale))
    if spec["densities"]:
        vehicle.analyse_after_generating(named(actual, spec["densities"]))
    return vehicle


def property_value(weights, values, scale):
    return scale * (1.0 + sum(w * values[k] ** 2 for k, w in sorted(weights.items())))


def component_names(actual):
    counts, names = {}, []
    for s in actual["comps"]:
        counts[s["kind"]] = counts.get(s["kind"], 0) + 1
        names.append(VehicleWorld.given_name(s) or f"{s['kind']}_{counts[s['kind']]}")
    return names


def named(actual, densities):
    return {
        name: densities[i % len(densities)]
        for i, name in enumerate(component_names(actual))
    }


class Reference:
    """The vehicle of the model for given values."""

    def __init__(self, spec, values, scale=1.0):
        self.actual = substitute(spec["vehicle"], spec["binds"], values)
        self.names = component_names(self.actual)
        self.meshes = {}
        for name, comp in zip(self.names, self.actual["comps"]):
            grids = model.generate(comp, self.actual.get("angle", 0))
            grids = [(k, model.transform(g, self.actual.get("vtf"))) for k, g in grids]
            self.meshes[name] = model.triangles(grids)
        self.properties = {
            k: property_value(w, values, scale) for k, w in spec["properties"].items()
        }
        self.extent = 1.0 + max(float(np.max(np.abs(m))) for m in self.meshes.values())
        self.parts = None
        if spec["densities"]:
            densities = named(self.actual, spec["densities"])
            self.parts = {
                k: model.solid(m.astype(np.float32), densities[k])
                for k, m in self.meshes.items()
            }
            self.total = model.union(list(self.parts.values()))

    def conditioned(self):
        if self.parts is None:
            return False
        size = sum(abs(p["mass"]) for p in self.parts.values())
        return abs(self.total["mass"]) >= 0.2 * size and all(
            p["sound"] for p in self.parts.values()
        )


def covered(a, b, tolerance):
    """A row of a without a counterpart in b, or None."""
    rows = np.unique(a, axis=0)
    a, b = rows / tolerance, np.unique(b, axis=0) / tolerance
    gap = cKDTree(b).query(a, p=np.inf, distance_upper_bound=1.001)[0]
    bad = np.nonzero(~(gap <= 1.0))[0]
    return rows[int(bad[0])].tolist() if len(bad) else None


class Expected:
    """What a study should find."""

    def __init__(self, spec, params, overrides, perturbation):
        values = dict(spec["params"])
        values.update(overrides)
        values.update(params)
        scale = values.pop("scale", 1.0)
        self.params = list(params)
        self.nominal = Reference(spec, values, scale)
        self.perturbed, self.dp = {}, {}
        for p in params:
            changed = dict(values)
            changed[p] = params[p] * (1 + perturbation / 100)
            self.dp[p] = changed[p] - params[p]
            self.perturbed[p] = Reference(spec, changed, scale)

    def table(self, name, params):
        mesh = self.nominal.meshes[name].reshape(-1, 3)
        columns = [mesh]
        for p in params:
            other = self.perturbed[p].meshes[name].reshape(-1, 3)
            columns.append((other - mesh) / self.dp[p])
        return np.concatenate(columns, axis=1)

    def tolerance(self, wanted, params):
        length = self.nominal.extent
        tolerance = [2e-5 * length] * 3
        for p in params:
            tolerance += [8e-6 * length / abs(self.dp[p])] * 3
        tolerance = np.array(tolerance)
        tolerance[3:] += 1e-4 * np.max(np.abs(wanted[:, 3:]), axis=0)
        return tolerance

    def check_frame(self, name, frame, params, what):
        columns = ["x", "y", "z"]
        for p in params:
            columns += [f"dxd{p}", f"dyd{p}", f"dzd{p}"]
        missing = [c for c in columns if c not in frame.columns]
        if missing:
            raise Violation("missing_columns", f"{missing} of {what}")
        got = frame[columns].to_numpy(float)
        if not np.all(np.isfinite(got)):
            raise Violation("missing_values", what)
        wanted = self.table(name, params)
        if len(got) == 0:
            raise Violation("empty", what)
        tolerance = self.tolerance(wanted, params)
        bad = covered(wanted, got, tolerance)
        if bad is not None:
            raise Violation("vertex_not_covered", f"{what}: vertex {bad}")
        bad = covered(got, wanted, tolerance)
        if bad is not None:
            raise Violation("wrong_sensitivity", f"{what}: row {bad}")

    def check(self, study, returned=None):
        n = self.nominal
        component = study.component_sensitivities
        if component is None or sorted(component) != sorted(n.names):
            raise Violation("missing_component", f"{component and sorted(component)}")
        for name in n.names:
            self.check_frame(name, component[name], self.params, f"component {name}")
        for found in [study.parameter_sensitivities] + ([returned] if returned else []):
            if found is None or sorted(found) != sorted(self.params):
                raise Violation("missing_parameter", f"{found and sorted(found)}")
            for p in self.params:
                for name in n.names:
                    self.check_frame(name, found[p][name], [p], f"{name} by {p}")
                    self.check_lengths(found[p][name], f"{name} by {p}")
        self.check_scalars(study)

    def check_lengths(self, frame, what):
        """Columns with the differences themselves, if there are any."""
        if not {"dx", "dy", "dz", "magnitude"} <= set(frame.columns):
            return
        wanted = np.linalg.norm(frame[["dx", "dy", "dz"]].to_numpy(float), axis=1)
        got = frame["magnitude"].to_numpy(float)
        if not np.allclose(got, wanted, rtol=1e-5, atol=1e-9):
            raise Violation("wrong_magnitude", what)

    def check_scalars(self, study):
        n = self.nominal
        for p in self.params:
            for key, value in n.properties.items():
                wanted = (self.perturbed[p].properties[key] - value) / self.dp[p]
                got = study.property_sensitivities[p][key]
                if not abs(got - wanted) <= 1e-6 * (1 + abs(wanted)):
                    raise Violation("wrong_property", f"{key} by {p}: {got} not {wanted}")
        if n.parts is None:
            return
        if not study.scalar_sensitivities or sorted(study.scalar_sensitivities) != sorted(
            self.params
        ):
            raise Violation("missing_scalars", "sensitivities of analysis results")
        if not n.conditioned() or not all(r.conditioned() for r in self.perturbed.values()):
            SIM.count("badly conditioned")
            return
        SIM.count("scalars compared")
        length = n.extent
        mass = sum(abs(q["mass"]) for q in n.parts.values())
        area = sum(q["area"] for q in n.parts.values())
        scale = {
            "volume": area * length,
            "mass": mass * (1 + area * length / abs(n.total["volume"])),
            "cog": 10 * length,
            "moi": mass * length**2,
            "area": area,
        }
        for p in self.params:
            other = self.perturbed[p]

            def compare(got, a, b, key, what):
                wanted = (np.asarray(b[key]) - np.asarray(a[key])) / self.dp[p]
                tolerance = 1e-5 * scale[key] / abs(self.dp[p]) + 1e-3 * np.max(
                    np.abs(wanted)
                )
                if not np.all(np.abs(np.asarray(got, float) - wanted) <= tolerance):
                    raise Violation("wrong_scalar", f"{what} by {p}: {got} not {wanted}")

            for key in ("volume", "mass", "cog", "moi"):
                compare(study.scalar_sensitivities[p][key], n.total, other.total, key, key)
            table = study.component_scalar_sensitivities[p]
            for name in n.names:
                for key in ("volume", "mass", "area"):
                    compare(
                        table.loc[name, key], n.parts[name], other.parts[name], key, name
                    )
            for key in ("volume", "mass", "area"):
                compare(table.loc["vehicle", key], n.total, other.total, key, "vehicle")


RESULTS = (
    "parameter_sensitivities",
    "component_sensitivities",
    "component_scalar_sensitivities",
    "scalar_sensitivities",
    "property_sensitivities",
)


def results(study):
    return {k: getattr(study, k) for k in RESULTS}


# Drawing
PARAMETERS = ["length", "width", "height_2", "d"]


def draw_spec(rng, analysed=None, count=None):
    analysed = rng.random() < 0.35 if analysed is None else analysed
    vehicle = build.draw_vehicle(
        rng,
        count=count or rng.choice([1, 1, 2]),
        max_res=rng.choice([1, 2]),
        closed=analysed,
        kinds=["revolved", "swept", "composite"],
        rate=rng.choice([0.1, 0.3]),
        allowed=["reflect", "tf", "ghost", "clust"] if analysed else None,
    )
    if analysed:
        for comp in vehicle["comps"]:
            for c in [comp] + comp.get("children", []):
                if c["opts"].get("reflect"):
                    c["opts"]["append"] = False
    for comp in vehicle["comps"]:
        if len(comp.get("children", [])) > 1 and not analysed and rng.random() < 0.5:
            # Vertices at the same place that move in different ways
            comp["children"][-1] = copy.deepcopy(comp["children"][0])
        comp["opts"]["tf"] = comp["opts"].get("tf", [])[:1]
    vehicle["vtf"] = vehicle["vtf"][:1]
    names = rng.sample(PARAMETERS, rng.choice([1, 2, 2, 3]))
    params = {}
    for name in names:
        params[name] = rng.choice(
            [build.number(rng, 0.5, 3), build.number(rng, -3, -0.5), rng.randint(1, 4)]
        )
    binds = []
    for name in names:
        kind = rng.choice(["offset", "size", "size"])
        bind = {
            "param": name,
            "kind": kind,
            "comp": rng.randrange(3),
            "axis": rng.randrange(3),
        }
        if kind == "offset":
            bind["scale"] = build.number(rng, 0.3, 2)
        else:
            bind["nominal"] = params[name]
            bind["child"] = rng.random() < 0.5
        binds.append(bind)
    properties = {}
    if rng.random() < 0.4:
        for name in ["weight", "span"][: rng.choice([1, 2])]:
            properties[name] = {k: build.number(rng, -1, 1) for k in names}
    return {
        "vehicle": vehicle,
        "params": params,
        "binds": binds,
        "properties": properties,
        "densities": [build.number(rng, 0.5, 3) for _ in range(2)] if analysed else None,
    }


def draw_study(rng, spec):
    """Arguments of one study."""
    names = list(spec["params"])
    chosen = rng.sample(names, rng.randint(1, len(names)))
    overrides = {k: spec["params"][k] for k in names if k not in chosen and rng.random() < 0.4}
    if rng.random() < 0.3:
        overrides["scale"] = 2.0
    return {
        "chosen": chosen,
        "overrides": overrides,
        "perturbation": rng.choice([5, 5, 10, 20, -8, 1.5]),
        "write": rng.random() < 0.3,
        "prefix": rng.choice([None, "nominal"]),
    }


def params_of(spec, s):
    chosen = [k for k in s["chosen"] if k in spec["params"]]
    chosen = chosen or list(spec["params"])[:1]
    return {k: spec["params"][k] for k in chosen}
