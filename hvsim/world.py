"""Runs operations on library objects next to the model."""

import contextlib
import copy
import io
import os
import random
import signal
import sys

import numpy as np
from hypervehicle import Vehicle

from . import build, fs as simfs, model, pool
from .core import SIM, SimCrash, SimHang, Violation
from .sched import Tracing


class Timeout(BaseException):
    """The run takes longer than any run should (real time)."""


class Outcome:
    def __init__(self):
        self.value = None
        self.error = None
        self.crashed = False
        self.hung = False
        self.fired = []
        self.fs_trace = []

    @property
    def ok(self):
        return self.error is None

    def describe(self):
        return "returned" if self.ok else f"raised {self.error!r:.200}"


@contextlib.contextmanager
def captured():
    out, err = sys.stdout, sys.stderr
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = out, err


def arm(faults):
    """Plan the faults of the coming operation. Returns the trace scope."""
    SIM.begin_op()
    scope = None
    files = {}
    for f in faults or ():
        if "vehicle" in f:
            SIM.held_faults.append(f)
        elif f["t"] == "line":
            SIM.line_fault = f
            scope = f["scope"]
        elif f["t"] == "fs":
            files[f["ev"]] = f
        else:
            SIM.install(f)
    if SIM.fs is not None:
        SIM.fs.begin(files)
    return scope


def call(function, *args, faults=None, label=None, **kwargs):
    """Call the library with the faults given and collect what happens."""
    outcome = Outcome()
    scope = arm(faults)
    SIM.log("op", label or getattr(function, "__name__", "?"))
    SIM.count("ops")
    if SIM.fs is not None:
        SIM.fs.active = True
    try:
        with captured(), Tracing(scope):
            outcome.value = function(*args, **kwargs)
    except (Exception, KeyboardInterrupt, SystemExit, SimCrash, SimHang) as error:
        outcome.error = error
    finally:
        sys.settrace(None)
        if SIM.fs is not None:
            SIM.fs.active = False
            outcome.crashed = SIM.fs.dead
            outcome.fs_trace = SIM.fs.trace
            SIM.fs.finish()
    outcome.hung = isinstance(outcome.error, SimHang)
    outcome.fired = list(SIM.fired)
    SIM.log("outcome", type(outcome.error).__name__)
    SIM.begin_op()
    return outcome


def expect(function, *args, label=None, **kwargs):
    """Call the library where nothing may go wrong."""
    outcome = call(function, *args, label=label, **kwargs)
    if not outcome.ok:
        error = outcome.error
        outcome.error = None
        raise Violation(
            f"unexpected_{type(error).__name__}", f"{label or function}: {error}"
        )
    return outcome.value


def mesh_difference(vectors, expected):
    """None, or a description of how a mesh differs from the model."""
    vectors = np.asarray(vectors)
    if vectors.shape != expected.shape:
        return f"{vectors.shape[0]} triangles instead of {expected.shape[0]}"
    scale = 1.0 + float(np.max(np.abs(expected)))
    difference = np.abs(vectors.astype(float) - expected)
    worst = float(np.max(difference)) if difference.size else 0.0
    if not worst <= 2.0e-5 * scale:
        where = int(np.argmax(np.max(difference, axis=(1, 2))))
        return (
            f"triangle {where} is off by {worst:.3g} "
            f"({np.round(vectors[where], 4).tolist()} instead of "
            f"{np.round(expected[where], 4).tolist()})"
        )
    return None


class VehicleWorld:
    """A vehicle and its model."""

    def __init__(self, spec, shared=None, transformations=None):
        self.spec = copy.deepcopy(spec)
        self.components = []
        self.specs = []
        if spec.get("hangar"):
            self.from_hangar(spec["hangar"])
        else:
            self.vehicle = Vehicle()
            self.vehicle.configure(
                name=spec.get("name"), verbosity=spec.get("verbosity", 0)
            )
        self.shared = shared
        self.angle = spec.get("angle", 0)
        self.vtf = []
        self.grids = None
        self._triangles = {}
        for comp in spec["comps"]:
            self.add(comp)
        self.vehicle.vehicle_angle_offset = self.angle
        if spec.get("vtf"):
            self.add_vtf(spec["vtf"], transformations)

    # Definition
    def from_hangar(self, hangar):
        with captured():
            self.specs = build.hangar_specs(hangar)
            for s in self.specs:
                # What it should be is determined before it is used
                build.golden(s)
        self.vehicle = expect(
            build.make_generator(hangar).create_instance, label="create_instance"
        )
        self.vehicle.verbosity = 0
        self.spec["name"] = self.vehicle.name
        self.components = list(self.vehicle.components)
        for component in self.components:
            component.stl_resolution = hangar["res"]
            if self.spec.get("inprocess"):
                component._multiprocess = False

    def add(self, comp):
        if self.spec.get("hangar", {}).get("class") in build.HANGAR_TRANSFORMED:
            # Its transformations, which apply to all components, are not modelled
            return
        comp = copy.deepcopy(comp)
        component = build.make_component(comp, self.shared)
        arguments = build.add_arguments(comp.get("opts", {}), shared=self.shared)
        expect(self.vehicle.add_component, component, label="add_component", **arguments)
        if self.spec.get("inprocess"):
            component._multiprocess = False
        self.components.append(component)
        self.specs.append(comp)
        self.grids = None

    def add_vtf(self, tf, given=None):
        made = given
        if made is None:
            made = build._shared(self.shared, tf, build.make_transformations)
        if len(made) == 1 and self.spec.get("tuple_form"):
            made = made[0]
        expect(self.vehicle.add_vehicle_transformations, made, label="add_vtf")
        self.vtf = self.vtf + list(tf)

    def names(self):
        """The documented names of the components."""
        counts, names = {}, []
        for s in self.specs:
            counts[s["kind"]] = counts.get(s["kind"], 0) + 1
            names.append(self.given_name(s) or f"{s['kind']}_{counts[s['kind']]}")
        return names

    @staticmethod
    def given_name(s):
        return s.get("opts", {}).get("name") or s.get("own_name")

    def ghost(self, i):
        return bool(self.specs[i].get("opts", {}).get("ghost"))

    def stl_names(self, prefix):
        """File of each component, None for ghosts."""
        counts, files = {}, []
        for i, s in enumerate(self.specs):
            no = counts.get(s["kind"], 0)
            counts[s["kind"]] = no + 1
            name = self.given_name(s)
            if prefix:
                f = f"{prefix}-{name}.stl" if name else f"{prefix}-{s['kind']}-{no}.stl"
            elif name:
                f = f"{name}.stl"
            else:
                f = f"{self.spec.get('name') or 'vehicle'}-{s['kind']}-{no}.stl"
            files.append(None if self.ghost(i) else f)
        return files

    # Model
    def model_generate(self):
        self.grids = []
        for s in self.specs:
            grids = model.generate(s, self.angle)
            self.grids.append([(k, model.transform(g, self.vtf)) for k, g in grids])
        self._triangles = {}

    def model_transform(self, tf, only=None):
        for i, grids in enumerate(self.grids):
            if only is None or i == only:
                self.grids[i] = [(k, model.transform(g, tf)) for k, g in grids]
        self._triangles = {}

    def expected(self, i):
        if i not in self._triangles:
            self._triangles[i] = model.triangles(self.grids[i])
        return self._triangles[i]

    # Comparison
    def check_mesh(self, i, when=""):
        mesh = expect(lambda: self.components[i].mesh, label=f"mesh {i}")
        return self.check_vectors(i, mesh.vectors, when)

    def check_vectors(self, i, vectors, when=""):
        difference = mesh_difference(vectors, self.expected(i))
        if difference:
            raise Violation(
                "wrong_mesh", f"{self.specs[i]['kind']} component {i} {when}: {difference}"
            )

    def check_meshes(self, when=""):
        for i in range(len(self.components)):
            self.check_mesh(i, when)

    def check_stl_files(self, prefix, found, when=""):
        """Files of an export, in the snapshot given."""
        from .stub_pymesh import read_stl

        for i, name in enumerate(self.stl_names(prefix)):
            if name is None:
                continue
            if name not in found:
                raise Violation("missing_file", f"{name} {when}")
            try:
                vectors = read_stl(
                    name, opener=lambda p, mode: io.BytesIO(found[p])
                )
            except ValueError as error:
                raise Violation("incomplete_file", f"{name} {when}: {error}")
            difference = mesh_difference(vectors, self.expected(i))
            if difference:
                raise Violation("wrong_file", f"{name} {when}: {difference}")

    # Analysis
    def densities(self, values):
        return {
            name: values[i % len(values)] for i, name in enumerate(self.names())
        }

    def expected_analysis(self, densities):
        """Component and vehicle properties, or None when badly conditioned."""
        names = self.names()
        parts = {}
        for i, name in enumerate(names):
            vectors = self.expected(i).astype(np.float32)
            with np.errstate(all="ignore"):
                parts[name] = model.solid(vectors, densities[name])
        total = sum(p["mass"] for p in parts.values())
        size = sum(abs(p["mass"]) for p in parts.values())
        if not abs(total) >= 0.2 * size or not all(
            p["sound"] for p in parts.values()
        ):
            return None
        return parts, model.union(list(parts.values()))

    def extent(self):
        return 1.0 + max(
            float(np.max(np.abs(self.expected(i)))) for i in range(len(self.specs))
        )


def scratch_fs(root):
    SIM.fs = simfs.FS(root)
    os.chdir(root)
    simfs.wipe(root)
