"""Builds library objects from specifications, and draws specifications."""

import copy

import numpy as np
import hypervehicle.hangar
from hypervehicle import Vehicle
from hypervehicle.components import (
    CompositeComponent,
    Fin,
    RevolvedComponent,
    SweptComponent,
    Wing,
)
from hypervehicle.components.common import OgiveNose
from hypervehicle.components.polygon import Cube, Sphere
from hypervehicle.geometry.path import Arc, Bezier, Line, Polyline, RobertsFunction
from hypervehicle.geometry.vector import Vector3

from . import model
from .core import SIM


# Functions a user would pass in; they take numbers, not arrays
class Field:
    """Offset function of x, y, z."""

    def __init__(self, spec):
        self.spec = spec

    def __call__(self, x, y, z=0.0):
        SIM.user_call("field")
        x, y, z = float(x), float(y), float(z)
        out = model.field(self.spec, np.array([x, y, z], float))
        return Vector3(float(out[0]), float(out[1]), float(out[2]))


class Curvature:
    def __init__(self, direction, a, b):
        self.direction, self.a, self.b = direction, a, b

    def __call__(self, x, y):
        SIM.user_call("curvature")
        x, y = float(x), float(y)
        u = x if self.direction == "x" else y
        return self.a * u**2 + self.b * u


class Slope(Curvature):
    def __call__(self, x, y):
        SIM.user_call("slope")
        x, y = float(x), float(y)
        u = x if self.direction == "x" else y
        return 2 * self.a * u + self.b


class Cluster:
    def __init__(self, spec):
        self.spec = spec

    def __call__(self, t):
        SIM.user_call("cluster")
        return model.cluster(self.spec, float(t))


class Thickness:
    """Thickness function of wings and fins."""

    def __init__(self, sign, t, taper=0.0):
        self.sign, self.t, self.taper = sign, t, taper

    def __call__(self, x, y, z=0):
        SIM.user_call("thickness")
        y = float(y)
        return Vector3(x=0.0, y=0.0, z=self.sign * (self.t / 2 + self.taper * y * y))


class Width:
    def __init__(self, w):
        self.w = w

    def __call__(self, t):
        SIM.user_call("width")
        return self.w


def vector(p):
    return Vector3(float(p[0]), float(p[1]), float(p[2]))


def make_path(spec):
    kind, points = spec
    if kind == "line":
        return Line(vector(points[0]), vector(points[1]))
    if kind == "arc":
        return Arc(*[vector(p) for p in points])
    if kind == "bezier":
        return Bezier([vector(p) for p in points])
    segments = [Line(vector(a), vector(b)) for a, b in zip(points[:-1], points[1:])]
    return Polyline(segments)


def make_transformations(tf):
    """Transformations in the form the library takes them."""
    out = []
    for t in tf:
        if t[0] == "translate":
            out.append(("translate", vector(t[1])))
        elif t[0] == "translate_fn":
            out.append(("translate", Field(t[1])))
        else:
            out.append(tuple(t))
    return out


FINS = [
    dict(
        p=[[0, 0, 0], [0.2, 0.9, 0], [0.8, 1.0, 0], [1.5, 0, 0]],
        t=0.1,
        angle=0.3,
        rudder="flat",
        pivot=0.0,
        width=0.03,
    ),
    dict(
        p=[[0, 0, 0], [0, 1.1, 0], [0.7, 1.1, 0], [1.8, 0, 0]],
        t=0.16,
        angle=-0.7,
        rudder="sharp",
        pivot=10.0,
        width=0.05,
    ),
    dict(
        p=[[0, 0, 0], [0.3, 1.0, 0], [0.9, 1.0, 0], [1.6, 0, 0]],
        t=0.12,
        angle=0.5,
        rudder="sharp",
        pivot=0.2,
        width=None,
        more=dict(mirror=True, rudder_angle=0.1),
        pivot_point=[0.4, 0.2, 0.0],
        offset=["lin", [[0, 0.1, 0], [0, 0, 0], [0.05, 0, 0]], [0.5, 0, 0.1]],
    ),
]
WINGS = [
    dict(tt=2.0, b=[[0, 1.0, 0], [0.9, 1.1, 0], [1.6, 0.7, 0]], a1=0.9, t=0.2, flap=0.2),
    dict(tt=1.5, b=[[0, 0.8, 0], [0.7, 0.9, 0], [1.2, 0.5, 0]], a1=0.6, t=0.1, flap=0.1),
    dict(
        tt=1.8,
        b=[[0, 0.9, 0], [0.8, 1.0, 0], [1.4, 0.6, 0]],
        a1=0.7,
        t=0.15,
        flap=0.15,
        flat=True,
        more=dict(close_wing=True, t_B1=0.4, t_B2=0.7),
    ),
]


class Custom:
    """Mixin for components defined by the user: their generation can fail."""

    def generate_patches(self):
        SIM.user_call("before generation")
        super().generate_patches()
        SIM.user_call("after generation")


class CustomRevolved(Custom, RevolvedComponent):
    pass


class CustomSwept(Custom, SweptComponent):
    pass


def make_component(spec, shared=None):
    """A library component (without the options given to add_component)."""
    kind = spec["kind"]
    own = {"stl_resolution": _shared(shared, spec.get("res", 1), copy.deepcopy)}
    own["verbosity"] = spec.get("verbosity", 0)
    if spec.get("own_name"):
        own["name"] = spec["own_name"]
    revolved = CustomRevolved if spec.get("custom") else RevolvedComponent
    swept = CustomSwept if spec.get("custom") else SweptComponent
    if "ogive" in spec:
        return OgiveNose(**spec["ogive"], **own)
    if kind == "revolved":
        return revolved(_shared(shared, spec["line"], make_path), **own)
    if kind == "swept":
        if spec.get("bulge"):
            sections = make_sections(spec["sections"], spec["bulge"])
        else:
            sections = _shared(shared, spec["sections"], make_sections)
        return swept(sections, close_ends=spec["close"], **own)
    if kind == "cube":
        return Cube(spec["a"], vector(spec["centre"]), **own)
    if kind == "sphere":
        return Sphere(spec["r"], vector(spec["centre"]), **own)
    if kind == "fin":
        v = FINS[spec["v"]]
        thickness = v["t"] * spec.get("thick", 1.0)
        p = [vector(q) for q in v["p"]]
        own.update(v.get("more", {}))
        if "offset" in v:
            own["offset_func"] = Field(v["offset"])
        if "pivot_point" in v:
            own["pivot_point"] = vector(v["pivot_point"])
        return Fin(
            *p,
            fin_thickness=thickness,
            fin_angle=v["angle"],
            top_thickness_function=Thickness(-1, thickness),
            bot_thickness_function=Thickness(1, thickness),
            LE_wf=Width(v["width"]) if v["width"] else None,
            rudder_type=v["rudder"],
            rudder_length=0.2,
            pivot_angle=v["pivot"],
            **own,
        )
    if kind == "wing":
        v = WINGS[spec["v"]]
        b0 = v["b"][0]
        own.update(v.get("more", {}))
        thickness = v["t"] * spec.get("thick", 1.0)
        bend = spec.get("bend", 1.0)
        inner = [[p[0], p[1] * bend, p[2]] for p in v["b"][1:]]
        line = Bezier([vector(p) for p in [b0] + inner + [[v["tt"], 0, 0]]])
        return Wing(
            A0=vector([0, 0, 0]),
            A1=vector([v["a1"], 0, 0]),
            TT=vector([v["tt"], 0, 0]),
            B0=vector(b0),
            Line_B0TT=line,
            top_tf=Thickness(-1, thickness, 0.02),
            bot_tf=Thickness(1, thickness, 0.02),
            LE_wf=Width(0.05),
            LE_type="FLAT" if spec["v"] == 0 or v.get("flat") else "custom",
            flap_length=v["flap"],
            flap_angle=0.1,
            **own,
        )
    if kind == "composite":
        component = CompositeComponent(**own)
        for child in spec["children"]:
            options = child.get("opts", {})
            arguments = add_arguments(options, composite=True, shared=shared)
            component.add_component(make_component(child, shared), **arguments)
        return component
    raise ValueError(kind)


def make_sections(sections, bulge=None):
    made = []
    for s in sections:
        points = [vector(p) for p in s]
        ends = [(points[i], points[(i + 1) % len(points)]) for i in range(len(points))]
        if bulge:
            made.append([Bezier([a, 0.5 * (a + b) + vector(bulge), b]) for a, b in ends])
        else:
            made.append([Line(a, b) for a, b in ends])
    return made


def _shared(shared, spec, function):
    """Build from a specification; equal specifications share one object when a
    registry is given."""
    if shared is None:
        return function(spec)
    key = (function.__name__, repr(spec))
    if key not in shared:
        shared[key] = function(spec)
    return shared[key]


def make_curvatures(curv):
    return [(d, Curvature(d, a, b), Slope(d, a, b)) for d, a, b in curv]


def make_clustering(clust):
    return {
        f"{k}_clustering_func": (
            RobertsFunction(*c[1:]) if c[0] == "roberts" else Cluster(c)
        )
        for k, c in clust.items()
    }


def add_arguments(options, composite=False, shared=None):
    """Keyword arguments of add_component."""
    arguments = {}
    if options.get("reflect"):
        arguments["reflection_axis"] = options["reflect"]
        if not options.get("append", True) or options.get("explicit", True):
            arguments["append_reflection"] = options.get("append", True)
    if options.get("curv"):
        arguments["curvatures"] = _shared(shared, options["curv"], make_curvatures)
    if options.get("tf"):
        arguments["transformations"] = _shared(
            shared, options["tf"], make_transformations
        )
    if composite:
        return arguments
    if options.get("clust"):
        arguments["clustering"] = _shared(shared, options["clust"], make_clustering)
    if options.get("mod"):
        arguments["modifier_function"] = _shared(shared, options["mod"], Field)
    if options.get("ghost"):
        arguments["ghost"] = True
    if options.get("name"):
        arguments["name"] = options["name"]
    return arguments


_pristine = {}


def golden(spec, angle=0.0):
    """Patches of a pristine component, for the model."""
    if "hangar" in spec:
        key = (repr(spec["hangar"]), spec["i"], angle)
    else:
        own = {k: v for k, v in spec.items() if k in ("kind", "v", "thick", "bend", "ogive")}
        key = repr(sorted(own.items()))
    if key not in _pristine:
        if "hangar" in spec:
            vehicle = make_generator(spec["hangar"]).create_instance()
            vehicle.verbosity = 0
            vehicle.vehicle_angle_offset = angle
            vehicle.generate()
            component = vehicle.components[spec["i"]]
        else:
            component = make_component(own)
            component.generate_patches()
        cache = {}

        def evaluate(name, patch):
            def call(r, s):
                k = (name, r, s)
                if k not in cache:
                    p = patch(r, s)
                    cache[k] = (float(p.x), float(p.y), float(p.z))
                return cache[k]

            return call

        _pristine[key] = {k: evaluate(k, p) for k, p in component.patches.items()}
    return _pristine[key]


model.GOLDEN = golden


# Vehicles that come with the library
HANGAR = {
    "ParametricWedge": ["wingspan", "chord", "thickness"],
    "ParametricFinner": [],
    "ParametricFalcon9": [],
    "ParametricReFEX": [],
    "ParametricHTV": [],
    "ParametricHIFiRE4": [],
    "ParametricHIFiRE8": [],
    "ParametricD21": [],
    "ParametricWaverider": [],
    "ParametricX43": [],
}
HANGAR_TRANSFORMED = ("ParametricReFEX", "ParametricWaverider")
HANGAR_WEIGHTS = [4, 4, 4, 1, 1, 1, 1, 1, 1, 0.3]
HANGAR_CLUSTERING = {("ParametricWaverider", "fuselage"): {"i": ["roberts", True, True, 1.025]}}


def make_generator(spec):
    return getattr(hypervehicle.hangar, spec["class"])(**spec["overrides"])


def hangar_specs(spec):
    """Specifications of the components of a vehicle of the hangar."""
    vehicle = make_generator(spec).create_instance()
    specs = []
    for i, component in enumerate(vehicle.components):
        options = {"name": component.name} if component.name else {}
        clustering = HANGAR_CLUSTERING.get((spec["class"], component.name))
        if clustering:
            options["clust"] = clustering
        kind = str(component.componenttype)
        specs.append({"kind": kind, "hangar": spec, "i": i, "res": spec["res"], "opts": options})
    return specs


def draw_hangar(rng):
    name = rng.choices(list(HANGAR), HANGAR_WEIGHTS)[0]
    overrides = {p: number(rng, 0.2, 2.0) for p in HANGAR[name] if rng.random() < 0.5}
    cheap = list(HANGAR).index(name) < 3
    return {"class": name, "overrides": overrides, "res": rng.choice([1, 2]) if cheap else 1}


# Drawing specifications
AXES = "xyz"
NAMES = ["body", "nose", "left wing", "tail-1", "flap", "inlet", "Rumpf_ü", "p.q"]


def number(rng, low, high, digits=2):
    return round(rng.uniform(low, high), digits)


def point(rng, size=2.0):
    return [number(rng, -size, size) for _ in range(3)]


def draw_transformation(rng, functions=True):
    kind = rng.random()
    if kind < 0.5:
        angle = rng.choice([90, 180, -90, number(rng, -170, 170)])
        if rng.random() < 0.1:
            return ["rotate", angle]  # about the default axis
        return ["rotate", angle, rng.choice(AXES)]
    if kind < 0.85 or not functions:
        return ["translate", point(rng, 3.0)]
    return ["translate_fn", draw_field(rng)]


def draw_densities(rng, count, high, weightless=True):
    """Densities of the components in turn."""
    values = [number(rng, 0.5, high) for _ in range(count)]
    if rng.random() < 0.15:
        values[0] = rng.randint(1, 3)
    if weightless and rng.random() < 0.1:
        # Weightless, but not the only one
        values[1] = rng.choice([0, 0.0])
    return values


def draw_field(rng):
    kind = rng.random()
    if kind < 0.4:
        m = [[number(rng, -0.3, 0.3) for _ in range(3)] for _ in range(3)]
        return ["lin", m, point(rng, 1.0)]
    if kind < 0.8:
        return ["quad", [number(rng, -0.2, 0.2) for _ in range(3)]]
    return ["clip", rng.randrange(3), number(rng, -0.3, 0.3)]


def draw_cluster(rng):
    kind = rng.random()
    if kind < 0.35:
        return ["power", rng.choice([0.5, 1.5, 2.0])]
    if kind < 0.55:
        return ["piece", rng.choice([0.2, 0.5]), rng.choice([0.35, 0.7])]
    ends = rng.choice([(True, False), (False, True), (True, True)])
    return ["roberts", ends[0], ends[1], number(rng, 1.05, 1.8)]


def draw_options(rng, rate=0.35, child=False, allowed=None):
    options = {}

    def take(name):
        return (allowed is None or name in allowed) and rng.random() < rate

    if take("reflect"):
        options["reflect"] = rng.choice(AXES)
        options["append"] = rng.random() < 0.7
        options["explicit"] = rng.random() < 0.6
    if take("curv"):
        options["curv"] = [
            [rng.choice("xy"), number(rng, -0.2, 0.2), number(rng, -0.3, 0.3)]
            for _ in range(rng.choice([1, 1, 2]))
        ]
    if take("tf"):
        options["tf"] = [draw_transformation(rng) for _ in range(rng.choice([1, 2]))]
    if child:
        return options
    if take("clust"):
        options["clust"] = {
            k: draw_cluster(rng) for k in rng.choice(["i", "j", "ij"])
        }
    if take("mod"):
        options["mod"] = draw_field(rng)
    if take("ghost"):
        options["ghost"] = True
    return options


def draw_revolved(rng, closed=False):
    kind = rng.choice(["line", "bezier", "polyline"])
    n = {"line": 2, "bezier": rng.choice([3, 4]), "polyline": rng.choice([3, 4])}[kind]
    if closed and kind == "line":
        kind, n = "polyline", 3
    xs = sorted(rng.sample(range(1, 40), n))
    points = [[x / 10, number(rng, 0.2, 1.5), 0.0] for x in xs]
    if closed:
        points[0][1] = points[-1][1] = 0.0
    elif rng.random() < 0.3:
        for p in points:
            p[2] = number(rng, -0.5, 0.5)
    return {"kind": "revolved", "line": [kind, points]}


def draw_swept(rng, closed=False, slices=None):
    edges = 4 if closed or rng.random() < 0.7 else rng.choice([3, 5])
    close = closed or (edges == 4 and rng.random() < 0.7)
    sections = []
    x = number(rng, -1, 0)
    for _ in range(slices or rng.choice([2, 2, 3])):
        points = []
        for k in range(edges):
            angle = 2 * np.pi * (k + 0.3 * rng.random()) / edges
            radius = number(rng, 0.4, 1.4)
            points.append(
                [
                    x + number(rng, -0.1, 0.1),
                    round(radius * float(np.cos(angle)), 3),
                    round(radius * float(np.sin(angle)), 3),
                ]
            )
        sections.append(points)
        x = round(x + number(rng, 0.5, 2.0), 2)
    spec = {"kind": "swept", "sections": sections, "close": close}
    if not close and rng.random() < 0.3:
        spec["bulge"] = [number(rng, -0.2, 0.2) for _ in range(3)]
    return spec


def draw_component(rng, kinds=None, max_res=3, rate=0.35, allowed=None, closed=False):
    kind = rng.choice(kinds or ["revolved", "revolved", "swept", "swept", "composite"])
    low = 2 if closed else 1
    res = rng.randint(low, max(low, max_res))
    if kind == "revolved":
        spec = draw_revolved(rng, closed)
    elif kind == "ogive":
        h = number(rng, 0.3, 0.8)
        spec = {"r_o": round(h * 4, 2), "r_n": round(h / 5, 2), "h": h, "L_o": number(rng, 1, 2)}
        spec = {"kind": "revolved", "ogive": spec}
    elif kind == "arc":
        radius, start = number(rng, 0.5, 2.0), number(rng, -2, 2)
        turn = np.deg2rad(rng.choice([30, 60, 89]))
        end = [start + radius * float(np.sin(turn)), 0.2 + radius * float(np.cos(turn)), 0.0]
        centre = [start, 0.2, 0.0]
        line = [[start, 0.2 + radius, 0.0], end, centre]
        spec = {"kind": "revolved", "line": ["arc", line]}
    elif kind == "swept":
        spec = draw_swept(rng, closed)
        if rng.random() < 0.35:
            edges = len(spec["sections"][0])
            res = {"sweep": rng.randint(1, max_res)}
            for e in range(edges):
                res[f"e{e}"] = rng.randint(1, max_res)
            if spec["close"]:
                res["e2"], res["e3"] = res["e0"], res["e1"]
    elif kind == "composite":
        children = []
        for _ in range(rng.choice([1, 2, 2])):
            child_kind = rng.choice(["revolved", "swept", "cube", "sphere"])
            if closed:
                child_kind = rng.choice(["revolved", "swept"])
            if child_kind == "cube":
                child = {"kind": "cube", "a": number(rng, 0.2, 1), "centre": point(rng)}
            elif child_kind == "sphere":
                child = {"kind": "sphere", "r": number(rng, 0.2, 1), "centre": point(rng)}
            elif child_kind == "revolved":
                child = draw_revolved(rng, closed)
            else:
                child = draw_swept(rng, closed)
            child["opts"] = draw_options(rng, rate, child=True, allowed=allowed)
            children.append(child)
        spec = {"kind": "composite", "children": children}
        res = rng.randint(low, max(low, min(2, max_res)))
    else:
        spec = {"kind": kind, "v": rng.choice([0, 0, 1, 2]) if kind == "wing" else rng.randrange(3)}
        spec["thick"] = rng.choice([1.0, 1.0, 0.8])
        if kind == "wing":
            spec["bend"] = rng.choice([1.0, 1.0, 0.9])
        res = 1
    spec["res"] = res
    spec["opts"] = draw_options(rng, rate, allowed=allowed)
    if kind in ("wing", "fin"):
        # Expensive to evaluate: keep these simple
        spec["opts"].pop("clust", None)
        spec["opts"].pop("mod", None)
        if rng.random() < 0.8:
            spec["opts"].pop("tf", None)
            spec["opts"].pop("reflect", None)
    return spec


def enlarge(rng, comps, count):
    """Make one quantity of the vehicle much larger than usual."""
    what = rng.choice(["components", "resolution", "patches"])
    usual = [c for c in comps if c["kind"] not in ("wing", "fin")]
    if not usual:
        return
    if what == "components":
        # Copies at other places
        simple = min(usual, key=lambda c: len(repr(c)))
        for n in range(rng.randint(6, 14) - count):
            other = copy.deepcopy(simple)
            if isinstance(simple["res"], int):
                other["res"] = min(simple["res"], 2)
            other["opts"].setdefault("tf", []).append(["translate", point(rng, 3.0)])
            other["opts"]["tf"] = other["opts"]["tf"][-2:]
            comps.append(other)
    elif what == "resolution":
        comps[0]["opts"].pop("curv", None)
        if comps[0]["kind"] in ("revolved", "swept"):
            if isinstance(comps[0]["res"], int):
                comps[0]["res"] = rng.randint(6, 18)
            else:
                comps[0]["res"]["sweep"] = rng.randint(6, 24)
    elif comps[0]["kind"] == "composite":
        first = comps[0]["children"][0]
        for n in range(rng.randint(4, 14)):
            other = copy.deepcopy(first)
            other["opts"]["tf"] = [["translate", point(rng, 3.0)]]
            comps[0]["children"].append(other)
    elif comps[0]["kind"] == "swept":
        more = draw_swept(rng, comps[0]["close"], rng.randint(8, 17))
        if len(more["sections"][0]) == len(comps[0]["sections"][0]):
            comps[0]["sections"] = more["sections"]


def draw_vehicle(
    rng,
    count=None,
    kinds=None,
    max_res=3,
    rate=None,
    allowed=None,
    closed=False,
    slow=0.0,
    large=0.03,
    hangar=0.0,
):
    count = count or rng.choice([1, 2, 2, 3])
    rate = rng.choice([0.15, 0.35, 0.6]) if rate is None else rate
    comps = []
    for _ in range(count):
        use = kinds
        long = any(c["kind"] in ("wing", "fin") for c in comps)
        if slow and rng.random() < slow and not long:
            use = ["wing", "fin", "wing", "fin", "ogive", "arc"]
        comps.append(draw_component(rng, use, max_res, rate, allowed, closed))
    if rng.random() < large:
        enlarge(rng, comps, count)
    names = rng.sample(NAMES + [f"part {n}" for n in range(len(comps) - 8)], len(comps))
    for spec, name in zip(comps, names):
        if rng.random() < 0.5:
            if rng.random() < 0.5:
                spec["opts"]["name"] = name
            else:
                spec["own_name"] = name
    if hangar and rng.random() < hangar:
        return {
            "comps": [],
            "hangar": draw_hangar(rng),
            "inprocess": rng.random() < 0.3,
            "angle": number(rng, -10, 10) if rng.random() < 0.2 else 0,
            "vtf": [draw_transformation(rng, functions=False)] if rng.random() < 0.2 else [],
        }
    spec = {
        "comps": comps,
        "name": rng.choice([None, "glider", "X 1", "X.2"]),
        "verbosity": rng.choice([0, 0, 0, 1, 2]),
        "inprocess": rng.random() < 0.3,
        "angle": 0,
        "vtf": [],
    }
    if rng.random() < 0.35:
        spec["angle"] = number(rng, -10, 10)
    if rng.random() < 0.4:
        spec["vtf"] = [
            draw_transformation(rng, functions=False) for _ in range(rng.choice([1, 2]))
        ]
    if any(c["kind"] in ("wing", "fin") for c in comps):
        # Translated patches evaluate what they move several times
        spec["vtf"] = spec["vtf"][:1]
        for c in comps:
            c["opts"]["tf"] = c["opts"].get("tf", [])[:1]
    return spec
