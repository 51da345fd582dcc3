"""Reference model of the geometry, independent of the library.

A component is described by a specification (a dictionary). The model turns it
into grids of points, one per patch, applies all modifications to the points,
and triangulates the grids."""

import math

import numpy as np


# Distribution of points
def cluster(spec, t):
    if spec[0] == "power":
        return t ** spec[1]
    if spec[0] == "piece":
        # Two straight pieces
        _, at, value = spec
        if t < at:
            return value * t / at
        return value + (1 - value) * (t - at) / (1 - at)
    if spec[0] == "roberts":
        _, end0, end1, beta = spec
        return _roberts(t, end0, end1, beta)
    raise ValueError(spec)


def _roberts(eta, end0, end1, beta):
    if not (end0 or end1) or beta < 1.0:
        return eta
    alpha = 0.5 if (end0 and end1) else 0.0
    reverse = end0 and not end1
    if reverse:
        eta = 1.0 - eta
    lam = ((beta + 1.0) / (beta - 1.0)) ** ((eta - alpha) / (1.0 - alpha))
    bar = (beta + 2.0 * alpha) * lam - beta + 2.0 * alpha
    bar = bar / ((2.0 * alpha + 1.0) * (1.0 + lam))
    return 1.0 - bar if reverse else bar


def spacing(n, clustering):
    values = [i / n for i in range(n + 1)]
    if clustering:
        values = [cluster(clustering, v) for v in values]
    return np.array(values, float)


# Paths
def path(spec, t):
    """Points of a path at the parameters t."""
    kind = spec[0]
    points = np.array(spec[1], float)
    t = np.asarray(t, float)[:, None]
    if kind == "line":
        return points[0] * (1 - t) + points[1] * t
    if kind == "arc":
        a, b, c = points
        first = a - c
        normal = np.cross(first, b - c)
        normal = normal / np.linalg.norm(normal)
        second = np.cross(normal, first)
        whole = math.atan2(np.dot(b - c, second), np.dot(b - c, first))
        return c + np.cos(whole * t) * first + np.sin(whole * t) * second
    if kind == "bezier":
        n = len(points) - 1
        total = np.zeros((len(t), 3))
        for i, p in enumerate(points):
            total += math.comb(n, i) * (1 - t) ** (n - i) * t**i * p
        return total
    if kind == "polyline":
        lengths = np.linalg.norm(np.diff(points, axis=0), axis=1)
        breaks = np.concatenate([[0.0], np.cumsum(lengths)]) / lengths.sum()
        return np.stack(
            [np.interp(t[:, 0], breaks, points[:, k]) for k in range(3)], axis=1
        )
    raise ValueError(spec)


# Base patches
def _revolved(spec, points):
    line = spec["line"]
    grids = []
    for i in range(4):
        r, s = points(f"revolved_fuse_{i}", None)
        p = path(line, r)[:, None, :]
        angle = (i + s)[None, :] * math.pi / 2
        x = np.broadcast_to(p[..., 0], (len(r), len(s)))
        y = p[..., 1] * np.cos(angle) + p[..., 2] * np.sin(angle)
        z = p[..., 2] * np.cos(angle) - p[..., 1] * np.sin(angle)
        grids.append((f"revolved_fuse_{i}", np.stack([x, y, z], -1)))
    return grids


def _swept(spec, points):
    sections = [np.array(s, float) for s in spec["sections"]]
    edges = len(sections[0])
    grids = []
    for e in range(edges):
        r, s = points(f"swept_patch_{e}", ("sweep", f"e{e}"))
        rows = []
        for section in sections:
            a, b = section[e], section[(e + 1) % edges]
            row = a * (1 - s[:, None]) + b * s[:, None]
            if spec.get("bulge"):
                # Control point beside the middle of the edge
                row = row + 2 * (s * (1 - s))[:, None] * np.array(spec["bulge"], float)
            rows.append(row)
        rows = np.array(rows)
        knots = np.linspace(0, 1, len(sections))
        grid = np.empty((len(r), len(s), 3))
        for j in range(len(s)):
            for k in range(3):
                grid[:, j, k] = np.interp(r, knots, rows[:, j, k])
        grids.append((f"swept_patch_{e}", grid))
    if spec["close"]:
        for end, order in ((0, (0, 1, 2, 3)), (-1, (1, 0, 3, 2))):
            name = "swept_patch_end_0" if end == 0 else "swept_patch_end_1"
            p00, p10, p11, p01 = (sections[end][i] for i in order)
            r, s = points(name, ("e0", "e1"))
            r, s = r[:, None, None], s[None, :, None]
            grid = (
                p00 * (1 - r) * (1 - s)
                + p10 * r * (1 - s)
                + p11 * r * s
                + p01 * (1 - r) * s
            )
            grids.append((name, grid))
    return grids


FACES = ("east", "west", "south", "north", "bottom", "top")


def _face(face, r, s):
    """Point on the unit cube [-1, 1]^3."""
    a = -1 + 2 * r
    b = -1 + 2 * s
    one = np.ones(np.broadcast(a, b).shape)
    a, b = a * one, b * one
    return {
        "east": (one, a, b),
        "west": (-one, a, b),
        "south": (a, -one, b),
        "north": (a, one, b),
        "bottom": (a, b, -one),
        "top": (a, b, one),
    }[face]


def _cube(spec, points):
    grids = []
    for face in FACES:
        r, s = points(face, None)
        p = np.stack(_face(face, r[:, None], s[None, :]), -1)
        grids.append((face, np.array(spec["centre"], float) + spec["a"] * p))
    return grids


def _sphere(spec, points):
    grids = []
    for face in FACES:
        r, s = points(face, None)
        x, y, z = _face(face, r[:, None], s[None, :])
        p = np.stack(
            [
                x * np.sqrt(1 - y**2 / 2 - z**2 / 2 + y**2 * z**2 / 3),
                y * np.sqrt(1 - z**2 / 2 - x**2 / 2 + x**2 * z**2 / 3),
                z * np.sqrt(1 - x**2 / 2 - y**2 / 2 + x**2 * y**2 / 3),
            ],
            -1,
        )
        grids.append((face, np.array(spec["centre"], float) + spec["r"] * p))
    return grids


GOLDEN = None  # function(spec) -> ordered {patch name: callable(r, s)}; see build


def _golden(spec, points, angle=0.0):
    grids = []
    for name, patch in GOLDEN(spec, angle).items():
        r, s = points(name, None)
        grids.append((name, np.array([[patch(a, b) for b in s] for a in r])))
    return grids


def base_grids(spec, res, clustering, angle=0.0):
    """Grids of the unmodified component."""
    ci, cj = clustering.get("i"), clustering.get("j")

    def points(name, keys):
        if isinstance(res, dict):
            nr, ns = res[keys[0]], res[keys[1]]
        else:
            nr = ns = res
        return spacing(nr, ci), spacing(ns, cj)

    kind = spec["kind"]
    if "hangar" in spec or "ogive" in spec:
        return _golden(spec, points, angle)
    if kind == "composite":
        grids = []
        for i, child in enumerate(spec["children"]):
            options = child.get("opts", {})
            part = base_grids(child, res, clustering)
            part = [(k, curve(g, options.get("curv"))) for k, g in part]
            part = reflect(part, options)
            part = [(k, transform(g, options.get("tf"))) for k, g in part]
            grids.extend((f"{k}_{i}", g) for k, g in part)
        return grids
    function = {
        "revolved": _revolved,
        "swept": _swept,
        "cube": _cube,
        "sphere": _sphere,
        "wing": _golden,
        "fin": _golden,
    }[kind]
    return function(spec, points)


# Modifications
def field(spec, p):
    """Offset field: ["lin", A (3x3), b] or ["sin", amplitudes, wave numbers]."""
    if spec[0] == "lin":
        return p @ np.array(spec[1], float).T + np.array(spec[2], float)
    if spec[0] == "quad":
        a = np.array(spec[1], float)
        return np.stack(
            [a[0] * p[..., 1] ** 2, a[1] * p[..., 2] ** 2, a[2] * p[..., 0] ** 2], -1
        )
    if spec[0] == "clip":
        # Flatten everything beyond a plane normal to an axis
        axis, level = spec[1], spec[2]
        out = np.zeros_like(p)
        out[..., axis] = np.where(p[..., axis] > level, level - p[..., axis], 0.0)
        return out
    raise ValueError(spec)


def curve(p, curvatures):
    for direction, a, b in curvatures or ():
        x, y, z = p[..., 0], p[..., 1], p[..., 2]
        u = x if direction == "x" else y
        offset = a * u**2 + b * u
        slope = 2 * a * u + b
        angle = np.arctan2(slope, 1)
        if direction == "x":
            p = np.stack([x - z * np.sin(angle), y, z * np.cos(angle) + offset], -1)
        else:
            p = np.stack([x, y - z * np.sin(angle), offset + z * np.cos(angle)], -1)
    return p


def rotation(degrees, axis):
    c, s = math.cos(math.radians(degrees)), math.sin(math.radians(degrees))
    i = "xyz".index(axis.lower())
    j, k = (i + 1) % 3, (i + 2) % 3
    m = np.eye(3)
    m[j, j] = m[k, k] = c
    m[j, k], m[k, j] = -s, s
    return m


def transform(p, transformations):
    for t in transformations or ():
        if t[0] == "rotate":
            degrees = t[1] if len(t) > 1 else 0
            axis = t[2] if len(t) > 2 else "y"
            p = p @ rotation(degrees, axis).T
        elif t[0] == "translate":
            p = p + np.array(t[1], float)
        elif t[0] == "translate_fn":
            p = p + field(t[1], p)
        else:
            raise ValueError(t)
    return p


def mirror(p, axis):
    p = p.copy()
    p[..., "xyz".index(axis.lower())] *= -1
    return p


def reflect(grids, options):
    axis = options.get("reflect")
    if not axis:
        return grids
    mirrored = [(f"{k}_mirrored", mirror(g, axis)) for k, g in grids]
    return grids + mirrored if options.get("append", True) else mirrored


def generate(spec, angle=0.0):
    """Grids of a component after Vehicle.generate()."""
    options = spec.get("opts", {})
    grids = base_grids(spec, spec["res"], options.get("clust") or {}, angle)
    if "hangar" in spec:
        # Everything its generator asks for is in the patches already
        return grids
    if options.get("mod"):
        grids = [(k, g + field(options["mod"], g)) for k, g in grids]
    grids = [(k, curve(g, options.get("curv"))) for k, g in grids]
    grids = [(k, transform(g, [("rotate", angle, "y")])) for k, g in grids]
    grids = reflect(grids, options)
    return [(k, transform(g, options.get("tf"))) for k, g in grids]


def triangles(grids):
    """Triangles of all grids: four per cell, around the centre of the cell."""
    parts = []
    for _, p in grids:
        p00, p10 = p[:-1, :-1], p[1:, :-1]
        p01, p11 = p[:-1, 1:], p[1:, 1:]
        c = 0.25 * (p00 + p10 + p01 + p11)
        cells = np.stack(
            [
                np.stack([p00, p10, c], -2),
                np.stack([p10, p11, c], -2),
                np.stack([p11, p01, c], -2),
                np.stack([p01, p00, c], -2),
            ],
            -3,
        )
        parts.append(cells.reshape(-1, 3, 3))
    return np.concatenate(parts)


# Mass properties
def solid(vectors, density):
    """Mass properties of the mesh of one component."""
    from stl import mesh as stl_mesh

    m = stl_mesh.Mesh(np.zeros(len(vectors), dtype=stl_mesh.Mesh.dtype))
    m.vectors[:] = vectors
    m.update_normals()
    volume, mass, cog, inertia = m.get_mass_properties_with_density(density)
    v = vectors.astype(float)
    normals = 0.5 * np.cross(v[:, 1] - v[:, 0], v[:, 2] - v[:, 0])
    area = np.linalg.norm(normals, axis=1).sum()
    # The volume of a surface that is not closed has no meaning, and what
    # numpy-stl gives for it depends on the last bits
    closed = np.linalg.norm(normals.sum(axis=0)) <= 1e-4 * area
    sound = closed and abs(volume) >= max(1e-9, 0.001 * area**1.5)
    return {
        "volume": volume,
        "mass": mass,
        "cog": cog,
        "moi": inertia,
        "area": area,
        "sound": bool(sound),
    }


def union(parts):
    """Mass properties of a rigid union."""
    mass = sum(p["mass"] for p in parts)
    cog = sum(p["mass"] * np.asarray(p["cog"]) for p in parts) / mass
    moi = np.zeros((3, 3))
    for p in parts:
        d = np.asarray(p["cog"]) - cog
        moi += p["moi"] + p["mass"] * (np.dot(d, d) * np.eye(3) - np.outer(d, d))
    return {
        "volume": sum(p["volume"] for p in parts),
        "mass": mass,
        "cog": cog,
        "moi": moi,
        "area": sum(p["area"] for p in parts),
    }
