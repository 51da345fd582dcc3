"""Documents of triangulated geometry and files of sensitivities."""

import io
import os
import xml.etree.ElementTree as ET

import numpy as np
import pandas as pd
from hypervehicle.utilities import append_sensitivities_to_tri

from . import build
from .core import SIM, Violation
from .fs import REAL_OPEN

NAMES = ["length", "body_width", "a", "d2", "x"]


def draw(rng, points=None, pad=0):
    """A geometry, the sensitivities of its components and how they match."""
    params = rng.sample(NAMES, rng.choice([1, 2, 2, 3]))
    tolerance = rng.choice([1e-5, 1e-5, 1e-3, 1e-2])
    rounding = rng.choice([1e-8, 1e-8, 1e-4])
    # Vertices on a lattice, so that no two of them are close to each other
    cells = [(i, j, k) for i in range(-3, 4) for j in range(-3, 4) for k in range(-3, 4)]
    cells = rng.sample(cells, rng.randint(2, 14))
    jitter = rng.choice([0.1, 0.1, 0.0])  # without it coordinates are shared
    vertices = [
        [round(c / 2 + rng.uniform(-jitter, jitter), 6) for c in cell] for cell in cells
    ]

    if rng.random() < 0.15:
        # Far from the origin
        place = [rng.choice([0.0, 20.0, -500.0, 4000.0]) for _ in range(3)]
        vertices = [[round(c + p, 6) for c, p in zip(v, place)] for v in vertices]

    if rng.random() < 0.3:
        # Neighbours, still too far away to be taken for each other
        for n in range(rng.randint(1, len(vertices))):
            near = list(vertices[n])
            near[rng.randrange(3)] += rng.choice([-1, 1]) * rng.uniform(3, 12) * tolerance
            vertices.append(near)

    def value():
        return rng.choice(
            [
                build.number(rng, -2, 2),
                rng.uniform(-1e3, 1e3),
                0.0,
                rng.choice([-1, 1]) * rounding * rng.choice([0.1, 0.5, 2, 10]),
            ]
        )

    sens = [[value() for _ in range(3 * len(params))] for _ in vertices]
    count = rng.choice([1, 2, 2, 3])
    files = [[] for _ in range(count)]
    for n in range(len(vertices)):
        files[n % count].append(n)
        if rng.random() < 0.1:
            other = rng.randrange(count)
            if n not in files[other]:
                files[other].append(n)
    rows = []
    if points is None:
        points = rng.randint(1, 16) if rng.random() < 0.97 else rng.randint(200, 600)
    for _ in range(points):
        n = rng.randrange(len(vertices))
        kind = rng.choice(["exact", "exact", "near", "near", "far", "away"])
        shift = [0.0, 0.0, 0.0]
        if kind in ("near", "far"):
            for axis in range(3):
                shift[axis] = rng.choice([-1, 0, 1]) * rng.uniform(0.1, 0.9) * tolerance
            if kind == "far":
                shift[rng.randrange(3)] = rng.choice([-1, 1]) * 1.2 * tolerance
        elif kind == "away":
            shift = [50.0, 1.0, 0.0]
        rows.append([n, kind, shift])
    return {
        "params": params,
        "tolerance": tolerance,
        "rounding": rounding,
        "vertices": vertices,
        "sens": sens,
        "files": files,
        "points": rows,
        "data": rng.choice(
            [[], ["p"], ["p", "q"], ["p q"], [f"{params[0]}_sens_old", "other_sens"]]
        ),
        "declared": rng.random() < 0.5,
        "cells": rng.random() < 0.8,
        "pad": pad,  # further values, so that the file is written in pieces
    }


def coordinates(spec):
    return [
        [spec["vertices"][n % len(spec["vertices"])][i] + s[i] for i in range(3)]
        for n, kind, s in spec["points"]
    ]


def document(spec):
    """Text of the geometry file."""
    points = coordinates(spec)
    lines = "".join(f"\n {x!r} {y!r} {z!r}" for x, y, z in points) + "\n "
    text = ""
    if spec["declared"]:
        text += "<?xml version='1.0' encoding='utf-8'?>\n"
    n = len(points)
    text += '<VTKFile type="UnstructuredGrid" version="0.1" byte_order="LittleEndian">\n'
    text += " <UnstructuredGrid>\n"
    text += f'  <Piece NumberOfPoints="{n}" NumberOfCells="{n}">\n'
    text += '   <Points><DataArray type="Float64" NumberOfComponents="3" format="ascii">'
    text += lines + "</DataArray></Points>\n"
    if spec["cells"]:
        text += '   <Cells><DataArray type="Int32" Name="connectivity" format="ascii">'
        text += "".join(f"\n {i} {(i + 1) % n} {(i + 2) % n}" for i in range(n))
        text += '\n </DataArray></Cells>\n   <CellData Scalars="IntersectComponents">'
        text += '<DataArray type="Int32" Name="IntersectComponents" format="ascii">'
        text += "".join(f"\n {i % 3}" for i in range(n + spec["pad"]))
        text += "\n </DataArray></CellData>\n"
    for name in spec["data"]:
        text += f'   <PointData Scalars="{name}">'
        for array in name.split():
            text += f'<DataArray Name="{array}" type="Float64" format="ascii">'
            text += "".join(f" {i + 0.25}" for i in range(n))
            text += " &lt;&amp;</DataArray>"
        text += "</PointData>\n"
    text += "  </Piece>\n </UnstructuredGrid>\n</VTKFile>\n"
    return text.encode()


def columns(params):
    return [f"d{axis}d{p}" for p in params for axis in "xyz"]


def sens_file(spec, k, params=None, factor=1.0):
    """Text of the sensitivities of a component."""
    params = params or spec["params"]
    chosen = [spec["params"].index(p) for p in params]
    rows = [",".join(["x", "y", "z"] + columns(params))]
    for n in spec["files"][k]:
        if n >= len(spec["vertices"]):
            continue
        values = list(spec["vertices"][n])
        for i in chosen:
            values += [factor * v for v in spec["sens"][n][3 * i : 3 * i + 3]]
        rows.append(",".join(repr(float(v)) for v in values))
    return ("\n".join(rows) + "\n").encode()


def store(path, data):
    path = os.path.join(SIM.fs.root, path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with REAL_OPEN(path, "wb") as f:
        f.write(data)


class Expected:
    """What the points get."""

    def __init__(self, spec, params, factor=1.0):
        self.params = params
        self.points = np.array(coordinates(spec))
        known = sorted({n for file in spec["files"] for n in file})
        chosen = [spec["params"].index(p) for p in params]
        vertices = np.array(spec["vertices"])
        self.values = np.zeros((len(self.points), 3 * len(params)))
        matched = 0
        for i, point in enumerate(self.points):
            for n in known:
                if np.all(np.abs(vertices[n] - point) < spec["tolerance"]):
                    row = [v for c in chosen for v in spec["sens"][n][3 * c : 3 * c + 3]]
                    row = factor * np.array(row)
                    row[np.abs(row) < spec["rounding"]] = 0.0
                    self.values[i] = row
                    matched += 1
                    break
        self.fraction = matched / len(self.points)

    def of(self, param):
        i = self.params.index(param)
        return self.values[:, 3 * i : 3 * i + 3]

    def check_combined(self, data, what):
        try:
            frame = pd.read_csv(io.BytesIO(data), float_precision="round_trip")
        except Exception as error:
            raise Violation("wrong_combined", f"{what}: {error!r}")
        # The parameters may come in any order
        wanted = ["x", "y", "z"] + columns(self.params)
        if sorted(frame.columns) != sorted(wanted) or len(frame) != len(self.points):
            raise Violation("wrong_combined", f"{what}: {list(frame.columns)} {len(frame)}")
        got = frame[wanted].to_numpy(float)
        right = np.concatenate([self.points, self.values], axis=1)
        if not np.allclose(got, right, rtol=1e-11, atol=1e-13):
            raise Violation("wrong_combined", f"{what}: values")


def flat(element):
    """Comparable content of an element."""
    return (
        element.tag,
        sorted(element.attrib.items()),
        (element.text or "").strip(),
        [flat(e) for e in element],
    )


def parse(data, what):
    try:
        root = ET.fromstring(data)
    except ET.ParseError as error:
        raise Violation("incomplete_document", f"{what}: {error}")
    return root


def check_document(data, original, wanted, what):
    """The document is the original with exactly the data wanted added.

    wanted: name of parameter -> values."""
    root = parse(data, what)
    first = parse(original, what)
    try:
        piece, before = root[0][0], first[0][0]
    except IndexError:
        raise Violation("incomplete_document", f"{what}: no piece")
    found = {}
    names = {f"{p}_sens": p for p in wanted}
    for holder in list(piece):
        if holder.tag != "PointData":
            continue
        for array in list(holder):
            name = array.get("Name")
            if name in names:
                if name in found:
                    raise Violation("duplicate_data", f"{what}: {name}")
                found[name] = array
                holder.remove(array)
        if len(holder) == 0:
            piece.remove(holder)
    if flat(root) != flat(first):
        raise Violation("changed_document", f"{what}: data other than the sensitivities")
    for name, param in names.items():
        if name not in found:
            raise Violation("missing_data", f"{what}: {name}")
        array = found[name]
        if array.get("NumberOfComponents") != "3":
            raise Violation("wrong_data", f"{what}: attributes of {name}")
        try:
            got = np.array([float(v) for v in (array.text or "").split()])
        except ValueError as error:
            raise Violation("wrong_data", f"{what}: {name}: {error}")
        right = np.asarray(wanted[param]).ravel()
        if got.shape != right.shape:
            raise Violation("wrong_data", f"{what}: {len(got)} values of {name}")
        if not np.allclose(got, right, rtol=1e-12, atol=0):
            row = int(np.argmax(np.abs(got - right))) // 3
            raise Violation(
                "wrong_data",
                f"{what}: {name} of point {row} is {got[3*row:3*row+3].tolist()}"
                f" instead of {right[3*row:3*row+3].tolist()}",
            )
