"""Stand-in for PyMesh: just enough to merge STL files, without any geometry
processing. Reads and writes go through open(), so they are simulated too."""

import types

import numpy as np

RECORD = np.dtype(
    [("n", "<f4", (3,)), ("v", "<f4", (3, 3)), ("attr", "<u2", (1,))]
)


class Mesh:
    def __init__(self, vectors):
        self.vectors = vectors


def read_stl(path, opener=None):
    """Triangles of a binary STL file; raises ValueError unless complete."""
    with (opener or open)(path, "rb") as f:
        data = f.read()
    if len(data) < 84:
        raise ValueError("truncated header")
    count = int.from_bytes(data[80:84], "little")
    if len(data) != 84 + 50 * count:
        raise ValueError(f"{len(data)} bytes for {count} triangles")
    return np.frombuffer(data, RECORD, offset=84)["v"].astype(np.float32)


def load_mesh(path):
    return Mesh(read_stl(path))


def save_mesh(path, mesh, *args, **kwargs):
    record = np.zeros(len(mesh.vectors), RECORD)
    record["v"] = mesh.vectors
    data = b"merged".ljust(80) + len(record).to_bytes(4, "little") + record.tobytes()
    with open(path, "wb") as f:
        f.write(data)


def merge_meshes(meshes):
    meshes = list(meshes)
    return Mesh(np.concatenate([m.vectors for m in meshes]))


def resolve_self_intersection(mesh, *args, **kwargs):
    return mesh


def _with_info(mesh, *args, **kwargs):
    return mesh, {}


remove_degenerated_triangles = _with_info
remove_duplicated_faces = _with_info
remove_isolated_vertices = _with_info
remove_obtuse_triangles = _with_info
remove_duplicated_vertices = _with_info

meshio = types.ModuleType("pymesh.meshio")
meshio.load_mesh = load_mesh
meshio.save_mesh = save_mesh
