"""Simulated file system: a scratch directory in which every operation is an
event that can fail, be cut short, or be the last one before a crash."""

import builtins
import errno as _errno
import io
import os
import resource
import shutil
import sys

from .core import SIM, SimCrash

REAL = {
    name: getattr(os, name)
    for name in (
        "mkdir",
        "rename",
        "replace",
        "remove",
        "unlink",
        "rmdir",
        "link",
        "symlink",
        "truncate",
        "open",
        "stat",
        "fsync",
    )
}
REAL_OPEN = builtins.open
UNLIMITED = resource.getrlimit(resource.RLIMIT_FSIZE)


class FS:
    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.active = False
        self.begin()

    def begin(self, faults=None):
        """Start an operation with the faults given: event number -> fault."""
        self.trace = []
        self.faults = dict(faults or {})
        self.dead = False
        self.limited = None

    def finish(self):
        self.unlimit()
        self.faults = {}
        self.dead = False

    def unlimit(self):
        if self.limited is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, UNLIMITED)
            self.limited = None

    def covers(self, path):
        if not self.active or isinstance(path, int):
            return False
        try:
            path = os.fspath(path)
        except TypeError:
            return False
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not path.startswith("/"):
            path = os.getcwd() + "/" + path
        return path == self.root or path.startswith(self.root + "/")

    def name(self, path):
        return os.path.relpath(os.fspath(path), self.root) if path else ""

    def event(self, kind, path, size=None):
        """Number the event and return the fault planned for it, if any."""
        if SIM.sched is not None:
            SIM.sched.yield_point("fs")
        if self.dead:
            raise SimCrash("process is dead")
        number = len(self.trace)
        name = self.name(path)
        self.trace.append((kind, name, size))
        SIM.log("fs", kind, name, size if kind != "write" else None)
        SIM.count(f"fs:{kind}")
        fault = self.faults.pop(number, None)
        if fault is None:
            return None
        if fault["kind"] == "error":
            SIM.fire(f"fs_error_{fault['errno']}", f"{kind} {name}")
            raise OSError(
                getattr(_errno, fault["errno"]), "simulated", os.fspath(path)
            )
        if fault["kind"] == "crash" and fault.get("part", 0) == 0:
            self.crash(kind, name)
        return fault

    def crash(self, kind, name):
        SIM.fire("crash", f"{kind} {name}")
        self.dead = True
        self.unlimit()
        raise SimCrash("simulated crash")

    def after(self, fault, kind, path):
        if fault is not None and fault["kind"] == "crash":
            self.crash(kind + " done", self.name(path))


class SimRaw(io.FileIO):
    """A file handle whose writes are events."""

    def __init__(self, fs, path, mode, opener=None):
        self.sim_fs = fs
        self.sim_path = os.path.abspath(os.fspath(path))
        self.sim_limited = False
        self.sim_writes = any(c in mode for c in "wax+")
        super().__init__(path, mode, opener=opener)

    def write(self, data):
        fs = self.sim_fs
        if fs.dead:
            return len(memoryview(data).cast("B"))
        view = memoryview(data).cast("B")
        fault = fs.event("write", self.sim_path, len(view))
        if fault is not None:
            part = int(len(view) * fault.get("part", 0))
            if fault["kind"] == "short" and len(view) > 1:
                SIM.fire("fs_short_write", fs.name(self.sim_path))
                return super().write(view[: max(1, len(view) // 2)])
            if fault["kind"] == "torn":
                SIM.fire("fs_torn_write", fs.name(self.sim_path))
                if part:
                    super().write(view[:part])
                raise OSError(_errno.ENOSPC, "simulated")
            if fault["kind"] == "crash":
                if part:
                    super().write(view[:part])
                fs.crash("write", fs.name(self.sim_path))
        return super().write(view)

    def close(self):
        if self.closed:
            return
        fs = self.sim_fs
        try:
            if self.sim_writes and not fs.dead and fs.active:
                if not sys.is_finalizing():
                    fs.event("close", self.sim_path)
        finally:
            super().close()
            if self.sim_limited:
                fs.unlimit()


def _sim_open(
    file,
    mode="r",
    buffering=-1,
    encoding=None,
    errors=None,
    newline=None,
    closefd=True,
    opener=None,
):
    fs = SIM.fs
    if fs is None or not fs.covers(file) or opener is not None:
        return REAL_OPEN(
            file, mode, buffering, encoding, errors, newline, closefd, opener
        )
    writing = any(c in mode for c in "wax+")
    kind = "open_w" if writing else "open_r"
    fault = fs.event(kind, file)
    raw_mode = "".join(c for c in mode if c in "rwax+")
    raw = SimRaw(fs, file, raw_mode)
    if fault is not None:
        if fault["kind"] == "limit" and writing:
            SIM.fire("fs_disk_full", fs.name(file))
            fs.limited = fault["bytes"]
            raw.sim_limited = True
            resource.setrlimit(
                resource.RLIMIT_FSIZE, (fault["bytes"], UNLIMITED[1])
            )
        elif fault["kind"] == "crash":
            raw.sim_writes = False
            raw.close()
            fs.crash(kind + " done", fs.name(file))
    if "b" in mode and buffering == 0:
        return raw
    if "+" in mode:
        buffer = io.BufferedRandom(raw)
    elif writing:
        buffer = io.BufferedWriter(raw)
    else:
        buffer = io.BufferedReader(raw)
    if "b" in mode:
        return buffer
    text = io.TextIOWrapper(buffer, encoding, errors, newline)
    text.mode = mode
    return text


def _wrap(name):
    real = REAL[name]

    def call(path, *args, **kwargs):
        fs = SIM.fs
        if fs is None or not fs.covers(path):
            return real(path, *args, **kwargs)
        fault = fs.event(name, path)
        result = real(path, *args, **kwargs)
        fs.after(fault, name, path)
        return result

    call.__name__ = name
    return call


def _stat(path, *args, **kwargs):
    fs = SIM.fs
    result = REAL["stat"](path, *args, **kwargs)
    if SIM.sched is not None and fs is not None and fs.covers(path):
        SIM.sched.yield_point("stat")
    return result


def install():
    builtins.open = _sim_open
    io.open = _sim_open
    for name in REAL:
        if name not in ("stat", "fsync"):
            setattr(os, name, _wrap(name))
    os.stat = _stat


# Helpers for oracles, which see the directory without any interference
def snapshot(root):
    """All files below root with their content."""
    found = {}
    for base, dirs, files in os.walk(root):
        dirs.sort()
        for name in sorted(files):
            path = os.path.join(base, name)
            with REAL_OPEN(path, "rb") as f:
                found[os.path.relpath(path, root)] = f.read()
        for name in dirs:
            found[os.path.relpath(os.path.join(base, name), root) + "/"] = None
    return found


def wipe(root):
    for name in os.listdir(root):
        path = os.path.join(root, name)
        if os.path.isdir(path) and not os.path.islink(path):
            shutil.rmtree(path)
        else:
            REAL["remove"](path)
