"""Installs the simulator in this process and imports the library."""

import faulthandler
import os
import random
import sys
import time
import warnings

REPO = os.environ.get("HVSIM_REPO", "/repo")
SOURCE = os.path.join(os.path.realpath(REPO), "src")

REAL_TIME = time.time
REAL_SLEEP = time.sleep
REAL_POOLS = None


def install():
    """Put all seams in place. Must run before the library is imported."""
    global REAL_POOLS
    assert "hypervehicle" not in sys.modules
    sys.dont_write_bytecode = True
    sys.path.insert(0, SOURCE)
    warnings.simplefilter("ignore")
    sys.unraisablehook = lambda *args: None
    faulthandler.enable()

    # Import what the library depends on with the real functions in place
    import logging

    import numpy  # noqa
    import pandas  # noqa
    import pymeshfix  # noqa
    import scipy.optimize  # noqa
    import stl  # noqa
    import tqdm  # noqa
    import art  # noqa
    import dill  # noqa
    import xml.etree.ElementTree  # noqa

    logging.disable(logging.CRITICAL)

    from . import fs, pool, sched, stub_pymesh
    from .core import SIM

    REAL_POOLS = pool.install()
    fs.install()
    sched.install(os.path.join(SOURCE, "hypervehicle") + os.sep)
    sys.modules["pymesh"] = stub_pymesh
    sys.modules["pymesh.meshio"] = stub_pymesh.meshio

    # Clock and machine
    def choose(real, simulated):
        return lambda *args: (real if SIM.real_pool else simulated)(*args)

    time.sleep = choose(time.sleep, pool.sleep)
    time.time = choose(time.time, lambda: SIM.time_offset + SIM.now)
    time.monotonic = choose(time.monotonic, lambda: SIM.now)
    os.cpu_count = lambda: min(SIM.cpu_count, 4) if SIM.real_pool else SIM.cpu_count
    import multiprocess
    import multiprocessing

    for module in (multiprocess, multiprocessing):
        module.cpu_count = lambda: SIM.cpu_count
        module.context.BaseContext.cpu_count = lambda self: SIM.cpu_count
    os.sched_getaffinity = lambda pid: set(range(SIM.cpu_count))

    # Variables of the environment that nobody has set may have been
    real_getitem = os._Environ.__getitem__

    def getitem(self, key):
        try:
            return real_getitem(self, key)
        except KeyError:
            if SIM.env_default is not None and from_library():
                return SIM.env_default
            raise

    def from_library():
        frame = sys._getframe(2)
        for _ in range(12):
            if frame is None:
                return False
            if frame.f_code.co_filename.startswith(sched.LIBRARY_DIR):
                return True
            frame = frame.f_back
        return False

    os._Environ.__getitem__ = getitem

    # Entropy, names of temporary files and the process number
    import tempfile

    real_urandom = os.urandom
    real_getpid = os.getpid

    def urandom(size):
        return SIM.entropy.randbytes(size) if from_library() else real_urandom(size)

    class Names:
        def __iter__(self):
            return self

        def __next__(self):
            letters = "abcdefghijklmnopqrstuvwxyz0123456789_"
            return "".join(SIM.entropy.choices(letters, k=8))

    os.urandom = urandom
    random._urandom = urandom
    real_names = tempfile._get_candidate_names
    tempfile._get_candidate_names = (
        lambda: Names() if from_library() else real_names()
    )
    # Directories list their entries in any order
    real_listdir, real_scandir = os.listdir, os.scandir

    def listdir(*args):
        names = real_listdir(*args)
        if from_library():
            names.sort()
            SIM.entropy.shuffle(names)
        return names

    class Entries:
        def __init__(self, entries):
            self.entries = sorted(entries, key=lambda e: e.name)
            SIM.entropy.shuffle(self.entries)
            self.entries = iter(self.entries)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.entries)

        def __enter__(self):
            return self

        def __exit__(self, *exc):
            self.close()

        def close(self):
            self.entries = iter(())

    def scandir(*args):
        entries = real_scandir(*args)
        return Entries(entries) if from_library() else entries

    os.listdir, os.scandir = listdir, scandir
    os.getpid = lambda: (
        SIM.pid if not SIM.real_pool and from_library() else real_getpid()
    )

    import hypervehicle
    import hypervehicle.components.polygon
    import hypervehicle.generator
    import hypervehicle.geometry
    import hypervehicle.transformations
    import hypervehicle.utilities

    where = os.path.realpath(hypervehicle.__file__)
    assert where.startswith(SOURCE), where
    random.seed(0)
