"""Core of the simulator: the state of one run, its event log, virtual time,
faults and statistics."""

import hashlib
import random
from collections import Counter


class Violation(Exception):
    """The property under check does not hold."""

    def __init__(self, kind, detail=""):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = str(detail)


class SimCrash(BaseException):
    """The simulated process died."""


class SimHang(BaseException):
    """Something waits for an event that can never happen."""


class SimFault(Exception):
    """An error raised by simulated user code."""


class Sim:
    """State of the simulation in this process; reset for every run."""

    def __init__(self):
        self.fs = None
        self.sched = None
        self.collect = None  # set to a list to keep the readable trace
        self.reset(0)

    def reset(self, seed):
        self.rng = random.Random(f"sim-{seed}")
        self.now = 0.0
        self.digest = hashlib.sha256()
        self.events = 0
        self.stats = Counter()
        self.fired = []
        self.cpu_count = 4
        self.durations = "random"
        self.in_worker = 0
        self.in_task = 0
        self.pools = []
        self.pool_faults = {}
        self.pool_started = 0
        self.tasks_started = 0
        self.waits = 0
        self.call_faults = {}
        self.held_faults = []  # until the vehicle they are for is made
        self.call_sticky = None  # kind of the error all further calls raise
        self.call_repeats = 0
        self.calls = Counter()
        self.line_fault = None
        self.lines = 0
        self.sleeps = 0
        self.trace_scope = None
        self.time_offset = 1.7e9
        self.real_pool = False
        self.known = {}
        self.known_seen = []
        self.env_default = None  # value of environment variables that are not set
        self.entropy = random.Random(f"entropy-{seed}")  # of the operating system
        self.pid = 4000
        self.observed = []
        self.narrow = None  # changes of the plan that single out what is tried

    # Event log
    def log(self, *what):
        self.events += 1
        text = repr(what)
        self.digest.update(text.encode())
        if self.collect is not None and len(self.collect) < 4000:
            self.collect.append(text)

    def observe(self, label, digest):
        """Note a result that must be the same in every process."""
        self.observed.append([label, digest])

    def count(self, name, n=1):
        self.stats[name] += n

    def fire(self, kind, where=""):
        """Record that a fault takes effect."""
        self.fired.append((kind, str(where)))
        self.stats[f"fault:{kind}"] += 1
        self.log("FAULT", kind, str(where))

    def advance(self, dt):
        self.now += dt

    # Simulated user code
    def user_call(self, label):
        n = self.calls["*"]
        self.calls["*"] += 1
        if self.call_sticky is not None:
            self.call_repeats += 1
            if self.call_repeats > 2000:
                raise SimHang("user code that always fails is called without end")
            raise self.user_error(self.call_sticky)
        if n in self.call_faults:
            fault = self.call_faults.pop(n)
            kind = fault["kind"]
            if fault.get("sticky"):
                self.call_sticky = kind
            self.fire(f"user_{kind}", f"call {n}")
            raise self.user_error(kind)

    def next_vehicle(self):
        """Another vehicle is made: faults may be counted from here."""
        k = self.calls["vehicle"]
        self.calls["vehicle"] += 1
        due = [f for f in self.held_faults if f["vehicle"] == k]
        if due:
            self.tasks_started = self.pool_started = self.waits = 0
            self.calls["*"] = 0
        for f in due:
            self.install(f)

    def install(self, f):
        if f["t"] == "task":
            self.pool_faults[f["n"]] = f
        elif f["t"] == "pool_start":
            self.pool_faults["start"] = f
        elif f["t"] == "wait":
            self.pool_faults["wait"] = f
        elif f["t"] == "call":
            self.call_faults[f["n"]] = f

    def user_error(self, kind):
        # An interrupt is for the caller, in a worker it would end the worker
        return make_exception("fault" if kind == "interrupt" and self.in_task else kind)

    def violation(self, kind, detail=""):
        """Raise a violation, or note it when it is a known finding."""
        if kind in self.known:
            self.log("known finding", kind)
            self.known_seen.append(self.known[kind])
            return
        raise Violation(kind, detail)

    def begin_op(self):
        """Forget the faults of the previous operation."""
        self.pool_faults = {}
        self.call_faults = {}
        self.held_faults = []
        self.call_sticky = None
        self.call_repeats = 0
        self.line_fault = None
        self.calls.clear()
        self.tasks_started = 0
        self.pool_started = 0
        self.waits = 0
        self.lines = 0
        self.sleeps = 0
        self.fired = []


class AnyError(
    OSError,
    MemoryError,
    ZeroDivisionError,
    OverflowError,
    FloatingPointError,
    IndexError,
    KeyError,
    ValueError,
    RuntimeError,
    TypeError,
    AssertionError,
    EOFError,
):
    """Caught by whoever expects any of these."""


def make_exception(kind):
    if kind == "any":
        return AnyError(28, "simulated")
    if kind == "memory":
        return MemoryError("simulated")
    if kind == "interrupt":
        return KeyboardInterrupt("simulated")
    if kind == "value":
        return ValueError("simulated")
    if kind == "oserror":
        return OSError(28, "simulated")
    if kind == "index":
        return IndexError("simulated")
    if kind == "key":
        return KeyError("simulated")
    if kind == "stop":
        return StopIteration("simulated")
    if kind == "exit":
        return SystemExit("simulated")
    return SimFault("simulated")


SIM = Sim()
