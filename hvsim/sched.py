"""Deterministic threads and interrupts.

Threads are real, but only one of them runs at a time. Control is handed over
at yield points: lines of the library, file operations, waiting for workers
and locks. Which yield points switch, and to whom, is decided by the plan."""

import dis
import sys
import threading

from .core import SIM, SimHang, make_exception

_real_lock = threading.Lock
_real_rlock = threading.RLock
_scope = {}
LIBRARY_DIR = None  # set by boot
CORE = ("component.py", "vehicle.py", "utilities.py", "composite.py", "generator.py")


def in_scope(code, scope):
    key = (code, scope)
    try:
        return _scope[key]
    except KeyError:
        name = code.co_filename
        inside = name.startswith(LIBRARY_DIR)
        if inside and scope in ("core", "state"):
            inside = name.rsplit("/", 1)[-1] in CORE
        _scope[key] = inside
        return inside


def tracer(frame, event, arg):
    if SIM.in_worker:
        return None
    if in_scope(frame.f_code, SIM.trace_scope):
        if SIM.trace_scope == "state":
            return StateTracer(frame.f_code)
        return line_tracer
    return None


_changing = {}


def changing_lines(code):
    """Lines that change an attribute, an item or a global."""
    if code not in _changing:
        lines, line = set(), None
        for instruction in dis.get_instructions(code):
            if instruction.positions and instruction.positions.lineno:
                line = instruction.positions.lineno
            if instruction.opname in (
                "STORE_ATTR",
                "STORE_SUBSCR",
                "STORE_GLOBAL",
                "DELETE_ATTR",
                "DELETE_SUBSCR",
            ):
                lines.add(line)
        _changing[code] = lines
    return _changing[code]


class StateTracer:
    """Yields only right before and right after state is changed."""

    def __init__(self, code):
        self.lines = changing_lines(code)
        self.changed = False

    def __call__(self, frame, event, arg):
        if event in ("line", "return") and not SIM.in_worker:
            changes = event == "line" and frame.f_lineno in self.lines
            if (changes or self.changed) and SIM.sched is not None:
                SIM.sched.yield_point("state")
            self.changed = changes
        return self


_entering = {}


def leaves_blocks(frame):
    """Whether an exception raised here leaves all "with" blocks properly.

    Real interrupts do. One raised by a trace function does not in lines that
    enter a block, which come up again when it is left, and in loops inlined
    from comprehensions."""
    code = frame.f_code
    if code.co_code[frame.f_lasti] == dis.opmap["FOR_ITER"]:
        return False
    if code not in _entering:
        _entering[code] = {
            i.positions.lineno
            for i in dis.get_instructions(code)
            if i.opname in ("BEFORE_WITH", "BEFORE_ASYNC_WITH")
        }
    return frame.f_lineno not in _entering[code]


def line_tracer(frame, event, arg):
    if event == "line" and not SIM.in_worker:
        number = SIM.lines
        SIM.lines += 1
        fault = SIM.line_fault
        if fault is not None and number >= fault["n"] and leaves_blocks(frame):
            SIM.line_fault = None
            code = frame.f_code
            SIM.fire(f"line_{fault['kind']}", f"{code.co_name} line {number}")
            raise make_exception(fault["kind"])
        if SIM.sched is not None:
            SIM.sched.yield_point("line")
    return line_tracer


class Tracing:
    """Context in which lines of the library are events."""

    def __init__(self, scope):
        self.scope = scope

    def __enter__(self):
        SIM.trace_scope = self.scope
        if self.scope:
            sys.settrace(tracer)

    def __exit__(self, *exc):
        sys.settrace(None)


class Scheduler:
    """Runs functions as threads, one at a time.

    gaps: list of [yield points to run, which thread next]."""

    def __init__(self, gaps, scope):
        self.gaps = [list(g) for g in gaps]
        self.scope = scope
        self.current = None
        self.threads = []
        self.switches = 0
        self.points = 0
        self.left = self._next_gap()

    def _next_gap(self):
        return self.gaps[0][0] if self.gaps else None

    def run(self, functions):
        self.results = [None] * len(functions)
        self.alive = list(range(len(functions)))
        self.blocked = {}
        self.batons = [threading.Semaphore(0) for _ in functions]
        self.finished = threading.Semaphore(0)
        self.main = threading.get_ident()
        threads = [
            threading.Thread(target=self._body, args=(i, f), daemon=True)
            for i, f in enumerate(functions)
        ]
        self.by_ident = {}
        SIM.sched = self
        try:
            for t in threads:
                t.start()
            self.current = 0
            self.batons[0].release()
            self.finished.acquire()
            for t in threads:
                t.join()
        finally:
            SIM.sched = None
        return self.results

    def _body(self, index, function):
        self.by_ident[threading.get_ident()] = index
        self.batons[index].acquire()
        SIM.log("thread start", index)
        if self.scope:
            SIM.trace_scope = self.scope
            sys.settrace(tracer)
        try:
            self.results[index] = ("ok", function())
        except BaseException as error:
            self.results[index] = ("error", error)
        finally:
            sys.settrace(None)
        SIM.log("thread end", index, self.results[index][0])
        self.alive.remove(index)
        self._wake()
        if self.alive:
            runnable = [i for i in self.alive if i not in self.blocked]
            if not runnable:
                # Deadlock: let the blocked threads fail
                runnable = list(self.alive)
                self.blocked.clear()
            choice = self.gaps.pop(0)[1] if self.gaps else 0
            self.left = self._next_gap()
            self._hand(runnable[choice % len(runnable)])
        else:
            self.finished.release()

    def _wake(self):
        for i in [i for i, lock in self.blocked.items() if lock.free()]:
            del self.blocked[i]

    def _hand(self, index):
        self.current = index
        SIM.log("run", index)
        self.batons[index].release()

    def me(self):
        return self.by_ident.get(threading.get_ident())

    def yield_point(self, tag):
        me = self.me()
        if me is None or me != self.current or SIM.in_worker:
            return
        self.points += 1
        if self.left is None:
            return
        if self.left > 0:
            self.left -= 1
            return
        choice = self.gaps.pop(0)[1]
        self.left = self._next_gap()
        others = [i for i in self.alive if i != me and i not in self.blocked]
        if not others:
            return
        self._switch(me, others[choice % len(others)], tag)

    def _switch(self, me, to, tag):
        self.switches += 1
        SIM.count("switches")
        SIM.log("switch", me, to, tag)
        self._hand(to)
        self.batons[me].acquire()

    def block(self, lock):
        """The current thread waits for a lock."""
        me = self.me()
        self.blocked[me] = lock
        others = [i for i in self.alive if i != me and i not in self.blocked]
        if not others:
            self.blocked.pop(me, None)
            raise SimHang("deadlock")
        self._switch(me, others[0], "lock")
        self.blocked.pop(me, None)


class SimLock:
    """Lock used by the library, aware of the scheduler."""

    reentrant = False

    def __init__(self):
        self._owner = None
        self._depth = 0

    def free(self):
        return self._owner is None

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self.reentrant and self._owner == me:
            self._depth += 1
            return True
        while self._owner is not None:
            if not blocking or timeout == 0:
                return False
            if SIM.sched is None:
                raise SimHang("lock is never released")
            SIM.sched.block(self)
        self._owner = me
        self._depth = 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._depth -= 1
        if self._depth == 0:
            self._owner = None
            if SIM.sched is not None:
                SIM.sched._wake()

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()


class SimRLock(SimLock):
    reentrant = True


def _from_library():
    return sys._getframe(2).f_code.co_filename.startswith(LIBRARY_DIR)


def _lock():
    return SimLock() if _from_library() else _real_lock()


def _rlock(*args):
    return SimRLock() if _from_library() else _real_rlock()


def install(library_dir):
    global LIBRARY_DIR
    LIBRARY_DIR = library_dir
    threading.Lock = _lock
    threading.RLock = _rlock
