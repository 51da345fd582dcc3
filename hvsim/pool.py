"""Simulated worker pools with the interface and life cycle of the real ones.

Tasks are executed one at a time in the order in which virtual workers finish
them. Function, arguments and results are serialised as they are by the real
pool. Every worker has its own copy of the state of the library, taken when the
pool is created and kept from task to task, so that a task sees and changes
what was there when its worker was forked and what earlier tasks of this worker
left, and nothing of its parent process."""

import copy
import errno
import itertools
import sys
import types
import weakref

import dill
import multiprocess.context
import multiprocess.pool

from .core import SIM, SimHang, make_exception

REAL_POOL = multiprocess.pool.Pool
RUN, CLOSE, TERMINATE = "RUN", "CLOSE", "TERMINATE"
LIBRARY = "hypervehicle"
PLAIN = (list, dict, set, int, float, str, tuple, bool, type(None))


def _keep(saved, value):
    """Remember the content of a mutable value."""
    if isinstance(value, (list, dict, set)):
        saved.append(("data", value, _copy(value)))
    elif type(value).__module__.startswith(LIBRARY) and hasattr(value, "__dict__"):
        saved.append(("object", vars(value), dict(vars(value))))


def _copy(value):
    try:
        return copy.deepcopy(value)
    except Exception:
        return copy.copy(value)


def _keep_defaults(saved, function):
    function = getattr(function, "__func__", function)
    for value in (getattr(function, "__defaults__", None) or ()):
        _keep(saved, value)
    for value in (getattr(function, "__kwdefaults__", None) or {}).values():
        _keep(saved, value)


def library_state():
    """Copy of the mutable state of the library: module globals, class
    attributes and default arguments."""
    saved = []
    for name, module in list(sys.modules.items()):
        if module is None or not (name == LIBRARY or name.startswith(LIBRARY + ".")):
            continue
        namespace = vars(module)
        saved.append(("module", module, dict(namespace)))
        for key, value in namespace.items():
            if key.startswith("__"):
                continue
            if isinstance(value, types.FunctionType):
                if value.__module__ == name:
                    _keep_defaults(saved, value)
            elif not isinstance(value, type):
                _keep(saved, value)
            elif value.__module__ == name:
                attributes = {}
                for k, v in vars(value).items():
                    _keep_defaults(saved, v)
                    if k.startswith("__") or not isinstance(v, PLAIN):
                        continue
                    attributes[k] = v
                    _keep(saved, v)
                saved.append(("class", value, attributes))
    return saved


def restore_state(saved):
    for kind, target, state in saved:
        if kind == "module":
            namespace = vars(target)
            for key in [k for k in namespace if k not in state]:
                del namespace[key]
            for key, value in state.items():
                if namespace.get(key) is not value:
                    namespace[key] = value
        elif kind == "class":
            for k, v in list(vars(target).items()):
                if k.startswith("__") or not isinstance(v, PLAIN):
                    continue
                if k not in state:
                    delattr(target, k)
                elif v is not state[k]:
                    setattr(target, k, state[k])
            for k, v in state.items():
                if k not in vars(target):
                    setattr(target, k, v)
        elif isinstance(target, list):
            target[:] = _copy(state)
        else:
            target.clear()
            target.update(_copy(state) if kind == "data" else state)


def _equal(a, b):
    try:
        return bool(a == b)
    except Exception:
        return False


def state_changed(saved):
    """Whether the state of the library may differ from the one saved."""
    for kind, target, state in saved:
        if kind == "module":
            namespace = vars(target)
            if len(namespace) != len(state):
                return True
            for key, value in namespace.items():
                if key not in state or state[key] is not value:
                    return True
        elif kind == "class":
            found = {
                k: v
                for k, v in vars(target).items()
                if not k.startswith("__") and isinstance(v, PLAIN)
            }
            if len(found) != len(state) or any(
                k not in state or v is not state[k] for k, v in found.items()
            ):
                return True
        elif not _equal(target, state):
            return True
    return False


class Chunk:
    def __init__(self, job, index, func, args, star):
        self.job, self.index, self.star = job, index, star
        self.func, self.args = func, args


class AsyncResult:
    def __init__(self, pool, callback=None, error_callback=None):
        self._pool = pool
        self._done = False
        self._success = True
        self._value = None
        self._parts = {}
        self._left = 0
        self._single = False
        self._callback, self._error_callback = callback, error_callback

    def _deliver(self, index, success, value):
        self._left -= 1
        if success:
            self._parts[index] = value
        elif self._success:
            self._success = False
            self._value = value
        if self._left <= 0:
            self._finish()

    def _finish(self):
        if self._success:
            parts = [self._parts[i] for i in sorted(self._parts)]
            self._value = (
                parts[0][0] if self._single else list(itertools.chain(*parts))
            )
            if self._callback:
                self._callback(self._value)
        elif self._error_callback:
            self._error_callback(self._value)
        self._done = True

    def ready(self):
        return self._done

    def successful(self):
        if not self._done:
            raise ValueError(f"{self!r} not ready")
        return self._success

    def wait(self, timeout=None):
        self._pool._wait(lambda: self._done, timeout)

    def get(self, timeout=None):
        self.wait(timeout)
        if not self._done:
            raise multiprocess.context.TimeoutError
        if self._success:
            return self._value
        raise self._value


class IMapIterator:
    def __init__(self, pool, ordered):
        self._pool, self._ordered = pool, ordered
        self._left = 0
        self._next = 0
        self._queue = []
        self._parts = {}

    def _deliver(self, index, success, value):
        self._left -= 1
        items = [(True, v) for v in value] if success else [(False, value)]
        if not self._ordered:
            self._queue.extend(items)
            return
        self._parts[index] = items
        while self._next in self._parts:
            self._queue.extend(self._parts.pop(self._next))
            self._next += 1

    def __iter__(self):
        return self

    def next(self, timeout=None):
        if not self._queue and self._left > 0:
            self._pool._wait(lambda: self._queue or self._left <= 0, timeout)
        if self._queue:
            success, value = self._queue.pop(0)
            if success:
                return value
            raise value
        if self._left > 0:
            raise multiprocess.context.TimeoutError
        raise StopIteration

    __next__ = next


class SimPool:
    isolated = True

    def __new__(cls, *args, **kwargs):
        if SIM.real_pool and not SIM.in_worker:
            return REAL_POOL(*args, **kwargs)
        return super().__new__(cls)

    def __init__(
        self,
        processes=None,
        initializer=None,
        initargs=(),
        maxtasksperchild=None,
        context=None,
    ):
        if SIM.in_worker and self.isolated:
            raise AssertionError("daemonic processes are not allowed to have children")
        if processes is None:
            processes = SIM.cpu_count
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        number = SIM.pool_started
        SIM.pool_started += 1
        SIM.log("pool", number, processes)
        fault = SIM.pool_faults.get("start")
        due = fault is not None and fault.get("pool", 0) <= number
        if due and (fault.get("pool", 0) == number or fault.get("sticky")):
            if number > 2000:
                raise SimHang("pools that cannot be started are started without end")
            SIM.fire("pool_start", f"pool {number}")
            raise OSError(errno.EAGAIN, "Resource temporarily unavailable")
        self._processes = processes
        self._state = RUN
        self._pending = []
        self._running = []
        self._idle = list(range(processes))
        self._limit = maxtasksperchild
        self._states = {}  # library state of each worker that has run a task
        self._tasks_done = {}
        self._initial = library_state() if self.isolated else None
        self._sequence = itertools.count()
        self._life = {"id": number, "state": RUN, "collected": False}
        SIM.pools.append((self._life, weakref.ref(self)))
        weakref.finalize(self, self._life.__setitem__, "collected", True).atexit = False
        SIM.count("pools")
        if initializer is not None:
            SIM.in_worker += self.isolated
            initializer(*initargs)
            SIM.in_worker -= self.isolated
            if self.isolated:
                initial, self._initial = self._initial, library_state()
                restore_state(initial)

    # Life cycle
    def __enter__(self):
        self._check_running()
        return self

    def __exit__(self, *exc):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError(
            "pool objects cannot be passed between processes or pickled"
        )

    def _check_running(self):
        if self._state != RUN:
            raise ValueError("Pool not running")

    def close(self):
        if self._state == RUN:
            self._set_state(CLOSE)

    def terminate(self):
        self._set_state(TERMINATE)
        self._pending.clear()
        self._running.clear()

    def join(self):
        if self._state == RUN:
            raise ValueError("Pool is still running")
        if self._state == CLOSE:
            self._wait(lambda: not self._pending and not self._running, None)
        self._life["joined"] = True

    def _set_state(self, state):
        self._state = state
        self._life["state"] = state
        SIM.log("pool_state", self._life["id"], state)

    # Submitting work
    def _chunks(self, iterable, chunksize):
        items = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self._processes * 4)
            if extra:
                chunksize += 1
        if not items:
            chunksize = 1
        return [items[i : i + chunksize] for i in range(0, len(items), chunksize)]

    def _submit(self, job, func, chunks, star):
        self._check_running()
        job._left = len(chunks)
        try:
            func = self._send(func)
        except Exception as error:
            for index, _ in enumerate(chunks):
                job._deliver(index, False, error)
            return job
        for index, chunk in enumerate(chunks):
            try:
                payload = self._send(list(chunk))
            except Exception as error:
                job._deliver(index, False, error)
                continue
            self._pending.append(Chunk(job, index, func, payload, star))
        SIM.count("tasks", len(chunks))
        if not chunks and isinstance(job, AsyncResult):
            job._finish()
        return job

    def _send(self, obj):
        return dill.dumps(obj) if self.isolated else obj

    def _receive(self, obj):
        return dill.loads(obj) if self.isolated else obj

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def apply_async(
        self, func, args=(), kwds={}, callback=None, error_callback=None
    ):
        job = AsyncResult(self, callback, error_callback)
        job._single = True
        call = _Apply(func, dict(kwds))
        return self._submit(job, call, [[tuple(args)]], True)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def map_async(
        self, func, iterable, chunksize=None, callback=None, error_callback=None
    ):
        job = AsyncResult(self, callback, error_callback)
        return self._submit(job, func, self._chunks(iterable, chunksize), False)

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def starmap_async(
        self, func, iterable, chunksize=None, callback=None, error_callback=None
    ):
        job = AsyncResult(self, callback, error_callback)
        return self._submit(job, func, self._chunks(iterable, chunksize), True)

    def imap(self, func, iterable, chunksize=1):
        job = IMapIterator(self, True)
        return self._submit(job, func, self._chunks(iterable, chunksize), False)

    def imap_unordered(self, func, iterable, chunksize=1):
        job = IMapIterator(self, False)
        return self._submit(job, func, self._chunks(iterable, chunksize), False)

    # Virtual execution
    def _dispatch(self):
        while self._idle and self._pending:
            chunk = self._pending.pop(0)
            number = SIM.tasks_started
            SIM.tasks_started += 1
            fault = SIM.pool_faults.get(number)
            if fault is not None and fault["kind"] == "kill":
                # The worker dies with its task, another one takes its place
                SIM.fire("worker_kill", f"task {number}")
                self._replace(self._pick_worker())
                continue
            duration = self._duration(number)
            if fault is not None and fault["kind"] == "stall":
                SIM.fire("worker_stall", f"task {number}")
                duration += 3.0e4
            worker = self._pick_worker()
            self._idle.remove(worker)
            self._running.append(
                (SIM.now + duration, next(self._sequence), number, chunk, fault, worker)
            )

    def _pick_worker(self):
        """Any idle worker can be the one that takes the next task."""
        return SIM.rng.choice(self._idle)

    def _replace(self, worker):
        """A new worker takes the place of one that ended."""
        self._states.pop(worker, None)
        self._tasks_done.pop(worker, None)

    @staticmethod
    def _duration(number):
        mode = SIM.durations
        if mode == "equal":
            return 1.0
        if mode == "lifo":
            return 1.0e3 / (1.0 + number)
        if mode == "slow":
            return SIM.rng.uniform(1.0, 4.0e4)
        if mode == "heavy":
            return SIM.rng.paretovariate(0.6)
        return SIM.rng.uniform(0.01, 1.0)

    def _next_time(self):
        self._dispatch()
        return min((r[0] for r in self._running), default=None)

    def _step(self):
        """Let the next worker finish its task."""
        self._dispatch()
        item = min(self._running, key=lambda r: r[:2])
        self._running.remove(item)
        finish, _, number, chunk, fault, worker = item
        SIM.now = max(SIM.now, finish)
        success, value = self._execute(chunk, number, fault, worker)
        self._idle.append(worker)
        done = self._tasks_done.get(worker, 0) + 1
        self._tasks_done[worker] = done
        if success is None or done == self._limit:
            self._replace(worker)
        SIM.log("task", number, success)
        if success is None:
            return
        chunk.job._deliver(chunk.index, success, value)

    def _execute(self, chunk, number, fault, worker):
        kind = fault["kind"] if fault is not None else None
        if kind is not None and kind.startswith("raise_"):
            SIM.fire(f"worker_{kind}", f"task {number}")
            return False, make_exception(kind[6:])
        if self.isolated:
            saved = self._initial
            if state_changed(saved):
                saved = library_state()
            state = self._states.get(worker, self._initial)
            if state is not saved:
                restore_state(state)
            SIM.in_worker += 1
        SIM.in_task += 1
        try:
            try:
                func = self._receive(chunk.func)
                args = self._receive(chunk.args)
                if chunk.star:
                    result = [func(*a) for a in args]
                else:
                    result = [func(a) for a in args]
                if kind == "encoding":
                    SIM.fire("worker_encoding", f"task {number}")
                    raise multiprocess.pool.MaybeEncodingError("simulated", "result")
                return True, self._receive(self._send(result))
            except Exception as error:
                try:
                    error = self._receive(self._send(error))
                except Exception:
                    error = multiprocess.pool.MaybeEncodingError("error", repr(error))
                return False, error
            except (KeyboardInterrupt, SystemExit):
                # The worker exits and its task is lost
                SIM.log("worker exit", number)
                return None, None
        finally:
            SIM.in_task -= 1
            if self.isolated:
                SIM.in_worker -= 1
                if state_changed(state):
                    self._states[worker] = library_state()
                if saved is not state or worker in self._states:
                    restore_state(saved)

    def _wait(self, done, timeout):
        deadline = None if timeout is None else SIM.now + timeout
        while not done():
            SIM.waits += 1
            fault = SIM.pool_faults.get("wait")
            if fault is not None and fault["n"] == SIM.waits - 1:
                SIM.fire(f"wait_{fault['kind']}", f"wait {SIM.waits - 1}")
                raise make_exception(fault["kind"])
            if SIM.sched is not None:
                SIM.sched.yield_point("pool")
            upcoming = self._next_time()
            if deadline is not None and (upcoming is None or upcoming > deadline):
                SIM.now = deadline
                return
            if upcoming is None:
                SIM.log("hang")
                raise SimHang("waiting for a task that will never finish")
            self._step()


class _Apply:
    def __init__(self, func, kwds):
        self.func, self.kwds = func, kwds

    def __call__(self, *args):
        return self.func(*args, **self.kwds)


class SimThreadPool(SimPool):
    isolated = False

    def __new__(cls, *args, **kwargs):
        return object.__new__(cls)

    def __init__(self, processes=None, initializer=None, initargs=()):
        super().__init__(processes, initializer, initargs)


def sleep(seconds):
    """Virtual sleep: lets workers of all pools proceed."""
    SIM.sleeps += 1
    if SIM.sleeps > 20000:
        raise SimHang("polling without end")
    if SIM.sched is not None:
        SIM.sched.yield_point("sleep")
    end = SIM.now + max(0.0, float(seconds))
    for _, ref in list(SIM.pools):
        pool = ref()
        while pool is not None and pool._state != TERMINATE:
            upcoming = pool._next_time()
            if upcoming is None or upcoming > end:
                break
            pool._step()
    SIM.now = max(SIM.now, end)


def unreleased():
    """The pools of this run that still have workers."""
    left = []
    for life, ref in SIM.pools:
        if life["collected"] or life["state"] == TERMINATE:
            continue
        pool = ref()
        if pool is None:
            continue
        if life["state"] == CLOSE and not pool._pending and not pool._running:
            continue
        left.append(life["id"])
    return left


def use_real(flag):
    """Let the library use the real pool, or not."""
    SIM.real_pool = flag
    multiprocess.pool.Pool = REAL_POOL if flag else SimPool


def install():
    import multiprocessing.pool

    real = (multiprocess.pool.Pool, multiprocess.pool.ThreadPool)
    for module in (multiprocess.pool, multiprocessing.pool):
        module.Pool = SimPool
        module.ThreadPool = SimThreadPool
    return real
