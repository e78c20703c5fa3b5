"""The seams: third-party entry points through which the code under test meets
nondeterminism or failure.  `install()` replaces them before the code under
test is imported; without an active `Sim` every replacement behaves exactly
like the original.

  seam      replaced object                                  faults
  binned    scipy.stats.binned_statistic*, numpy.histogram*  MemoryError, ValueError, KeyboardInterrupt
  inv       numpy.linalg.inv/pinv, scipy.linalg.inv          LinAlgError, MemoryError
  poisson   scipy.stats.poisson.rvs, numpy.random.poisson    MemoryError, ValueError
  fcn       objective seen by iminuit / scipy                any exception at the n-th evaluation
  migrad    iminuit.Minuit.migrad                            exception, real non-convergence
  scipy     scipy.optimize.minimize                          exception, real non-convergence
  hesse     numdifftools.Hessian                             LinAlgError, MemoryError
  pool      multiprocessing.Pool & friends                   OSError on creation
  task      one task inside a simulated worker process       exceptions, slow workers
  stdout    sys.stdout / sys.stderr                          OSError, BrokenPipeError on the n-th write
  sleep     time.sleep                                       virtual time
  memory    buffers of small numpy arrays                    garbage (nan) in all that is not initialised
"""
import contextlib
import functools
import io
import os
import pickle
import signal
import struct
import sys

from .core import Hang, HarnessError, Sim

REAL = {}
GAVE_UP = {  # what SLSQP reports when it does not converge
    4: "Inequality constraints incompatible", 5: "Singular matrix E in LSQ subproblem",
    6: "Singular matrix C in LSQ subproblem", 7: "Rank-deficient equality constraint subproblem HFTI",
    8: "Positive directional derivative for linesearch",
}


class SimStream(io.TextIOBase):
    def __init__(self, seam):
        self._seam = seam

    def writable(self):
        return True

    def write(self, text):
        sim = Sim.current
        if sim is not None and sim.armed:
            sim.hit(self._seam)
        return len(text)

    def flush(self):
        pass

    def fileno(self):
        raise OSError("simulated stream")


def dirty_memory():
    """Leaves nan in the buffers that the allocator of numpy hands out next: an array that is not
    initialised holds garbage, not by chance the right values of an earlier array."""
    import numpy as np

    held = [np.full(n, np.nan) for n in range(1, 33) for _ in range(4)]
    del held


@contextlib.contextmanager
def quiet(sim):
    out, err = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = SimStream("stdout"), SimStream("stderr")
    try:
        yield
    finally:
        sys.stdout, sys.stderr = out, err


def _wrapped(seam, real):
    @functools.wraps(real)
    def wrapper(*args, **kwargs):
        sim = Sim.current
        if sim is not None:
            sim.hit(seam)
        return real(*args, **kwargs)

    return wrapper


def _patch(owner, name, seam):
    real = getattr(owner, name)
    REAL[f"{getattr(owner, '__name__', owner)}.{name}"] = real
    setattr(owner, name, _wrapped(seam, real))


def wrap_objective(fcn):
    """The objective function as the minimizers see it."""

    def objective(x, *args):
        sim = Sim.current
        if sim is None or sim._in_callback:
            return fcn(x, *args)
        sim.hit("fcn")
        if sim.before_eval is not None:
            sim.before_eval(x)
        value = fcn(x, *args)
        if sim.on_eval is not None:
            sim._in_callback = True
            try:
                sim.on_eval(x, value)
            finally:
                sim._in_callback = False
        return value

    return objective


def install():
    if REAL:
        return
    import multiprocessing
    import multiprocessing.context
    import multiprocessing.dummy
    import multiprocessing.pool
    import time

    import iminuit
    import numdifftools
    import numpy
    import scipy.linalg
    import scipy.optimize
    import scipy.stats

    for name in ("binned_statistic", "binned_statistic_2d", "binned_statistic_dd"):
        _patch(scipy.stats, name, "binned")
    for name in ("histogram", "histogram2d", "histogramdd"):
        _patch(numpy, name, "binned")
    _patch(numpy.linalg, "inv", "inv")
    _patch(numpy.linalg, "pinv", "inv")
    _patch(scipy.linalg, "inv", "inv")
    poisson = scipy.stats.poisson
    REAL["poisson.rvs"] = poisson.rvs
    poisson.rvs = _wrapped("poisson", poisson.rvs)
    _patch(numpy.random, "poisson", "poisson")

    # -- iminuit
    real_minuit = iminuit.Minuit
    REAL["Minuit"] = real_minuit

    class SimMinuit(real_minuit):
        @classmethod
        def from_array_func(cls, fcn, start, *args, **kwargs):
            sim = Sim.current
            if sim is not None:
                sim.probe("minuit-objects")
                fcn = wrap_objective(fcn)
            return super().from_array_func(fcn, start, *args, **kwargs)

        def migrad(self, *args, **kwargs):
            sim = Sim.current
            if sim is not None and not sim._in_callback:
                action = sim.hit("migrad")
                if action == "nonconv":
                    if args:
                        args = (3,) + args[1:]
                    else:
                        kwargs["ncall"] = 3
                    kwargs["resume"] = False
                result = super().migrad(*args, **kwargs)
                sim.converged.append(bool(self.fmin.is_valid))
                sim.endpoints.append([float(v) for v in self.np_values()])
                self._note_covariance(sim)
                return result
            return super().migrad(*args, **kwargs)

        def hesse(self, *args, **kwargs):
            result = super().hesse(*args, **kwargs)
            if Sim.current is not None:
                self._note_covariance(Sim.current)
            return result

        def _note_covariance(self, sim):
            try:
                self.matrix(skip_fixed=False)
                sim.covariance = True
            except RuntimeError:
                sim.covariance = False

    iminuit.Minuit = SimMinuit

    # -- scipy.optimize.minimize
    real_minimize = scipy.optimize.minimize
    REAL["minimize"] = real_minimize

    @functools.wraps(real_minimize)
    def sim_minimize(fun, x0, *args, **kwargs):
        sim = Sim.current
        if sim is None or sim._in_callback:
            return real_minimize(fun, x0, *args, **kwargs)
        action = sim.hit("scipy") or ""
        if action.startswith("nonconv"):
            options = dict(kwargs.get("options") or {})
            options["maxiter"] = 1
            kwargs["options"] = options
        result = real_minimize(wrap_objective(fun), x0, *args, **kwargs)
        if action[7:] and not result.success:  # stopped for another reason than the number of iterations
            result.status = int(action[7:])
            result.message = GAVE_UP[result.status]
        sim.converged.append(bool(result.success))
        sim.endpoints.append([float(v) for v in result.x])
        return result

    scipy.optimize.minimize = sim_minimize

    # -- numdifftools
    real_hessian = numdifftools.Hessian
    REAL["Hessian"] = real_hessian

    class SimHessian(real_hessian):
        def __call__(self, *args, **kwargs):
            sim = Sim.current
            if sim is not None:
                sim.hit("hesse")
            return super().__call__(*args, **kwargs)

    numdifftools.Hessian = SimHessian

    # -- worker pools
    def make_pool(processes=None, initializer=None, initargs=(), *args, **kwargs):
        if Sim.current is None:
            return REAL["Pool"](processes, initializer, initargs, *args, **kwargs)
        return SimPool(processes, initializer, initargs)

    def make_thread_pool(processes=None, initializer=None, initargs=()):
        if Sim.current is None:
            return REAL["ThreadPool"](processes, initializer, initargs)
        return SimPool(processes, initializer, initargs, threads=True)

    REAL["Pool"] = multiprocessing.pool.Pool
    REAL["ThreadPool"] = multiprocessing.pool.ThreadPool
    multiprocessing.Pool = make_pool
    multiprocessing.context.BaseContext.Pool = (
        lambda self, processes=None, initializer=None, initargs=(), maxtasksperchild=None:
        make_pool(processes, initializer, initargs)
    )
    multiprocessing.pool.Pool = make_pool
    multiprocessing.pool.ThreadPool = make_thread_pool
    multiprocessing.dummy.Pool = make_thread_pool

    # -- time
    real_sleep = time.sleep
    REAL["sleep"] = real_sleep

    def sim_sleep(seconds):
        sim = Sim.current
        if sim is None:
            return real_sleep(seconds)
        sim.hit("sleep")
        sim.clock += float(seconds)

    time.sleep = sim_sleep


# -- simulated worker pool ---------------------------------------------------


def _send(fd, payload):
    data = struct.pack("<Q", len(payload)) + payload
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _read_exactly(fd, n):
    chunks = []
    while n:
        chunk = os.read(fd, min(n, 1 << 20))
        if not chunk:
            return None
        chunks.append(chunk)
        n -= len(chunk)
    return b"".join(chunks)


def _recv(fd):
    head = _read_exactly(fd, 8)
    if head is None:
        return None
    return _read_exactly(fd, struct.unpack("<Q", head)[0])


class _Worker:
    """A forked process which executes one chunk of tasks at a time on request."""

    def __init__(self, initializer, initargs):
        down_r, down_w = os.pipe()
        up_r, up_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(down_w)
                os.close(up_r)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                signal.setitimer(signal.ITIMER_PROF, 120.0)
                self._serve(down_r, up_w, initializer, initargs)
            finally:
                os._exit(0)
        os.close(down_r)
        os.close(up_w)
        self.down, self.up = down_w, up_r

    @staticmethod
    def _serve(down, up, initializer, initargs):
        sim = Sim.current
        with quiet(sim):
            if initializer is not None:
                initializer(*initargs)
            while True:
                payload = _recv(down)
                if payload is None:
                    return
                blob, faults = pickle.loads(payload)
                results, notes = _run_chunk(sim, blob, faults)
                try:
                    answer = pickle.dumps((results, notes))
                except Exception as exc:
                    answer = pickle.dumps(
                        ([(False, RuntimeError(f"result cannot be pickled: {exc}"))], notes)
                    )
                _send(up, answer)

    def run(self, blob, faults):
        try:
            _send(self.down, pickle.dumps((blob, faults)))
            answer = _recv(self.up)
        except BrokenPipeError:
            answer = None
        if answer is None:
            return None
        return pickle.loads(answer)

    def stop(self):
        os.close(self.down)
        os.close(self.up)
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(self.pid, 0)


def _run_chunk(sim, blob, faults):
    func, arg_list, star = pickle.loads(blob) if isinstance(blob, bytes) else blob
    results = []
    notes = {"fired": [], "steps": 0, "converged": [], "endpoints": [], "hit": []}
    outside = sim.converged, sim.endpoints
    for args, fault in zip(arg_list, faults):
        before = sim.steps
        sim.converged, sim.endpoints = [], []
        with sim.arming(fault):
            try:
                sim.hit("task")
                value = func(*args) if star else func(args)
                results.append((True, value))
            except (Hang, HarnessError) as exc:
                results.append((False, RuntimeError(f"hang: {exc}")))
                notes["hang"] = str(exc)
            except BaseException as exc:
                if not isinstance(exc, Exception):
                    # a worker that gets a KeyboardInterrupt hands it over
                    exc = RuntimeError(f"{type(exc).__name__} in worker")
                results.append((False, exc))
            notes["fired"].extend(sim.fired_now)
            hit = list(sim.fired_now)
        notes["converged"].append(list(sim.converged))
        notes["endpoints"].append(list(sim.endpoints))
        notes["hit"].append(hit)
        notes["steps"] += sim.steps - before
        if sim.hang is not None:
            notes["hang"] = str(sim.hang)
    sim.converged, sim.endpoints = outside
    return results, notes


class SimPool:
    """Deterministic stand-in for multiprocessing.Pool.

    Worker processes are real forks (separate memory, tasks and results are
    pickled per chunk as the real pool does) but run in lockstep: which idle
    worker takes the next chunk, how long it needs and therefore in which order
    the results arrive is decided by the seeded scheduler in virtual time.
    """

    def __init__(self, processes=None, initializer=None, initargs=(), threads=False):
        sim = self._sim = Sim.current
        sim.hit("pool")
        n = 4 if processes is None else processes
        if not isinstance(n, int) or n < 1:
            raise ValueError("Number of processes must be at least 1")
        self._threads = threads
        self._n = n
        self._queue = []       # chunks waiting for a worker
        self._running = []     # (finish time, order, worker, job, offset, results)
        self._idle = list(range(n))
        self._slow = {
            w: sim.sched_rng.choice([1.0, 1.0, 1.0, 20.0]) for w in range(n)
        }
        self._closed = False
        self._terminated = False
        self._order = 0
        self._trace = []
        self._workers = []
        self._task_no = 0
        self._initializer, self._initargs = initializer, initargs
        sim.open_pools += 1
        sim.log("pool", n, "threads" if threads else "processes")
        if threads:
            if initializer is not None:
                initializer(*initargs)
        else:
            for _ in range(n):
                self._workers.append(_Worker(initializer, initargs))

    # -- discrete event loop
    def _start(self):
        sim = self._sim
        rng = sim.sched_rng
        while self._queue and self._idle:
            worker = self._idle.pop(rng.randrange(len(self._idle)))
            job, offset, blob, faults = self._queue.pop(0)
            duration = rng.expovariate(1.0) * self._slow[worker] + 1e-3
            if self._threads:
                results, notes = _run_chunk(sim, blob, faults)
            else:
                answer = self._workers[worker].run(blob, faults)
                if answer is None:
                    raise HarnessError("simulated worker died")
                results, notes = answer
                for seam, action, n in notes["fired"]:
                    sim.fired[f"{seam}:{action}"] += 1
                    sim.fired_now.append((seam, action, n))
                sim.steps += notes["steps"]
            for k, (flags, hit) in enumerate(zip(notes["converged"], notes["hit"])):
                sim.task_converged[offset + k] = flags
                sim.task_endpoints[offset + k] = notes["endpoints"][k]
                if hit:
                    sim.task_fired[offset + k] = hit
            if "hang" in notes:
                sim.hang = Hang(notes["hang"])
                raise sim.hang
            self._order += 1
            self._running.append(
                (sim.clock + duration, self._order, worker, job, offset, results)
            )
            self._trace.append(("start", worker, offset))

    def _advance(self):
        """Finishes the next chunk; False if nothing is left to do."""
        self._start()
        if not self._running:
            return False
        entry = min(self._running)[:2]
        item = next(r for r in self._running if r[:2] == entry)
        self._running.remove(item)
        when, _, worker, job, offset, results = item
        self._sim.clock = max(self._sim.clock, when)
        self._idle.append(worker)
        self._trace.append(("done", worker, offset))
        self._sim.log("task", worker, offset, round(when, 6))
        job.deliver(offset, results)
        return True

    def _submit(self, func, iterable, chunksize, star, job):
        if self._closed or self._terminated:
            raise ValueError("Pool not running")
        items = list(iterable)
        job.expect(len(items))
        for start in range(0, len(items), chunksize):
            chunk = items[start:start + chunksize]
            faults = []
            for _ in chunk:
                faults.append(self._sim.task_faults.get(str(self._task_no)))
                self._task_no += 1
            blob = (func, chunk, star)
            if not self._threads:
                blob = pickle.dumps(blob)
            self._queue.append((job, start, blob, faults))
        return job

    def _chunksize(self, n, chunksize):
        if chunksize is None:
            chunksize, extra = divmod(n, self._n * 4)
            if extra:
                chunksize += 1
        return max(1, chunksize)

    # -- public interface of a pool
    def imap(self, func, iterable, chunksize=1):
        return self._submit(func, iterable, chunksize, False, _Job(self)).ordered()

    def imap_unordered(self, func, iterable, chunksize=1):
        return self._submit(func, iterable, chunksize, False, _Job(self)).unordered()

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable, chunksize).get()

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable, chunksize).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        items = list(iterable)
        job = _Job(self, callback, error_callback)
        return self._submit(func, items, self._chunksize(len(items), chunksize), False, job)

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        items = list(iterable)
        job = _Job(self, callback, error_callback)
        return self._submit(func, items, self._chunksize(len(items), chunksize), True, job)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        job = _Job(self, callback, error_callback, single=True)
        if kwds:
            func = functools.partial(func, **kwds)
        return self._submit(func, [tuple(args)], 1, True, job)

    def close(self):
        self._closed = True

    def join(self):
        if not (self._closed or self._terminated):
            raise ValueError("Pool is still running")
        if not self._terminated:
            while self._advance():
                pass
            self.terminate()

    def terminate(self):
        if self._terminated:
            return
        self._terminated = True
        self._closed = True
        for worker in self._workers:
            worker.stop()
        self._workers = []
        self._sim.open_pools -= 1
        self._sim.schedules.add(hash_trace(self._trace))
        self._sim.probe("pool-tasks", self._task_no)
        # more chunks than workers were needed in an order other than first come first served
        done = [o for kind, _, o in self._trace if kind == "done"]
        if done != sorted(done):
            self._sim.probe("pool-out-of-order")

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.terminate()

    def __del__(self):
        if not self._terminated and getattr(self, "_workers", None):
            for worker in self._workers:
                try:
                    worker.stop()
                except OSError:
                    pass


def hash_trace(trace):
    import hashlib

    return hashlib.sha1(repr(trace).encode()).hexdigest()[:12]


class _Job:
    def __init__(self, pool, callback=None, error_callback=None, single=False):
        self._pool = pool
        self._results = {}
        self._arrival = []
        self._n = None
        self._single = single
        self._callback, self._error_callback = callback, error_callback

    def expect(self, n):
        self._n = n

    def deliver(self, offset, results):
        for i, result in enumerate(results):
            self._results[offset + i] = result
            self._arrival.append(offset + i)
        if len(self._results) == self._n:
            bad = [v for ok, v in self._results.values() if not ok]
            if bad and self._error_callback:
                self._error_callback(bad[0])
            elif not bad and self._callback:
                values = [self._results[i][1] for i in range(self._n)]
                self._callback(values[0] if self._single else values)

    def _need(self, condition):
        while not condition():
            if self._pool._terminated:
                raise HarnessError("result of a terminated pool requested")
            if not self._pool._advance():
                raise Hang("waits for a result nobody computes")

    def ordered(self):
        for i in range(self._n):
            self._need(lambda: i in self._results)
            ok, value = self._results[i]
            if not ok:
                raise value
            yield value

    def unordered(self):
        for i in range(self._n):
            self._need(lambda: len(self._arrival) > i)
            ok, value = self._results[self._arrival[i]]
            if not ok:
                raise value
            yield value

    def ready(self):
        return len(self._results) == self._n

    def successful(self):
        return all(ok for ok, _ in self._results.values())

    def wait(self, timeout=None):
        self._need(self.ready)

    def get(self, timeout=None):
        self._need(self.ready)
        for i in range(self._n):
            if not self._results[i][0]:
                raise self._results[i][1]
        values = [self._results[i][1] for i in range(self._n)]
        return values[0] if self._single else values
