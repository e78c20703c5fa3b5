"""Simulation kernel: one `Sim` object owns every choice of one simulated run.

Nothing in here imports the code under test.  A run is a pure function of its
plan (a JSON object): the plan lists the configuration, the operations in the
order the scheduler chose, the faults attached to them and the seeds of the
remaining random streams (toy data, worker schedule).
"""
import collections
import contextlib
import hashlib
import json
import random

import numpy as np


class Violation(Exception):
    """The property under check does not hold in this run."""

    def __init__(self, kind, message):
        super().__init__(f"{kind}: {message}")
        self.kind = kind
        self.message = message


class HarnessError(BaseException):
    """Something is wrong with the simulator itself."""


class Hang(BaseException):
    """No progress within the step or cpu budget of a run."""


FAULT_TYPES = {
    "RuntimeError": RuntimeError,
    "MemoryError": MemoryError,
    "KeyboardInterrupt": KeyboardInterrupt,
    "LinAlgError": np.linalg.LinAlgError,
    "OSError": OSError,
    "BrokenPipeError": BrokenPipeError,
    "ValueError": ValueError,
    "FloatingPointError": FloatingPointError,
}

MARK = "injected by the simulator"


class Outcome:
    def __init__(self, value=None, exc=None, fired=()):
        self.value = value
        self.exc = exc
        self.fired = list(fired)
        self.converged = []      # how the minimizer calls ended
        self.covariance = True   # the last one of Minuit had a covariance matrix

    @property
    def ok(self):
        return self.exc is None

    @property
    def injected(self):
        """A fault fired while the call was running."""
        return bool(self.fired)


class Sim:
    current = None
    STEP_BUDGET = 400_000

    def __init__(self, plan):
        self.plan = plan
        self.seed = int(plan.get("seed", 0))
        # scheduler of the simulated worker processes
        self.sched_rng = random.Random(f"sched-{self.seed}")
        self._hash = hashlib.sha256()
        self.tail = collections.deque(maxlen=400)
        self.n_events = 0
        self.fired = collections.Counter()
        self.probes = collections.Counter()
        self.steps = 0
        self.clock = 0.0
        self.armed = []
        self.seam_hits = collections.Counter()
        self.fired_now = []
        self.hang = None
        self.on_eval = None       # callback(x, value) after an objective evaluation
        self.before_eval = None   # callback(x) -> may raise
        self._in_callback = False
        self.open_pools = 0
        self.pool_cfg = {}
        self.task_faults = {}
        self.converged = []       # how the minimizer calls of the current operation ended
        self.endpoints = []       # and where
        self.covariance = True    # Minuit ended with a covariance matrix
        self.task_converged = {}  # the same per task of the worker pool
        self.task_endpoints = {}
        self.task_fired = {}      # faults per task of the worker pool
        self.schedules = set()
        self.states = set()

    # -- trace ---------------------------------------------------------

    def log(self, *event):
        line = repr(event)
        self._hash.update(line.encode())
        self._hash.update(b"\n")
        self.tail.append(line[:300])
        self.n_events += 1

    def digest(self):
        return self._hash.hexdigest()[:24]

    def state(self, *parts):
        """Remember an abstract state (coverage measure)."""
        self.states.add(hashlib.sha1(repr(parts).encode()).hexdigest()[:12])

    def probe(self, name, n=1):
        self.probes[name] += n

    # -- faults --------------------------------------------------------

    def hit(self, seam):
        """Called by a seam each time the code under test reaches it."""
        if self.hang is not None:
            raise self.hang
        self.steps += 1
        if self.steps > self.STEP_BUDGET:
            self.hang = Hang(f"more than {self.STEP_BUDGET} steps")
            raise self.hang
        self.seam_hits[seam] += 1
        n = self.seam_hits[seam]
        for fault in self.armed:
            if fault["seam"] != seam:
                continue
            first = fault.get("at", 1)
            if first <= n < first + fault.get("count", 1):
                action = fault["do"]
                self.fired[f"{seam}:{action}"] += 1
                self.fired_now.append((seam, action, n))
                self.log("fault", seam, action, n)
                if action in FAULT_TYPES:
                    raise FAULT_TYPES[action](MARK)
                return action
        return None

    @contextlib.contextmanager
    def arming(self, faults):
        if faults is None:
            faults = []
        if isinstance(faults, dict):
            faults = [faults]
        saved = self.armed, self.seam_hits, self.fired_now
        self.armed = list(faults)
        self.seam_hits = collections.Counter()
        self.fired_now = []
        try:
            yield
        finally:
            self.armed, self.seam_hits, _ = saved
            self.before_eval = None

    def call(self, label, fn, faults=None):
        """Runs `fn()` as one operation of the code under test with the given
        faults armed and records how it ended."""
        from . import seams

        self.converged, self.task_converged, self.task_fired = [], {}, {}
        self.endpoints, self.task_endpoints = [], {}
        self.covariance = True
        seams.dirty_memory()
        with self.arming(faults), seams.quiet(self):
            try:
                value = fn()
                out = Outcome(value=value, fired=self.fired_now)
            except Violation:
                raise
            except (Hang, HarnessError):
                raise
            except BaseException as exc:  # includes injected KeyboardInterrupt
                if isinstance(exc, (SystemExit, GeneratorExit)):
                    raise
                out = Outcome(exc=exc, fired=self.fired_now)
            out.converged, out.covariance = list(self.converged), self.covariance
        if self.hang is not None:
            raise self.hang
        if out.exc is not None and isinstance(out.exc, KeyboardInterrupt) and not out.fired:
            raise out.exc
        self.log(
            "op", label, "ok" if out.ok else type(out.exc).__name__, tuple(out.fired)
        )
        return out

    def explicit(self, defaults, **kwargs):
        """Keyword arguments of a call; in half of the runs those that have their documented default
        value are left out."""
        if (self.plan.get("seed", 0) >> 7) & 1:
            return kwargs
        return {k: v for k, v in kwargs.items() if k not in defaults or defaults[k] != v}

    def must(self, label, fn, kind="unexpected-exception"):
        """An operation that has to succeed."""
        out = self.call(label, fn)
        if not out.ok:
            raise Violation(
                kind, f"{label} raised {type(out.exc).__name__}: {out.exc}"
            )
        return out.value


# -- comparisons ----------------------------------------------------------


def arr(value, label, shape=None):
    """A float array from a value returned by the code under test."""
    try:
        out = np.array(value, dtype=float)
    except Exception as exc:
        raise Violation("malformed", f"{label} is not numeric: {exc}")
    if shape is not None and out.shape != tuple(shape):
        raise Violation("malformed", f"{label} has shape {out.shape}, expected {shape}")
    return out


def num(value, label):
    out = arr(value, label)
    if out.size != 1:
        raise Violation("malformed", f"{label} is not a number: {value!r}")
    return float(out.reshape(-1)[0])


def check(cond, kind, message):
    if not cond:
        raise Violation(kind, message() if callable(message) else message)


def close(got, want, kind, label, rtol=1e-9, atol=1e-9):
    want = np.asarray(want, dtype=float)
    got = arr(got, label)
    if got.shape != want.shape:
        raise Violation(kind, f"{label}: shape {got.shape}, expected {want.shape}")
    same = np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=True)
    if not np.all(same):
        idx = tuple(int(i) for i in np.argwhere(~same)[0]) if want.ndim else ()
        raise Violation(
            kind,
            f"{label}{list(idx) if idx else ''}: got {got[idx]!r}, expected {want[idx]!r}",
        )


def same_nested(a, b, rtol=0.0, atol=0.0, path=""):
    """First difference between two snapshots, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            return f"{path}: keys {list(a)} != {list(b)}"
        for k in a:
            diff = same_nested(a[k], b[k], rtol, atol, f"{path}.{k}")
            if diff:
                return diff
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} != {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            diff = same_nested(x, y, rtol, atol, f"{path}[{i}]")
            if diff:
                return diff
        return None
    if isinstance(a, (np.ndarray, float, np.floating)) and isinstance(
        b, (np.ndarray, float, np.floating)
    ):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return f"{path}: shape {a.shape} != {b.shape}"
        if rtol == 0.0 and atol == 0.0:
            ok = np.array_equal(a, b, equal_nan=True)
        else:
            ok = np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
        if not ok:
            return f"{path}: {a.tolist()} != {b.tolist()}"[:400]
        return None
    if a != b:
        return f"{path}: {a!r} != {b!r}"
    return None


def canonical(plan):
    return json.dumps(plan, sort_keys=True, separators=(",", ":"))
