"""Observation of toy experiments: which dataset every fit was given."""
import numpy as np

from .core import MARK, Violation


class Recorder:
    """Watches the datasets of the model whenever the likelihood is evaluated.
    A new dataset is a new attempt; attempts listed in `fail` are made to fail
    with a RuntimeError at their n-th evaluation."""

    def __init__(self, w, fail=None):
        self.w, self.sim = w, w.sim
        self.fail = {int(k): v for k, v in (fail or {}).items()}
        self.attempts = []   # dicts: data, evals, failed, first (index of the first minimizer call)
        self.x0 = []
        self._last = None
        self.ambiguous = False  # two independent toys might be equal by chance

    def __enter__(self):
        self.sim.before_eval = self.evaluate
        return self

    def __exit__(self, *exc):
        self.sim.before_eval = None

    def data(self):
        return {name: np.array(ch.data_bin_counts, dtype=float).reshape(-1)
                for name, ch in self.w.mct.channels.items() if ch.has_data}

    def evaluate(self, x):
        data = self.data()
        key = tuple((n, d.tobytes()) for n, d in sorted(data.items()))
        if key != self._last:
            self._last = key
            n = np.concatenate(list(data.values()))
            if np.sum(np.log10(2 * np.sqrt(np.pi * np.maximum(n, 0.4)))) < 9:
                self.ambiguous = True
            for a in self.attempts[-50:]:
                if a["key"] == key and not self.ambiguous:
                    raise Violation("toy-reused", "a toy dataset is used again after another one")
            self.attempts.append({"data": data, "key": key, "evals": 0, "failed": False,
                                  "first": len(self.sim.converged)})
        a = self.attempts[-1]
        a["evals"] += 1
        k = len(self.attempts) - 1
        if a["failed"]:
            if self.ambiguous:
                raise RuntimeError(MARK)
            raise Violation("toy-reused", f"attempt {k} failed, but its toy dataset is fitted again")
        if k in self.fail and a["evals"] == self.fail[k]:
            a["failed"] = True
            self.sim.fired["attempt:RuntimeError"] += 1
            self.sim.fired_now.append(("attempt", "RuntimeError", k))
            self.sim.log("fault", "attempt", k)
            raise RuntimeError(MARK)

    def exhausted(self, tries):
        """The last `tries` attempts failed, by fault or because SLSQP did not converge."""
        n = len(self.attempts)
        return self.ambiguous or (n >= tries and all(self.attempts[k]["failed"] or not self.converged(k) or not self.sim.covariance
                                                     for k in range(n - tries, n)))

    def converged(self, k):
        """All minimizer calls of attempt k converged."""
        end = self.attempts[k + 1]["first"] if k + 1 < len(self.attempts) else len(self.sim.converged)
        flags = self.sim.converged[self.attempts[k]["first"]:end]
        return bool(flags) and flags[-1]


def expectation(w):
    """Expected events of the current state per channel."""
    return {name: sum(t.values().reshape(-1) for t in ch.t.values()) for name, ch in w.ref.channels.items()}


def check_integer(w, data, label):
    mu = expectation(w)
    if sorted(data) != sorted(mu):
        raise Violation("toy", f"{label}: toy data in channels {sorted(data)}, the model has {sorted(mu)}")
    for name, d in data.items():
        if d.shape != mu[name].shape:
            raise Violation("toy", f"{label}: {name} has {d.shape} bins, expected {mu[name].shape}")
        if np.any(d < 0) or np.any(d != np.round(d)):
            raise Violation("toy", f"{label}: {name} has toy data {d}, which no Poisson variable takes")
        if np.any(d[mu[name] == 0] != 0):
            raise Violation("toy", f"{label}: {name} has events in an empty bin: {d}, expected {mu[name]}")
        z = (d - mu[name]) / np.sqrt(np.maximum(mu[name], 1.0))
        if np.any(np.abs(z) > 9 + 30 / np.maximum(mu[name], 1.0)):
            raise Violation("toy", f"{label}: {name} has toy data {d}, the expectation is {mu[name]}")


def check_sums(w, datasets, label, kind="toy"):
    """Totals of many toys against the expectation (Gaussian limit)."""
    mu = expectation(w)
    for name, m in mu.items():
        total = np.sum(m) * len(datasets)
        if total < 50:
            continue
        got = sum(float(np.sum(d[name])) for d in datasets)
        if abs(got - total) > 7.5 * np.sqrt(total):
            raise Violation(kind, f"{label}: {len(datasets)} toys have {got} events in {name}, expected {total:.1f}")


class with_data:
    """The reference model with other datasets."""

    def __init__(self, w, data):
        self.w, self.new = w, data

    def __enter__(self):
        self.saved = {n: ch.data for n, ch in self.w.ref.channels.items()}
        for n, d in self.new.items():
            self.w.ref.channels[n].data = np.array(d)

    def __exit__(self, *exc):
        for n, d in self.saved.items():
            self.w.ref.channels[n].data = d
