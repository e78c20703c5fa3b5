"""P30: goodness-of-fit statistics and p-values."""
import math

import numpy as np
from scipy.special import gammaincc

from ..build import BuildSession, gen_session
from ..core import check, num, same_nested
from ..session import SHRINK_INTS  # noqa: F401

RUNS = {"quick": 2000, "thorough": 20000}
REAL = ["stats", "Hist1d/Hist2d", "Template1d/2d", "Channel", "MultiChannelTemplate", "numpy", "scipy.stats"]
STUBS = ["operation scheduler", "arrays whose arithmetic fails at a seeded operation (failing allocation, interrupt)"]
ASSUMPTIONS = [
    "expectations and uncertainties are positive, data are not negative, at least one degree of freedom",
    "p-values are compared to the upper tail at the documented statistic to 1e-7 (absolute) and at the returned statistic to 1e-6 (relative)",
]
RULE = (
    "One run is a session with a model whose parameters, systematics and data change; in between the agreement of data, "
    "toys and Asimov data with the expectation is tested (also for long combined datasets and many degrees of freedom), "
    "some tests fail in the middle and are repeated, old inputs are tested again. Statistic and p-value of each test equal "
    "the documented sums (math.fsum) and the incomplete gamma function, and no input or model changes. Non-trivial: at "
    "least 4 tests were compared, one of them after a change."
)
KINDS = ("tset_yield", "tset_nui", "set_yield", "update", "sys", "reset", "data", "data", "toy", "gof", "gof", "gof", "gof")


class Fragile(np.ndarray):
    """An array whose arithmetic fails once, at a seeded operation."""

    sim = None

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kwargs):
        if Fragile.sim is not None:
            Fragile.sim.hit("arithmetic")
        plain = [i.view(np.ndarray) if isinstance(i, Fragile) else i for i in inputs]
        if out is not None:
            kwargs["out"] = tuple(o.view(np.ndarray) if isinstance(o, Fragile) else o for o in out)
        res = getattr(ufunc, method)(*plain, **kwargs)
        return res.view(Fragile) if type(res) is np.ndarray else res


def gen_gof(rng):
    big = rng.random() < 0.4
    return {
        "op": "gof", "k": rng.randrange(12), "seed": rng.getrandbits(30),
        "test": rng.choice(["pearson", "cowan", "default"]),
        "source": rng.choice(["data", "data", "toy", "asimov", "empty"]),
        "size": rng.choice([40, 120, 300, 1000, 3000]) if big else 0,
        "spread": rng.choice([0.0, 0.05, 0.3, 1.0, 1.0, 2.0]),
        "dof": rng.choice(["bins", "bins", "few", "one", "float"]),
        "form": rng.choice(["plain", "plain", "readonly", "strided", "int", "shaped", "fortran"]),
        "again": rng.random() < 0.3,
        "fail": rng.choice([None, None, 1, 2, 3, 4, 6]),
        "error": rng.choice(["MemoryError", "KeyboardInterrupt"]),
    }


def generate(rng, index, tier):
    cfg, ops = gen_session(rng, KINDS, rng.randint(6, 16), interleave=0.4, big=0.06, channels=(1, 3), processes=(1, 3),
                           max_bins=6, empty=rng.choice([0.0, 0.2]))
    ops = [gen_gof(rng) if op["op"] == "gof" else op for op in ops]
    ops += [gen_gof(rng) for _ in range(5)]
    return {"cfg": cfg, "ops": ops}


def nontrivial(res):
    return res["probes"].get("tests-compared", 0) >= 4 and res["probes"].get("changes", 0) >= 1


def reference(test, data, expectation, uncertainty, dof):
    d, e = (np.asarray(a, dtype=float).reshape(-1).tolist() for a in (data, expectation))
    if test == "pearson":
        terms = [(a - b) ** 2 / b for a, b in zip(d, e)]
    elif test == "default":
        u = np.asarray(uncertainty, dtype=float).reshape(-1).tolist()
        terms = [(a - b) ** 2 / c ** 2 for a, b, c in zip(d, e, u)]
    else:
        terms = [2 * ((a * math.log(a / b) if a > 0 else 0.0) + b - a) for a, b in zip(d, e)]
    chi = math.fsum(terms)
    return chi, float(gammaincc(dof / 2.0, max(chi, 0.0) / 2.0))


def shaped(a, form, shape):
    if form == "int" and np.all(a == np.rint(a)):
        return a.astype(int)
    if form == "strided":
        b = np.full(2 * len(a), 7.0)
        b[::2] = a
        return b[::2]
    if form == "shaped" and int(np.prod(shape)) == len(a):
        return a.reshape(shape)
    if form == "fortran" and int(np.prod(shape)) == len(a):
        return np.asfortranarray(a.reshape(shape))
    b = np.array(a)
    if form == "readonly":
        b.flags.writeable = False
    return b


def inputs(w, op):
    """Data, expectation and uncertainty, from the current state of the model."""
    names = [n for n, c in w.ref.channels.items() if c.t]
    if not names:
        return None
    name = names[op["k"] % len(names)]
    ref, channel = w.ref.channels[name], w.mct.channels[name]
    expectation = sum(np.array(t.values, dtype=float) for t in channel.templates.values())
    want = sum(t.values() for t in ref.t.values())
    check(np.allclose(expectation, want, rtol=1e-9, atol=1e-9), "expectation",
          f"expectation of {name}: {expectation!r} instead of {want!r}")
    if np.any(expectation <= 1e-3) or np.any(expectation > 1e7):
        return None
    shape = expectation.shape
    errors = np.sqrt(sum(np.array(t.errors, dtype=float) ** 2 for t in channel.templates.values()) + expectation)
    rs = np.random.RandomState(op["seed"])
    src = op["source"]
    if src == "data":
        if ref.data is None:
            return None
        data = np.array(channel.data_bin_counts, dtype=float)
    elif src == "toy":
        data = np.array(w.must("toy", channel.generate_toy_dataset).bin_counts, dtype=float)
    elif src == "asimov":
        data = np.array(w.must("asimov", lambda: channel.generate_asimov_dataset(bool(op["seed"] & 1))).bin_counts)
    else:
        data = rs.poisson(expectation).astype(float)
        data.reshape(-1)[rs.randint(data.size)] = 0.0
    data, expectation, errors = data.reshape(-1), expectation.reshape(-1), errors.reshape(-1)
    if op["size"]:
        # many channels together: the fluctuations are scaled, so that the whole range of p-values is seen
        reps = -(-op["size"] // len(data))
        expectation = np.tile(expectation, reps)[:op["size"]]
        errors = np.tile(errors, reps)[:op["size"]]
        data = np.maximum(expectation + op["spread"] * (rs.poisson(expectation) - expectation), 0.0)
        if src == "empty":
            data[rs.randint(len(data))] = 0.0
        shape = (op["size"],)
    n = len(data)
    dof = {"bins": n, "few": max(1, n - 1 - int(op["seed"] % 7)), "one": 1, "float": float(n) - 0.5 if n > 1 else 1.5}[op["dof"]]
    return [shaped(a, op["form"], shape) for a in (data, expectation, errors)] + [dof]


def run(plan, sim):
    from templatefitter import stats
    tests = {
        "pearson": lambda d, e, u, dof: stats.pearson_chi2_test(d, e, dof),
        "cowan": lambda d, e, u, dof: stats.cowan_binned_likelihood_gof(d, e, dof),
        "default": lambda d, e, u, dof: stats.default_chi2_test(d, e, u, dof),
    }
    w = BuildSession(sim, plan["cfg"])
    held = []
    for i, op in enumerate(plan["ops"]):
        if i == len(plan["ops"]) - 5:
            w.finish()
        if op["op"] != "gof":
            if w.apply(op) and held:
                sim.probe("changes")
            continue
        test, args = op["test"], None
        if op["again"] and held:
            test, args = held[op["seed"] % len(held)]
            sim.probe("tested-again")
        else:
            args = inputs(w, op)
            if args is None:
                continue
            held.append((test, args))
        compare(w, tests[test], test, args, op)


def compare(w, fn, test, args, op):
    sim = w.sim
    before = w.must("snapshot", w.snapshot)
    copies = [np.array(a) for a in args[:3]]
    label = f"{test} test with {args[0].size} bins and {args[3]} degrees of freedom"
    if op["fail"] is not None:
        weak = [a.view(Fragile) for a in args[:3]]
        Fragile.sim = sim
        try:
            out = sim.call(label + " on failing arrays", lambda: fn(*weak, args[3]),
                           {"seam": "arithmetic", "at": op["fail"], "do": op["error"]})
        finally:
            Fragile.sim = None
        if not out.ok:
            check(out.injected, "unexpected-exception", f"{label} raised {type(out.exc).__name__}: {out.exc}")
            sim.probe("test-failed")
    got = w.must(label, lambda: fn(args[0], args[1], args[2], args[3]))
    check(len(got) == 3, "result", f"{label} returned {got!r}")
    chi, per_dof, p = (num(v, label) for v in got)
    want, wp = reference(test, *args)
    scale = max(1.0, abs(want), float(np.sum(copies[1])) * 1e-3 if test == "cowan" else 0.0)
    check(abs(chi - want) <= 1e-8 * scale, "statistic", f"{label}: statistic {chi!r}, the documented sum is {want!r}")
    check(abs(per_dof - want / args[3]) <= 1e-8 * scale, "statistic",
          f"{label}: {per_dof!r} per degree of freedom instead of {want / args[3]!r}")
    check(abs(p - wp) <= 1e-7, "p-value", f"{label}: p-value {p!r} for {want!r}, the upper tail is {wp!r}")
    tail = float(gammaincc(args[3] / 2.0, max(float(chi), 0.0) / 2.0))
    check(abs(p - tail) <= 1e-6 * tail + 1e-290, "p-value",
          f"{label}: p-value {p!r} for a statistic of {float(chi)!r}, the upper tail is {tail!r}")
    for a, c in zip(args, copies):
        check(np.array_equal(a, c), "argument", f"{label} changed its argument")
    diff = same_nested(before, w.must("snapshot", w.snapshot))
    check(diff is None, "effect", f"{label} changed {diff}")
    sim.state(test, args[0].size > 30, op["form"], op["source"], op["fail"], round(wp, 1))
    sim.probe("tests-compared")
    sim.log("gof", test, repr(chi), repr(p))
