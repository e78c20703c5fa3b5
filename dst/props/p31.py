"""P31: conversions between covariance and correlation."""
import numpy as np

from ..build import BuildSession, gen_session
from ..core import arr, check, close, same_nested
from ..session import SHRINK_INTS  # noqa: F401
from .p30 import Fragile

RUNS = {"quick": 2000, "thorough": 20000}
REAL = ["utility.cov2corr/corr2cov", "Template1d/2d", "Channel", "MultiChannelTemplate", "numpy"]
STUBS = ["operation scheduler", "arrays whose arithmetic fails at a seeded operation (failing allocation, interrupt)"]
ASSUMPTIONS = ["covariance matrices are positive semidefinite, variances are zero or between 1e-20 and 1e20"]
RULE = (
    "One run is a session in which the covariance matrices of templates grow by systematics, and covariance matrices like "
    "those of fits (with fixed parameters, rounded, extreme scales) appear. They are converted to correlations and back, "
    "some conversions fail in the middle and are repeated, old matrices are converted again. The correlations equal the "
    "elementwise definition, the way back gives the original matrix, and no input or model changes. Non-trivial: at least "
    "4 matrices were converted both ways, one of them after a change."
)
KINDS = ("sys", "sys", "sys", "reset", "update", "conv", "conv", "conv", "conv")


def gen_conv(rng):
    return {
        "op": "conv", "k": rng.randrange(12), "seed": rng.getrandbits(30),
        "source": rng.choice(["template", "template", "fit", "fit", "channel"]),
        "n": rng.choice([1, 2, 3, 5, 9, 20]), "fixed": rng.choice([0, 0, 1, 2, 20]),
        "scale": rng.choice([0, 0, 3, 8, 16]), "singular": rng.random() < 0.2,
        "form": rng.choice(["plain", "readonly", "strided", "fortran", "int"]),
        "again": rng.random() < 0.3,
        "fail": rng.choice([None, None, 1, 2, 3, 5, 6]),
        "error": rng.choice(["MemoryError", "KeyboardInterrupt"]),
    }


def generate(rng, index, tier):
    cfg, ops = gen_session(rng, KINDS, rng.randint(6, 16), interleave=0.4, big=0.06, channels=(1, 3), processes=(1, 3),
                           max_bins=6, empty=rng.choice([0.0, 0.2]))
    ops = [gen_conv(rng) if op["op"] == "conv" else op for op in ops]
    ops += [gen_conv(rng) for _ in range(5)]
    return {"cfg": cfg, "ops": ops}


def nontrivial(res):
    return res["probes"].get("matrices-converted", 0) >= 4 and res["probes"].get("changes", 0) >= 1


def matrix(w, op):
    rs = np.random.RandomState(op["seed"])
    if op["source"] == "template":
        keys = w.keys()
        if not keys:
            return None
        key = keys[op["k"] % len(keys)]
        cov = np.array(w.templates[key].cov_mat, dtype=float)
    else:
        n = op["n"]
        a = rs.normal(size=(n, max(1, n // 2) if op["singular"] else n + 1))
        sd = 10.0 ** rs.uniform(-op["scale"] / 2.0, op["scale"] / 2.0, n)
        cov = (a @ a.T) * np.outer(sd, sd)
        if op["form"] == "int":
            cov = np.rint(np.minimum(np.abs(a) @ np.abs(a).T, 50) * 10)
            np.fill_diagonal(cov, np.maximum(cov.diagonal(), 1) + 500)
    if op["source"] == "fit" and op["fixed"]:
        for i in rs.choice(len(cov), size=min(op["fixed"], len(cov)), replace=False):
            cov[i, :] = 0.0
            cov[:, i] = 0.0
    if op["form"] == "strided":
        b = np.full((2 * len(cov), 3 * len(cov)), 7.0)
        b[::2, ::3] = cov
        return b[::2, ::3]
    if op["form"] == "fortran":
        return np.asfortranarray(cov)
    if op["form"] == "int" and np.all(cov == np.rint(cov)):
        return cov.astype(int)
    cov = np.array(cov)
    if op["form"] == "readonly":
        cov.flags.writeable = False
    return cov


def run(plan, sim):
    from templatefitter import utility
    w = BuildSession(sim, plan["cfg"])
    held = []
    for i, op in enumerate(plan["ops"]):
        if i == len(plan["ops"]) - 5:
            w.finish()
        if op["op"] != "conv":
            if w.apply(op) and held:
                sim.probe("changes")
            continue
        if op["again"] and held:
            cov = held[op["seed"] % len(held)]
        else:
            cov = matrix(w, op)
            if cov is None:
                continue
            held.append(cov)
        convert(w, utility, cov, op)


def attempt(w, label, fn, args, op):
    sim = w.sim
    if op["fail"] is not None:
        weak = [a.view(Fragile) for a in args]
        Fragile.sim = sim
        try:
            out = sim.call(label + " on failing arrays", lambda: fn(*weak),
                           {"seam": "arithmetic", "at": op["fail"], "do": op["error"]})
        finally:
            Fragile.sim = None
        if not out.ok:
            check(out.injected, "unexpected-exception", f"{label} raised {type(out.exc).__name__}: {out.exc}")
            sim.probe("conversion-failed")
    return w.must(label, lambda: fn(*args))


def convert(w, utility, cov, op):
    sim = w.sim
    before = w.must("snapshot", w.snapshot)
    c = np.array(cov, dtype=float)
    n = len(c)
    sd = np.sqrt(c.diagonal())
    want = np.array([[c[i, j] / (sd[i] * sd[j]) if sd[i] > 0 and sd[j] > 0 else 0.0 for j in range(n)] for i in range(n)])
    label = f"conversion of a {n}x{n} covariance matrix"
    corr = arr(attempt(w, label, utility.cov2corr, [cov], op), label, (n, n))
    close(corr, want, "correlation", label, 1e-9, 1e-9)
    sd_in = sd.copy()
    corr_in = np.array(corr)
    back = arr(attempt(w, label + " and back", utility.corr2cov, [corr, sd_in], op), label + " and back", (n, n))
    tol = 1e-9 * np.outer(sd, sd)
    check(np.all(np.abs(back - c) <= tol), "covariance", f"{label} and back: {back!r} instead of {c!r}")
    check(np.array_equal(corr, corr_in) and np.array_equal(sd_in, sd) and np.array_equal(cov, c), "argument",
          f"{label} changed its arguments")
    diff = same_nested(before, w.must("snapshot", w.snapshot))
    check(diff is None, "effect", f"{label} changed {diff}")
    sim.state(n, op["source"], op["form"], op["fixed"], op["fail"])
    sim.probe("matrices-converted")
