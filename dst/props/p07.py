"""P07: the likelihood is the documented function of the current model."""
import numpy as np

from ..build import BuildSession, gen_session
from ..core import check, close, num
from ..session import SHRINK_INTS  # noqa: F401

RUNS = {"quick": 2500, "thorough": 15000}
REAL = ["NegLogLikelihood", "MultiChannelTemplate", "Channel", "templates", "histograms"]
STUBS = ["numpy.linalg.inv and binning wrapped for fault injection", "operation scheduler"]
ASSUMPTIONS = ["evaluation points keep every expected bin content positive where there is data"]
RULE = (
    "One run builds a model of 1-3 channels (mixed 1d/2d, processes missing in some channels, different "
    "template order per channel) in seeded order and interleaves parameter updates, systematics (some failing), "
    "constraints, new datasets and resets with evaluations of likelihood objects created at any earlier time, "
    "at random points; every value is compared with the reference likelihood. "
    "Non-trivial: at least 3 evaluations of likelihoods that were created before the last change."
)
KINDS = ("tset_yield", "update", "set_yield", "sys", "sys", "reset", "constraint", "data", "data",
         "mknll", "mknll", "evalold", "evalold", "evalold", "toy", "tset_nui")


def generate(rng, index, tier):
    cfg, ops = gen_session(
        rng, KINDS, rng.randint(6, 24), interleave=0.7, big=0.06, channels=(1, 3), processes=(1, 3),
        empty=rng.choice([0.0, 0.0, 0.15]), max_bins=5,
    )
    for op in ops:
        if op["op"] == "evalold":
            op["which"] = rng.randrange(8)
        if op["op"] == "data" and rng.random() < 0.2:
            op["mode"] = "tiny"
        if op["op"] == "constraint" and rng.random() < 0.1:
            op["error"] = round(rng.uniform(0.05, 1.0), 3)
    for _ in range(2):
        ops.insert(rng.randint(0, len(ops) // 2), {"op": "mknll", "k": 0, "seed": 0})
    ops += [{"op": "mknll", "k": 0, "seed": 0}] + [
        {"op": "evalold", "which": rng.randrange(8), "seed": rng.getrandbits(20), "k": 0} for _ in range(3)
    ]
    return {"cfg": cfg, "ops": ops}


def nontrivial(res):
    return res["probes"].get("old-likelihood-evaluated", 0) >= 3


def evaluate(w, nll, seed, label):
    names = w.ref.names()
    x = w.random_x(seed, 0.7)
    if seed % 5 == 0:
        x[len(w.ref.processes):] = 0.0
    x = np.abs(x) if len(x) == len(w.ref.processes) else x
    if seed % 11 == 0:
        x[seed % len(w.ref.processes)] = 0.0
    if seed % 7 == 0:  # far outside of the domain
        i = seed % len(w.ref.processes)
        x[i] = -1.5 * abs(x[i]) - np.sum(np.abs(x[: len(w.ref.processes)]))
    want = w.ref.nll(x)
    if not np.isfinite(want):
        v = w.ref.as_dict(x)
        if any(np.any((w.ref.expectation(c, v) < -1e-6) & (ch.data.reshape(-1) > 0)) for c, ch in w.ref.channels.items()
               if ch.t):
            got = num(w.must("nll(x)", lambda: nll(x.copy())), label)
            check(got == np.inf, "likelihood", f"{label} is {got!r} where a bin with data has a negative expectation")
            w.sim.probe("outside-of-domain")
        return False
    got = num(w.must("nll(x)", lambda: nll(x.copy())), label)
    # the terms of the sum, for the rounding error of the total
    scale = sum(float(np.sum(c.data)) + float(np.sum(np.abs(c.data))) for c in w.ref.channels.values())
    close(got, want, "likelihood", f"{label} at {dict(zip(names, x))}"[:600], 1e-7, 1e-11 * scale + 1e-8)
    return True


def run(plan, sim):
    w = BuildSession(sim, plan["cfg"])
    nlls = []
    version = 0
    last = len(plan["ops"]) - 4
    for i, op in enumerate(plan["ops"]):
        if i == last:
            w.finish()
            version += 1
        if op["op"] == "mknll":
            nlls.append((version, w.must("create_nll", w.mct.create_nll)))
        elif op["op"] == "evalold":
            if not nlls or not w.complete():
                continue
            born, nll = nlls[op["which"] % len(nlls)]
            if evaluate(w, nll, op["seed"], f"likelihood created {version - born} changes ago"):
                sim.probe("evaluations")
                sim.probe("old-likelihood-evaluated", int(born < version))
                close(nll.x0, w.ref.x0(), "likelihood", "x0", 1e-9, 1e-9)
        else:
            if w.apply(op):
                version += 1
        sim.state(op["op"], len(nlls), len(w.templates), len(w.ref.constraints))
    w.finish()
    for born, nll in nlls:
        evaluate(w, nll, 4712, "likelihood at the end")
