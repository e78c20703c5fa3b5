"""P04: the prediction of a template is its yield times a normalised shape."""
import numpy as np

from ..core import arr, close
from ..session import SHRINK_INTS, Session, gen_op  # noqa: F401
from ..world import check_template, gen_model

RUNS = {"quick": 2000, "thorough": 15000}
REAL = ["Template1d/Template2d", "Hist1d/Hist2d", "Channel", "MultiChannelTemplate", "numba", "numpy"]
STUBS = ["numpy.linalg.inv and binning wrapped for fault injection", "operation scheduler"]
ASSUMPTIONS = ["nuisance parameters keep the shape sum positive"]
RULE = (
    "One run drives the templates of a random model (1d/2d, empty bins, completely empty templates) through "
    "a seeded history of yield/nuisance/parameter updates, systematics (some of them failing half-way), "
    "resets and observer calls; after every operation every template is compared with the reference. "
    "Non-trivial: at least 4 operations took effect."
)
KINDS = ("tset_yield", "tset_nui", "tset_params", "tnudge", "tnudge", "set_yield", "update", "sys", "sys", "reset", "treset",
         "hfill", "toy", "asimov", "read")


def generate(rng, index, tier):
    cfg = gen_model(rng, big=0.06, channels=(1, 2), processes=(1, 3), empty=rng.choice([0.0, 0.2, 0.5]),
                    max_bins=rng.choice([3, 6, 10]), negative=rng.choice([0.0, 0.0, 0.5]))
    if rng.random() < 0.3:  # a process without a single event
        t = rng.choice(cfg["templates"])
        t["counts"] = np.zeros(np.shape(t["counts"])).tolist()
        t["errs"] = None if t["errs"] is None else t["counts"]
    return {"cfg": cfg, "ops": [gen_op(rng, KINDS) for _ in range(rng.randint(3, 16))]}


def nontrivial(res):
    return res["probes"].get("effective", 0) >= 4


def verify(w):
    for key, t in w.templates.items():
        rt = w.rt(key)
        check_template(t, rt, f"template{key}", "prediction")
        total = float(np.sum(arr(t.values, "values")))
        if np.any(rt.c):
            close(total, rt.y, "prediction", f"template{key}: sum of the bins", 1e-8, 1e-7)
        for seed in (1, 2):
            theta = w.nui_of(key, seed)
            close(
                t.fractions(theta.copy()), rt.fractions(theta), "prediction",
                f"template{key}.fractions", 1e-8, 1e-10,
            )


def run(plan, sim):
    w = Session(sim, plan["cfg"]).build()
    verify(w)
    for op in plan["ops"]:
        done = w.apply(op)
        sim.probe("effective", int(bool(done)))
        sim.state(op["op"], len(w.templates), any(not np.any(w.rt(k).c) for k in w.keys()))
        verify(w)
