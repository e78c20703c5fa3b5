"""P06: reset restores the original parameters after any history."""
import numpy as np

from ..core import close
from ..session import SHRINK_INTS, Session, gen_op  # noqa: F401
from ..world import check_covariance, check_template, gen_data, gen_model

RUNS = {"quick": 2000, "thorough": 12000}
REAL = ["templates", "channels", "MultiChannelTemplate", "TemplateFitter", "iminuit"]
STUBS = ["numpy.linalg.inv, binning and minimizer entry points wrapped for fault injection", "operation scheduler"]
ASSUMPTIONS = ["the original parameters are those right after the construction of the template"]
RULE = (
    "One run performs a seeded history of parameter changes, fits that update the templates (some of them "
    "failing), systematics, further fills of the source histograms and resets on template, channel and model "
    "level; after every reset the affected parameters are the original ones, everything else is untouched. "
    "Non-trivial: a reset happened after a change."
)
KINDS = ("tset_yield", "tset_nui", "tset_params", "set_yield", "update", "sys", "hfill", "data", "constraint",
         "toy", "reset", "creset", "treset", "fit")


def generate(rng, index, tier):
    cfg = gen_model(rng, big=0.06, channels=(1, 3), processes=(1, 3), max_bins=4)
    ops = []
    for _ in range(rng.randint(4, 16)):
        op = gen_op(rng, KINDS)
        if op["op"] == "fit":
            op["minimizer"] = "iminuit"
            if rng.random() < 0.4:
                op["fault"] = {"seam": rng.choice(["fcn", "migrad"]), "at": rng.randint(1, 12),
                               "do": rng.choice(["RuntimeError", "KeyboardInterrupt", "MemoryError"])}
        ops.append(op)
    ops.append({"op": rng.choice(["reset", "creset", "treset"]), "k": rng.randrange(8), "c": rng.randrange(4), "seed": 0})
    return {"cfg": cfg, "data": gen_data(rng, cfg), "ops": ops}


def nontrivial(res):
    return res["probes"].get("reset-after-change", 0) >= 1


def fit(w, op):
    from templatefitter import TemplateFitter

    fitter = TemplateFitter(w.mct, op["minimizer"])
    out = w.sim.call(
        "fit", lambda: fitter.do_fit(update_templates=True, verbose=0, fix_nui_params=True), op.get("fault")
    )
    # take the parameters over as they are: P06 is about the way back
    for key, t in w.templates.items():
        p = np.array(t.params, dtype=float)
        w.rt(key).y, w.rt(key).theta = p[0], p[1:]
    return out.ok


def run(plan, sim):
    w = Session(sim, plan["cfg"]).build()
    w.add_data(plan["data"])
    original = {k: np.array(t.params, dtype=float) for k, t in w.templates.items()}
    for key, p in original.items():
        close(p, np.concatenate([[w.rt(key).original], np.zeros(w.rt(key).n)]), "reset",
              f"original parameters of {key}")
    changed = False
    for op in plan["ops"]:
        if op["op"] == "fit":
            if all(c.data is not None for c in w.ref.channels.values()):
                changed = fit(w, op) or changed
        else:
            w.apply(op)
            if op["op"] in ("reset", "creset", "treset"):
                sim.probe("reset-after-change", int(changed))
            else:
                changed = True
        for key, t in w.templates.items():
            check_template(t, w.rt(key), f"after {op['op']}: template{key}", "reset")
            check_covariance(t, w.rt(key), f"after {op['op']}: template{key}", "reset")
        for name, ch in w.ref.channels.items():
            close(w.mct.channels[name].data_bin_counts, ch.data, "reset", f"data of {name}")
        sim.state(op["op"], changed)
