"""P12: a fit returns the minimum of the likelihood, or says that it did not."""
import numpy as np

from ..analysis import REAL, STUBS, gen_fit_fault  # noqa: F401
from ..core import Violation, check, close, same_nested
from ..fits import (FIT, FitWorld, check_failure, check_result, check_uncertainties, curvature, fixed_of, gen_fit_world,
                    improvement, minuit_gives_up, valid)
from ..session import gen_op
from ..world import snap_model

RUNS = {"quick": 900, "thorough": 12000}
SHRINK_INTS = {"k": 0, "p": 0, "c": 0}
ASSUMPTIONS = [
    "a result is judged against the likelihood minimum reached from the result itself (a different, separate "
    "local minimum is not held against the minimizer)",
    "uncertainties are compared where the second derivatives of the likelihood are well conditioned",
]
RULE = (
    "One run fits models of seeded structure (1-2 channels, 1-3 processes, 1d and 2d, systematics, constraints) "
    "several times with either minimizer, with parameter changes and new data between the fits and seeded "
    "faults inside of them (exceptions in the objective, minimizers that fail or stop before convergence, "
    "singular Hesse matrix, unwritable stdout). Every returned result is compared with a reference likelihood "
    "and its own minimisation; every failed fit must leave the model unchanged and the next clean fit must "
    "succeed. Non-trivial: at least one fit succeeded and was compared."
)


def generate(rng, index, tier):
    minimizer = rng.choice(["iminuit", "iminuit", "scipy"])
    small = minimizer == "scipy"
    cfg, data, prep = gen_fit_world(rng, minimizer, max_bins=3 if small else 4, processes=(1, 2) if small else (1, 3))
    ops = []
    for _ in range(rng.randint(1, 4)):
        if rng.random() < 0.5:
            op = gen_op(rng, ["update", "set_yield", "sys", "data", "reset"], 0.0)
            if op["op"] == "set_yield":
                op["value"] = round(rng.uniform(300, 3000), 2)
            if op["op"] == "data":
                op["mode"] = rng.choice(["poisson", "float"])
            if op["op"] == "sys":
                op["scale"] = min(op["scale"], 0.08)
            ops.append(op)
        n_nui = sum(int(np.prod(np.shape(t["counts"]))) for t in cfg["templates"])
        fit = {"op": "fit", "minimizer": rng.choice([minimizer] * 3 + ["iminuit"]), "update": rng.random() < 0.5,
               "hesse": rng.random() < 0.8, "verbose": rng.choice([0, 0, 1, True]), "new": rng.random() < 0.4}
        fit["fix_nui"] = rng.random() < (0.7 if fit["minimizer"] == "scipy" else 0.4)
        if fit["minimizer"] == "scipy" and n_nui > 8:
            fit["fix_nui"] = True
        if rng.random() < 0.3:
            fit["fault"] = gen_fit_fault(rng, fit["minimizer"], fit["hesse"])
        ops.append(fit)
    return {"cfg": cfg, "data": data, "prep": prep, "ops": ops}


def nontrivial(res):
    return res["probes"].get("compared", 0) >= 1


def run(plan, sim):
    from templatefitter import TemplateFitter

    w = FitWorld.start(sim, plan)
    fitters = {}
    for n, op in enumerate(plan["ops"]):
        if op["op"] != "fit":
            w.apply(op)
            continue
        kind = op["minimizer"]
        if kind not in fitters or op["new"]:
            fitters[kind] = w.must("TemplateFitter()", lambda: TemplateFitter(w.mct, kind))
        one_fit(w, fitters[kind], op, f"fit {n} ({kind})")
        if op.get("fault"):
            one_fit(w, fitters[kind], {k: v for k, v in op.items() if k != "fault"}, f"fit {n} repeated ({kind})")


def one_fit(w, fitter, op, label):
    sim = w.sim
    kind = op["minimizer"]
    fixed = fixed_of(w, op["fix_nui"])
    x0 = w.ref.x0()
    start_ok = valid(w, x0) and np.isfinite(w.ref.nll(x0))
    before = w.must("snapshot", lambda: snap_model(w.mct, True))
    out = sim.call(label, lambda: fitter.do_fit(**sim.explicit(
        FIT, update_templates=op["update"], get_hesse=op["hesse"], verbose=op["verbose"], fix_nui_params=op["fix_nui"],
    )), op.get("fault"))
    sim.state(kind, op["fix_nui"], op["update"], out.ok, str(op.get("fault")))
    if not out.ok:
        after = w.must("snapshot", lambda: snap_model(w.mct, True))
        diff = same_nested(before, after, 1e-12, 1e-12)
        check(diff is None, "failed-fit-changed-model", f"{label} raised {type(out.exc).__name__} and changed {diff}")
        if out.injected:
            sim.probe("failed-by-fault")
            return
        sim.probe("failed-cleanly-" + kind)
        check_failure(out, kind, label)
        return
    res = out.value
    got = check_result(w, res, x0, fixed, {}, kind, label)
    sim.probe("returned-success" if bool(res.succes) else "returned-failure")
    if op.get("fault") is None and start_ok and kind == "iminuit" and not bool(res.succes):
        gain, at = improvement(w, x0, fixed)
        free = [i for i, n in enumerate(w.ref.names()) if n not in fixed]
        h = curvature(w, at, free, 0.03) if valid(w, at) else None
        sim.probe("no-success")
        check(h is None or minuit_gives_up(w, x0, fixed, {}), "fit-failed",
              f"{label}: a fit with a well defined minimum did not converge")
    if got is not None and bool(res.succes):
        sim.probe("compared")
        if op["hesse"] and check_uncertainties(w, res, fixed, {}, label, 0.1 if kind == "scipy" else 0.25):
            sim.probe("uncertainties-compared")
    x = np.array(res.params.values, dtype=float)
    if op["update"]:
        w.ref_update(x)
        for key, t in w.templates.items():
            rt = w.rt(key)
            close(t.params, np.concatenate([[rt.y], rt.theta]), "update", f"{label}: parameters of template {key}",
                  rtol=1e-9, atol=1e-9)
    else:
        after = w.must("snapshot", lambda: snap_model(w.mct, True))
        diff = same_nested(before, after, 1e-12, 1e-12)
        check(diff is None, "fit-changed-model", f"{label} without update changed {diff}")
