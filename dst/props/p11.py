"""P11: analyses leave model and data alone, however they end."""
import numpy as np

from ..analysis import REAL, STUBS, fitter_for, gen_analysis, run_analysis  # noqa: F401
from ..core import Violation, check, same_nested
from ..session import SHRINK_INTS, Session, gen_op  # noqa: F401
from ..world import gen_data, gen_model

SHRINK_INTS = dict(SHRINK_INTS, n_exp=1, num_points=2, num_cpu=1)
RUNS = {"quick": 300, "thorough": 6000}
ASSUMPTIONS = [
    "an interrupt inside the objective reaches the caller as whatever the minimizer turns it into",
    "linearity tests are excluded: they set the tested yield on purpose",
]
RULE = (
    "One run performs fits without update, profiles, significances and toy studies with long-lived fitters on "
    "one model, at seeded points interrupted by faults (exceptions and interrupts at the n-th objective "
    "evaluation, failing or non-converging minimizers, failing Hesse matrix, pool that cannot be created, "
    "failing worker tasks, failing poisson draws, unwritable stdout), between parameter changes; a control "
    "model receives the changes only. After every operation both public states are identical, and a clean "
    "repetition of the analysis agrees with a fresh fitter on the control model. "
    "Non-trivial: at least one analysis was hit by a fault."
)


def generate(rng, index, tier):
    minimizer = rng.choice(["iminuit", "iminuit", "scipy"])
    cfg = gen_model(rng, channels=(1, 2), processes=(1, 3), max_bins=4, level=(400, 3000), dims=(1, 1, 2))
    n_free = sum(int(np.prod(np.shape(t["counts"]))) for t in cfg["templates"]) + len(cfg["processes"])
    ops = []
    for _ in range(rng.randint(2, 6)):
        if rng.random() < 0.35:
            ops.append(gen_op(rng, ["update", "set_yield", "sys", "data", "constraint"], 0.0))
            if ops[-1]["op"] == "set_yield":
                ops[-1]["value"] = round(rng.uniform(200, 3000), 2)
            if ops[-1]["op"] == "data":
                ops[-1]["mode"] = "poisson"
            if ops[-1]["op"] == "constraint":
                ops[-1]["error"] = round(rng.uniform(50, 500), 2)
        ops.append(gen_analysis(rng, ["fit", "fit", "profile", "significance", "toys"], minimizer, n_free, 0.65))
        if ops[-1]["kind"] == "fit" and ops[-1].get("fault") and rng.random() < 0.4:
            ops[-1]["update"] = True
    return {"cfg": cfg, "data": gen_data(rng, cfg), "ops": ops}


def nontrivial(res):
    return res["probes"].get("faulty", 0) >= 1


def run(plan, sim):
    w = Session(sim, plan["cfg"]).build()
    c = Session(sim, plan["cfg"], "control:").build()
    for x in (w, c):
        x.add_data(plan["data"])
    fitters = {}
    for op in plan["ops"]:
        if op["op"] != "analysis":
            w.apply(op)
            c.apply(op)
            compare(w, c, op["op"])
            continue
        slot = (op["minimizer"], op["fitter"])
        if slot not in fitters:
            fitters[slot] = fitter_for(w, op["minimizer"])
        fitter = fitters[slot]
        out, result = run_analysis(w, fitter, op)
        sim.probe("faulty", int(out.injected))
        sim.probe(f"{op['kind']}-{'ok' if out.ok else 'failed'}")
        if out.ok and op.get("update"):
            x = np.array(out.value.params.values, dtype=float)
            c.must("update_parameters", lambda: c.mct.update_parameters(x))
            c.ref_update(x)
            w.ref_update(x)
        compare(w, c, f"{op['kind']} ({'completed' if out.ok else type(out.exc).__name__})")
        sim.state(op["kind"], op["minimizer"], out.ok, str(op.get("fault")), op["fix_nui"])
        # the same analysis again, without faults: same fitter against a fresh one
        if op["kind"] == "profile" and op["seed"] % 2:
            continue
        again = dict(op, update=False)
        out1, r1 = run_analysis(w, fitter, again, clean=True)
        out2, r2 = run_analysis(c, fitter_for(c, op["minimizer"]), again, clean=True)
        if not out2.ok:
            # this fit does not work on the untouched model either
            sim.probe("clean-analysis-fails")
            check(not out1.ok, "poisoned", f"{op['kind']} fails on a fresh model only")
        elif not out1.ok:
            raise Violation("poisoned", f"{op['kind']} after a failure raised {type(out1.exc).__name__}: {out1.exc}")
        else:
            diff = same_nested(r1, r2, 1e-6, 1e-6)
            check(diff is None, "poisoned", f"{op['kind']} repeated after a failure differs from a fresh one: {diff}")
        compare(w, c, f"clean {op['kind']}")


def compare(w, c, what):
    x = c.random_x(17, 0.3)
    a = w.must("snapshot", lambda: w.snapshot(x))
    b = c.must("snapshot", lambda: c.snapshot(x))
    diff = same_nested(b, a, 1e-12, 1e-12)
    check(diff is None, "model-changed", f"{what} changed the model: {diff}")
