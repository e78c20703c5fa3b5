"""P15: the significance is the square root of the likelihood ratio q0."""
import numpy as np

from ..analysis import REAL, STUBS, gen_fit_fault, gen_null_fault  # noqa: F401
from ..core import check, num, same_nested
from ..fits import SIGNIFICANCE, FitWorld, check_failure, check_significance, fixed_of, gen_fit_world, in_domain
from ..session import gen_op
from ..world import snap_model

RUNS = {"quick": 450, "thorough": 15000}
SHRINK_INTS = {"k": 0, "p": 0, "c": 0}
ASSUMPTIONS = [
    "the value is compared with the reference if both fits reported convergence; get_significance itself does not "
    "judge the convergence of its fits",
    "the likelihood is defined where the fits start (a model whose nuisance parameters were set to values with "
    "negative expectations has no significance)",
    "data which are impossible without the tested process have no finite reference value",
]
RULE = (
    "One run asks for significances of seeded processes, from clearly present to absent (downward fluctuations "
    "included), with either minimizer, free or fixed nuisance parameters and constraints, between changes of the "
    "model, fits and failing calls (exceptions at the n-th likelihood evaluation of the nominal or the null fit, "
    "failing or non-converging minimizers, singular Hesse matrix, unwritable stdout). Every value equals "
    "sqrt(max(q0, 0)) of the reference likelihood, zero for a negative yield, is reproducible and leaves the model "
    "unchanged. Non-trivial: at least one value was compared."
)


def generate(rng, index, tier):
    minimizer = rng.choice(["iminuit", "iminuit", "scipy"])
    small = minimizer == "scipy"
    cfg, data, prep = gen_fit_world(rng, minimizer, max_bins=3 if small else 5, processes=(1, 3) if rng.random() < 0.15 else (2, 3),
                                    dims=(1, 1, 1, 2),
                                    weak=rng.random() < 0.7, level=rng.choice([(400, 3000)] * 14 + [(1.5, 9), (0.2, 1.5)]))
    n_nui = sum(int(np.prod(np.shape(t["counts"]))) for t in cfg["templates"])
    ops = []
    for _ in range(rng.randint(1, 4)):
        if rng.random() < 0.4:
            op = gen_op(rng, ["set_yield", "update", "sys", "constraint", "reset"], 0.0)
            if op["op"] == "set_yield":
                op["value"] = round(rng.uniform(300, 3000), 2)
            if op["op"] == "sys":
                op["scale"] = min(op["scale"], 0.08)
            if op["op"] == "constraint":
                op["error"] = round(rng.uniform(100, 800), 2)
                op["value"] = round(rng.uniform(0, 2000), 2)
            ops.append(op)
        op = {"op": "significance", "p": rng.randrange(6), "fix_nui": rng.random() < 0.5 or (small and n_nui > 6),
              "verbose": rng.random() < 0.3, "fit": rng.random() < 0.3, "new": rng.random() < 0.3}
        if rng.random() < 0.35:
            op["fault"] = gen_fit_fault(rng, minimizer)
            if op["fault"]["seam"] == "fcn":
                op["fault"]["at"] = rng.choice([1, 5, 30, 80, 150])
            if rng.random() < 0.5:
                op["fault"] = gen_null_fault(rng, minimizer)
        ops.append(op)
    return {"cfg": cfg, "data": data, "prep": prep, "ops": ops, "minimizer": minimizer}


def nontrivial(res):
    return res["probes"].get("significance-compared", 0) >= 1


def run(plan, sim):
    from templatefitter import TemplateFitter

    w = FitWorld.start(sim, plan)
    fitter = None
    for op in plan["ops"]:
        if op["op"] != "significance":
            w.apply(op)
            continue
        if fitter is None or op["new"]:
            fitter = w.must("TemplateFitter()", lambda: TemplateFitter(w.mct, plan["minimizer"]))
        one(w, fitter, op, plan["minimizer"])


def one(w, fitter, op, minimizer):
    sim = w.sim
    p = w.ref.processes[op["p"] % len(w.ref.processes)]
    fixed = fixed_of(w, op["fix_nui"])
    label = f"significance of {p} ({minimizer})"
    before = w.must("snapshot", lambda: snap_model(w.mct, True))

    def call(faults=None):
        return sim.call(label, lambda: fitter.get_significance(
            p, **sim.explicit(SIGNIFICANCE, verbose=op["verbose"], fix_nui_params=op["fix_nui"])), faults)

    def judge(out):
        if not out.ok:
            if not out.injected:
                check_failure(out, minimizer, label)
            sim.probe("failed")
            return None
        got = num(out.value, "significance")
        if np.isnan(got) and not in_domain(w, p):
            sim.probe("start-outside-of-domain")
            return None
        check(not np.isnan(got) and got >= 0, "significance", f"{label} is {got!r}")
        check_significance(w, got, p, fixed, {}, minimizer, label)
        return got

    def unchanged(what):
        after = w.must("snapshot", lambda: snap_model(w.mct, True))
        diff = same_nested(before, after, 1e-12, 1e-12)
        check(diff is None, "model-changed", f"{what} changed the model: {diff}")

    if op.get("fault"):
        out = call(op["fault"])
        if not out.injected:
            judge(out)
        elif out.ok:
            # a fit that did not converge is not judged, but the value is a number
            got = num(out.value, "significance")
            check(np.isnan(got) or got >= 0, "significance", f"{label} is {got!r}")
        unchanged(f"{label} ({'completed' if out.ok else type(out.exc).__name__})")
    first = judge(call())
    unchanged(label)
    if op["fit"]:
        out = sim.call("fit", lambda: fitter.do_fit(update_templates=False, verbose=0, get_hesse=False,
                                                    fix_nui_params=op["fix_nui"]))
        unchanged("fit")
        second = judge(call())
        if first is not None and second is not None:
            check(first == second or abs(first - second) <= 1e-6 * max(1.0, first), "significance",
                  f"{label} was {first!r}, after a fit it is {second!r}")
    sim.state(minimizer, op["fix_nui"], str(op.get("fault")), first is None, first == 0)
