"""P13: fixed and bounded parameters are respected by every analysis."""
import numpy as np

from ..analysis import REAL, STUBS, gen_fit_fault  # noqa: F401
from ..core import check, num
from ..fits import (FIT, FitWorld, check_failure, check_profile, check_result, check_significance, check_uncertainties, fixed_of,
                    gen_fit_world)
from ..session import gen_op

RUNS = {"quick": 1500, "thorough": 10000}
SHRINK_INTS = {"k": 0, "p": 0, "c": 0, "num_points": 2, "num_cpu": 1}
ASSUMPTIONS = [
    "bounds contain the starting values (a start outside of the bounds is left to the minimizers)",
    "the scan range of a profile and the tested value 0 of a significance may leave the bounds of the tested "
    "parameter itself",
]
RULE = (
    "One run gives long-lived fitters a growing set of fixed parameters, bounds and fixed nuisance parameters "
    "(by name and by index, in seeded order, before and between the analyses, whose starting values change with "
    "the templates), and performs fits, profiles and significances with either minimizer, some of them hit by "
    "faults. Every point at which iminuit evaluates the likelihood, every result, every scan point and every "
    "significance has to respect all settings made so far, and the free parameters have to be at the constrained "
    "minimum of the reference likelihood. Non-trivial: at least one analysis with a fixed or bounded parameter."
)


def generate(rng, index, tier):
    minimizer = rng.choice(["iminuit", "iminuit", "scipy"])
    small = minimizer == "scipy"
    cfg, data, prep = gen_fit_world(rng, minimizer, max_bins=3, processes=(1, 3), dims=(1, 1, 1, 2),
                                    weak=rng.random() < 0.5)
    n_nui = sum(int(np.prod(np.shape(t["counts"]))) for t in cfg["templates"])
    ops = []
    for _ in range(rng.randint(3, 8)):
        kind = rng.choice(["fix", "fix", "bound", "bound", "fix_nui", "analysis", "analysis", "change"])
        if kind == "change":
            op = gen_op(rng, ["set_yield", "update", "sys", "data"], 0.0)
            if op["op"] == "set_yield":
                op["value"] = round(rng.uniform(600, 3000), 2)
            if op["op"] == "data":
                op["mode"] = "poisson"
            if op["op"] == "sys":
                op["scale"] = min(op["scale"], 0.08)
            ops.append(op)
        elif kind == "analysis":
            ops.append(gen_run(rng, small, n_nui))
        else:
            ops.append({"op": kind, "i": rng.randrange(40), "yield": rng.random() < 0.6,
                        "by": rng.choice(["name", "name", "index"]),
                        "low": rng.choice([None, 0.01, 0.2, 0.5, "zero"]),
                        "high": rng.choice([None, 0.01, 0.2, 0.5, "zero"])})
    if rng.random() < 0.2:  # one parameter, addressed in turn by name and by index: the last setting counts
        i, by = rng.randrange(40), rng.choice([["name", "index"], ["index", "name"]])
        for k, size in enumerate(rng.choice([[0.5, 0.01], [0.01, 0.5, 0.02], [0.5, 0.2, 0.01]])):
            ops.append({"op": "bound", "i": i, "yield": True, "by": by[k % 2], "low": size, "high": size})
    ops.append(gen_run(rng, small, n_nui))
    return {"cfg": cfg, "data": data, "prep": prep, "ops": ops, "minimizer": minimizer}


def gen_run(rng, small, n_nui):
    op = {"op": "run", "kind": rng.choice(["fit", "fit", "fit", "profile", "significance"]),
          "update": rng.random() < 0.3, "fix_nui": rng.random() < 0.5 or (small and n_nui > 6),
          "hesse": rng.random() < 0.7, "p": rng.randrange(6), "num_points": rng.choice([2, 3, 4]),
          "num_cpu": rng.choice([1, 2, 3]), "by": rng.choice(["name", "index"]),
          "limits": rng.choice([None, None, None, 0.05, 0.3, 2.0, 4.0])}
    if rng.random() < 0.2:
        op["fault"] = gen_fit_fault(rng, "scipy" if small else "iminuit")
    return op


def nontrivial(res):
    return res["probes"].get("constrained-analysis", 0) >= 1


def bound_at(x, how, scale):
    """A bound beside the value x, or (where it is on the right side) at exactly 0."""
    if how is None:
        return None
    if how == "zero":
        return 0.0 if (x > 0) == (scale < 0) and x != 0 else float(x + 0.5 * scale)
    return float(x + how * scale)


class Settings:
    def __init__(self):
        self.fixed = []
        self.bounds = {}
        self.fix_nui = False


def run(plan, sim):
    from templatefitter import TemplateFitter

    w = FitWorld.start(sim, plan)
    fitter = w.must("TemplateFitter()", lambda: TemplateFitter(w.mct, plan["minimizer"]))
    s = Settings()
    for op in plan["ops"]:
        names = w.ref.names()
        npr = len(w.ref.processes)
        if op["op"] in ("fix", "bound"):
            i = op["i"] % npr if op["yield"] else op["i"] % len(names)
            name = names[i]
            pid = name if op["by"] == "name" else i
            if op["op"] == "fix":
                w.must(f"set_parameter_fixed({pid})", lambda: fitter.set_parameter_fixed(pid))
                s.fixed.append(name)
            else:  # the last setting counts, whether it was made by name or by index
                x = w.ref.x0()[i]
                scale = max(1.0, abs(x)) if i < npr else 2.0
                lo, hi = bound_at(x, op["low"], -scale), bound_at(x, op["high"], scale)
                w.must(f"set_parameter_bounds({pid})", lambda: fitter.set_parameter_bounds(pid, (lo, hi)))
                s.bounds[name] = (lo, hi)
        elif op["op"] == "fix_nui":
            w.must("fix_nui_params()", fitter.fix_nui_params)
            s.fix_nui = True
        elif op["op"] == "run":
            analysis(w, fitter, s, op, plan["minimizer"])
        else:
            w.apply(op)
    sim.state(plan["minimizer"], len(s.fixed), len(s.bounds), s.fix_nui)


def analysis(w, fitter, s, op, minimizer):
    sim = w.sim
    names = w.ref.names()
    npr = len(w.ref.processes)
    x0 = w.ref.x0()
    fixed = fixed_of(w, s.fix_nui or op["fix_nui"], s.fixed)
    bounds = dict(s.bounds)
    if op["limits"] and op["kind"] == "fit":
        for n in names[npr:]:
            bounds.setdefault(n, (-op["limits"], op["limits"]))
    if any((lo is not None and x0[names.index(n)] <= lo) or (hi is not None and x0[names.index(n)] >= hi)
           for n, (lo, hi) in bounds.items()):
        # the start is outside of the allowed range: nothing is specified
        sim.probe("start-out-of-bounds")
        return
    if fixed or bounds:
        sim.probe("constrained-analysis")
    if len(fixed) == len(names):
        sim.probe("everything-fixed")
        return  # nothing to fit
    sim.state(op["kind"], minimizer, bool(fixed), bool(bounds), op["fix_nui"], s.fix_nui)
    label = f"{op['kind']} ({minimizer})"
    p = w.ref.processes[op["p"] % npr]
    name = f"{p}_yield"
    watch = Watch(w, names, fixed, bounds, None if op["kind"] == "fit" else name)
    if op["kind"] == "fit":
        limits = (-op["limits"], op["limits"]) if op["limits"] else None
        out = watch.call(label, lambda: fitter.do_fit(**sim.explicit(
            FIT, update_templates=op["update"], get_hesse=op["hesse"], verbose=0, fix_nui_params=op["fix_nui"],
            nui_param_limits=limits)), op.get("fault"), minimizer)
        if not failed(sim, out, label, minimizer):
            check_result(w, out.value, x0, fixed, bounds, minimizer, label)
            if op["hesse"] and bool(out.value.succes):
                check_uncertainties(w, out.value, fixed, bounds, label, 0.15)
            if op["update"]:
                w.ref_update(np.array(out.value.params.values, dtype=float))
        return
    if op["kind"] == "profile":
        if name in fixed:
            return
        pid = name if op["by"] == "name" else names.index(name)
        out = watch.call(label, lambda: fitter.profile(
            pid, num_cpu=op["num_cpu"], num_points=op["num_points"], sigma=1.0, fix_nui_params=op["fix_nui"]),
            op.get("fault"), minimizer)
        if not failed(sim, out, label, minimizer):
            check_profile(w, out.value, name, op["num_points"], 1.0, fixed, bounds, minimizer, label, True,
                          out.injected)
        return
    if name in fixed:
        return
    out = watch.call(label, lambda: fitter.get_significance(p, verbose=False, fix_nui_params=op["fix_nui"]),
                     op.get("fault"), minimizer)
    if not failed(sim, out, label, minimizer) and not out.injected:
        check_significance(w, num(out.value, "significance"), p, fixed, bounds, minimizer, label)


class Watch:
    """Every point at which iminuit evaluates the likelihood respects the settings; the parameter which is
    scanned or set to zero may leave its bounds."""

    def __init__(self, w, names, fixed, bounds, tested):
        self.sim, self.names = w.sim, names
        self.ids = [(names.index(n), v) for n, v in fixed.items()]
        self.lims = [(names.index(n), lo, hi) for n, (lo, hi) in bounds.items() if n not in fixed and n != tested]
        self.problem = None

    def on_eval(self, x, value):
        if self.problem is not None:
            return
        for i, v in self.ids:
            if x[i] != v:
                self.problem = f"{self.names[i]} fixed at {v!r} evaluated at {x[i]!r}"
        for i, lo, hi in self.lims:
            eps = 1e-9 * max(1.0, abs(x[i]))
            if (lo is not None and x[i] < lo - eps) or (hi is not None and x[i] > hi + eps):
                self.problem = f"{self.names[i]} in [{lo}, {hi}] evaluated at {x[i]!r}"

    def call(self, label, function, fault, minimizer):
        self.sim.on_eval = self.on_eval if minimizer == "iminuit" else None
        try:
            out = self.sim.call(label, function, fault)
        finally:
            self.sim.on_eval = None
        check(self.problem is None, "constraint-violated", lambda: f"{label}: {self.problem}")
        return out


def failed(sim, out, label, minimizer):
    if out.ok:
        return False
    if not out.injected:
        check_failure(out, minimizer, label)
    sim.probe("analysis-failed")
    return True
