"""Analyses (fits, profiles, significances, toy studies) of simulated sessions."""
import numpy as np

from .core import arr, num

REAL = ["TemplateFitter", "ToyStudy", "IMinuitMinimizer/ScipyMinimizer", "NegLogLikelihood", "Channel",
        "templates", "histograms", "iminuit", "scipy SLSQP", "numdifftools"]
STUBS = [
    "worker pool: forked processes in lockstep under the seeded scheduler (virtual time)",
    "minimizer, objective, poisson generator, matrix inversion, stdout wrapped for fault injection",
    "numpy global random stream seeded per run",
]


# SLSQP stops early: by the number of iterations, or for one of its other reasons
GIVE_UP = ["nonconv", "nonconv", "nonconv4", "nonconv5", "nonconv6", "nonconv7", "nonconv8", "nonconv8"]


def gen_fit_fault(rng, minimizer, hesse=True):
    """A fault in one fit."""
    exc = lambda *names: rng.choice(names or ("RuntimeError", "MemoryError", "KeyboardInterrupt"))
    options = [
        {"seam": "fcn", "at": rng.choice([1, 2, 3, 7, 15, 30]), "do": exc()},
        {"seam": "stdout", "at": 1, "do": exc("OSError", "BrokenPipeError")},
    ]
    if minimizer == "iminuit":
        options += [
            {"seam": "migrad", "at": rng.randint(1, 2), "do": exc()},
            {"seam": "migrad", "at": rng.randint(1, 2), "do": "nonconv", "count": 2},
        ]
    else:
        options += [
            {"seam": "scipy", "at": 1, "do": exc()},
            {"seam": "scipy", "at": 1, "do": rng.choice(GIVE_UP)},
            {"seam": "inv", "at": 1, "do": exc("LinAlgError", "MemoryError")},
        ]
        if hesse:
            options += [{"seam": "hesse", "at": 1, "do": exc("LinAlgError", "KeyboardInterrupt")}]
    return rng.choice(options)


def gen_null_fault(rng, minimizer):
    """A fault in the second fit of a significance, the one without the process."""
    exc = lambda: rng.choice(("RuntimeError", "MemoryError", "KeyboardInterrupt"))
    if minimizer == "iminuit":
        return rng.choice([{"seam": "migrad", "at": rng.randint(3, 4), "do": exc()},
                           {"seam": "migrad", "at": 4, "do": "nonconv"},
                           {"seam": "fcn", "at": rng.choice([150, 300, 600, 1200]), "do": exc()}])
    return rng.choice([{"seam": "scipy", "at": 2, "do": exc()}, {"seam": "scipy", "at": 2, "do": rng.choice(GIVE_UP)},
                       {"seam": "inv", "at": 2, "do": "LinAlgError"}, {"seam": "hesse", "at": 2, "do": "LinAlgError"},
                       {"seam": "fcn", "at": rng.choice([80, 160, 320]), "do": exc()}])


def gen_analysis(rng, kinds, minimizer, n_free, fault_rate=0.5):
    kind = rng.choice(kinds)
    op = {"op": "analysis", "kind": kind, "seed": rng.getrandbits(30), "p": rng.randrange(6),
          "minimizer": minimizer, "fitter": rng.randrange(2), "verbose": rng.random() < 0.3}
    op["fix_nui"] = minimizer == "scipy" or n_free > 12 or rng.random() < 0.5
    if kind == "fit":
        op["update"] = False
        op["hesse"] = rng.random() < 0.7
    if kind == "profile":
        op["num_cpu"] = rng.choice([1, 2, 3, 5])
        op["num_points"] = rng.choice([2, 3, 5])
        op["sigma"] = rng.choice([0.5, 1.0, 2.0])
    if kind == "toys":
        op["n_exp"] = rng.choice([1, 2, 4])
        op["max_tries"] = rng.choice([1, 2, 3])
    if rng.random() < fault_rate:
        f = gen_fit_fault(rng, minimizer)
        if kind == "significance" and rng.random() < 0.5:
            f = gen_null_fault(rng, minimizer)
        if kind == "profile" and rng.random() < 0.6:
            f = rng.choice([
                {"seam": "pool", "at": 1, "do": "OSError"},
                {"seam": "stdout", "at": rng.randint(1, 6), "do": "OSError"},
                None,
            ])
            if f is None:
                op["task_faults"] = gen_task_faults(rng, op["num_points"], minimizer)
        if kind == "toys" and rng.random() < 0.4:
            f = {"seam": "poisson", "at": rng.randint(1, 4), "do": rng.choice(["MemoryError", "ValueError", "KeyboardInterrupt"])}
        if kind == "toys" and f and f["seam"] == "fcn":
            f["at"] = rng.choice([1, 10, 40, 80])
        if f:
            op["fault"] = f
    return op


def gen_task_faults(rng, n, minimizer, exceptions=("RuntimeError", "MemoryError", "KeyboardInterrupt")):
    out = {}
    for i in range(n):
        if rng.random() < 0.4:
            seam = rng.choice(["fcn", "fcn", "migrad" if minimizer == "iminuit" else "scipy", "task"])
            out[str(i)] = [{"seam": seam, "at": 1 if seam != "fcn" else rng.choice([1, 5, 12]),
                            "do": rng.choice(exceptions)}]
    return out


def fitter_for(w, minimizer, settings=None):
    from templatefitter import TemplateFitter

    fitter = w.must("TemplateFitter()", lambda: TemplateFitter(w.mct, minimizer))
    for name, value in (settings or {}).get("fixed", {}).items():
        fitter.set_parameter_fixed(name)
    for name, bounds in (settings or {}).get("bounds", {}).items():
        fitter.set_parameter_bounds(name, tuple(bounds))
    return fitter


def result_of(res):
    return {
        "fcn": num(res.fcn_min_val, "fcn_min_val"),
        "values": arr(res.params.values, "result values"),
        "errors": arr(res.params.errors, "result errors"),
        "ok": bool(res.succes),
    }


def call_of(w, fitter, op):
    """(callable, extractor) of one analysis operation."""
    import templatefitter as tf

    p = w.ref.processes[op["p"] % len(w.ref.processes)]
    if op["kind"] == "fit":
        return (
            lambda: fitter.do_fit(update_templates=op["update"], get_hesse=op["hesse"],
                                  verbose=op["verbose"], fix_nui_params=op["fix_nui"]),
            result_of,
        )
    if op["kind"] == "profile":
        return (
            lambda: fitter.profile(f"{p}_yield", num_cpu=op["num_cpu"], num_points=op["num_points"],
                                   sigma=op["sigma"], fix_nui_params=op["fix_nui"]),
            lambda r: {"points": arr(r[0], "profile points"), "values": arr(r[1], "profile values"),
                       "hesse": arr(r[2], "hesse approximation")},
        )
    if op["kind"] == "significance":
        return (
            lambda: fitter.get_significance(p, verbose=op["verbose"], fix_nui_params=op["fix_nui"]),
            lambda r: {"significance": num(r, "significance")},
        )
    if op["kind"] == "toys":
        study = tf.ToyStudy(w.mct, op["minimizer"])

        def toys():
            np.random.seed(op["seed"] % 2 ** 32)
            study.do_experiments(op["n_exp"], op["max_tries"])
            return study

        return (
            toys,
            lambda s: {"parameters": arr(s.result_parameters, "toy parameters"),
                       "uncertainties": arr(s.result_uncertainties, "toy uncertainties")},
        )
    raise KeyError(op["kind"])


def run_analysis(w, fitter, op, clean=False):
    """Runs the operation. Returns (outcome, comparable result or None)."""
    call, extract = call_of(w, fitter, op)
    w.sim.task_faults = {} if clean else op.get("task_faults") or {}
    try:
        out = w.sim.call(f"{w.tag}{op['kind']}", call, None if clean else op.get("fault"))
    finally:
        w.sim.task_faults = {}
    return out, (extract(out.value) if out.ok else None)
