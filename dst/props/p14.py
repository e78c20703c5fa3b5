"""P14: a profile scan is the constrained minimum at every point, however the
work is distributed and whichever points fail."""
import numpy as np

from ..analysis import REAL, STUBS  # noqa: F401
from ..core import Violation, arr, check, same_nested
from ..fits import PROFILE, FitWorld, check_failure, check_profile, fixed_of, gen_fit_world
from ..session import gen_op
from ..world import snap_model

RUNS = {"quick": 250, "thorough": 12000}
SHRINK_INTS = {"k": 0, "p": 0, "c": 0, "num_points": 1, "num_cpu": 1}
ASSUMPTIONS = [
    "a scan point is compared with the reference only if the minimizer reported convergence there and the "
    "reference minimum lies well inside of the domain of the likelihood",
    "worker processes fail by exceptions inside of a task; a worker that is killed outright is not simulated, "
    "because multiprocessing.Pool itself never returns in that case",
]
RULE = (
    "One run performs profile scans of seeded parameters (yields and nuisance parameters, by name and by index), "
    "widths, numbers of points and of workers on one long-lived fitter, with model changes in between. Every scan "
    "runs under a seeded schedule of slow and fast workers and is repeated with another number of workers; "
    "seeded faults hit single worker tasks (exceptions at the n-th likelihood evaluation or in the minimizer), "
    "the creation of the pool, the nominal fit or stdout. All repetitions agree exactly, values equal the "
    "constrained minimum of the reference likelihood, only the disturbed points may be nan, the pool is always "
    "released and the model unchanged. Non-trivial: at least one scan was compared with the reference or hit by "
    "a fault."
)


def generate(rng, index, tier):
    minimizer = rng.choice(["iminuit", "iminuit", "iminuit", "scipy"])
    cfg, data, prep = gen_fit_world(rng, minimizer, max_bins=3, processes=(1, 3), dims=(1, 1, 1, 2))
    n_nui = sum(int(np.prod(np.shape(t["counts"]))) for t in cfg["templates"])
    ops = []
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.4:
            op = gen_op(rng, ["set_yield", "update", "sys", "data", "reset"], 0.0)
            if op["op"] == "set_yield":
                op["value"] = round(rng.uniform(600, 3000), 2)
            if op["op"] == "data":
                op["mode"] = "poisson"
            if op["op"] == "sys":
                op["scale"] = min(op["scale"], 0.08)
            ops.append(op)
        n = rng.choice([1, 2, 3, 4, 5, 6, 9])
        op = {"op": "scan", "i": rng.randrange(60), "yield": rng.random() < 0.7, "by": rng.choice(["name", "index"]),
              "num_points": n, "num_cpu": rng.choice([1, 2, 3, 4, 7]), "sigma": rng.choice([0.5, 1.0, 2.0, 3.0]),
              "subtract": rng.random() < 0.7, "fix_nui": rng.random() < 0.4 or (minimizer == "scipy" and n_nui > 6),
              "again": rng.choice([1, 2, 5])}
        r = rng.random()
        if r < 0.35:
            op["task_faults"] = gen_task_faults(rng, n, minimizer)
        elif r < 0.5:
            op["fault"] = rng.choice([
                {"seam": "pool", "at": 1, "do": "OSError"},
                {"seam": "stdout", "at": rng.randint(1, 4), "do": rng.choice(["OSError", "BrokenPipeError"])},
                {"seam": "fcn", "at": rng.choice([1, 4, 20]), "do": rng.choice(["RuntimeError", "KeyboardInterrupt"])},
            ])
        ops.append(op)
    return {"cfg": cfg, "data": data, "prep": prep, "ops": ops, "minimizer": minimizer}


def gen_task_faults(rng, n, minimizer):
    out = {}
    for i in range(n):
        if rng.random() < 0.5:
            seam = rng.choice(["fcn", "fcn", "fcn", "migrad" if minimizer == "iminuit" else "scipy"])
            out[str(i)] = [{"seam": seam, "at": 1 if seam != "fcn" else rng.choice([1, 2, 8]),
                            "do": rng.choice(["RuntimeError", "RuntimeError", "RuntimeError", "MemoryError",
                                              "KeyboardInterrupt"])}]
    return out


def nontrivial(res):
    p = res["probes"]
    return p.get("profile-points-compared", 0) + p.get("faulty-scan", 0) >= 1


def run(plan, sim):
    from templatefitter import TemplateFitter

    w = FitWorld.start(sim, plan)
    fitter = w.must("TemplateFitter()", lambda: TemplateFitter(w.mct, plan["minimizer"]))
    for op in plan["ops"]:
        if op["op"] != "scan":
            w.apply(op)
        else:
            scan(w, fitter, op, plan["minimizer"])


def scan(w, fitter, op, minimizer):
    sim = w.sim
    names = w.ref.names()
    npr = len(w.ref.processes)
    n = op["num_points"]
    i = op["i"] % npr if op["yield"] or op["fix_nui"] else op["i"] % len(names)
    name = names[i]
    fixed = fixed_of(w, op["fix_nui"])
    label = f"profile of {name} ({minimizer}, {op['num_cpu']} workers)"
    pid = name if op["by"] == "name" else i

    def call(num_cpu, faults=None, task_faults=None):
        sim.task_faults = task_faults or {}
        try:
            out = sim.call(label, lambda: fitter.profile(pid, **sim.explicit(
                PROFILE, num_cpu=num_cpu, num_points=n, sigma=op["sigma"], subtract_min=op["subtract"],
                fix_nui_params=op["fix_nui"])), faults)
        finally:
            sim.task_faults = {}
        check(sim.open_pools == 0, "resource-leak", f"{label} left {sim.open_pools} worker pools running")
        return out

    before = w.must("snapshot", lambda: snap_model(w.mct, True))
    out = call(op["num_cpu"], op.get("fault"), op.get("task_faults"))
    disturbed, fired = out.injected, dict(sim.task_fired)
    sim.state(minimizer, n, op["num_cpu"], op["yield"], out.ok, len(fired), str(op.get("fault")))
    if disturbed:
        sim.probe("faulty-scan")
    elif not out.ok:
        sim.probe("scan-failed")
        check_failure(out, minimizer, label)
        return
    else:
        check_profile(w, out.value, name, n, op["sigma"], fixed, {}, minimizer, label, op["subtract"])
    unchanged(w, before, label, out)
    # the same scan on other workers, undisturbed
    clean = call(op["again"])
    if not clean.ok:
        check_failure(clean, minimizer, f"{label} repeated")
        check(not (out.ok and not disturbed), "profile-schedule",
              f"{label} worked with {op['num_cpu']} workers, with {op['again']} it raised {type(clean.exc).__name__}: "
              f"{clean.exc}")
        return
    if disturbed:
        check_profile(w, clean.value, name, n, op["sigma"], fixed, {}, minimizer, label + " repeated", op["subtract"])
    unchanged(w, before, label, clean)
    if not out.ok or (disturbed and op.get("fault")):
        return
    a = [arr(v, label, (n,)) for v in out.value]
    b = [arr(v, label, (n,)) for v in clean.value]
    kind = "profile-schedule" if not disturbed else "profile-point-lost"
    for what, x, y in (("points", a[0], b[0]), ("hesse approximation", a[2], b[2])):
        diff = same_nested(x, y, 1e-9, 1e-9)
        check(diff is None, kind, f"{label}: {what} differ from those with {op['again']} workers: {diff}")
    for j in range(n):
        same = np.isclose(a[1][j], b[1][j], rtol=1e-6, atol=1e-6, equal_nan=True)
        if j in fired and not same:
            check(np.isnan(a[1][j]), "profile-point-lost",
                  f"{label}: point {j}, whose minimization failed, has value {a[1][j]!r} instead of nan or {b[1][j]!r}")
            sim.probe("nan-points")
            continue
        check(same, kind, f"{label}: point {j} has value {a[1][j]!r}, with {op['again']} undisturbed workers {b[1][j]!r}")
    if fired:
        sim.probe("scan-with-failed-points")


def unchanged(w, before, label, out):
    after = w.must("snapshot", lambda: snap_model(w.mct, True))
    diff = same_nested(before, after, 1e-12, 1e-12)
    how = "completed" if out.ok else type(out.exc).__name__
    if diff is not None:
        raise Violation("model-changed", f"{label} ({how}) changed the model: {diff}")
