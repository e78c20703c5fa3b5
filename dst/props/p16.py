"""P16: a toy study fits one fresh toy per experiment and keeps its books."""
import numpy as np

from ..analysis import GIVE_UP, REAL, STUBS  # noqa: F401
from ..core import Violation, arr, check, close, same_nested
from ..fits import FitWorld, curvature, fixed_of, gen_fit_world, improvement, valid
from ..session import gen_op
from ..toys import Recorder, check_integer, check_sums, with_data
from ..world import snap_model

RUNS = {"quick": 600, "thorough": 10000}
SHRINK_INTS = {"k": 0, "p": 0, "c": 0, "n_exp": 0, "max_tries": 1}
ASSUMPTIONS = [
    "toys are observed where the likelihood is evaluated; two consecutive toys that happen to be equal are "
    "practically excluded by the number of events",
    "a result is compared with the reference likelihood if the minimizer reported convergence",
    "interrupts inside the objective reach the study as whatever the minimizer turns them into",
]
RULE = (
    "One run performs several toy studies (some with the same ToyStudy object) on one model with seeded numbers "
    "of experiments and tries, with parameter changes in between. A seeded subset of attempts fails with a "
    "RuntimeError at the n-th evaluation of the likelihood; other faults end a study early (exhausted tries, "
    "failing Poisson generator, memory errors, unwritable stdout). A small model of the retry logic predicts the "
    "number of attempts, which toys end up in which row, and whether the study fails; every row has to be the "
    "minimum of the reference likelihood of exactly that toy. Non-trivial: at least one row was compared."
)


def generate(rng, index, tier):
    minimizer = rng.choice(["iminuit", "iminuit", "scipy"])
    cfg, data, prep = gen_fit_world(rng, minimizer, channels=(1, 3), max_bins=7, processes=(1, 3), dims=(1, 1, 1, 2))
    ops = []
    for _ in range(rng.randint(1, 3)):
        if rng.random() < 0.5:
            op = gen_op(rng, ["set_yield", "update", "sys", "data", "constraint"], 0.0)
            if op["op"] == "set_yield":
                op["value"] = round(rng.uniform(300, 3000), 2)
            if op["op"] == "data":
                op["mode"] = "poisson"
            if op["op"] == "sys":
                op["scale"] = min(op["scale"], 0.08)
            if op["op"] == "constraint":
                op["error"] = round(rng.uniform(100, 800), 2)
            ops.append(op)
        n, tries = rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3])
        if len(cfg["channels"]) == 1 and rng.random() < 0.04:
            n = rng.randint(11, 60)
        op = {"op": "study", "n_exp": n, "max_tries": tries, "new": rng.random() < 0.5, "p": rng.randrange(6),
              "fail": {}}
        r = rng.random()
        if r < 0.5:
            rate = rng.choice([0.1, 0.3, 0.6])
            op["fail"] = {str(k): rng.choice([1, 1, 2, 5, 20]) for k in range(n * tries) if rng.random() < rate}
        elif r < 0.6 and minimizer == "scipy":
            op["fault"] = [{"seam": "scipy", "at": k, "do": rng.choice(GIVE_UP)} for k in range(1, n * tries + 1)
                           if rng.random() < 0.4]
        elif r < 0.65:
            op["fault"] = rng.choice([
                {"seam": "poisson", "at": rng.randint(1, 6), "do": rng.choice(["MemoryError", "ValueError"])},
                {"seam": "stdout", "at": 1, "do": "OSError"},
                {"seam": "migrad" if minimizer == "iminuit" else "scipy", "at": rng.randint(1, 5),
                 "do": rng.choice(["MemoryError", "KeyboardInterrupt"])},
            ])
        ops.append(op)
    return {"cfg": cfg, "data": data if rng.random() < 0.8 else {}, "prep": prep, "ops": ops, "minimizer": minimizer}


def nontrivial(res):
    return res["probes"].get("rows-compared", 0) >= 1


def run(plan, sim):
    from templatefitter import ToyStudy

    w = FitWorld.start(sim, plan)
    study = None
    for op in plan["ops"]:
        if op["op"] != "study":
            w.apply(op)
            continue
        if study is None or op["new"]:
            study = w.must("ToyStudy()", lambda: ToyStudy(w.mct, plan["minimizer"]))
            no_results(w, study, "a new study")
        one(w, study, op, plan["minimizer"])


def no_results(w, study, label):
    p = w.ref.processes[0]
    for what, read in (("result_parameters", lambda: study.result_parameters),
                       ("result_uncertainties", lambda: study.result_uncertainties),
                       ("get_toy_results", lambda: study.get_toy_results(p)),
                       ("get_toy_result_pulls", lambda: study.get_toy_result_pulls(p))):
        out = w.sim.call(what, read)
        check(not out.ok and isinstance(out.exc, RuntimeError), "stale-results",
              f"{label} has no completed experiments, but {what} "
              + (f"returns {out.value!r}" if out.ok else f"raises {type(out.exc).__name__}"))


def predict(n_exp, max_tries, fail):
    """(attempts of the rows, total attempts, completed)"""
    rows, k = [], 0
    for _ in range(n_exp):
        for _ in range(max_tries):
            k += 1
            if k - 1 not in fail:
                rows.append(k - 1)
                break
        else:
            return rows, k, False
    return rows, k, True


def one(w, study, op, minimizer):
    sim = w.sim
    label = f"study of {op['n_exp']} experiments ({minimizer})"
    state = lambda: snap_model(w.mct, w.complete())
    before = w.must("snapshot", state)
    with Recorder(w, op["fail"]) as rec:
        def call():
            sim.before_eval = rec.evaluate
            study.do_experiments(op["n_exp"], op["max_tries"])
        out = sim.call(label, call, op.get("fault"))
        flags = [rec.converged(k) for k in range(len(rec.attempts))]
    after = w.must("snapshot", state)
    diff = same_nested(before, after, 1e-12, 1e-12)
    check(diff is None, "model-changed",
          f"{label} ({'completed' if out.ok else type(out.exc).__name__}) changed the model: {diff}")
    # SLSQP says so if it does not converge: such an attempt failed
    fail = {k for k, a in enumerate(rec.attempts) if a["failed"] or (minimizer == "scipy" and not flags[k])}
    sim.state(minimizer, op["n_exp"], op["max_tries"], len(fail), str(op.get("fault")), out.ok)
    sim.probe("attempts", len(rec.attempts))
    sim.probe("failed-attempts", len(fail))
    for k, a in enumerate(rec.attempts):
        check_integer(w, a["data"], f"{label}, attempt {k}")
    if rec.attempts:
        check_sums(w, [a["data"] for a in rec.attempts], label)
    disturbed = bool(op.get("fault")) and any(s != "attempt" and not do.startswith("nonconv") for s, do, _ in out.fired)
    rows, total, done = predict(op["n_exp"], op["max_tries"], fail)
    if not out.ok:
        if not disturbed:
            check(isinstance(out.exc, RuntimeError), "unexpected-exception",
                  f"{label} raised {type(out.exc).__name__}: {out.exc}")
            check(rec.exhausted(op["max_tries"]), "retries",
                  f"{label} with {op['max_tries']} tries gave up after {len(rec.attempts)} attempts: {out.exc}")
            if fail and not rec.ambiguous:
                check(not done and len(rec.attempts) == total, "retries",
                      f"{label} with {op['max_tries']} tries gave up after {len(rec.attempts)} attempts, of which "
                      f"{sorted(fail)} failed")
            # otherwise the fits do not work for this model
            sim.probe("exhausted" if fail else "fits-do-not-work")
        no_results(w, study, f"{label} which raised {type(out.exc).__name__}")
        return
    results = arr(w.must("result_parameters", lambda: study.result_parameters), "result_parameters")
    errors = arr(w.must("result_uncertainties", lambda: study.result_uncertainties), "result_uncertainties")
    names = w.ref.names()
    check(results.shape == (op["n_exp"], len(names)) and errors.shape == results.shape, "bookkeeping",
          f"{label}: results have shape {results.shape}, uncertainties {errors.shape}, the likelihood has "
          f"{len(names)} parameters")
    p = w.ref.processes[op["p"] % len(w.ref.processes)]
    i = names.index(f"{p}_yield")
    got = w.must("get_toy_results", lambda: study.get_toy_results(p))
    close(got[0], results[:, i], "bookkeeping", f"{label}: get_toy_results({p}) parameters", 1e-12, 1e-12)
    close(got[1], errors[:, i], "bookkeeping", f"{label}: get_toy_results({p}) uncertainties", 1e-12, 1e-12)
    true = w.ref.x0()[i]
    with np.errstate(all="ignore"):
        pulls = (results[:, i] - true) / errors[:, i]
    close(w.must("pulls", lambda: study.get_toy_result_pulls(p)), pulls, "bookkeeping", f"{label}: pulls of {p}")
    if disturbed:
        # the fault was survived by a retry; which attempt it hit is not predicted
        sim.probe("survived-fault")
        return
    if not rec.attempts or (rec.ambiguous and len(rec.attempts) < total):
        sim.probe("toys-not-observed")
        return
    if len(rec.attempts) != total or not done:
        # attempts that fail by themselves are repeated as well
        check(len(rec.attempts) > total and done, "retries",
              f"{label} finished after {len(rec.attempts)} attempts, of which {sorted(fail)} failed; expected {total} "
              f"attempts")
        sim.probe("more-attempts")
        return
    fixed = fixed_of(w, True)
    for n, k in enumerate(rows):
        if not flags[k]:
            sim.probe("row-not-converged")
            continue
        with with_data(w, rec.attempts[k]["data"]):
            check_row(w, results[n], errors[n], fixed, minimizer, f"{label}, row {n}")


def check_row(w, x, errors, fixed, minimizer, label, hesse=True):
    names = w.ref.names()
    for name, value in fixed.items():
        check(abs(x[names.index(name)] - value) <= 1e-7, "toy-row", f"{label}: {name} moved from {value} to "
              f"{x[names.index(name)]}")
    if not valid(w, x):
        w.sim.probe("row-outside")
        return
    gain, at = improvement(w, x, fixed)
    free = [i for i, n in enumerate(names) if n not in fixed]
    h = curvature(w, at, free, 0.03 if minimizer == "scipy" else 1e-4)
    if h is None:
        w.sim.probe("row-degenerate")
        return
    if gain > (0.02 if minimizer == "iminuit" else 0.2):
        raise Violation("toy-row", f"{label}: the likelihood of its toy at {dict(zip(names, at.round(2)))} is lower "
                        f"by {gain:.4g} than at the result {dict(zip(names, x.round(2)))}")
    w.sim.probe("rows-compared")
    if not hesse:
        return
    want = np.sqrt(np.diag(np.linalg.inv(h)))
    for i, e in zip(free, want):
        check(abs(errors[i] - e) <= 0.25 * e, "toy-row",
              f"{label}: uncertainty of {names[i]} is {errors[i]!r}, the curvature gives {e!r}")
