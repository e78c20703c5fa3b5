"""P18: a linearity test reports what its own toys say, and cleans up."""
import numpy as np

from ..analysis import GIVE_UP, REAL, STUBS  # noqa: F401
from ..core import arr, check, close, same_nested
from ..fits import FitWorld, curvature, fixed_of, gen_fit_world, valid
from ..session import gen_op
from ..toys import Recorder, check_integer, check_sums, with_data

RUNS = {"quick": 350, "thorough": 8000}
SHRINK_INTS = {"k": 0, "p": 0, "c": 0, "n_exp": 1, "n_points": 1}
ASSUMPTIONS = [
    "toys are observed where the likelihood is evaluated",
    "a point is compared with the reference if the minimizer reported convergence for all of its toys",
    "the values of the yields after a linearity test are not specified (it sets the tested yield on purpose)",
]
RULE = (
    "One run performs linearity tests of seeded processes, ranges and sizes after seeded changes of yields, "
    "nuisance parameters, systematics, constraints and data. Single attempts fail at seeded evaluations, other "
    "faults end a test early (more failures than the ten tries, failing Poisson generator, memory errors). Every "
    "toy has to come from the reset model with the tested yield, every point has to report mean and spread of the "
    "minima of the reference likelihood of its own toys, and the datasets of the channels are given back however "
    "the test ends. Non-trivial: at least one point was compared."
)


def generate(rng, index, tier):
    minimizer = rng.choice(["iminuit", "iminuit", "scipy"])
    cfg, data, prep = gen_fit_world(rng, minimizer, channels=(1, 3), max_bins=7, processes=(1, 3), dims=(1, 1, 1, 2))
    ops = []
    for _ in range(rng.randint(1, 2)):
        if rng.random() < 0.6:
            op = gen_op(rng, ["set_yield", "update", "sys", "data", "constraint"], 0.0)
            if op["op"] == "set_yield":
                op["value"] = round(rng.uniform(300, 3000), 2)
            if op["op"] == "data":
                op["mode"] = "poisson"
            if op["op"] == "sys":
                op["scale"] = min(op["scale"], 0.08)
            if op["op"] == "constraint":
                op["error"] = round(rng.uniform(100, 800), 2)
            ops.append(op)
        if rng.random() < 0.35:  # the same object was used before
            ops.append({"op": "toys", "n_exp": rng.choice([1, 3]), "k": rng.randrange(4)})
        n, points = rng.choice([1, 2, 4]), rng.choice([1, 2, 3])
        if len(cfg["channels"]) == 1 and rng.random() < 0.04:
            n, points = rng.choice([(rng.randint(8, 40), 1), (1, rng.randint(4, 12)), (2, 6)])
        lo = round(rng.uniform(200, 1500), 1)
        op = {"op": "linearity", "n_exp": n, "n_points": points, "p": rng.randrange(6), "limits": [lo, round(
            lo + rng.uniform(500, 3000), 1)], "fail": {}}
        r = rng.random()
        if r < 0.3:
            op["fail"] = {str(k): rng.choice([1, 2, 5]) for k in range(n * points) if rng.random() < 0.3}
        elif r < 0.4:
            first = rng.randrange(n * points)
            op["fail"] = {str(k): 1 for k in range(first, first + 10)}
        elif r < 0.5 and minimizer == "scipy":
            op["fault"] = [{"seam": "scipy", "at": k, "do": rng.choice(GIVE_UP)} for k in range(1, 2 * n * points + 1)
                           if rng.random() < 0.4]
        elif r < 0.55:
            op["fault"] = rng.choice([
                {"seam": "poisson", "at": rng.randint(1, 5), "do": "MemoryError"},
                {"seam": "poisson", "at": rng.randint(1, 5), "do": "KeyboardInterrupt"},
                {"seam": "migrad" if minimizer == "iminuit" else "scipy", "at": rng.randint(1, 5), "do": "MemoryError"},
            ])
        ops.append(op)
    return {"cfg": cfg, "data": data if rng.random() < 0.8 else {}, "prep": prep, "ops": ops, "minimizer": minimizer}


def nontrivial(res):
    return res["probes"].get("points-compared", 0) >= 1


def run(plan, sim):
    from templatefitter import ToyStudy

    w = FitWorld.start(sim, plan)
    study = None
    for op in plan["ops"]:
        if op["op"] == "toys":
            study = study or w.must("ToyStudy()", lambda: ToyStudy(w.mct, plan["minimizer"]))
            if w.drawable():
                sim.call("do_experiments", lambda: study.do_experiments(op["n_exp"], 3))
            continue
        if op["op"] != "linearity":
            w.apply(op)
            continue
        study = study if study and op["n_exp"] % 2 else w.must("ToyStudy()", lambda: ToyStudy(w.mct, plan["minimizer"]))
        one(w, study, op, plan["minimizer"])
        # continue from a defined state
        x = w.random_x(op["n_exp"] + op["n_points"], 0.3)
        w.update(x)


def frozen(w):
    """What a linearity test has no business with."""
    out = {"constraints": dict(w.mct.constrained_yield_values), "processes": list(w.mct.processes)}
    for name, ch in w.mct.channels.items():
        out[name] = {"has_data": bool(ch.has_data), "eff": {k: float(v) for k, v in ch.efficiencies.items()},
                     "cov": {p: np.array(t.cov_mat) for p, t in ch.templates.items()}}
        if ch.has_data:
            out[name]["data"] = np.array(ch.data_bin_counts, dtype=float)
    return out


def one(w, study, op, minimizer):
    sim = w.sim
    p = w.ref.processes[op["p"] % len(w.ref.processes)]
    label = f"linearity test of {p} ({minimizer})"
    before = w.must("state", lambda: frozen(w))
    with Recorder(w, op["fail"]) as rec:
        def call():
            sim.before_eval = rec.evaluate
            return study.do_linearity_test(p, tuple(op["limits"]), op["n_points"], op["n_exp"])
        out = sim.call(label, call, op.get("fault"))
        flags = [rec.converged(k) for k in range(len(rec.attempts))]
    after = w.must("state", lambda: frozen(w))
    diff = same_nested(before, after)
    check(diff is None, "model-changed",
          f"{label} ({'completed' if out.ok else type(out.exc).__name__}) changed {diff}")
    # SLSQP says so if it does not converge: such an attempt failed
    fail = {k for k, a in enumerate(rec.attempts) if a["failed"] or (minimizer == "scipy" and not flags[k])}
    disturbed = any(s != "attempt" and not do.startswith("nonconv") for s, do, _ in out.fired)
    sim.state(minimizer, op["n_exp"], op["n_points"], len(fail), str(op.get("fault")), out.ok)
    # the tested model: everything reset, then the yield set
    for ch in w.ref.channels.values():
        for t in ch.t.values():
            t.reset()
    points = np.linspace(op["limits"][0], op["limits"][1], op["n_points"])
    assign = attempts_of(op, fail, len(rec.attempts))
    for j, point in enumerate(points):
        ks = [k for k in assign["all"][j] if k < len(rec.attempts)]
        if disturbed or not ks:
            continue
        for ch in w.ref.channels.values():
            if p in ch.t:
                ch.t[p].y = point * ch.eff[p]
        for k in ks:
            check_integer(w, rec.attempts[k]["data"], f"{label}, point {point}, attempt {k}")
        check_sums(w, [rec.attempts[k]["data"] for k in ks], f"{label}, point {point}")
    if not out.ok:
        if not disturbed:
            check(isinstance(out.exc, RuntimeError), "unexpected-exception",
                  f"{label} raised {type(out.exc).__name__}: {out.exc}")
            check(rec.exhausted(10), "retries",
                  f"{label} gave up after {len(rec.attempts)} attempts: {out.exc}")
            check(not assign["done"] or not fail or rec.ambiguous, "retries",
                  f"{label} gave up although only the attempts {sorted(fail)} failed")
        sim.probe("failed")
        return
    got = [arr(v, f"{label} result", (op["n_points"],)) for v in out.value]
    close(got[0], points, "linearity", f"{label}: points", 1e-9, 1e-9)
    if disturbed or not rec.attempts or len(rec.attempts) != assign["total"]:
        sim.probe("not-observed")
        return
    names = w.ref.names()
    i = names.index(f"{p}_yield")
    for j, point in enumerate(points):
        for ch in w.ref.channels.values():
            if p in ch.t:
                ch.t[p].y = point * ch.eff[p]
        fits, scale = [], []
        for k in assign["good"][j]:
            fixed = fixed_of(w, True)
            free = [q for q, n in enumerate(names) if n not in fixed]
            with with_data(w, rec.attempts[k]["data"]):
                _, x = w.ref.minimum(fixed)
                h = curvature(w, x, free, 0.03) if valid(w, x) else None
            if h is None or not flags[k]:
                break
            fits.append(x[i])
            scale.append(np.sqrt(np.linalg.inv(h)[free.index(i), free.index(i)]))
        if len(fits) != op["n_exp"]:
            sim.probe("point-degenerate")
            continue
        tol = (0.1 if minimizer == "iminuit" else 0.6) * np.mean(scale)
        check(abs(got[1][j] - np.mean(fits)) <= tol, "linearity",
              f"{label}: mean at {point} is {got[1][j]!r}, the fits of its toys have mean {np.mean(fits)!r}")
        check(abs(got[2][j] - np.std(fits)) <= tol, "linearity",
              f"{label}: spread at {point} is {got[2][j]!r}, the fits of its toys have {np.std(fits)!r}")
        sim.probe("points-compared")


def attempts_of(op, fail, n):
    """Which attempts belong to which point (ten tries per experiment)."""
    k, every, good, done = 0, [], [], True
    for _ in range(op["n_points"]):
        a, g = [], []
        if done:
            for _ in range(op["n_exp"]):
                for _ in range(10):
                    a.append(k)
                    k += 1
                    if k - 1 not in fail:
                        g.append(k - 1)
                        break
                else:
                    done = False
                    break
        every.append(a)
        good.append(g)
    return {"all": every, "good": good, "total": k, "done": done}
