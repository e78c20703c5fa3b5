"""P10: looking at a model does not change it (twin runs)."""
import numpy as np

from .. import observers
from ..analysis import REAL, STUBS, fitter_for, result_of  # noqa: F401
from ..build import BuildSession, gen_session
from ..core import check, same_nested
from ..session import SHRINK_INTS  # noqa: F401
from ..world import gen_data

RUNS = {"quick": 1200, "thorough": 12000}
ASSUMPTIONS = ["drawing toy datasets advances numpy's global random stream; the stream is re-seeded before "
               "every operation that draws"]
RULE = (
    "One history of model construction, parameter changes, systematics, new data and fits is executed twice: "
    "once alone and once with observers of 22 kinds (reads, likelihood evaluations, toy and Asimov datasets, "
    "plots, post-fit propagation, copies, some of them failing) interleaved at seeded points, also between the "
    "objective evaluations of a running fit. All public states and fit results of both runs agree. "
    "Non-trivial: at least 5 observers ran."
)
KINDS = ("tset_yield", "tset_nui", "tset_params", "set_yield", "update", "sys", "sys", "reset", "data",
         "constraint", "fit", "toydata")


def generate(rng, index, tier):
    cfg, ops = gen_session(rng, KINDS, rng.randint(4, 12), interleave=0.5, big=0.06, channels=(1, 2),
                           processes=(1, 3), max_bins=4)
    ops += [{"op": "fit", "k": 0, "seed": rng.getrandbits(20)}]
    for op in ops:
        if op["op"] == "fit":
            op["update"] = rng.random() < 0.5
            op["during"] = sorted(rng.sample(range(1, 60), 3))
            op["during_obs"] = [observers.gen(rng) for _ in range(3)]
        op["obs"] = [observers.gen(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    return {"cfg": cfg, "ops": ops, "data": gen_data(rng, cfg)}


def nontrivial(res):
    return sum(v for k, v in res["probes"].items() if k.startswith("observed")) >= 5


def history(plan, sim, watched):
    w = BuildSession(sim, plan["cfg"], "watched:" if watched else "")
    snaps = []
    fitter = None
    n = len(plan["ops"])
    for i, op in enumerate(plan["ops"]):
        np.random.seed(op.get("seed", 0) % 2 ** 32)
        extra = None
        if op["op"] in ("fit", "toydata"):
            if op["op"] == "fit" and i == n - 1:
                w.finish()
            if w.complete():
                if op["op"] == "toydata":
                    if not observers.drawable(w):
                        continue
                    data = w.must("toy", w.mct.generate_toy_dataset)
                    w.must("add_data", lambda: w.mct.add_data(**data))
                    for name in data:
                        w.ref.channels[name].data = np.array(w.mct.channels[name].data_bin_counts, dtype=float)
                else:
                    fitter = fitter or fitter_for(w, "iminuit")
                    extra = fit(w, fitter, op, watched)
        else:
            w.apply(op)
        snaps.append((op["op"], w.must("snapshot", lambda: w.snapshot()), extra))
        if watched:
            for obs in op["obs"]:
                observers.run(w, obs)
                snaps[-1] = (op["op"], w.must("snapshot", lambda: w.snapshot()), extra)
        sim.state(op["op"], watched, len(w.templates))
    return snaps


def fit(w, fitter, op, watched):
    sim = w.sim
    todo = dict(zip(op["during"], op["during_obs"])) if watched else {}
    count = [0]
    problem = []

    def on_eval(x, value):
        count[0] += 1
        obs = todo.get(count[0])
        if obs is None or obs["kind"] in ("toy_broken",) + observers.MAY_FAIL:
            return
        try:
            observers.observe(w, obs)()
            sim.probe("observed-during-fit")
        except Exception as exc:  # reported after the fit
            problem.append((obs["kind"], repr(exc)))

    n_free = len(w.ref.names())
    sim.on_eval = on_eval
    try:
        out = sim.call("fit", lambda: fitter.do_fit(
            update_templates=op["update"], verbose=0, fix_nui_params=n_free > 16 or op["seed"] % 2 == 0))
    finally:
        sim.on_eval = None
    check(not problem, "unexpected-exception", f"observer during a fit: {problem}")
    for key, t in w.templates.items():
        p = np.array(t.params, dtype=float)
        w.rt(key).y, w.rt(key).theta = p[0], p[1:]
    return result_of(out.value) if out.ok else type(out.exc).__name__


def run(plan, sim):
    plain = history(plan, sim, False)
    watched = history(plan, sim, True)
    for step, ((name, a, ra), (_, b, rb)) in enumerate(zip(plain, watched)):
        diff = same_nested(a, b, 1e-7, 1e-7)
        check(diff is None, "observer-effect", f"step {step} ({name}): being observed changed {diff}")
        diff = same_nested(ra, rb, 1e-6, 1e-6)
        check(diff is None, "observer-effect", f"step {step} ({name}): being observed changed the fit: {diff}")
