"""P19: the uncertainties of the fit parameters are propagated to the bins."""
import numpy as np

from ..analysis import REAL, STUBS, gen_fit_fault  # noqa: F401
from ..core import arr, check, close, same_nested
from ..drawn import Drawing, check_data, check_stack
from ..fits import FitWorld, gen_fit_world
from ..observers import BrokenAxis, new_axis
from ..session import gen_op
from ..world import snap_model

RUNS = {"quick": 1000, "thorough": 8000}
SHRINK_INTS = {"k": 0, "p": 0, "c": 0, "r": 0}
ASSUMPTIONS = [
    "the Jacobian of the library is numerical; it is compared with the analytic one to 1e-3 of its value or 1e-4 of the largest "
    "contribution",
    "a bare array of parameter values (without names) lists the yields and nuisance parameters in the order of the "
    "templates of the channel",
]
RULE = (
    "One run fits models of 1-3 channels (1d and 2d, processes missing in some channels, template order different "
    "from the order of the processes, fixed parameters) with either minimizer, and propagates the uncertainties of "
    "the current and of all earlier results, and of generated results with dense covariances, to the bins of every "
    "channel, between parameter changes, systematics, resets, failing fits and drawings that fail half-way. "
    "Covariance, uncertainties, bin counts and drawn bands equal those of the reference model at the parameters of "
    "the given result. Non-trivial: at least two propagations were compared."
)


def generate(rng, index, tier):
    minimizer = rng.choice(["iminuit", "iminuit", "scipy"])
    cfg, data, prep = gen_fit_world(rng, minimizer, channels=(1, 3), processes=(1, 3), max_bins=3)
    ops = []
    for _ in range(rng.randint(3, 8)):
        r = rng.random()
        if r < 0.25:
            op = {"op": "fit", "update": rng.random() < 0.5, "fix_nui": minimizer == "scipy" or rng.random() < 0.4,
                  "fixed": [rng.randrange(40) for _ in range(rng.choice([0, 0, 1, 2]))]}
            if rng.random() < 0.25:
                op["fault"] = gen_fit_fault(rng, minimizer)
            ops.append(op)
        elif r < 0.45:
            ops.append({"op": "result", "seed": rng.getrandbits(24), "rank": rng.choice([1, 2, 50]),
                        "corr": rng.random() < 0.8})
        elif r < 0.65:
            op = gen_op(rng, ["set_yield", "update", "sys", "reset", "tset_nui", "data"], 0.3)
            if op["op"] == "sys":
                op["scale"] = min(op["scale"], 0.08)
            ops.append(op)
        else:
            ops.append({"op": "propagate", "r": rng.randrange(6), "c": rng.randrange(4),
                        "how": rng.choice(["cov", "unc", "counts", "plot", "plot", "scale", "broken"]),
                        "seed": rng.getrandbits(20)})
    ops += [{"op": "propagate", "r": rng.randrange(6), "c": c, "how": rng.choice(["cov", "plot", "scale"]),
             "seed": rng.getrandbits(20)} for c in range(len(cfg["channels"]))]
    return {"cfg": cfg, "data": data, "prep": prep, "ops": ops, "minimizer": minimizer}


def nontrivial(res):
    return res["probes"].get("propagations-compared", 0) >= 2


def own_names(w, cname):
    ch = w.ref.channels[cname]
    out = [f"{p}_yield" for p in ch.t]
    for p, t in ch.t.items():
        out += [f"{cname}_{p}_bin_{i}" for i in range(t.n)]
    return out


def jacobian(w, cname, v):
    """d(expected events per bin) / d(parameters of the channel)"""
    ch = w.ref.channels[cname]
    cols, nui = [], []
    for p, t in ch.t.items():
        theta = np.array([v[f"{cname}_{p}_bin_{i}"] for i in range(t.n)])
        cols.append(ch.eff[p] * t.fractions(theta))
        nui.append(v[f"{p}_yield"] * ch.eff[p] * t.fractions_jac(theta))
    return np.column_stack(cols + nui)


def in_domain(w, cname, v):
    """No shape is about to become negative (or singular) around the point."""
    for p, t in w.ref.channels[cname].t.items():
        theta = np.array([v[f"{cname}_{p}_bin_{i}"] for i in range(t.n)])
        if np.any(np.abs(theta) > 6) or np.sum(t.c * (1 + theta * t.rel)) < 0.3 * np.sum(t.c):
            return False
    return True


def fit(w, op, minimizer, results):
    from templatefitter import TemplateFitter

    sim = w.sim
    if not w.complete():
        return
    names = w.ref.names()
    fitter = w.must("TemplateFitter()", lambda: TemplateFitter(w.mct, minimizer))
    for i in op["fixed"]:
        w.must("set_parameter_fixed", lambda: fitter.set_parameter_fixed(names[i % len(names)]))
    out = sim.call("fit", lambda: fitter.do_fit(update_templates=op["update"], verbose=0,
                                                fix_nui_params=op["fix_nui"]), op.get("fault"))
    for key, t in w.templates.items():
        p = np.array(t.params, dtype=float)
        w.rt(key).y, w.rt(key).theta = p[0], p[1:]
    if not out.ok:
        sim.probe("fit-failed")
        return
    res = out.value.params
    results.append((res, arr(res.values, "values").copy(), arr(res.covariance, "covariance").copy(),
                    arr(res.errors, "errors").copy()))


def synthetic(w, op, results):
    from templatefitter.minimizer import Parameters

    names = w.ref.names()
    n = len(names)
    rs = np.random.RandomState(op["seed"])
    x = w.random_x(op["seed"], 0.5)
    scale = np.where(np.arange(n) < len(w.ref.processes), 0.05 * np.abs(x) + 1, 0.5)
    a = rs.normal(size=(n, min(op["rank"], n)))
    cov = a @ a.T / a.shape[1] if op["corr"] else np.diag(rs.uniform(0.3, 1.5, n))
    cov = cov * np.outer(scale, scale)
    res = w.must("Parameters()", lambda: Parameters(list(names)))
    res.values, res.covariance, res.errors = x.copy(), cov.copy(), np.sqrt(np.diag(cov))
    results.append((res, x.copy(), cov.copy(), np.sqrt(np.diag(cov))))


def propagate(w, op, results):
    sim = w.sim
    if not results:
        return
    res, x, cov, err = results[op["r"] % len(results)]
    cname = list(w.ref.channels)[op["c"] % len(w.ref.channels)]
    channel = w.mct.channels[cname]
    ch = w.ref.channels[cname]
    names = list(res.names)
    v = dict(zip(names, x))
    how = op["how"]
    if w.ch_cfg[cname]["dim"] > 1 and how in ("plot", "scale", "broken"):
        how = "cov"
    label = f"{how} of channel {cname}"
    own = own_names(w, cname)
    idx = [names.index(n) for n in own]
    if not in_domain(w, cname, v) or not np.all(np.isfinite(cov)):
        sim.probe("outside-of-domain")
        return
    sim.state(how, len(w.ref.channels), own == names, len(results), op["r"] % len(results))
    if how == "counts":
        got = w.must(label, lambda: channel.bin_counts_from_param_values(x[idx].copy()))
        close(got, w.ref.expectation(cname, v), "post-fit-counts", label, 1e-9, 1e-9)
        sim.probe("propagations-compared")
        return
    before = w.must("snapshot", lambda: snap_model(w.mct, w.complete()))
    jac = jacobian(w, cname, v)
    sub = cov[np.ix_(idx, idx)]
    want = jac @ sub @ jac.T
    sigma = np.sqrt(np.abs(np.diag(sub)))
    tol = 1e-4 * np.max(np.abs(jac) @ sigma) ** 2 + 1e-9
    if how == "cov":
        got = w.must(label, lambda: channel.propagate_parameter_uncertainties(res))
        close(got, want, "post-fit-covariance", label, 1e-3, tol)
    elif how == "unc":
        got = arr(w.must(label, lambda: channel.get_post_fit_bin_uncertainty(res)), label, (len(want),))
        ok = np.diag(want) > 10 * tol
        close(got[ok], np.sqrt(np.diag(want))[ok], "post-fit-uncertainty", label, 1e-3, 1e-6)
    elif how in ("plot", "scale"):
        ax = new_axis()
        d = Drawing(ax)
        mode = "propagate" if how == "plot" else "scale"
        w.must(label, lambda: channel.plot_post_fit_stacked_on(
            ax, res, **sim.explicit({"post_fit_uncertainties": "propagate"}, post_fit_uncertainties=mode)))
        d.done()
        if how == "plot":
            ok = np.diag(want) > 10 * tol
            expected = np.sqrt(np.maximum(np.diag(want), 0))
        else:
            ok = np.ones(len(want), dtype=bool)
            parts = []
            for p, t in ch.t.items():
                nui = np.array([err[names.index(f"{cname}_{p}_bin_{i}")] for i in range(t.n)])
                parts.append((nui * t.errors().reshape(-1)) ** 2)
            expected = np.sqrt(np.sum(parts, axis=0))
        edges = w.ch_cfg[cname]["edges"][0]
        contents = [(p, t.values().reshape(-1)) for p, t in ch.t.items()]
        if all(np.all(v >= 0) for _, v in contents):
            check_stack(d, contents, expected, edges, label, "post-fit-plot", 1e-3, ok)
            check_data(d, None if ch.data is None else ch.data.reshape(-1), None if ch.data is None else
                       w.data_errors[cname], edges, label, "post-fit-plot")
    else:
        ax = BrokenAxis(new_axis(), op["seed"] % 3)
        out = sim.call(label, lambda: channel.plot_post_fit_stacked_on(ax, res))
        if not out.ok:
            check(isinstance(out.exc, OSError), "unexpected-exception",
                  f"{label} raised {type(out.exc).__name__}: {out.exc}")
            sim.probe("drawing-failed")
    sim.probe("propagations-compared")
    after = w.must("snapshot", lambda: snap_model(w.mct, w.complete()))
    diff = same_nested(before, after)
    check(diff is None, "model-changed", f"{label} changed the model: {diff}")
    for a, b, what in ((res.values, x, "values"), (res.covariance, cov, "covariance"), (res.errors, err, "errors")):
        check(np.array_equal(np.asarray(a, dtype=float), b, equal_nan=True), "result-changed",
              f"{label} changed the {what} of the fit result")


def run(plan, sim):
    w = FitWorld.start(sim, plan)
    results = []
    for op in plan["ops"]:
        if op["op"] == "fit":
            fit(w, op, plan["minimizer"], results)
        elif op["op"] == "result":
            synthetic(w, op, results)
        elif op["op"] == "propagate":
            propagate(w, op, results)
        else:
            w.apply(op)
