"""P08: parameters are addressed consistently by name, index and order."""
import numpy as np

from ..build import BuildSession, gen_session
from ..core import check, close, num
from ..session import SHRINK_INTS  # noqa: F401

RUNS = {"quick": 2000, "thorough": 15000}
REAL = ["MultiChannelTemplate", "NegLogLikelihood", "Channel", "templates", "Parameters", "minimizers"]
STUBS = ["operation scheduler", "minimizer entry points wrapped"]
ASSUMPTIONS = [
    "round trips of full parameter vectors are checked for efficiencies of a process that add up to one over "
    "the channels; otherwise the yields scale by that sum",
]
RULE = (
    "One run builds a model in seeded order (template order differs between channels, processes missing in some) "
    "and interleaves updates through each of the parameter interfaces (vector, process yield, template) with "
    "comparisons of every view: names, indices, start vector, process yields, template parameters and the "
    "effect of a single named parameter on the likelihood. Non-trivial: at least 5 single-parameter probes."
)
KINDS = ("tset_yield", "tset_nui", "tset_params", "set_yield", "update", "update", "sys", "reset", "data",
         "probe", "probe", "probe", "names", "fitnames")


def generate(rng, index, tier):
    norm = rng.random() < 0.6
    cfg, ops = gen_session(
        rng, KINDS, rng.randint(6, 20), interleave=0.5, big=0.06, channels=(1, 3), processes=(1, 3),
        max_bins=4, norm_eff=norm,
    )
    ops += [{"op": "probe", "k": rng.randrange(40), "seed": rng.getrandbits(20)} for _ in range(8)]
    return {"cfg": cfg, "ops": ops, "norm": norm}


def nontrivial(res):
    return res["probes"].get("probed", 0) >= 5


def check_names(w, norm):
    mct = w.mct
    if w.templates and not hasattr(w, "early"):
        w.early = w.must("create_nll", mct.create_nll)
    elif w.templates:  # a likelihood that was made before the model changed
        names, x0 = list(w.early.param_names), w.early.x0
        check(len(names) == len(x0), "naming", f"a likelihood has {len(names)} names, {len(x0)} initial values")
        check(len(names) != len(w.ref.names()) or names == w.ref.names(), "naming",
              f"names of an earlier likelihood: {names}")
    check(tuple(mct.processes) == tuple(w.ref.processes), "naming", f"processes {mct.processes}")
    for i, p in enumerate(w.ref.processes):
        check(mct.process_to_index(p) == i, "naming", f"index of process {p}")
    close(mct.process_yields, w.ref.x0()[: len(w.ref.processes)], "naming", "process_yields", 1e-9, 1e-9)
    for p in w.ref.processes:
        close(num(mct.get_yield(p), "get_yield"), w.ref.as_dict(w.ref.x0())[f"{p}_yield"], "naming",
              f"get_yield({p})", 1e-9, 1e-9)
    if not w.templates:
        return
    nll = w.must("create_nll", mct.create_nll)
    names = w.ref.names()
    check(list(nll.param_names) == names, "naming", f"names {list(nll.param_names)} instead of {names}")
    check(len(set(names)) == len(names), "naming", "names are not unique")
    check(int(mct.num_nui_params) == len(names) - len(w.ref.processes), "naming", "num_nui_params")
    check(int(mct.num_processes) == len(w.ref.processes), "naming", "num_processes")
    check(int(mct.num_channels) == len(w.ref.channels) and list(mct.channels) == list(w.ref.channels), "naming",
          f"channels {list(mct.channels)}")
    for name, c in w.ref.channels.items():
        channel = mct.channels[name]
        check(tuple(channel.processes) == tuple(c.t) and list(channel.templates) == list(c.t), "naming",
              f"channel {name} has the processes {channel.processes}")
        check(int(channel.num_templates) == len(c.t), "naming", f"channel {name} has {channel.num_templates} templates")
        check(int(channel.num_nui_params) == sum(t.n for t in c.t.values()), "naming",
              f"channel {name} has {channel.num_nui_params} nuisance parameters")
    close(nll.x0, w.ref.x0(), "naming", "x0", 1e-9, 1e-9)
    x0 = w.ref.as_dict(w.ref.x0())
    for (c, p), t in w.templates.items():
        for i, v in enumerate(np.array(t.nui_params, dtype=float)):
            close(v, x0[f"{c}_{p}_bin_{i}"], "naming", f"nui_params[{i}] of {(c, p)}")


def probe(w, op):
    """Moving one named parameter changes the likelihood as if that parameter
    (and no other) had been moved in the reference model."""
    if not w.complete():
        return
    nll = w.must("create_nll", w.mct.create_nll)
    names = w.ref.names()
    x = w.random_x(op["seed"], 0.5)
    v = w.ref.as_dict(x)
    name = names[op["k"] % len(names)]
    i = list(nll.param_names).index(name)
    base = num(nll(x.copy()), "nll")
    y = x.copy()
    y[i] += 3.0 if name in names[: len(w.ref.processes)] else 0.25
    v2 = dict(v, **{name: y[i]})
    got = num(w.must("nll(x)", lambda: nll(y.copy())), "nll") - base
    want = w.ref.nll(v2) - w.ref.nll(v)
    close(got, want, "naming", f"change of the likelihood when {name} moves", 1e-6, 1e-7)
    w.sim.probe("probed")


def roundtrip(w, seed):
    """A parameter vector that is written is the start vector afterwards."""
    x = w.random_x(seed)
    w.update(x)
    used = {p for _, p in w.templates}
    nll = w.must("create_nll", w.mct.create_nll)
    got = np.array(nll.x0, dtype=float)
    for i, name in enumerate(w.ref.names()):
        if i < len(w.ref.processes):
            p = w.ref.processes[i]
            if p not in used:
                continue
            total = sum(c.eff[p] for c in w.ref.channels.values() if p in c.t)
            close(got[i], x[i] * total, "round-trip", name, 1e-9, 1e-9)
        else:
            close(got[i], x[i], "round-trip", name, 1e-9, 1e-9)


def alike(*numbers):
    """Equal, also where a fit that failed left nan."""
    return all(v == numbers[0] or (v != v and numbers[0] != numbers[0]) for v in numbers)


def fit_names(w):
    """Results of the minimizers carry the same names in the same order."""
    from templatefitter import TemplateFitter

    if not w.complete() or len(w.ref.names()) > 30:
        return
    fitter = TemplateFitter(w.mct, "iminuit")
    out = w.sim.call("fit", lambda: fitter.do_fit(update_templates=False, verbose=0, fix_nui_params=True))
    if not out.ok:
        return  # whether this fit converges is not the subject here
    params = out.value.params
    names = w.ref.names()
    check(list(params.names) == names, "naming", f"names of a fit result: {list(params.names)}")
    for i, n in enumerate(names):
        check(params.param_id_to_index(n) == i, "naming", f"index of {n} in a fit result")
        value, error = params[n]
        check(alike(value, params.values[i], params.get_param_value(i), params.get_param_value(n)),
              "naming", f"value of {n} by name and index")
        check(alike(error, params.errors[i], params.get_param_error(n)), "naming", f"error of {n}")
    x0 = w.ref.x0()
    close(np.array(params.values)[len(w.ref.processes):], x0[len(w.ref.processes):], "naming",
          "fixed nuisance parameters in a fit result", 1e-9, 1e-9)
    w.sim.probe("fit-names")


def run(plan, sim):
    w = BuildSession(sim, plan["cfg"])
    n = len(plan["ops"])
    for i, op in enumerate(plan["ops"]):
        if i == n - 8:
            w.finish()
        if op["op"] == "probe":
            probe(w, op)
        elif op["op"] == "names":
            check_names(w, plan["norm"])
        elif op["op"] == "fitnames":
            fit_names(w)
        else:
            w.apply(op)
            check_names(w, plan["norm"])
        sim.state(op["op"], len(w.templates), len(w.ref.processes), len(w.ref.channels))
    w.finish()
    roundtrip(w, plan["seed"] % 1000)
    check_names(w, plan["norm"])
