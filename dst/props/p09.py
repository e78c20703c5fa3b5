"""P09: rejected operations leave the model exactly as it was."""
import numpy as np

from ..build import BuildSession, gen_session
from ..core import check, close, num, same_nested
from ..session import SHRINK_INTS  # noqa: F401
from ..world import hist_class, make_hist, make_template, shape_of, snap_model

RUNS = {"quick": 2000, "thorough": 15000}
REAL = ["MultiChannelTemplate", "Channel", "templates", "TemplateFitter", "minimizers"]
STUBS = ["operation scheduler"]
ASSUMPTIONS = ["any exception counts as a rejection"]
RULE = (
    "One run interleaves valid construction and use of a model with invalid operations of 28 kinds (wrong "
    "binning, range, bin edges, dimension, unknown or duplicate names, wrong lengths and types, datasets of "
    "which only one is bad) at seeded points, including before anything else has been defined; each must be "
    "refused and leave an identical public state, and valid operations afterwards work. "
    "Non-trivial: at least 3 operations were refused."
)
KINDS = ("tset_yield", "update", "set_yield", "sys", "reset", "constraint", "data", "read")
BAD = (
    "dup_process", "unknown_channel", "unknown_process", "dup_template", "t_bins", "t_range", "t_edges", "t_dim",
    "d_bins", "d_range", "d_edges", "d_dim", "d_unknown", "d_partial", "set_unknown", "get_unknown",
    "constraint_unknown", "update_short", "update_long", "params_shape", "nui_shape", "yield_type", "cov_shape",
    "fit_fixed_unknown", "fit_bound_unknown", "d_length", "d_length",
    "sig_unknown", "profile_unknown",
)


def generate(rng, index, tier):
    cfg, ops = gen_session(rng, KINDS, rng.randint(2, 10), interleave=0.6, big=0.06, channels=(1, 3),
                           processes=(1, 3), max_bins=4)
    n = rng.randint(4, 14)
    at_end = rng.random() < 0.3
    for _ in range(n):
        op = {"op": "bad", "bad": rng.choice(BAD), "k": rng.randrange(12), "c": rng.randrange(4),
              "seed": rng.getrandbits(20)}
        ops.insert(len(ops) if at_end else rng.randint(0, len(ops)), op)
    return {"cfg": cfg, "ops": ops}


def nontrivial(res):
    return res["probes"].get("rejected", 0) >= 3


def altered(ch, how, seed=0):
    """A channel description that differs from `ch` in one respect."""
    new = {"name": ch["name"], "dim": ch["dim"], "edges": [list(e) for e in ch["edges"]], "how": "edges"}
    pick = seed // 7 % 12
    axis = pick % ch["dim"]
    e = new["edges"][axis]
    last = e[-1] - e[-2]
    if how == "bins":
        if ch["dim"] == 2 and pick % 4 == 3 and len(ch["edges"][0]) != len(ch["edges"][1]):
            new["edges"] = new["edges"][::-1]
        elif pick % 3 == 0 and len(e) > 2:
            del e[1]
        else:
            at = 1 if pick % 3 == 1 else len(e) - 1
            e.insert(at, (e[at - 1] + e[at]) / 2)
    elif how == "range":
        if pick < 4:
            new["edges"][axis] = [x + 0.5 * last for x in e]
        elif pick < 8:
            e[-1] += last * [1.0, 0.05][pick % 2]
        else:
            e[0] -= last * [1.0, 0.05][pick % 2]
    elif how == "edges":
        if len(e) < 3:
            return None
        at = 1 if pick < 8 else len(e) - 2
        e[at] = e[at] + (e[at + 1] - e[at]) * [0.5, 0.1, 0.02][pick % 3]
    elif how == "dim":
        if ch["dim"] == 1:
            new["edges"] = [list(ch["edges"][0]), [0.0, 1.0]]
            new["dim"] = 2
        else:
            new["edges"] = [list(ch["edges"][axis])]
            new["dim"] = 1
    return new


def bad_call(w, op):
    """The invalid call, or None if it is not invalid in the present state."""
    bad, mct, ref = op["bad"], w.mct, w.ref
    channels, procs = list(ref.channels), list(ref.processes)
    cname = channels[op["c"] % len(channels)] if channels else None
    key = w.pick(op)
    ones = lambda ch: np.ones(shape_of(ch)) * 5

    def a_template(ch, name="extra"):
        return make_template(ch, name, make_hist(ch, ones(ch)))

    if bad == "dup_process":
        if not procs:
            return None
        return lambda: mct.define_process(procs[op["k"] % len(procs)])
    if bad == "unknown_channel":
        if not procs:
            return None
        t = a_template(w.cfg["channels"][0])
        return lambda: mct.add_template("no such channel", procs[0], t)
    if bad == "unknown_process":
        if cname is None:
            return None
        t = a_template(w.ch_cfg[cname])
        return lambda: mct.add_template(cname, "no such process", t)
    if bad == "dup_template":
        if key is None:
            return None
        t = a_template(w.ch_cfg[key[0]])
        return lambda: mct.add_template(key[0], key[1], t)
    if bad.startswith("t_"):
        if cname is None:
            return None
        free = [p for p in procs if p not in ref.channels[cname].t]
        how = bad[2:]
        ch = altered(w.ch_cfg[cname], how, op["seed"])
        if not free or ch is None or (how == "edges" and not has_reference(w, cname)):
            return None
        t = a_template(ch)
        return lambda: mct.add_template(cname, free[0], t, 0.5)
    if bad in ("d_bins", "d_range", "d_edges", "d_dim"):
        if cname is None:
            return None
        how = bad[2:]
        ch = altered(w.ch_cfg[cname], how, op["seed"])
        if ch is None or (how == "edges" and not has_reference(w, cname)):
            return None
        h = make_hist(ch, ones(ch))
        return lambda: mct.add_data(**{cname: h})
    if bad == "d_length":
        # bin contents or uncertainties that do not belong to the edges
        ch = w.ch_cfg[cname] if cname is not None else None
        if ch is None:
            return None
        shape = shape_of(ch)
        wrong = [(1,) * len(shape), tuple(n + 1 for n in shape), shape[:-1] + (shape[-1] - 1,), shape[::-1],
                 (int(np.prod(shape)),), (1,) + shape][op["k"] % 6]
        if wrong == shape or min(wrong) == 0:
            wrong = tuple(n + 2 for n in shape)
        edges = [np.array(e) for e in ch["edges"]]
        edges = edges[0] if ch["dim"] == 1 else edges
        counts, errors = (np.ones(wrong) * 4, None) if op["seed"] % 3 else (np.ones(shape) * 4, np.ones(wrong))
        cls = hist_class(ch["dim"])
        return lambda: mct.add_data(**{cname: cls.from_binned_data(counts, edges, errors)})
    if bad == "d_unknown":
        ch = w.cfg["channels"][0]
        good = {}
        if cname is not None:
            good = {cname: make_hist(w.ch_cfg[cname], ones(w.ch_cfg[cname]) * 9)}
        good["no such channel"] = make_hist(ch, ones(ch))
        return lambda: mct.add_data(**good)
    if bad == "d_partial":
        if len(channels) < 2:
            return None
        hists = {c: make_hist(w.ch_cfg[c], ones(w.ch_cfg[c]) * 11) for c in channels}
        wrong = altered(w.ch_cfg[cname], ["bins", "range", "dim"][op["seed"] % 3], op["seed"])
        hists[cname] = make_hist(wrong, ones(wrong))
        order = list(hists)
        np.random.RandomState(op["seed"]).shuffle(order)
        return lambda: mct.add_data(**{c: hists[c] for c in order})
    if bad == "set_unknown":
        return lambda: mct.set_yield("no such process", 10.0)
    if bad == "get_unknown":
        return lambda: mct.get_yield("no such process")
    if bad == "constraint_unknown":
        return lambda: mct.add_gaussian_constraint_on_yield("no such process", 10.0, 1.0)
    if bad in ("update_short", "update_long"):
        if not w.complete_params():
            return None
        x = w.random_x(op["seed"])
        n_ch = len(channels)
        x = x[:-1] if bad == "update_short" else np.append(x, [0.5] * n_ch)
        return lambda: mct.update_parameters(x)
    if bad in ("params_shape", "nui_shape", "yield_type", "cov_shape"):
        if key is None:
            return None
        t, n = w.templates[key], w.rt(key).n
        if bad == "params_shape":
            v = np.ones(n + [0, 2, -1][op["k"] % 3]) * 7
            return lambda: setattr(t, "params", v)
        if bad == "nui_shape":
            v = np.ones(n + [1, -1, 3][op["k"] % 3])
            return lambda: setattr(t, "nui_params", v)
        if bad == "yield_type":
            v = ["12", None, np.array([1.0, 2.0]), [3.0]][op["k"] % 4]
            return lambda: setattr(t, "yield_param", v)
        if w.ch_cfg[key[0]]["dim"] != 1:
            return None
        cov = [np.eye(n + 1), np.ones((n, n + 1)), np.ones(n + 1), np.ones((n, 1)), np.ones((1, n)), np.ones(n),
               np.ones((1, n, n)), np.array(4.0), np.ones((1, 1))][(op["k"] + op["c"]) % 9]
        if cov.shape == (n, n):
            return None
        return lambda: t.add_cov_mat(cov)
    if bad in ("fit_fixed_unknown", "fit_bound_unknown", "sig_unknown", "profile_unknown"):
        if not w.complete():
            return None
        from templatefitter import TemplateFitter

        mini = ["iminuit", "scipy"][op["k"] % 2]
        names = ref.names()
        ident = ["no such parameter", 10 ** 6, -1, len(names), names[0][:-1], names[-1] + "0", 0.0, -len(names), None,
                 ""][(op["c"] + op["seed"]) % 10]

        def fit():
            fitter = TemplateFitter(mct, mini)
            if bad == "sig_unknown":
                return fitter.get_significance("no such process", verbose=0, fix_nui_params=True)
            if bad == "profile_unknown":
                return fitter.profile(ident, num_cpu=1, num_points=2, fix_nui_params=True)
            if bad == "fit_fixed_unknown":
                fitter.set_parameter_fixed(ident)
            else:
                fitter.set_parameter_bounds(ident, (0.0, 1.0))
            return fitter.do_fit(verbose=0, fix_nui_params=True)

        return fit
    raise KeyError(bad)


def has_reference(w, cname):
    """There is something in the channel the bin edges can be compared with."""
    return bool(w.ref.channels[cname].t) or w.ref.channels[cname].data is not None


def run(plan, sim):
    w = BuildSession(sim, plan["cfg"])
    for op in plan["ops"]:
        if op["op"] != "bad":
            w.apply(op)
            continue
        call = bad_call(w, op)
        if call is None:
            continue
        before = snap_partial(w)
        out = sim.call(f"invalid {op['bad']}", call)
        check(not out.ok, "accepted", f"the invalid operation {op['bad']} was accepted")
        sim.probe("rejected")
        sim.probe("rejected-" + op["bad"])
        diff = same_nested(before, snap_partial(w))
        check(diff is None, "changed-by-rejected", f"{op['bad']}, which was refused, changed {diff}")
        sim.state(op["bad"], len(w.templates), w.complete())
    w.finish()
    # the model is still fully usable
    nll = w.must("create_nll", w.mct.create_nll)
    x = w.random_x(plan["seed"] % 997, 0.5)
    want = w.ref.nll(x)
    if np.isfinite(want):
        scale = sum(float(np.sum(c.data)) for c in w.ref.channels.values())
        close(num(w.must("nll", lambda: nll(x)), "nll"), want, "unusable", "likelihood at the end",
              1e-7, 1e-10 * scale + 1e-8)
    close(nll.x0, w.ref.x0(), "unusable", "x0 at the end", 1e-9, 1e-9)


def snap_partial(w):
    return w.sim.must("snapshot", lambda: snap_model(w.mct, w.complete()))
