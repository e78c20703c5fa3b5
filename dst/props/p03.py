"""P03: values handed in and handed out are independent of the model."""
import numpy as np

from ..analysis import REAL, STUBS  # noqa: F401
from ..core import check, close, same_nested
from ..fits import FitWorld, gen_fit_world
from ..ref import RHist, cov_of_variation
from ..session import gen_op
from ..world import bin_mids, check_covariance, check_template, columns, hist_class, make_template, shape_of, \
    snap_model

RUNS = {"quick": 1000, "thorough": 10000}
SHRINK_INTS = {"k": 0, "p": 0, "c": 0, "n_exp": 1, "num_points": 2, "num_cpu": 1}
ASSUMPTIONS = [
    "histograms given to add_data and templates given to add_template are handed over as objects",
    "attributes of histograms and templates that are documented as their current contents may be views",
]
RULE = (
    "One run hands arrays to every entry point that takes values (constructors, fills, bin contents, parameters, "
    "systematics, parameter vectors, likelihoods, minimizers), some of these calls failing at seeded points, and "
    "overwrites the arrays at a seeded time after the call, while results of earlier fits, profiles, toy studies, "
    "toys and Asimov datasets are held (some are overwritten as well). No call changes its arguments, no overwritten "
    "array changes a model, and no later operation changes a held result. Non-trivial: at least 5 arrays were "
    "handed over and overwritten."
)
GIVE = ("hist", "hist", "template", "params", "nui", "yield", "cov", "var", "var", "update", "nll", "fill", "fill",
        "counts", "mini")
HOLD = ("fit", "fit", "profile", "toys", "toys", "toyset", "asimov", "significance", "x0")


def generate(rng, index, tier):
    minimizer = rng.choice(["iminuit", "iminuit", "scipy"])
    cfg, data, prep = gen_fit_world(rng, minimizer, channels=(1, 2), processes=(1, 3), max_bins=3)
    ops = []
    for _ in range(rng.randint(8, 20)):
        if rng.random() < 0.72:
            op = {"op": "give", "what": rng.choice(GIVE), "k": rng.randrange(12), "seed": rng.getrandbits(24),
                  "later": rng.choice([0, 0, 1, 3])}
            if op["what"] in ("cov", "var") and rng.random() < 0.3:
                op["fault"] = rng.choice([{"seam": "inv", "at": 1, "do": "LinAlgError"},
                                          {"seam": "inv", "at": 1, "do": "KeyboardInterrupt"}])
            if op["what"] in ("fill", "var", "hist") and rng.random() < 0.25:
                op["fault"] = {"seam": "binned", "at": rng.randint(1, 3), "do": "MemoryError"}
            if op["what"] in ("nll", "mini") and rng.random() < 0.2:
                op["fault"] = {"seam": "fcn", "at": rng.choice([1, 5]), "do": "RuntimeError"}
        elif rng.random() < 0.75:
            op = {"op": "hold", "what": rng.choice(HOLD), "k": rng.randrange(12), "seed": rng.getrandbits(24),
                  "update": rng.random() < 0.5, "scribble": rng.random() < 0.3, "n_exp": rng.choice([1, 2]),
                  "num_points": 3, "num_cpu": rng.choice([1, 2]),
                  "fix_nui": minimizer == "scipy" or rng.random() < 0.6}
        else:
            op = gen_op(rng, ["set_yield", "reset", "data", "treset"], 0.0)
            if op["op"] == "set_yield":
                op["value"] = round(rng.uniform(600, 3000), 2)
            if op["op"] == "data":
                op["mode"] = "poisson"
        ops.append(op)
    return {"cfg": cfg, "data": data, "prep": prep, "ops": ops, "minimizer": minimizer}


def nontrivial(res):
    return res["probes"].get("overwritten", 0) >= 5


class Books:
    """Arrays lent to the library and results received from it."""

    def __init__(self, w):
        self.w = w
        self.lent = []     # [countdown, array, what]
        self.held = []     # (what, reader, frozen values, arrays to overwrite)
        self.hists = []    # histograms next to the model: (hist, reference, channel)
        self.studies = []
        self.extra = []    # templates outside of the model: (template, RTemplate)

    def call(self, label, arrays, fn, fault=None):
        """A call that is given `arrays`; none of them may change."""
        copies = [np.array(a, copy=True) for a in arrays]
        out = self.w.sim.call(label, fn, fault)
        for a, c in zip(arrays, copies):
            check(np.array_equal(a, c, equal_nan=True), "argument-changed",
                  f"{label} ({'ok' if out.ok else type(out.exc).__name__}) changed an array of the caller from "
                  f"{c.tolist()} to {np.asarray(a).tolist()}"[:400])
        if not out.ok and not out.injected:
            check(False, "unexpected-exception", f"{label} raised {type(out.exc).__name__}: {out.exc}")
        self.w.sim.probe("handed-over", len(arrays))
        return out

    def lend(self, op, arrays, what):
        for a in arrays:
            self.lent.append([op["later"], a, what, op["seed"]])

    def tick(self):
        due = [e for e in self.lent if e[0] <= 0]
        self.lent = [e for e in self.lent if e[0] > 0]
        for e in self.lent:
            e[0] -= 1
        for _, a, what, seed in due:
            before = self.state()
            overwrite(a, seed)
            diff = same_nested(before, self.state())
            check(diff is None, "aliased-input",
                  f"overwriting an array that had been given to '{what}' changed {diff}")
            self.w.sim.probe("overwritten")
            self.w.sim.state(what, len(self.held))

    def state(self):
        w = self.w
        out = {"model": w.must("snapshot", lambda: snap_model(w.mct, w.complete()))}
        out["hists"] = [
            [np.array(h.bin_counts), np.array(h.bin_errors_sq)]
            + [np.array(e) for e in ([h.bin_edges] if ch["dim"] == 1 else h.bin_edges)]
            for h, _, ch in self.hists]
        out["extra"] = [[np.array(t.values), np.array(t.params), np.array(t.cov_mat), np.array(t.errors)]
                        for t, _ in self.extra]
        return out

    def hold(self, what, reader, arrays):
        self.held.append((what, reader, freeze(reader()), arrays))

    def verify(self, label):
        w = self.w
        for what, reader, frozen, _ in self.held:
            diff = same_nested(frozen, freeze(reader()))
            check(diff is None, "result-changed", f"{label} changed a held result of '{what}': {diff}")
        for key, t in w.templates.items():
            check_template(t, w.rt(key), f"{label}: template{key}", "aliased-input")
            check_covariance(t, w.rt(key), f"{label}: template{key}", "aliased-input")
        for name, ch in w.ref.channels.items():
            close(w.mct.channels[name].data_bin_counts, ch.data, "aliased-input", f"{label}: data of {name}")
        for h, r, ch in self.hists:
            close(h.bin_counts, r.counts, "aliased-input", f"{label}: histogram", 1e-9, 1e-9)
            close(h.bin_errors_sq, r.errs_sq, "aliased-input", f"{label}: histogram errors", 1e-9, 1e-9)
            edges = [h.bin_edges] if ch["dim"] == 1 else list(h.bin_edges)
            for a, b in zip(edges, ch["edges"]):
                close(a, np.array(b), "aliased-input", f"{label}: histogram edges", 0, 1e-12)


def overwrite(a, seed):
    rs = np.random.RandomState(seed)
    a[...] = rs.uniform(100.0, 900.0, a.shape)


def freeze(values):
    return [None if v is None else np.array(v, dtype=float) for v in values]


def give(w, books, op, minimizer):
    what, seed = op["what"], op["seed"]
    rs = np.random.RandomState(seed)
    key = w.keys()[op["k"] % len(w.keys())]
    t, rt, ch = w.templates[key], w.rt(key), w.ch_cfg[key[0]]
    fault = op.get("fault")
    label = f"{what}"
    arrays = []
    if what == "hist":
        cls = hist_class(ch["dim"])
        edges = [np.array(e, dtype=float) for e in ch["edges"]]
        e_arg = edges[0] if ch["dim"] == 1 else edges
        ref = RHist(ch["edges"] if ch["dim"] > 1 else ch["edges"][0], ch["dim"])
        if seed % 2:
            counts = rs.uniform(1, 50, shape_of(ch))
            errs = rs.uniform(0.5, 3, shape_of(ch)) if seed % 4 == 1 else None
            arrays = edges + [counts] + ([] if errs is None else [errs])
            label = "Hist.from_binned_data"
            ref.set_binned(counts.copy(), None if errs is None else errs.copy())
            out = books.call(label, arrays, lambda: cls.from_binned_data(counts, e_arg, errs), None)
        else:
            cols = bin_mids(ch)
            data, weights = columns(ch, cols), rs.uniform(0.5, 3, len(cols[0]))
            arrays = edges + [data, weights]
            label = "Hist()"
            ref.fill([c.copy() for c in cols], weights.copy())
            out = books.call(label, arrays, lambda: cls(e_arg, data=data, weights=weights), fault)
        if out.ok:
            books.hists.append((out.value, ref, ch))
    elif what == "template":
        if not books.hists:
            return
        h, _, hch = books.hists[op["k"] % len(books.hists)]
        out = books.call("Template()", [np.asarray(h.bin_counts)], lambda: make_template(hch, "t", h))
        books.extra.append((out.value, None))
        return
    elif what == "fill":
        if not books.hists:
            return
        h, ref, hch = books.hists[op["k"] % len(books.hists)]
        cols = bin_mids(hch)
        data, weights = columns(hch, cols), rs.uniform(0.5, 3, len(cols[0]))
        arrays = [data, weights]
        label = "Hist.fill"
        out = books.call(label, arrays, lambda: h.fill(data, weights), fault)
        if out.ok:
            ref.fill(cols, weights.copy())
    elif what == "params":
        v = np.concatenate([[rs.uniform(500, 2000)], np.clip(rs.normal(size=rt.n), -1.5, 1.5)])
        arrays = [v]
        label = "template.params"
        books.call(label, arrays, lambda: setattr(t, "params", v))
        rt.y, rt.theta = float(v[0]), v[1:].copy()
    elif what == "nui":
        v = np.clip(rs.normal(size=rt.n), -1.5, 1.5)
        arrays = [v]
        label = "template.nui_params"
        books.call(label, arrays, lambda: setattr(t, "nui_params", v))
        rt.theta = v.copy()
    elif what == "yield":
        v = np.array([rs.uniform(500, 2000)])
        arrays = [v]
        label = "template.yield_param"
        books.call(label, arrays, lambda: setattr(t, "yield_param", v))
        rt.y = float(v[0])
    elif what == "cov":
        if ch["dim"] != 1:
            return
        cov = w.random_cov(key, seed, 0.05)
        arrays = [cov]
        label = "template.add_cov_mat"
        kept = cov.copy()
        out = books.call(label, arrays, lambda: t.add_cov_mat(cov), fault)
        if out.ok:
            rt.add_cov(kept)
    elif what == "var":
        cols, up, down = w.variation(key, seed, 0.05)
        cov = cov_of_variation(rt.c, up, down)
        data = columns(ch, cols)
        arrays = [data, up, down]
        label = "template.add_variation"
        out = books.call(label, arrays, lambda: t.add_variation(data, up, down), fault)
        if out.ok:
            rt.add_cov(cov)
    elif what == "update":
        x = w.random_x(seed, 0.5)
        kept = x.copy()
        arrays = [x]
        label = "update_parameters"
        books.call(label, arrays, lambda: w.mct.update_parameters(x))
        w.ref_update(kept)
    elif what == "nll":
        x = w.random_x(seed, 0.3)
        i = seed // 8 % len(w.ref.processes)
        x[i] = [x[i], 0.0, -x[i], x[i]][seed % 4]  # also outside of the domain
        arrays = [x]
        label = "likelihood"
        nll = w.must("create_nll", w.mct.create_nll)
        books.call(label, arrays, lambda: nll(x), fault)
    elif what == "counts":
        channel = w.mct.channels[key[0]]
        n = channel.num_templates * (rt.n + 1)
        x = rs.uniform(0.0, 0.3, n)
        arrays = [x]
        label = "bin_counts_from_param_values"
        out = books.call(label, arrays, lambda: channel.bin_counts_from_param_values(x))
        held = out.value
        books.hold(label, lambda: [held], [held])
    elif what == "mini":
        from templatefitter.minimizer import minimizer_factory

        nll = w.must("create_nll", w.mct.create_nll)
        kind = rs.choice([minimizer, "iminuit", "scipy"])
        m = w.must("minimizer", lambda: minimizer_factory(kind, nll, nll.param_names))
        npr = len(w.ref.processes)
        x = np.array(nll.x0, dtype=float)
        for i in range(npr, len(x)):
            m.set_param_fixed(i)
        if seed % 3 == 0:  # bounds, also some which exclude the starting values
            i = rs.randint(npr)
            b = rs.choice([0.5, 0.9, 1.1, 1.3]) * x[i]
            m.set_param_bounds(i, (b, None) if rs.randint(2) else (None, b))
        if seed % 4 == 0 and npr > 1:
            m.set_param_fixed(rs.randint(npr))
        arrays = [x]
        label = "minimize"
        start = x.copy()
        out = w.sim.call("minimize", lambda: m.minimize(x, verbose=False, get_hesse=seed % 5 == 0), fault)
        check(np.array_equal(x, start), "argument-changed", f"minimize changed the initial values from {start} to {x}")
        if out.ok:
            hold_result(books, "minimize", out.value)
    books.lend(op, arrays, label)


def hold_result(books, what, res):
    p = res.params
    arrays = [a for a in (p.values, p.errors, p.covariance, p.correlation) if isinstance(a, np.ndarray)]
    books.hold(what, lambda: [res.fcn_min_val, p.values, p.errors, p.covariance, p.correlation, res.succes], arrays)


def hold(w, books, fitters, op, minimizer):
    import templatefitter as tf

    what, sim, first = op["what"], w.sim, len(books.held)
    if not fitters:
        fitters.append(w.must("TemplateFitter()", lambda: tf.TemplateFitter(w.mct, minimizer)))
    fitter = fitters[0]
    p = w.ref.processes[op["k"] % len(w.ref.processes)]
    if what == "fit":
        out = sim.call("fit", lambda: fitter.do_fit(update_templates=op["update"], verbose=0, get_hesse=False,
                                                    fix_nui_params=op["fix_nui"]))
        if not out.ok:
            return
        if op["update"]:
            for key, t in w.templates.items():
                v = np.array(t.params, dtype=float)
                w.rt(key).y, w.rt(key).theta = v[0], v[1:]
        hold_result(books, "do_fit", out.value)
    elif what == "profile":
        out = sim.call("profile", lambda: fitter.profile(f"{p}_yield", num_cpu=op["num_cpu"],
                                                         num_points=op["num_points"], fix_nui_params=True))
        if not out.ok:
            return
        value = out.value
        books.hold("profile", lambda: list(value), [a for a in value if isinstance(a, np.ndarray)])
    elif what == "significance":
        sim.call("significance", lambda: fitter.get_significance(p, verbose=False, fix_nui_params=True))
    elif what == "toys":
        if books.studies and op["seed"] % 3:  # the same study again
            study, n = books.studies[0]
            op = dict(op, n_exp=n)
            books.held = [e for e in books.held if e[0] != "toy study (object)"]
        else:
            study = w.must("ToyStudy()", lambda: tf.ToyStudy(w.mct, minimizer))
            books.studies[:] = [(study, op["n_exp"])]
        out = sim.call("do_experiments", lambda: study.do_experiments(op["n_exp"], 3))
        if not out.ok:
            return
        params, errors = study.result_parameters, study.result_uncertainties
        books.hold("toy study", lambda: [params, errors], [np.asarray(params), np.asarray(errors)])
        books.hold("toy study (object)", lambda: [study.result_parameters, study.result_uncertainties], [])
    elif what in ("toyset", "asimov"):
        if what == "toyset":
            value = w.must("toy", w.mct.generate_toy_dataset)
        else:
            value = w.must("asimov", lambda: w.mct.generate_asimov_dataset(False))
        hists = list(value.values())
        books.hold(what, lambda: [a for h in hists for a in (h.bin_counts, h.bin_errors_sq)],
                   [np.asarray(h.bin_counts) for h in hists])
    elif what == "x0":
        nll = w.must("create_nll", w.mct.create_nll)
        x0 = nll.x0
        views = [x0, w.mct.process_yields, w.mct.nui_params]
        views = [v for v in views if isinstance(v, np.ndarray)]
        books.hold("x0", lambda: views, views)
    if op["scribble"] and len(books.held) > first:
        # the caller overwrites what was returned
        mine = books.held[first:]
        del books.held[first:]
        before = books.state()
        for a in [a for e in mine for a in e[3]]:
            if a.flags.writeable:
                overwrite(a, op["seed"])
        diff = same_nested(before, books.state())
        check(diff is None, "aliased-output", f"overwriting the arrays returned by '{what}' changed {diff}")
        sim.probe("result-overwritten")


def run(plan, sim):
    w = FitWorld.start(sim, plan)
    books, fitters = Books(w), []
    for op in plan["ops"]:
        if op["op"] == "give":
            give(w, books, op, plan["minimizer"])
        elif op["op"] == "hold":
            hold(w, books, fitters, op, plan["minimizer"])
        else:
            w.apply(op)
        books.tick()
        books.verify(op.get("what") or op["op"])
    for e in books.lent:
        e[0] = 0
    books.tick()
    books.verify("end")
