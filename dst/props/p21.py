"""P21: the legacy histograms, stacked templates and their likelihood."""
import numpy as np

from ..analysis import GIVE_UP
from ..core import arr, check, close, num, same_nested
from ..drawn import Drawing, coloured, spans_equal
from ..fits import check_failure
from ..ref import RHist, RTemplate, poisson_term

RUNS = {"quick": 1500, "thorough": 12000}
SHRINK_INTS = {"k": 0, "h": 0, "n": 1}
REAL = ["templates_legacy (Template, StackedTemplate)", "nll (StackedTemplateNegLogLikelihood)",
        "histogram_legacy (Histogram, Hist1d, Hist2d)", "IMinuitMinimizer", "ScipyMinimizer", "pandas", "numba"]
STUBS = ["binning, matrix inversion, minimizers, poisson generator wrapped for fault injection",
         "numpy global random stream seeded per run"]
ASSUMPTIONS = [
    "not all templates are empty; nuisance parameters keep every bin content positive",
    "a dataset is not filled any more once a likelihood has been created with it",
]
RULE = (
    "One run drives a stacked legacy template (1-3 templates from weighted data frames, created or added in seeded "
    "order) through parameter updates, systematics (some failing in the inversion), resets, toys, Asimov data, fits "
    "(some failing) and evaluations of likelihoods created at any earlier time, interleaved with fills of legacy "
    "histograms (some failing half-way), scaling and projections. Everything is compared with the reference model "
    "after every operation. Non-trivial: at least 3 likelihood values or fits were compared."
)
OPS = ("update", "update", "cov", "cov", "reset", "treset", "nll", "eval", "eval", "eval", "toy", "asimov", "fit",
       "hist", "hist", "hist", "bad", "setval", "plot")


def generate(rng, index, tier):
    bins = rng.randint(2, 6)
    lo = rng.choice([0.0, -2.0, 1.5])
    n_t = rng.randint(1, 3)
    cfg = {"bins": bins, "limits": [lo, lo + bins * rng.choice([0.5, 1.0, 2.0])],
           "templates": [{"tid": f"t{i}", "name": ["sig", "bkg", "other"][i] if rng.random() < 0.5 else f"t{i}",
                          "how": rng.choice(["create", "add"]), "weight": rng.choice(["weight", "w2"]),
                          "n": rng.randint(60, 200), "empty": rng.random() < 0.08, "level": rng.choice([1.0, 4.0, 10.0]),
                          "seed": rng.getrandbits(20)} for i in range(n_t)],
           "hists": [{"kind": rng.choice(["Histogram", "Hist1d", "Hist1d", "Hist2d"]), "n": rng.randint(1, 5),
                      "how": rng.choice(["int", "edges", "binned"]), "seed": rng.getrandbits(20)}
                     for _ in range(rng.randint(1, 2))]}
    ops = []
    for _ in range(rng.randint(6, 20)):
        op = {"op": rng.choice(OPS), "k": rng.randrange(6), "seed": rng.getrandbits(24)}
        if op["op"] == "cov" and rng.random() < 0.4:
            op["fault"] = {"seam": "inv", "at": 1, "do": rng.choice(["LinAlgError", "MemoryError", "KeyboardInterrupt"])}
        if op["op"] == "hist":
            op.update(h=rng.randrange(2), n=rng.choice([1, 3, 10, 30]), how=rng.choice(
                ["fill", "fill", "fill", "scale", "project", "set", "lengths"]),
                weights=rng.choice(["none", "array", "list", "zero", "narrow", "series"]),
                data=rng.choice(["array", "array", "list", "series"]))
            if rng.random() < 0.3:
                op["fault"] = {"seam": "binned", "at": rng.randint(1, 3),
                               "do": rng.choice(["MemoryError", "ValueError", "KeyboardInterrupt"])}
        if op["op"] == "fit":
            op.update(minimizer=rng.choice(["iminuit", "iminuit", "scipy"]), update=rng.random() < 0.5,
                      fix=rng.random() < 0.5)
            if rng.random() < 0.3:
                op["fault"] = rng.choice([{"seam": "fcn", "at": rng.choice([1, 5, 20]), "do": "RuntimeError"},
                                          {"seam": "migrad", "at": 1, "do": "KeyboardInterrupt"},
                                          {"seam": "scipy", "at": 1, "do": rng.choice(GIVE_UP)}])
        if op["op"] in ("toy",) and rng.random() < 0.3:
            op["fault"] = {"seam": "poisson", "at": 1, "do": "MemoryError"}
        if op["op"] == "bad":
            op["what"] = rng.choice(["bins", "limits", "variable", "short", "long", "errors"])
        ops.append(op)
    ops += [{"op": "eval", "k": rng.randrange(6), "seed": rng.getrandbits(24)} for _ in range(3)]
    return {"cfg": cfg, "ops": ops}


def nontrivial(res):
    p = res["probes"]
    return p.get("likelihood-compared", 0) + p.get("fit-compared", 0) >= 3


class Legacy:
    def __init__(self, sim, cfg):
        import pandas as pd

        from templatefitter.templates_legacy import StackedTemplate, Template

        self.sim, self.cfg = sim, cfg
        self.bins, self.limits = cfg["bins"], tuple(cfg["limits"])
        self.edges = np.linspace(*self.limits, self.bins + 1)
        self.stack = sim.must("StackedTemplate()", lambda: StackedTemplate("stack", "x", self.bins, self.limits))
        self.t, self.ref, self.names, self.tids = {}, {}, [], []
        for i, t in enumerate(cfg["templates"]):
            rs = np.random.RandomState(t["seed"])
            mids = (self.edges[1:] + self.edges[:-1]) / 2
            span = self.limits[1] - self.limits[0]
            centre = self.limits[0] + span * [0.2, 0.6, 0.9][i]
            prob = np.exp(-0.5 * ((mids - centre) / (0.3 * span)) ** 2) + 0.15
            idx = np.concatenate([np.arange(self.bins), rs.choice(self.bins, t["n"], p=prob / prob.sum())])
            x = mids[idx] + (self.edges[1] - self.edges[0]) * np.round(rs.uniform(-0.4, 0.4, len(idx)), 3)
            outside = rs.uniform(size=len(x)) < 0.03
            outside[: self.bins] = False
            if t.get("empty") and (i or self.cfg["templates"][1:]):
                outside[:] = True
            x[outside] += 2 * span
            df = pd.DataFrame({"x": x, "weight": t["level"] * rs.uniform(0.5, 1.5, len(x)),
                               "w2": t["level"] * np.ones(len(x)), "y": -x})
            df.index = np.arange(len(x))[::-1] + 7
            w = df[t["weight"]].values
            h = RHist(self.edges)
            h.fill([x], w)
            name = t["tid"] if t["how"] == "create" else t["name"]
            if t["how"] == "create":
                if t["weight"] == "weight":
                    sim.must("create_template", lambda: self.stack.create_template(t["tid"], df))
                else:
                    sim.must("create_template", lambda: self.stack.create_template(t["tid"], df, weight="w2"))
            else:
                new = sim.must("Template()", lambda: Template(name, "x", self.bins, self.limits, df, t["weight"]))
                sim.must("add_template", lambda: self.stack.add_template(t["tid"], new))
            df.iloc[:, :] = 1e6  # the caller goes on using the data frame
            self.t[t["tid"]] = self.stack[t["tid"]]
            self.ref[t["tid"]] = RTemplate(h.counts, h.errs_sq)
            self.names.append(name)
            self.tids.append(t["tid"])
        n = len(self.tids)
        self.errors = {tid: (float(np.sqrt(np.sum(np.diag(self.ref[tid].cov)))), np.ones(self.bins)) for tid in self.tids}
        self.start_errors = dict(self.errors)
        self.nlls = []
        self.n = n

    def verify(self, label):
        kind = "legacy-template"
        total, err = 0.0, 0.0
        for tid in self.tids:
            t, r = self.t[tid], self.ref[tid]
            close(t.values(), r.values(), kind, f"{label}: values of {tid}", 1e-8, 1e-9)
            close(t.errors(), r.errors(), kind, f"{label}: errors of {tid}", 1e-7, 1e-8)
            close(num(t.yield_param_values, "yield"), r.y, kind, f"{label}: yield of {tid}")
            close(t.nui_param_values, r.theta, kind, f"{label}: nuisance parameters of {tid}")
            close(num(t.yield_param_errors, "error"), self.errors[tid][0], kind, f"{label}: yield error of {tid}", 1e-7, 1e-6)
            close(t.nui_params_errors, self.errors[tid][1], kind, f"{label}: nuisance errors of {tid}")
            scale = float(np.max(np.abs(r.cov)))
            close(t.cov_mat, r.cov, kind, f"{label}: covariance of {tid}", 1e-8, 1e-10 * scale)
            close(t.corr_mat, r.corr, kind, f"{label}: correlation of {tid}", 1e-7, 1e-7)
            inv = arr(t.inv_corr_mat, "inverse", (self.bins, self.bins))
            close(inv @ r.corr, np.eye(self.bins), kind, f"{label}: inverse correlation of {tid}", 0,
                  1e-9 * max(1.0, np.linalg.cond(r.corr)))
            total, err = total + r.values(), err + r.errors() ** 2
        close(self.stack.values(), total, kind, f"{label}: stacked values", 1e-8, 1e-9)
        close(self.stack.errors(), np.sqrt(err), kind, f"{label}: stacked errors", 1e-7, 1e-8)
        close(self.stack.yield_param_values, [self.ref[t].y for t in self.tids], kind, f"{label}: stacked yields")
        close(np.asarray(self.stack.nui_param_values).reshape(-1), np.concatenate([self.ref[t].theta for t in self.tids]),
              kind, f"{label}: stacked nuisance parameters")
        close(self.stack.yield_param_errors, [self.errors[t][0] for t in self.tids], kind,
              f"{label}: stacked yield errors", 1e-7, 1e-6)
        close(np.asarray(self.stack.nui_param_errors).reshape(-1), np.concatenate([self.errors[t][1] for t in self.tids]),
              kind, f"{label}: stacked nuisance errors")
        for tid, inv in zip(self.tids, self.stack.inv_corr_mats):
            close(inv, self.t[tid].inv_corr_mat, kind, f"{label}: stacked inverse correlation of {tid}", 0, 0)
        theta = np.concatenate([self.ref[t].theta for t in self.tids])[::-1] * 0.5
        close(self.stack.fractions(theta), [self.ref[t].fractions(theta[i * self.bins: (i + 1) * self.bins])
                                            for i, t in enumerate(self.tids)], kind, f"{label}: stacked fractions")
        for what, m in [("stack", self.stack)] + [(tid, self.t[tid]) for tid in self.tids]:
            close(m.bin_edges, self.edges, kind, f"{label}: edges of {what}", 0, 1e-12)
            close(m.bin_mids, (self.edges[1:] + self.edges[:-1]) / 2, kind, f"{label}: mids of {what}", 0, 1e-12)
            close(m.bin_width, self.edges[1] - self.edges[0], kind, f"{label}: width of {what}", 0, 1e-12)
            check((m.num_bins, m.variable, tuple(m.limits)) == (self.bins, "x", self.limits), kind,
                  f"{label}: {what} has {m.num_bins} bins of {m.variable} in {m.limits}")
        check(list(self.stack.template_names) == self.names, kind, f"{label}: names {self.stack.template_names}")
        check(int(self.stack.num_templates) == self.n, kind, f"{label}: {self.stack.num_templates} templates")

    def state(self):
        s = self.stack
        return {"values": np.array(s.values()), "errors": np.array(s.errors()),
                "y": np.array(s.yield_param_values), "nui": np.array(s.nui_param_values),
                "ye": np.array(s.yield_param_errors, dtype=float), "ne": np.array(s.nui_param_errors, dtype=float),
                "cov": [np.array(self.t[t].cov_mat) for t in self.tids],
                "corr": [np.array(self.t[t].corr_mat) for t in self.tids],
                "inv": [np.array(self.t[t].inv_corr_mat) for t in self.tids]}

    def param_names(self):
        return [f"{n}_yield" for n in self.names] + [f"{n}_nui_{i}" for n in self.names for i in range(self.bins)]

    def x0(self):
        return np.concatenate([[self.ref[t].y for t in self.tids]] + [self.ref[t].theta for t in self.tids])

    def nll_of(self, data, x):
        mu, total = 0.0, 0.0
        for i, tid in enumerate(self.tids):
            r = self.ref[tid]
            theta = x[self.n + i * self.bins: self.n + (i + 1) * self.bins]
            mu = mu + x[i] * r.fractions(theta)
            total += 0.5 * theta @ r.inv_corr @ theta
        return float(total + poisson_term(data, mu))

    def random_x(self, seed):
        rs = np.random.RandomState(seed)
        y = [(self.ref[t].original or 60.0) * rs.uniform(0.5, 1.5) for t in self.tids]
        return np.concatenate([np.round(y, 3), np.round(np.clip(rs.normal(size=self.n * self.bins), -1.5, 1.5), 4)])

    def set_x(self, x, e):
        for i, tid in enumerate(self.tids):
            self.ref[tid].y = float(x[i])
            a, b = self.n + i * self.bins, self.n + (i + 1) * self.bins
            self.ref[tid].theta = np.array(x[a:b])
            self.errors[tid] = (float(e[i]), np.array(e[a:b]))

    # -- operations
    def op_update(self, op):
        x = self.random_x(op["seed"])
        e = np.random.RandomState(op["seed"] + 1).uniform(0.1, 30, len(x))
        gx, ge = x.copy(), e.copy()
        self.sim.must("update_parameters", lambda: self.stack.update_parameters(gx, ge))
        check(np.array_equal(gx, x) and np.array_equal(ge, e), "legacy-template", "update_parameters changed its input")
        gx[:] = 0.3
        ge[:] = 77.0
        self.set_x(x, e)

    def op_setval(self, op):
        tid = self.tids[op["k"] % self.n]
        rs = np.random.RandomState(op["seed"])
        if op["seed"] % 5 == 0:
            self.set_all(rs, op["seed"] // 5 % 4)
        elif op["seed"] % 2:
            v = float(np.round(rs.uniform(0, 2000), 2))
            self.sim.must("yield", lambda: setattr(self.t[tid], "yield_param_values", v))
            self.ref[tid].y = v
        else:
            v = np.round(np.clip(rs.normal(size=self.bins), -1.5, 1.5), 3)
            self.sim.must("nui", lambda: setattr(self.t[tid], "nui_param_values", v.copy()))
            self.ref[tid].theta = v

    def set_all(self, rs, which):
        """One kind of parameter of all templates at once."""
        x = np.round(rs.uniform(0, 2000, self.n), 2)
        theta = np.round(np.clip(rs.normal(size=self.n * self.bins), -1.5, 1.5), 3)
        name = ["yield_param_values", "nui_param_values", "yield_param_errors", "nui_param_errors"][which]
        given = (theta if which % 2 else x).copy()
        self.sim.must(name, lambda: setattr(self.stack, name, given))
        given[:] = 0.7
        for i, tid in enumerate(self.tids):
            mine = theta[i * self.bins: (i + 1) * self.bins]
            y, n = self.errors[tid]
            if which == 0:
                self.ref[tid].y = float(x[i])
            elif which == 1:
                self.ref[tid].theta = mine.copy()
            else:
                self.errors[tid] = (float(x[i]), n) if which == 2 else (y, mine.copy())

    def op_cov(self, op):
        tid = self.tids[op["k"] % self.n]
        r = self.ref[tid]
        rs = np.random.RandomState(op["seed"])
        v = rs.normal(size=self.bins) * 0.06 * r.c
        cov = np.outer(v, v) + np.diag((0.02 * r.c) ** 2)
        given = cov.copy()
        before = self.state()
        out = self.sim.call("add_covariance_matrix", lambda: self.t[tid].add_covariance_matrix(given), op.get("fault"))
        check(np.array_equal(given, cov), "legacy-template", "add_covariance_matrix changed its input")
        given[:] = 5.0
        if out.ok:
            r.add_cov(cov)
            return
        check(out.injected, "unexpected-exception", f"add_covariance_matrix raised {out.exc!r}")
        diff = same_nested(before, self.state())
        check(diff is None, "legacy-failed-update", f"a covariance matrix that could not be added changed {diff}")
        self.sim.probe("failed-systematic")

    def op_reset(self, op):
        self.sim.must("reset_parameters", self.stack.reset_parameters)
        for tid in self.tids:
            self.ref[tid].reset()
            self.errors[tid] = self.start_errors[tid]

    def op_treset(self, op):
        tid = self.tids[op["k"] % self.n]
        self.sim.must("reset_parameters", self.t[tid].reset_parameters)
        self.ref[tid].reset()
        self.errors[tid] = self.start_errors[tid]

    def dataset(self, seed):
        from templatefitter.histogram_legacy import Hist1d

        rs = np.random.RandomState(seed)
        mean = np.sum([self.ref[t].original * self.ref[t].fractions(np.zeros(self.bins)) for t in self.tids], axis=0)
        data = rs.poisson(mean * rs.uniform(0.7, 1.3)).astype(float)
        if seed % 4 == 0:
            data[rs.randint(self.bins)] = 0.0
        given = data.copy()
        h = self.sim.must("Hist1d.from_binned_data", lambda: Hist1d.from_binned_data(self.edges.copy(), given))
        given[:] = -1
        return h, data

    def op_nll(self, op):
        h, data = self.dataset(op["seed"])
        nll = self.sim.must("create_nll", lambda: self.stack.create_nll(h))
        self.nlls.append((nll, data))

    def op_eval(self, op):
        if not self.nlls:
            self.op_nll(op)
        nll, data = self.nlls[op["k"] % len(self.nlls)]
        x = self.random_x(op["seed"])
        given = x.copy()
        got = num(self.sim.must("nll(x)", lambda: nll(given)), "nll")
        check(np.array_equal(given, x), "legacy-likelihood", "the likelihood changed its argument")
        want = self.nll_of(data, x)
        if np.isfinite(want):
            close(got, want, "legacy-likelihood", f"likelihood at {x.tolist()}"[:300], 1e-8, 1e-8 + 1e-10 * np.sum(data))
            self.sim.probe("likelihood-compared")
        close(nll.x0, self.x0(), "legacy-likelihood", "x0")
        check(list(nll.param_names) == self.param_names(), "legacy-likelihood", f"names {nll.param_names}")

    def op_toy(self, op):
        tid = self.tids[op["k"] % self.n]
        source, mu = (self.t[tid], self.ref[tid].values()) if op["seed"] & 2 else (
            self.stack, np.sum([self.ref[t].values() for t in self.tids], axis=0))
        out = self.sim.call("toy", source.generate_toy_dataset, op.get("fault"))
        if not out.ok:
            # a negative expectation has no toys
            check(out.injected or np.any(mu < 0), "unexpected-exception", f"toy raised {out.exc!r}")
            return
        d = arr(out.value.bin_counts, "toy", (self.bins,))
        check(np.all(d == np.round(d)) and np.all(d >= 0), "legacy-toy", f"toy data {d}")
        z = (d - mu) / np.sqrt(np.maximum(mu, 1.0))
        check(np.all(np.abs(z) < 9 + 30 / np.maximum(mu, 1.0)), "legacy-toy", f"toy data {d}, expectation {mu}")
        close(out.value.bin_errors_sq, d, "legacy-toy", "errors of a toy", 1e-9, 1e-9)
        close(out.value.bin_edges, self.edges, "legacy-toy", "edges of a toy", 0, 1e-12)

    def op_asimov(self, op):
        whole = bool(op["seed"] & 1)
        h = self.sim.must("asimov", lambda: self.stack.generate_asimov_dataset(whole))
        mu = np.sum([self.ref[t].values() for t in self.tids], axis=0)
        if whole and np.any(np.abs(mu - np.floor(mu) - 0.5) < 1e-6):
            return
        close(h.bin_counts, np.rint(mu) if whole else mu, "legacy-toy", "Asimov data", 1e-9, 1e-9)
        tid = self.tids[op["k"] % self.n]
        mu = self.ref[tid].values()
        one = self.sim.must("asimov", lambda: self.t[tid].generate_asimov_dataset(
            **self.sim.explicit({"integer_values": False}, integer_values=whole)))
        if whole and np.any(np.abs(mu - np.floor(mu) - 0.5) < 1e-6):
            return
        close(one.bin_counts, np.rint(mu) if whole else mu, "legacy-toy", f"Asimov data of {tid}", 1e-9, 1e-9)
        close(one.bin_errors_sq, np.rint(mu) if whole else mu, "legacy-toy", f"errors of Asimov data of {tid}", 1e-9, 1e-9)
        close(one.bin_edges, self.edges, "legacy-toy", "edges of Asimov data", 0, 1e-12)

    def op_plot(self, op):
        from ..observers import new_axis

        tid = self.tids[op["k"] % self.n]
        before = self.state()
        for what, call in (("stack", lambda ax: self.stack.plot_on(ax)), (tid, lambda ax: self.t[tid].plot_on(ax))):
            ax = new_axis()
            d = Drawing(ax)
            self.sim.must("plot_on", lambda: call(ax))
            self.check_shapes(d.done(), self.tids if what == "stack" else [tid], what)
            src = self.tids if what == "stack" else [tid]
            total = np.sum([self.ref[t].values() for t in src], axis=0)
            err = np.sqrt(np.sum([self.ref[t].errors() ** 2 for t in src], axis=0))
            band = [a for a in d.fills if not coloured(a)]
            spans_equal(d, band, self.edges, total - err, total + err, f"band of {what}", "legacy-plot")
        diff = same_nested(before, self.state())
        check(diff is None, "legacy-plot", f"drawing changed {diff}")

    def check_shapes(self, d, tids, what):
        """The templates are drawn on top of each other."""
        fills = [a for a in d.fills if coloured(a)]
        mids = (self.edges[1:] + self.edges[:-1]) / 2
        total = np.sum([self.ref[t].values() for t in tids], axis=0)
        got = d.spans(fills, mids)
        check(all(g is not None for g in got), "legacy-plot", f"not all bins of {what} are drawn")
        close([g[1] for g in got], total, "legacy-plot", f"contents of {what}", 1e-6, 1e-6)
        if len(set(self.names)) == self.n and what == "stack":
            bottom = 0.0
            for t, name in zip(tids, self.names):
                check(name in d.labelled, "legacy-plot", f"{what}: no entry '{name}', but {sorted(d.labelled)}")
                got = np.array(d.spans(d.labelled[name][0], mids))
                values = self.ref[t].values()
                close(got[:, 1] - got[:, 0], values, "legacy-plot", f"{what}: contents of {name}", 1e-6, 1e-6)
                close(got[:, 0], bottom + 0 * values, "legacy-plot", f"{what}: position of {name}", 1e-6, 1e-6)
                bottom = bottom + values

    def op_bad(self, op):
        if op["what"] in ("short", "long", "errors"):
            x = self.random_x(op["seed"])
            e = np.ones(len(x))
            cut = 1 + op["seed"] % max(1, len(x) - 1)
            if op["what"] == "short":
                x = x[:cut]
            elif op["what"] == "long":
                x = np.concatenate([x, x[:cut]])
            else:
                e = e[:cut]
            if (len(x), len(e)) == (self.n + self.n * self.bins,) * 2:
                return
            before = self.state()
            out = self.sim.call("update_parameters", lambda: self.stack.update_parameters(x, e))
            check(not out.ok, "legacy-accepted", f"{len(x)} parameters with {len(e)} errors were accepted")
            diff = same_nested(before, self.state())
            check(diff is None, "legacy-accepted", f"rejected parameters changed {diff}")
            return
        self.bad_template(op)

    def bad_template(self, op):
        import pandas as pd

        from templatefitter.templates_legacy import Template

        df = pd.DataFrame({"x": self.edges[:-1] + 0.01, "y": self.edges[:-1] + 0.01, "weight": np.ones(self.bins)})
        args = {"bins": ("x", self.bins + 1, self.limits), "limits": ("x", self.bins, (self.limits[0], self.limits[1] + 1)),
                "variable": ("y", self.bins, self.limits)}[op["what"]]
        t = self.sim.must("Template()", lambda: Template("other", *args, df))
        before = self.state()
        out = self.sim.call("add_template", lambda: self.stack.add_template("new", t))
        check(not out.ok, "legacy-accepted", f"a template with other {op['what']} was accepted")
        diff = same_nested(before, self.state())
        check(diff is None, "legacy-accepted", f"a rejected template changed {diff}")

    def op_fit(self, op):
        from templatefitter.minimizer import minimizer_factory

        if not self.nlls:
            self.op_nll(op)
        nll, data = self.nlls[op["k"] % len(self.nlls)]
        self.op_reset(op)
        if any(not np.any(r.c) for r in self.ref.values()):
            return  # the yield of an empty template is not determined
        m = self.sim.must("minimizer", lambda: minimizer_factory(op["minimizer"], nll, nll.param_names))
        n = self.n + self.n * self.bins
        fix = op["fix"] or op["minimizer"] == "scipy"
        if fix:
            for i in range(self.n, n):
                self.sim.must("set_param_fixed", lambda: m.set_param_fixed(i))
        before = self.state()
        start = self.x0()
        out = self.sim.call("minimize", lambda: m.minimize(nll.x0, verbose=False, get_hesse=True), op.get("fault"))
        diff = same_nested(before, self.state())
        check(diff is None, "legacy-fit", f"a fit ({out.ok}) changed the templates: {diff}")
        if not out.ok:
            if not out.injected:
                check_failure(out, op["minimizer"], "fit")
            return
        res = out.value
        x = arr(res.params.values, "values", (n,))
        err = arr(res.params.errors, "errors", (n,))
        want = self.nll_of(data, x)
        check(list(res.params.names) == self.param_names(), "legacy-fit", "parameter names of the result")
        if np.isfinite(want):
            close(num(res.fcn_min_val, "fcn"), want, "legacy-fit", "likelihood at the minimum", 1e-7, 1e-5)
        if fix:
            close(x[self.n:], start[self.n:], "legacy-fit", "fixed nuisance parameters", 0, 1e-7)
        if bool(res.succes) and np.isfinite(want):
            at0 = self.nll_of(data, start)
            check(want <= at0 + 1e-3, "legacy-fit", f"the result {want} is worse than the start {at0}")
            if not out.injected and np.all(np.abs(x[self.n:]) < 4):
                # no direction along which the likelihood falls any more
                free = range(self.n if fix else n)
                for i in free:
                    s = max(err[i], 1e-3) if np.isfinite(err[i]) else 1e-3
                    for sign in (1, -1):
                        y = x.copy()
                        y[i] += sign * 0.3 * s
                        if np.any(y[: self.n] < 0):
                            continue
                        there = self.nll_of(data, y)
                        check(not there < want - (0.02 if op["minimizer"] == "iminuit" else 0.2), "legacy-fit",
                              f"success claimed, but moving {self.param_names()[i]} by {sign * 0.3 * s} lowers the "
                              f"likelihood by {want - there}")
                self.sim.probe("fit-compared")
        if op["update"] and np.all(np.isfinite(err)) and np.all(np.abs(x[self.n:]) < 4) and np.all(x[: self.n] >= 0) and all(
                np.all(self.ref[t].fractions(x[self.n + i * self.bins: self.n + (i + 1) * self.bins]) >= 0)
                for i, t in enumerate(self.tids)):
            # (negative expectations cannot be drawn or thrown)
            self.sim.must("update_parameters", lambda: self.stack.update_parameters(res.params.values, res.params.errors))
            self.set_x(x, err)


class Hist:
    """A legacy histogram and its reference."""

    def __init__(self, sim, cfg):
        from templatefitter import histogram_legacy as hl

        self.sim, self.cfg, self.kind = sim, cfg, cfg["kind"]
        rs = np.random.RandomState(cfg["seed"])
        self.dim = 2 if self.kind == "Hist2d" else 1
        self.edges = [np.linspace(-1.0, -1.0 + cfg["n"], cfg["n"] + 1)]
        if self.dim == 2:
            self.edges.append(np.linspace(0.0, 3.0, 4))
        how = cfg["how"]
        if self.kind == "Histogram" or (how == "binned" and self.dim == 2):
            how = "int"
        n = [len(e) - 1 for e in self.edges]
        if how == "edges":
            if n[0] > 1:
                self.edges[0][1] -= 0.25
            lent = [e.copy() for e in self.edges]
            if cfg["seed"] % 3 == 0:
                lent = [e.tolist() for e in lent]
            self.h = sim.must("legacy histogram", lambda: hl.Hist1d(lent[0]) if self.dim == 1 else hl.Hist2d(lent))
            for e in lent:  # the caller goes on using the edges
                e[0] = e[-1] + 5.0
        self.ref = RHist(self.edges if self.dim == 2 else self.edges[0], self.dim)
        self.entries = np.zeros(self.ref.counts.shape)
        lim = [(float(e[0]), float(e[-1])) for e in self.edges]
        if how == "int":
            cls = getattr(hl, self.kind)
            shape = (n[0], lim[0]) if self.dim == 1 else (n, lim)
            if cfg["seed"] % 3:
                self.h = sim.must("legacy histogram", lambda: cls(*shape))
            else:  # filled while it is constructed
                data, weights, cols, w = self.sample({"n": 12, "weights": ["none", "array", "list"][cfg["seed"] % 9 // 3],
                                                      "data": "array"}, rs)
                self.h = sim.must("legacy histogram", lambda: cls(*shape, data, weights))
                self.filled(cols, np.ones(12) if weights is None else w)
        elif how == "binned":
            counts = np.round(rs.uniform(0, 20, n[0]), 0 if cfg["seed"] % 5 < 2 else 2)
            errs = np.round(rs.uniform(0, 3, n[0]), 2) if cfg["seed"] % 2 else None
            gc, ge = counts.astype(int if cfg["seed"] % 5 < 2 else float), None if errs is None else errs.copy()
            edges = self.edges[0].copy()
            self.h = sim.must("from_binned_data", lambda: hl.Hist1d.from_binned_data(edges, gc, ge))
            edges[:] = 9.0
            gc[:] = 3.0
            if ge is not None:
                ge[:] = 1.0
            self.ref.set_binned(counts, errs)
        self.lent = []

    def filled(self, cols, w):
        self.ref.fill(cols, w)
        count = RHist(self.edges if self.dim == 2 else self.edges[0], self.dim)
        count.fill(cols, np.ones(len(w)))
        self.entries = self.entries + count.counts

    def sample(self, op, rs):
        """Data and weights in the form in which they are given, and as plain columns."""
        import pandas as pd

        cols = []
        for e in self.edges:
            span = e[-1] - e[0]
            col = np.round(rs.uniform(e[0] - span / 4, e[-1] + span / 4, op["n"]) * 64) / 64
            on = rs.uniform(size=op["n"]) < 0.2
            col[on] = rs.choice(e, on.sum())
            cols.append(col)
        w = np.round(rs.uniform(0.1, 3, op["n"]), 3)
        if op["weights"] == "zero":
            w = w * (rs.uniform(size=op["n"]) < 0.5)
        if op["weights"] == "narrow":
            w = rs.randint(0, 30000, op["n"]).astype([np.int16, np.int32][op["n"] % 2])
        weights = {"none": None, "list": w.tolist()}.get(op["weights"], w.copy())
        if op["weights"] == "series":
            weights = pd.Series(w.copy(), index=np.arange(op["n"])[::-1] + 3)
        if self.dim == 1:
            data = cols[0].tolist() if op["data"] == "list" else cols[0].copy()
            if op["data"] == "series":
                data = pd.Series(cols[0].copy(), index=np.arange(op["n"]) + 11)
        else:
            data = np.column_stack(cols)
        return data, weights, cols, w.astype(float)

    def state(self):
        out = [np.array(self.h.bin_counts), np.array(self.h.bin_errors_sq)]
        if self.kind == "Histogram":
            out.append(np.array(self.h.bin_entries))
        if self.dim == 2:
            out += [np.array(a) for p in (self.h.x_projection(), self.h.y_projection()) for a in p]
        return out

    def verify(self, label):
        kind = "legacy-histogram"
        close(self.h.bin_counts, self.ref.counts, kind, f"{label}: counts of a {self.kind}", 1e-9, 1e-9)
        close(self.h.bin_errors_sq, self.ref.errs_sq, kind, f"{label}: errors of a {self.kind}", 1e-9, 1e-9)
        close(self.h.bin_errors, np.sqrt(self.ref.errs_sq), kind, f"{label}: errors of a {self.kind}", 1e-8, 1e-8)
        n = [len(e) - 1 for e in self.edges]
        if self.kind == "Histogram":
            close(self.h.bin_entries, self.entries, kind, f"{label}: entries", 0, 1e-9)
            close([self.h.nbins, self.h.lower_limit, self.h.upper_limit, *self.h.limits],
                  [n[0]] + [self.edges[0][0], self.edges[0][-1]] * 2, kind, f"{label}: binning", 0, 1e-12)
            some = self.ref.counts != 0
            want = np.sqrt(self.ref.errs_sq[some]) / self.ref.counts[some]
            close(arr(self.h.bin_rel_errors, "relative errors", (n[0],))[some], np.where(want == 0, 1e-7, want), kind,
                  f"{label}: relative errors", 1e-9, 1e-12)
        else:
            close(np.reshape(self.h.num_bins, -1), n, kind, f"{label}: number of bins")
        str(self.h)
        for a, b in self.lent:
            check(np.array_equal(a, b), "legacy-histogram",
                  f"{label}: contents given to a {self.kind} were changed from {b} to {a}")
        if self.dim == 2:
            for got, e in zip((self.h.x_edges, self.h.y_edges), self.edges):
                close(got, e, kind, f"{label}: edges", 0, 1e-12)
            for got, e in zip((self.h.xlimits, self.h.ylimits), self.edges):
                close(got, [e[0], e[-1]], kind, f"{label}: limits", 0, 1e-12)
            for axis, got in ((1, self.h.x_projection()), (0, self.h.y_projection())):
                close(got[0], self.ref.counts.sum(axis=axis), kind, f"{label}: projection", 1e-9, 1e-9)
                close(got[1], np.sqrt(self.ref.errs_sq.sum(axis=axis)), kind, f"{label}: projection errors", 1e-8, 1e-8)
        else:
            close(self.h.bin_edges, self.edges[0], kind, f"{label}: edges", 0, 1e-12)
            close(self.h.bin_mids, (self.edges[0][1:] + self.edges[0][:-1]) / 2, kind, f"{label}: mids", 0, 1e-12)
            widths = np.diff(self.edges[0])
            if np.ptp(widths) < 1e-9:
                close(num(self.h.bin_width, "bin width"), widths[0], kind, f"{label}: bin width", 0, 1e-12)

    def apply(self, op):
        how, sim = op["how"], self.sim
        rs = np.random.RandomState(op["seed"])
        if how == "scale" and self.kind == "Histogram":
            c = float(np.round(rs.uniform(0.2, 3), 2))
            sim.must("scale", lambda: self.h.scale(c))
            self.ref.counts = self.ref.counts * c
            self.ref.errs_sq = self.ref.errs_sq * c ** 2
            return
        if how == "set" and self.kind == "Histogram":
            if op["seed"] % 2:
                c = np.round(rs.uniform(0, 50, self.ref.counts.shape)).astype([float, int][op["seed"] % 4 // 2])
                sim.must("bin_counts", lambda: setattr(self.h, "bin_counts", c))
                self.ref.counts = c.astype(float)
                self.lent.append((c, c.copy()))
                return
            e = np.round(rs.uniform(0.1, 5, self.ref.counts.shape), 3)
            sim.must("bin_errors", lambda: setattr(self.h, "bin_errors", e.copy()))
            self.ref.errs_sq = e ** 2
            return
        if how == "lengths":
            data, _, _, w = self.sample(dict(op, n=op["n"] + 2), rs)
            before = self.state()
            out = sim.call("legacy fill", lambda: self.h.fill(data, w[:-1 - op["seed"] % (len(w) - 1)]))
            check(not out.ok, "legacy-accepted", f"a {self.kind} was filled with {len(data)} entries and fewer weights")
            for a, b in zip(before, self.state()):
                check(np.array_equal(a, b), "legacy-accepted", f"a rejected fill changed a {self.kind}: {a} -> {b}")
            return
        if how == "project" and self.dim == 2:
            sim.must("projection", lambda: (self.h.x_projection(), self.h.y_projection()))
            return
        data, weights, cols, w = self.sample(op, rs)
        before = self.state()
        out = sim.call("legacy fill", lambda: self.h.fill(data, weights), op.get("fault"))
        if out.ok:
            used = np.ones(op["n"]) if weights is None else w
            self.filled(cols, used)
            return
        check(out.injected, "unexpected-exception", f"fill of a {self.kind} raised {out.exc!r}")
        sim.probe("failed-fill")
        for a, b in zip(before, self.state()):
            check(np.array_equal(a, b), "legacy-failed-fill", f"a failed fill changed a {self.kind}: {a} -> {b}")


def run(plan, sim):
    w = Legacy(sim, plan["cfg"])
    hists = [Hist(sim, c) for c in plan["cfg"]["hists"]]
    w.verify("construction")
    for op in plan["ops"]:
        if op["op"] == "hist":
            hists[op["h"] % len(hists)].apply(op)
        else:
            getattr(w, "op_" + op["op"])(op)
        w.verify(op["op"])
        for h in hists:
            h.verify(op["op"])
        sim.state(op["op"], str(op.get("fault")), len(w.nlls), w.n)
