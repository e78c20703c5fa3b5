"""A simulated analysis session: a multi channel template of the code under test
together with its reference model, driven by the operations of a plan.

Everything is read back through the public interface of the library.
"""
import numpy as np

from .core import Violation, arr, check, close, num
from .ref import RChannel, RModel, RTemplate, cov_of_variation

# -- plan generation ---------------------------------------------------------

# in unsorted order, with spaces, some part of others, some used for both
NAMES_P = ["sig", "bkg", "other", "D* l nu", "xulnu"]
MORE_P = ["sig2", "si", "e", "2", "B+", "Bkg"]
NAMES_C = ["e", "mu", "tag-2", "c_3"]
MORE_C = ["el", "m", "B0 -> D", "1", "sig", "E"]


def rnd(x, digits=3):
    return round(float(x), digits)


def gen_edges(rng, n, variable):
    lo = rng.choice([-4.0, -1.0, 0.0, 2.0])
    if variable and n > 1:
        widths = [rng.choice([0.25, 0.5, 1.0, 2.0]) for _ in range(n)]
        if len(set(widths)) == 1:
            widths[0] *= 2
    else:
        widths = [rng.choice([0.25, 0.5, 1.0, 2.0])] * n
    edges = [lo]
    for w in widths:
        edges.append(edges[-1] + w)
    return edges


def gen_channel(rng, name, dim=1, max_bins=6, min_bins=2, variable=None):
    edges = []
    is_var = False
    for _ in range(dim):
        most = max_bins if dim == 1 else min(max_bins, 3 if min_bins < 10 else 4)
        n = rng.randint(min(min_bins, most), most)
        var = rng.random() < 0.4 if variable is None else variable
        e = gen_edges(rng, n, var)
        is_var = is_var or len(set(np.diff(e).tolist())) > 1
        edges.append(e)
    how = "edges" if is_var or rng.random() < 0.4 else "int"
    return {"name": name, "dim": dim, "edges": edges, "how": how}


def rescale(ch, rng):
    """Narrow bins, bins far from zero, edges without a short binary form."""
    off, scale = rng.choice([(5.2, 0.01), (1000.0, 10.0), (0.1, 0.1), (-3.3, 0.3), (1e5, 7.0), (0.0, 1e-4), (-0.7, 1e3)])
    ch["affine"], ch["plain"] = [off, scale], ch["edges"]
    ch["edges"] = [[off + x * scale for x in e] for e in ch["edges"]]
    if ch["how"] != "edges":
        ch["edges"] = [np.linspace(e[0], e[-1], len(e)).tolist() for e in ch["edges"]]


def shape_of(ch):
    return tuple(len(e) - 1 for e in ch["edges"])


def gen_counts(rng, ch, k, level, empty=0.0, all_empty=False):
    """A smooth distinct shape for process number k."""
    shape = shape_of(ch)
    n = int(np.prod(shape))
    if all_empty:
        return np.zeros(shape).tolist()
    pos = np.linspace(0.0, 1.0, n) if n > 1 else np.array([0.5])
    centre = [0.15, 0.55, 0.9, 0.35, 0.7][k % 5] + rng.uniform(-0.07, 0.07)
    width = rng.uniform(0.15, 0.35)
    y = np.exp(-0.5 * ((pos - centre) / width) ** 2) + rng.uniform(0.05, 0.2)
    y = y / y.sum() * level
    out = []
    for v in y:
        v = rnd(v * rng.uniform(0.85, 1.15), 2)
        if rng.random() < empty:
            v = 0.0
        out.append(v)
    return np.reshape(out, shape).tolist()


def gen_model(rng, channels=(1, 3), processes=(2, 3), dims=(1, 1, 2), max_bins=6,
              level=(300, 3000), norm_eff=False, subset=0.3, empty=0.0, shuffle=True,
              allow_int=True, max_rel=0.2, negative=0.0, big=0.0):
    n_ch = rng.randint(*channels)
    n_pr = rng.randint(*processes)
    large = big and rng.random() < big
    if large:  # more of everything than usual
        n_ch, n_pr = rng.randint(n_ch, 5), rng.randint(n_pr, 6)
    chs, names = [], NAMES_C
    if n_ch > 4 or rng.random() < 0.5:
        names = NAMES_C + MORE_C
        rng.shuffle(names)
    for i in range(n_ch):
        bins = rng.randint(10, 13) if large and rng.random() < 0.5 else 0
        chs.append(gen_channel(rng, names[i], rng.choice(dims), bins or max_bins, bins or 2))
        if not allow_int:
            chs[-1]["how"] = "edges"
        if rng.random() < 0.15:
            rescale(chs[-1], rng)
    procs = NAMES_P + (MORE_P if n_pr > 5 or rng.random() < 0.5 else [])
    rng.shuffle(procs)
    procs = procs[:n_pr]
    templates = []
    for c, ch in enumerate(chs):
        order = list(range(n_pr))
        if shuffle:
            rng.shuffle(order)
        if n_pr > 1 and c > 0 and rng.random() < subset:
            order = order[:-1] if rng.random() < 0.7 else order[:rng.randint(1, n_pr - 1)]
        for k in order:
            counts = np.array(gen_counts(rng, ch, k, rng.uniform(*level), empty))
            below = negative and counts.size > 2 and rng.random() < negative
            if below:  # negative event weights
                i = rng.randrange(counts.size)
                counts.reshape(-1)[i] = -round(0.2 * counts.reshape(-1)[i], 2)
            rel = rng.uniform(0.01, max_rel)
            mode = "errs" if below else rng.choice(["errs", "errs", "none", "fill"])
            errs = None
            if mode == "errs":
                errs = np.round(np.abs(counts) * rel * np.array(
                    [rng.uniform(0.5, 1.5) for _ in range(counts.size)]).reshape(counts.shape), 4)
                errs = errs.tolist()
            if mode == "fill":
                counts = np.round(counts / 4)
            templates.append({
                "ch": ch["name"], "proc": procs[k], "counts": counts.tolist(), "errs": errs,
                "mode": mode, "eff": rnd(rng.uniform(0.2, 1.0)),
            })
    if n_ch > 1 and rng.random() < subset / 2:  # the first channel need not have all processes
        mine = [t for t in templates if t["ch"] == chs[0]["name"]]
        for t in mine[rng.randint(1, len(mine)):]:
            if any(o["proc"] == t["proc"] and o is not t for o in templates):
                templates.remove(t)
    used = {t["proc"] for t in templates}
    if norm_eff:
        for p in used:
            mine = [t for t in templates if t["proc"] == p]
            raw = [rng.uniform(0.3, 1.0) for _ in mine]
            for t, r in zip(mine, raw):
                t["eff"] = r / sum(raw)
    return {"channels": chs, "processes": procs, "templates": templates,
            "data_errors": rng.choice(["none", "none", "own", "fill"])}


def gen_data(rng, cfg, scale=None, smear=True):
    """Datasets near the sum of the templates, keyed by channel name."""
    out = {}
    for ch in cfg["channels"]:
        total = np.zeros(shape_of(ch))
        for t in cfg["templates"]:
            if t["ch"] == ch["name"]:
                s = scale[t["proc"]] if scale else 1.0
                total = total + s * np.array(t["counts"])
        if smear:
            total = np.array([max(0.0, rng.gauss(v, np.sqrt(v))) for v in total.reshape(-1)])
            total = total.reshape(shape_of(ch))
        out[ch["name"]] = np.round(total).tolist()
    return out


# -- objects of the code under test --------------------------------------------


def hist_class(dim):
    from templatefitter.histograms import Hist1d, Hist2d

    return Hist1d if dim == 1 else Hist2d


def bin_args(ch):
    """bins and range arguments of a histogram in this channel."""
    if ch["how"] == "int":
        n = shape_of(ch)
        r = tuple((e[0], e[-1]) for e in ch["edges"])
        return (n[0], r[0]) if ch["dim"] == 1 else (n, r)
    edges = [np.array(e) for e in ch["edges"]]
    return (edges[0], None) if ch["dim"] == 1 else (tuple(edges), None)


def channel_args(ch):
    n = shape_of(ch)
    r = tuple((e[0], e[-1]) for e in ch["edges"])
    return (n[0], r[0]) if ch["dim"] == 1 else (n, r)


def bin_mids(ch):
    """Coordinates of all bin centres, one array per dimension."""
    mids = [(np.array(e[1:]) + np.array(e[:-1])) / 2 for e in ch["edges"]]
    if ch["dim"] == 1:
        return mids
    grid = np.meshgrid(*mids, indexing="ij")
    return [g.reshape(-1) for g in grid]


def columns(ch, cols):
    """Data argument of a fill."""
    return np.array(cols[0]) if ch["dim"] == 1 else np.array(cols)


def events_of(ch, cols, nominal, up, down, seed):
    """One event per bin made into several, some of them out of range or without weights.
    Returns data, weights and the bin contents they lead to."""
    rs = np.random.RandomState(seed ^ 0x77)
    form = rs.randint(10)
    ups, downs = up, down
    if form < 5:
        return columns(ch, cols), up.copy(), down.copy(), ups, downs
    reps = rs.randint(1, 4, size=len(up))
    plain = None
    if form == 9 and nominal.sum() < 5000 and np.all((nominal == 0) | (nominal >= 10)):  # one side is the unweighted data
        reps = np.rint(nominal).astype(int)
        plain = seed % 2
        ups, downs = (reps.astype(float), downs) if plain else (ups, reps.astype(float))
    inside = np.repeat(np.arange(len(up)), reps)
    share = rs.uniform(0.2, 1.0, size=len(inside))
    share /= np.bincount(inside, weights=share, minlength=len(up))[inside]
    points = [np.array(c)[inside] for c in cols]
    n_out = rs.randint(0, 4)
    for c, e in zip(points, ch["edges"]):
        span = e[-1] - e[0]
        outside = rs.choice([e[0] - 0.3 * span, e[-1] + 0.2 * span], size=n_out)
        c.resize(len(inside) + n_out, refcheck=False)
        c[len(inside):] = outside
    order = rs.permutation(len(inside) + n_out)
    points = [c[order] for c in points]
    weights = [np.concatenate((w[inside] * share, rs.uniform(1, 50, size=n_out)))[order] for w in (up, down)]
    if plain is not None:
        weights[1 - plain] = None
    if form == 5 and ch["dim"] == 1:
        points = [points[0].tolist()]
        return points[0], weights[0].tolist(), weights[1].tolist(), ups, downs
    return columns(ch, points), weights[0], weights[1], ups, downs


def make_hist(ch, counts, errs=None, mode="errs"):
    cls = hist_class(ch["dim"])
    counts = np.array(counts, dtype=float)
    if mode == "fill":
        bins, rng = bin_args(ch)
        reps = counts.reshape(-1).astype(int)
        cols = [np.repeat(m, reps) for m in bin_mids(ch)]
        if len(cols[0]) == 0:
            return cls(bins, rng)
        return cls(bins, rng, data=columns(ch, cols), weights=None)
    edges = [np.array(e) for e in ch["edges"]]
    return cls.from_binned_data(
        counts, edges[0] if ch["dim"] == 1 else edges,
        None if errs is None else np.array(errs, dtype=float),
    )


def make_template(ch, name, hist):
    from templatefitter.templates import Template1d, Template2d

    if ch["dim"] == 1:
        return Template1d(name, "x", hist, color="C0")
    return Template2d(name, ("x", "y"), hist, color="C1")


def ref_template(tcfg):
    counts = np.array(tcfg["counts"], dtype=float)
    if tcfg["mode"] == "errs":
        return RTemplate(counts, np.array(tcfg["errs"]) ** 2)
    return RTemplate(counts, counts)


# -- the session ------------------------------------------------------------


class World:
    def __init__(self, sim, cfg, tag=""):
        self.sim = sim
        self.cfg = cfg
        self.tag = tag
        self.ch_cfg = {c["name"]: c for c in cfg["channels"]}
        self.t_cfg = {(t["ch"], t["proc"]): t for t in cfg["templates"]}
        self.templates = {}   # (channel, process) -> template of the code under test
        self.hists = {}
        self.data_errors = {}
        self.ref = RModel()
        from templatefitter.templates import MultiChannelTemplate

        self.mct = sim.must("MultiChannelTemplate()", MultiChannelTemplate)

    def must(self, label, fn):
        return self.sim.must(self.tag + label, fn)

    # -- construction
    def define_process(self, p):
        self.must(f"define_process({p})", lambda: self.mct.define_process(p))
        self.ref.processes.append(p)

    def define_channel(self, name):
        bins, rng = channel_args(self.ch_cfg[name])
        self.must(
            f"define_channel({name})", lambda: self.mct.define_channel(name, bins, rng)
        )
        self.ref.channels[name] = RChannel(name)

    def make(self, key):
        t = self.t_cfg[key]
        ch = self.ch_cfg[t["ch"]]

        def build():
            hist = make_hist(ch, t["counts"], t["errs"], t["mode"])
            return hist, make_template(ch, t["proc"], hist)

        return self.must(f"template{key}", build)

    def add_template(self, key):
        t = self.t_cfg[key]
        hist, template = self.make(key)
        self.must(
            f"add_template{key}",
            lambda: self.mct.add_template(t["ch"], t["proc"], template, **self.sim.explicit(
                {"efficiency": 1.0}, efficiency=1.0 if t["eff"] is None else t["eff"])),
        )
        self.templates[key] = template
        self.hists[key] = hist
        self.ref.channels[t["ch"]].t[t["proc"]] = ref_template(t)
        self.ref.channels[t["ch"]].eff[t["proc"]] = 1.0 if t["eff"] is None else t["eff"]

    def build(self):
        for p in self.cfg["processes"]:
            self.define_process(p)
        for c in self.cfg["channels"]:
            self.define_channel(c["name"])
        for t in self.cfg["templates"]:
            self.add_template((t["ch"], t["proc"]))
        return self

    def data_hist(self, name, counts):
        """The dataset of a channel: unweighted, weighted, or with uncertainties of its own (for
        example combined from several periods), none of which has to do with the contents."""
        how = self.cfg.get("data_errors", "none")
        ch, c = self.ch_cfg[name], np.array(counts, dtype=float)
        if how == "own":
            rs = np.random.RandomState(int(abs(c.sum())) % 9973)
            err = np.round(np.sqrt(np.abs(c) + 0.5) * rs.uniform(0.3, 2.0, c.shape), 3)
            self.data_errors[name] = err.reshape(-1)
            return make_hist(ch, c, err, "errs")
        if how == "fill" and ch["how"] == "int":
            self.data_errors[name] = np.abs(c).reshape(-1)
            bins, rng = bin_args(ch)
            hist = hist_class(ch["dim"])(bins, rng)
            hist.fill(columns(ch, bin_mids(ch)), c.reshape(-1))
            return hist
        self.data_errors[name] = np.sqrt(np.abs(c)).reshape(-1)
        return make_hist(ch, c, None, "none")

    def add_data(self, data):
        hists = {
            name: self.must(f"dataset of {name}", lambda: self.data_hist(name, counts))
            for name, counts in data.items()
        }
        self.must(f"add_data({sorted(data)})", lambda: self.mct.add_data(**hists))
        for name, counts in data.items():
            self.ref.channels[name].data = np.array(counts, dtype=float)

    # -- mutations of the session, mirrored in the reference model
    def set_yield(self, p, value):
        self.must(f"set_yield({p},{value})", lambda: self.mct.set_yield(p, value))
        for ch in self.ref.channels.values():
            if p in ch.t:
                ch.t[p].y = value * ch.eff[p]

    def ref_update(self, x):
        v = self.ref.as_dict(x)
        for cname, ch in self.ref.channels.items():
            for p, t in ch.t.items():
                t.y = v[f"{p}_yield"] * ch.eff[p]
                t.theta = np.array([v[f"{cname}_{p}_bin_{i}"] for i in range(t.n)])

    def update(self, x):
        self.must("update_parameters", lambda: self.mct.update_parameters(np.array(x)))
        self.ref_update(x)

    def random_x(self, seed, spread=1.0):
        rs = np.random.RandomState(seed)
        names = self.ref.names()
        x0 = self.ref.x0()
        out = []
        npr = len(self.ref.processes)
        for i in range(len(names)):
            if i < npr:
                base = x0[i] if x0[i] > 1 else 500.0
                out.append(round(base * rs.uniform(0.6, 1.4), 4))
            else:
                out.append(round(float(np.clip(rs.normal() * spread, -1.5, 1.5)), 5))
        return np.array(out)

    def random_cov(self, key, seed, scale):
        t = self.ref.channels[key[0]].t[key[1]]
        rs = np.random.RandomState(seed)
        v = rs.normal(size=t.n) * scale * t.c
        return np.outer(v, v) + np.diag((0.3 * scale * t.c) ** 2)

    def variation(self, key, seed, scale):
        """Events (one per bin) with nominal/up/down weights."""
        t = self.ref.channels[key[0]].t[key[1]]
        rs = np.random.RandomState(seed)
        up = t.c * (1 + scale * rs.normal(size=t.n))
        down = t.c * (1 - scale * rs.normal(size=t.n) * rs.choice([1.0, 1.0, -1.0], size=t.n))
        if rs.uniform() < 0.5:  # one-sided and vanishing variations in some bins
            how = rs.choice(5, size=t.n)
            down = np.where(how == 1, up, np.where(how == 2, t.c, down))
            up = np.where((how == 3) | (how == 4) & (rs.uniform(size=t.n) < 0.3), t.c, up)
        return bin_mids(self.ch_cfg[key[0]]), up, down

    def add_systematic(self, key, op, faults=None):
        """add_cov_mat (1d) or add_variation. Returns the outcome."""
        template = self.templates[key]
        rt = self.ref.channels[key[0]].t[key[1]]
        ch = self.ch_cfg[key[0]]
        if op["how"] == "cov" and ch["dim"] == 1:
            cov = self.random_cov(key, op["seed"], op["scale"])
            call = lambda: template.add_cov_mat(cov.copy())
        else:
            cols, up, down = self.variation(key, op["seed"], op["scale"])
            data, up, down, ups, downs = events_of(ch, cols, rt.c, up, down, op["seed"])
            cov = cov_of_variation(rt.c, ups, downs)
            call = lambda: template.add_variation(data, up, down)
        out = self.sim.call(f"{self.tag}systematic{key}:{op['how']}", call, faults)
        if out.ok:
            rt.add_cov(cov)
        elif not out.injected:
            raise Violation(
                "unexpected-exception",
                f"adding a systematic to {key} raised {type(out.exc).__name__}: {out.exc}",
            )
        return out

    def constrain(self, p, value, error):
        self.must(
            f"constraint({p})",
            lambda: self.mct.add_gaussian_constraint_on_yield(p, value, error),
        )
        self.ref.constraints[p] = (value, error)

    def reset(self):
        self.must("reset_parameters", lambda: self.mct.reset_parameters())
        for ch in self.ref.channels.values():
            for t in ch.t.values():
                t.reset()

    # -- observations
    def keys(self):
        return list(self.templates)

    def complete(self):
        """The likelihood is defined."""
        chans = self.ref.channels.values()
        return bool(chans) and all(c.t and c.data is not None for c in chans)

    def snapshot(self, probe=None):
        return snap_model(self.mct, self.complete(), probe)


def snap_template(t):
    return {
        "name": t.name,
        "num_bins": int(t.num_bins),
        "shape": tuple(int(i) for i in t.shape),
        "params": np.array(t.params, dtype=float),
        "yield": float(t.yield_param),
        "nui": np.array(t.nui_params, dtype=float),
        "values": np.array(t.values, dtype=float),
        "errors": np.array(t.errors, dtype=float),
        "cov": np.array(t.cov_mat, dtype=float),
        "corr": np.array(t.corr, dtype=float),
        "inv_corr": np.array(t.inv_corr_mat, dtype=float),
        "n_cov": len(t.cov_mats),
        "cov_mats": [np.array(c, dtype=float) for c in t.cov_mats],
        "edges": [np.array(e, dtype=float) for e in _edge_list(t.bin_edges)],
        "fractions": np.array(t.fractions(np.full(int(t.num_bins), 0.25)), dtype=float),
    }


def _edge_list(edges):
    if isinstance(edges, (list, tuple)):
        return list(edges)
    return [edges]


def snap_model(mct, complete, probe=None):
    out = {
        "processes": list(mct.processes),
        "channels": {},
        "constraints": sorted(mct.constrained_yields),
        "constraint_values": {k: float(v) for k, v in sorted(dict(mct.constrained_yield_values).items())},
        "constraint_errors": {k: float(v) for k, v in sorted(dict(mct.constrained_yield_errors).items())},
        "process_yields": np.array(mct.process_yields, dtype=float),
        "process_yield_errors": np.array(mct.process_yield_errors, dtype=float),
        "num_nui": int(mct.num_nui_params),
    }
    for name, ch in mct.channels.items():
        entry = {
            "processes": list(ch.processes),
            "eff": {k: float(v) for k, v in ch.efficiencies.items()},
            "has_data": bool(ch.has_data),
            "templates": {p: snap_template(t) for p, t in ch.templates.items()},
        }
        if ch.has_data:
            entry["data"] = np.array(ch.data_bin_counts, dtype=float)
        out["channels"][name] = entry
    if complete:
        nll = mct.create_nll()
        x0 = np.array(nll.x0, dtype=float)
        out["x0"] = x0
        out["names"] = list(nll.param_names)
        out["nui"] = np.array(mct.nui_params, dtype=float)
        out["nll(x0)"] = float(nll(x0.copy()))
        if probe is not None:
            out["nll(probe)"] = float(nll(np.array(probe, dtype=float)))
    return out


def check_template(t, rt, label, kind="template"):
    """Template of the code under test against its reference."""
    shape = rt.shape
    close(t.params, np.concatenate([[rt.y], rt.theta]), kind, f"{label}.params")
    close(num(t.yield_param, f"{label}.yield_param"), rt.y, kind, f"{label}.yield_param")
    close(t.nui_params, rt.theta, kind, f"{label}.nui_params")
    close(t.values, rt.values(), kind, f"{label}.values", rtol=1e-8, atol=1e-9)
    close(t.errors, rt.errors(), kind, f"{label}.errors", rtol=1e-8, atol=1e-9)
    check(tuple(t.shape) == tuple(shape), kind, f"{label}.shape {t.shape} != {shape}")


def check_covariance(t, rt, label, kind="covariance"):
    scale = max(1.0, float(np.max(np.abs(rt.cov))))
    close(t.cov_mat, rt.cov, kind, f"{label}.cov_mat", rtol=1e-9, atol=1e-12 * scale)
    mats = list(t.cov_mats)
    check(
        len(mats) == len(rt.covs), kind,
        f"{label} lists {len(mats)} covariance matrices, {len(rt.covs)} were added",
    )
    for i, (a, b) in enumerate(zip(mats, rt.covs)):
        close(a, b, kind, f"{label}.cov_mats[{i}]", rtol=1e-9, atol=1e-12 * scale)
    close(t.corr, rt.corr, kind, f"{label}.corr", rtol=1e-7, atol=1e-7)
    inv = arr(t.inv_corr_mat, f"{label}.inv_corr_mat", rt.corr.shape)
    cond = np.linalg.cond(rt.corr)
    close(inv @ rt.corr, np.eye(rt.n), kind, f"{label}.inv_corr_mat*corr",
          rtol=0, atol=1e-10 * max(1.0, cond) + 1e-9)
