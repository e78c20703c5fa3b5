"""Read-only uses of a model. None of them may have an effect."""
import copy
import pickle

import numpy as np

KINDS = ("views", "toy", "asimov", "eval", "plot", "plot_templates", "names", "pickle", "deepcopy",
         "propagate", "projections", "yields", "hists", "repr", "create_nll", "plot_broken", "toy_broken",
         "counts", "fitter", "study", "counts_broken", "broken_reads")
MAY_FAIL = ("plot_broken", "counts_broken", "broken_reads")


def gen(rng):
    return {"kind": rng.choice(KINDS), "seed": rng.getrandbits(24)}


class BrokenAxis:
    """A drawing surface that fails at the n-th call."""

    def __init__(self, real, n):
        self._real, self._n = real, n

    def __getattr__(self, name):
        if self._n <= 0:
            raise OSError("injected by the simulator")
        self._n -= 1
        return getattr(self._real, name)


def new_axis():
    from matplotlib.figure import Figure

    return Figure().add_subplot()


def drawable(w):
    return w.drawable()


def observe(w, obs):
    """Executes one observer; failures that are not injected are reported by the
    caller. Returns a callable."""
    mct, kind, seed = w.mct, obs["kind"], obs["seed"]
    rs = np.random.RandomState(seed)
    keys = w.keys()
    if not keys or not w.complete_params():
        return lambda: list(mct.processes)
    key = keys[seed % len(keys)]
    t = w.templates[key]
    channel = mct.channels[key[0]]
    dim = w.ch_cfg[key[0]]["dim"]

    if kind in ("toy", "toy_broken") and not drawable(w):
        return lambda: list(mct.processes)
    if kind == "views":
        return lambda: [(t.values, t.errors, t.cov_mat, t.corr, t.inv_corr_mat, t.params, t.nui_params,
                         t.bin_mids, t.bin_edges, t.bin_widths, t.range, t.bins, t.shape, t.num_bins)
                        for t in w.templates.values()]
    if kind == "toy":
        return mct.generate_toy_dataset
    if kind == "asimov":
        return lambda: mct.generate_asimov_dataset(bool(seed & 1))
    if kind == "toy_broken":
        return channel.generate_toy_dataset
    if kind == "eval" and w.complete():
        x = w.random_x(seed, 1.0)
        return lambda: mct.create_nll()(x)
    if kind == "create_nll":
        return mct.create_nll
    if kind == "names" and w.complete():
        nll = mct.create_nll()
        return lambda: (nll.param_names, nll.x0)
    if kind == "yields":
        return lambda: (mct.process_yields, mct.process_yield_errors, mct.nui_params,
                        [mct.get_yield(p) for p in mct.processes])
    if kind in ("plot", "plot_broken") and dim == 1:
        ax = new_axis()
        if kind == "plot_broken":
            ax = BrokenAxis(ax, seed % 3)
        return lambda: channel.plot_stacked_on(ax)
    if kind == "plot_templates":
        if dim == 1:
            return lambda: t.plot_on(new_axis())
        ax = new_axis()
        return lambda: (t.plot_x_projection_on(new_axis()), t.plot_y_projection_on(new_axis()), t.plot_on(ax.figure, ax))
    if kind == "pickle":
        return lambda: pickle.loads(pickle.dumps(mct)).process_yields
    if kind == "deepcopy":
        def scribble():
            other = copy.deepcopy(mct)
            for p in other.processes:
                other.set_yield(p, 3.0)
            other.reset_parameters()
        return scribble
    if kind in ("propagate", "counts"):
        n = channel.num_templates * channel.num_bins + channel.num_templates
        x = np.concatenate([rs.uniform(100, 500, channel.num_templates),
                            rs.normal(size=n - channel.num_templates) * 0.3])
        if kind == "counts":
            return lambda: channel.bin_counts_from_param_values(x)
        from templatefitter.minimizer import Parameters

        params = Parameters([f"p{i}" for i in range(n)])
        params.values = x
        params.covariance = np.eye(n)
        if n > 14:
            return lambda: channel.bin_counts_from_param_values(x)
        return lambda: channel.get_post_fit_bin_uncertainty(params)
    if kind == "counts_broken":
        # wrong lengths and values: the call fails somewhere on its way
        n = channel.num_templates * channel.num_bins + channel.num_templates
        x = rs.uniform(1, 500, max(0, n + int(rs.choice([-channel.num_bins - 1, -2, -1, 1, 3, channel.num_bins]))))
        if seed % 5 == 0:
            x = [1.0] * (n - 1) + ["a"]
        if seed % 5 == 1 and channel.num_templates > 1:
            x = np.array([channel.num_templates])
        return lambda: channel.bin_counts_from_param_values(x)
    if kind == "broken_reads":
        # questions that have no answer
        calls = [
            lambda: mct.get_yield("nothing"), lambda: mct["nothing"], lambda: channel["nothing"],
            lambda: channel.templates["nothing"], lambda: mct.generate_asimov_dataset(7, 8),
            lambda: mct.create_nll()(np.array([1.0])), lambda: mct.create_nll()(["a"]),
            lambda: mct.create_nll()(w.random_x(seed, 1.0)[:-1]) if w.complete() else None,
            lambda: channel.plot_stacked_on(None), lambda: t.plot_on(None),
            lambda: channel.get_post_fit_bin_uncertainty(None),
        ]
        return calls[seed % len(calls)]
    if kind == "projections" and dim == 2:
        h = w.hists[key]
        return lambda: (h.x_projection(), h.y_projection())
    if kind == "hists":
        h = w.hists[key]
        return lambda: (h.bin_counts, h.bin_errors, h.bin_errors_sq, h.bin_mids, h.bin_edges, h.range)
    if kind == "repr":
        return lambda: (repr(mct), str(channel), repr(t), channel.bins, channel.num_bins,
                        channel.range, channel.num_nui_params, channel.has_data, mct.num_channels)
    if kind == "fitter":
        from templatefitter import TemplateFitter

        return lambda: TemplateFitter(mct, "iminuit")
    if kind == "study":
        from templatefitter import ToyStudy

        return lambda: ToyStudy(mct, "iminuit")
    return lambda: list(mct.processes)


def run(w, obs):
    """Runs the observer in `w`; injected failures are allowed."""
    faults = None
    if obs["kind"] == "toy_broken":
        faults = {"seam": "poisson", "at": 1, "do": "MemoryError"}
    call = observe(w, obs)
    out = w.sim.call(f"observe {obs['kind']}", call, faults)
    w.sim.probe("observed-" + obs["kind"])
    if not out.ok and not out.injected and obs["kind"] not in MAY_FAIL:
        from .core import Violation

        raise Violation("unexpected-exception", f"observer {obs['kind']} raised {type(out.exc).__name__}: {out.exc}")
