"""Histories of histogram fills (P01, P02)."""
import numpy as np

from ..core import Violation, check, close
from ..ref import RHist
from ..world import gen_channel, hist_class, rescale

REAL = ["templatefitter.histograms (Hist1d, Hist2d)", "scipy.stats.binned_statistic", "numpy"]
STUBS = ["caller data streams (generated)", "binning and array allocation wrapped for fault injection"]
ASSUMPTIONS = [
    "entries closer than 2e-5 bin widths to a bin edge (but not on it) are not generated: "
    "scipy's binning rounds there",
]
SHRINK_INTS = {"n": 1, "h": 0}


class Flaky(np.ndarray):
    """Event weights for which the n-th allocation of a derived array fails."""

    fail_at = None
    uses = 0

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        Flaky.uses += 1
        if Flaky.fail_at is not None and Flaky.uses == Flaky.fail_at:
            raise MemoryError("injected by the simulator")
        args = [np.asarray(x) if isinstance(x, Flaky) else x for x in inputs]
        return getattr(ufunc, method)(*args, **kwargs)


def gen_hist(rng, i):
    dim = rng.choice([1, 1, 2])
    ch = gen_channel(rng, f"h{i}", dim, 8, min_bins=1)
    if ch["how"] == "edges" and rng.random() < 0.5:
        ch["edge_type"] = rng.choice(["list", "tuple", "array"]) if dim == 2 else rng.choice(["list", "array"])
    ch["start"] = rng.choice(["empty", "empty", "empty", "ctor", "ctor", "binned", "binned_noerr", "binned_zero"])
    ch["seed"] = rng.getrandbits(30)
    if dim == 1 and ch["how"] == "int" and rng.random() < 0.3:
        ch["how"] = "tuple"
    if rng.random() < 0.35:  # narrow bins, far from zero, at values without a short binary form
        rescale(ch, rng)
    return ch


def gen_fill(rng, n_hists):
    return {
        "op": "fill",
        "h": rng.randrange(n_hists),
        "n": rng.choice([0, 1, 2, 3, 5, 8, 20, 50]) if rng.random() < 0.97 else rng.choice([2000, 12000, 30000]),
        "seed": rng.getrandbits(30),
        "weights": rng.choice(["absent", "none", "ones", "array", "list", "int", "series", "negative", "zero",
                               "narrow", "narrow", "huge"]),
        "data": rng.choice(["array", "array", "list", "series", "tuple", "float32", "integers"]),
        "near": rng.random() < 0.4,
    }


def make(ch):
    cls = hist_class(ch["dim"])
    edges = [np.array(e) for e in ch["edges"]]
    n = tuple(len(e) - 1 for e in edges)
    rng = tuple((float(e[0]), float(e[-1])) for e in edges)
    if ch["how"] == "int":
        args = (n[0], rng[0]) if ch["dim"] == 1 else (n, rng)
    elif ch["how"] == "tuple":
        args = (n, rng[0])
    else:
        kind = ch.get("edge_type", "array")
        conv = {"array": np.array, "list": list, "tuple": tuple}[kind]
        args = (list(edges[0]) if kind == "list" else np.array(edges[0]),) if ch["dim"] == 1 else (
            conv([e for e in edges]) if kind != "array" else list(edges),)
    return cls, args


def entries(ch, n, seed, near=False):
    """Entries on a fine dyadic grid relative to the edges: inside, outside and
    exactly on bin edges, including the outermost ones. With `near` some of them are
    close to bin edges."""
    rs = np.random.RandomState(seed)
    cols = []
    for axis, e in enumerate(ch.get("plain", ch["edges"])):
        e = np.array(e)
        span = e[-1] - e[0]
        lo, hi = e[0] - span / 4, e[-1] + span / 4
        col = np.round(rs.uniform(lo, hi, n) * 64) / 64
        on_edge = rs.uniform(size=n) < 0.2
        col[on_edge] = rs.choice(e, on_edge.sum())
        if "affine" in ch:
            ends = [col == e[0], col == e[-1]]
            if ch["how"] != "edges":  # where exactly inner edges are is then left to the library
                col[np.isin(col, e)] += 1 / 128
            col = ch["affine"][0] + col * ch["affine"][1]
            e = np.array(ch["edges"][axis])
            col[ends[0]], col[ends[1]] = e[0], e[-1]
        if near:
            close_by = rs.uniform(size=n) < 0.3
            size = 10.0 ** rs.uniform(-4.7, -2.0, close_by.sum()) * np.min(np.diff(e))
            col[close_by] = rs.choice(e, close_by.sum()) + rs.choice([-1.0, 1.0], close_by.sum()) * size
        cols.append(col)
    return cols


def weights_of(mode, n, seed):
    rs = np.random.RandomState(seed ^ 0x5A5A)
    w = np.round(rs.uniform(0.1, 3.0, n), 3)
    if mode in ("none", "absent"):
        return None, np.ones(n)
    if mode == "ones":
        return np.ones(n), np.ones(n)
    if mode == "array":
        return w.copy(), w
    if mode == "list":
        return w.tolist(), w
    if mode == "int":
        w = rs.randint(0, 5, n)
        return w.copy(), w.astype(float)
    if mode == "series":
        import pandas as pd

        return pd.Series(w, index=np.arange(n)[::-1] + 5), w
    if mode == "negative":
        w = w * rs.choice([-1.0, 1.0], n)
        return w.copy(), w
    if mode == "zero":
        w = w * (rs.uniform(size=n) < 0.5)
        return w.copy(), w
    if mode == "narrow":
        # types in which sums and squares do not fit
        kind = [np.int8, np.uint8, np.int16, np.int32, np.float16, np.float32, np.bool_, np.uint16][rs.randint(8)]
        top = {np.int8: 127, np.uint8: 255, np.bool_: 1, np.float16: 2000}.get(kind, 30000)
        w = rs.randint(0, top + 1, n).astype(kind)
        return w.copy(), w.astype(float)
    if mode == "huge":
        w = w * 10.0 ** rs.randint(-8, 9)
        return w.copy(), w
    if mode == "flaky":
        return w.copy().view(Flaky), w
    raise KeyError(mode)


def data_of(ch, cols, kind):
    if kind == "integers":
        cols = [c.astype([np.int64, np.int32, np.int16][len(c) % 3]) for c in cols]
    if ch["dim"] == 1:
        col = cols[0]
        if kind == "list":
            return col.tolist()
        if kind == "tuple":
            return tuple(col.tolist())
        if kind == "series":
            import pandas as pd

            return pd.Series(col, index=np.arange(len(col))[::-1] + 3)
        if kind == "float32":
            return col.astype(np.float32)
        return col.copy()
    if kind == "list":
        return [c.tolist() for c in cols]
    if kind == "tuple":
        return tuple(c.copy() for c in cols)
    if kind == "series":
        import pandas as pd

        return [pd.Series(c) for c in cols]
    if kind == "float32":
        return np.array(cols, dtype=np.float32)
    return np.array(cols)


class Pair:
    """A histogram and its reference."""

    def __init__(self, sim, ch):
        self.sim, self.ch = sim, ch
        self.ref = RHist(ch["edges"] if ch["dim"] > 1 else ch["edges"][0], ch["dim"])
        self.lost = False
        cls, args = make(ch)
        rs = np.random.RandomState(ch["seed"])
        start = ch["start"]
        if start == "empty":
            self.h = sim.must("Hist()", lambda: cls(*args))
        elif start == "ctor":
            cols = entries(ch, 12, ch["seed"])
            arg, w = weights_of("array", 12, ch["seed"])
            data = data_of(ch, cols, "array")
            pad = args if len(args) == 2 else (args[0], None)
            self.h = sim.must("Hist(data)", lambda: cls(*pad, data=data, weights=arg))
            self.ref.fill(cols, w)
        else:
            counts = np.round(rs.uniform(0, 30, self.ref.shape))
            counts[rs.uniform(size=counts.shape) < 0.2] = 0
            errs = {"binned": np.round(rs.uniform(0, 3, self.ref.shape), 3),
                    "binned_zero": np.zeros(self.ref.shape)}.get(start)
            edges = [np.array(e) for e in ch["edges"]]
            e_arg = edges[0] if ch["dim"] == 1 else edges
            form = ch["seed"] % 4
            given = counts.astype([float, int, float, np.int16][form])
            lent = [given] + ([errs.copy()] if errs is not None else [])
            if form == 2:
                lent = [x.tolist() for x in lent]
            if errs is None and ch["seed"] % 3:
                self.h = sim.must("from_binned_data", lambda: cls.from_binned_data(lent[0], e_arg))
            else:
                self.h = sim.must("from_binned_data", lambda: cls.from_binned_data(
                    lent[0], e_arg, lent[1] if errs is not None else None))
            self.ref.set_binned(counts, errs)
            for x in lent + edges:  # the caller goes on using them
                x[0] = x[-1] if isinstance(x, list) else 1 + x[-1] * 3

    def verify(self, kind, label):
        if self.lost:
            return
        h, r = self.h, self.ref
        close(h.bin_counts, r.counts, kind, f"{label}.bin_counts", 1e-9, 1e-9)
        close(h.bin_errors_sq, r.errs_sq, kind, f"{label}.bin_errors_sq", 1e-9, 1e-9)
        close(h.bin_errors, np.sqrt(r.errs_sq), kind, f"{label}.bin_errors", 1e-8, 1e-8)
        check(r.empty is None or bool(h.is_empty) == r.empty, kind, f"{label}.is_empty is {h.is_empty}")
        check(tuple(h.shape) == r.shape, kind, f"{label}.shape is {h.shape}")
        edges = [h.bin_edges] if self.ch["dim"] == 1 else list(h.bin_edges)
        mids = [h.bin_mids] if self.ch["dim"] == 1 else list(h.bin_mids)
        widths = [h.bin_widths] if self.ch["dim"] == 1 else list(h.bin_widths)
        for i, e in enumerate(r.edges):
            close(edges[i], e, kind, f"{label}.bin_edges[{i}]", 0, 1e-12)
            close(mids[i], (e[1:] + e[:-1]) / 2, kind, f"{label}.bin_mids[{i}]", 0, 1e-12)
            close(widths[i], np.diff(e), kind, f"{label}.bin_widths[{i}]", 0, 1e-12)
        ranges = [h.range] if self.ch["dim"] == 1 else list(h.range)
        for i, e in enumerate(r.edges if self.ch["how"] != "tuple" else []):
            close(ranges[i], [e[0], e[-1]], kind, f"{label}.range[{i}]", 0, 1e-12)
        close(np.reshape(h.num_bins, -1), r.shape, kind, f"{label}.num_bins")
        if self.ch["dim"] == 2:
            for got, e in zip((h.x_edges, h.y_edges), r.edges):
                close(got, e, kind, f"{label}.x_edges, y_edges", 0, 1e-12)
            for got, e in zip((h.xrange, h.yrange), r.edges):
                close(got, [e[0], e[-1]], kind, f"{label}.xrange, yrange", 0, 1e-12)
            for axis, proj in ((1, h.x_projection()), (0, h.y_projection())):
                name = f"{label}.{'xy'[1 - axis]}_projection"
                close(proj.bin_counts, r.counts.sum(axis=axis), kind, name, 1e-9, 1e-9)
                close(proj.bin_errors_sq, r.errs_sq.sum(axis=axis), kind, name + ".errors", 1e-8, 1e-8)
                close(proj.bin_edges, r.edges[1 - axis], kind, name + ".edges", 0, 1e-12)


def do_fill(sim, pair, op, kind, expect_fault=False):
    """One fill, possibly with a fault. Returns the outcome."""
    ch = pair.ch
    if "affine" in ch and op["data"] in ("integers", "float32"):
        op = dict(op, data="array")
    cols = entries(ch, op["n"], op["seed"], op.get("near") and op["data"] not in ("integers", "float32"))
    if op["data"] == "integers":
        cols = [np.round(c) for c in cols]
    arg, w = weights_of(op["weights"], op["n"], op["seed"])
    data = data_of(ch, cols, op["data"])
    bad = op.get("bad")
    h = pair.h
    if bad == "short_weights":
        arg = np.ones(op["n"] + 2)
    elif bad == "text_weights":
        arg = ["a"] * op["n"]
    elif bad == "none_weights":
        arg = np.array([None] * op["n"], dtype=object)
    elif bad == "missing_axis" and ch["dim"] == 2:
        data = [cols[0]]
    elif bad == "text_data":
        data = ["a"] * op["n"] if ch["dim"] == 1 else [cols[0], ["b"] * op["n"]]
    elif bad == "ragged" and ch["dim"] == 2:
        data = [cols[0], np.append(cols[1], cols[1][:1])]
    elif bad == "nan_weights":
        arg = np.full(op["n"], np.nan)
    elif bad == "inf_data":
        data = np.full(op["n"], np.inf) if ch["dim"] == 1 else [cols[0], np.full(op["n"], np.nan)]
    elif bad is not None:
        arg = np.ones(op["n"] + 2)
    lent = [(x, np.array(x, copy=True)) for x in [arg, *(data if ch["dim"] == 2 and bad is None else [data])]
            if isinstance(x, np.ndarray)]
    Flaky.fail_at = op.get("alloc_fault")
    Flaky.uses = 0
    try:
        if op["weights"] == "absent" and bad is None:
            out = sim.call("fill", lambda: h.fill(data), op.get("fault"))
        else:
            out = sim.call(
                f"fill {op['weights']} {bad or ''}", lambda: h.fill(data, arg), op.get("fault")
            )
    finally:
        Flaky.fail_at = None
    for x, was in lent:
        check(x.dtype == object or x.dtype.kind in "US" or np.array_equal(x, was, equal_nan=x.dtype.kind == "f"), kind,
              f"fill changed an array of its caller from {was} to {x}")
        if x.dtype.kind in "iuf" and x.size and x.flags.writeable:
            x[...] = 1  # the caller goes on using it
    if not out.ok and isinstance(out.exc, MemoryError) and op.get("alloc_fault"):
        out.fired.append(("alloc", "MemoryError", op["alloc_fault"]))
        sim.fired["alloc:MemoryError"] += 1
    if out.ok:
        if bad is None:
            pair.ref.fill(cols, w)
        else:
            # tolerated by the library: its content is no longer specified here
            pair.lost = True
            sim.probe("bad-input-accepted")
    elif bad is None and not out.injected:
        raise Violation(kind, f"fill raised {type(out.exc).__name__}: {out.exc}")
    elif bad is not None:
        sim.probe("bad-input-rejected")
    return out
