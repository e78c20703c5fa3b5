"""P02: a failing fill leaves no trace."""
from . import hist_common as H
from .hist_common import ASSUMPTIONS, REAL, SHRINK_INTS, STUBS  # noqa: F401

import numpy as np

from ..core import check

RUNS = {"quick": 2500, "thorough": 20000}
RULE = (
    "One run interleaves good fills of 1-3 histograms with fills that fail: invalid input, a failing "
    "binning call (1st or 2nd), a failing allocation of the squared weights or an interrupt; after every "
    "operation each histogram is compared bit by bit with its state before the failure and with the reference. "
    "Non-trivial: at least one fill failed after another one had succeeded."
)


def generate(rng, index, tier):
    n = rng.randint(1, 3)
    hists = [H.gen_hist(rng, i) for i in range(n)]
    ops = []
    for _ in range(rng.randint(4, 20)):
        op = H.gen_fill(rng, n)
        r = rng.random()
        if r < 0.2:
            op["bad"] = rng.choice(
                ["short_weights", "text_weights", "none_weights", "missing_axis", "text_data", "ragged",
                 "nan_weights", "inf_data"]
            )
        elif r < 0.45:
            op["fault"] = {
                "seam": "binned", "at": rng.randint(1, 3),
                "do": rng.choice(["MemoryError", "ValueError", "KeyboardInterrupt"]),
            }
        elif r < 0.6:
            op["weights"] = "flaky"
            op["alloc_fault"] = rng.randint(1, 3)
        ops.append(op)
        if r < 0.6 and rng.random() < 0.5:  # the caller retries
            retry = {k: v for k, v in op.items() if k not in ("bad", "fault", "alloc_fault")}
            if retry["weights"] == "flaky":
                retry["weights"] = "array"
            ops.append(retry)
    return {"cfg": {"hists": hists}, "ops": ops}


def nontrivial(res):
    return res["probes"].get("failed", 0) >= 1 and res["probes"].get("filled", 0) >= 1


def raw(h, dim):
    edges = [h.bin_edges] if dim == 1 else list(h.bin_edges)
    return [np.array(h.bin_counts), np.array(h.bin_errors_sq), bool(h.is_empty)] + [
        np.array(e) for e in edges
    ]


def run(plan, sim):
    pairs = [H.Pair(sim, ch) for ch in plan["cfg"]["hists"]]
    for step, op in enumerate(plan["ops"]):
        if op["h"] >= len(pairs):
            continue
        pair = pairs[op["h"]]
        before = raw(pair.h, pair.ch["dim"])
        out = H.do_fill(sim, pair, op, "failed-fill")
        if not out.ok:
            sim.probe("failed")
            after = raw(pair.h, pair.ch["dim"])
            names = ["bin_counts", "bin_errors_sq", "is_empty", "bin_edges", "bin_edges"]
            for name, a, b in zip(names, before, after):
                check(
                    np.array_equal(a, b, equal_nan=True), "failed-fill",
                    f"step {step}: {name} changed by a fill that raised {type(out.exc).__name__}: "
                    f"{np.asarray(a).tolist()} -> {np.asarray(b).tolist()}",
                )
        else:
            sim.probe("filled")
        sim.state(pair.ch["dim"], op.get("bad"), str(op.get("fault")), op.get("alloc_fault"), out.ok)
        for i, p in enumerate(pairs):
            p.verify("failed-fill", f"h{i} after step {step}")
