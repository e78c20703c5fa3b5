"""P01: histogram contents are exact for every fill history."""
from . import hist_common as H
from .hist_common import ASSUMPTIONS, REAL, SHRINK_INTS, STUBS  # noqa: F401

RUNS = {"quick": 2500, "thorough": 20000}
RULE = (
    "One run interleaves the fills of 1-4 histograms (1d/2d, equal/variable bins, started empty, "
    "from data or from bin contents), in seeded order, with read-outs and failing fills between them; "
    "non-trivial: at least 3 completed fills."
)


def generate(rng, index, tier):
    n = rng.randint(1, 4)
    hists = [H.gen_hist(rng, i) for i in range(n)]
    ops = []
    for _ in range(rng.randint(3, 30)):
        op = H.gen_fill(rng, n)
        if rng.random() < 0.1:
            op["fault"] = {"seam": "binned", "at": rng.randint(1, 2), "do": "MemoryError"}
        ops.append(op)
    if index % 4 == 0:  # the same entries split differently
        for op in ops:
            op.pop("fault", None)
    return {"cfg": {"hists": hists}, "ops": ops}


def nontrivial(res):
    return res["probes"].get("fills", 0) >= 3


def run(plan, sim):
    pairs = [H.Pair(sim, ch) for ch in plan["cfg"]["hists"]]
    for i, pair in enumerate(pairs):
        pair.verify("contents", f"h{i} after construction")
    for step, op in enumerate(plan["ops"]):
        if op["h"] >= len(pairs):
            continue
        out = H.do_fill(sim, pairs[op["h"]], op, "contents")
        sim.probe("fills", int(out.ok))
        for i, pair in enumerate(pairs):
            pair.verify("contents", f"h{i} after step {step}")
            sim.state(i, pair.ch["dim"], pair.ch["start"], pair.ref.empty, op["weights"], op["data"])
