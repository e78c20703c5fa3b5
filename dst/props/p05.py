"""P05: systematic uncertainties accumulate consistently, also across failures."""
import numpy as np

from ..core import check, close
from ..session import SHRINK_INTS, Session, gen_op  # noqa: F401
from ..world import check_covariance, check_template, gen_model, snap_template
from ..core import same_nested

RUNS = {"quick": 2000, "thorough": 15000}
REAL = ["Template1d/Template2d", "get_systematic_cov_mat", "Hist1d/Hist2d", "numpy", "scipy.stats"]
STUBS = ["numpy.linalg.inv and binning wrapped for fault injection", "operation scheduler"]
ASSUMPTIONS = ["variations act on the populated bins of the nominal histogram"]
RULE = (
    "One run adds a seeded sequence of covariance matrices and up/down variations to the templates of a model "
    "(1d/2d, equal and variable bins), interleaved between templates and with parameter updates; additions "
    "fail in the binning, in the matrix inversion, by interrupt or because of bad input, and are partly "
    "retried; a twin receives the successful additions in another order. "
    "Non-trivial: at least two systematics were added."
)


def generate(rng, index, tier):
    cfg = gen_model(rng, big=0.06, channels=(1, 2), processes=(1, 2), empty=rng.choice([0.0, 0.2]),
                    max_bins=rng.choice([2, 4, 6]), negative=rng.choice([0.0, 0.0, 0.5]))
    ops = []
    for _ in range(rng.randint(2, 12)):
        r = rng.random()
        if r < 0.7:
            op = gen_op(rng, ["sys"], 0.35)
            ops.append(op)
            if op.get("fault") and rng.random() < 0.6:
                ops.append({k: v for k, v in op.items() if k != "fault"})
        elif r < 0.8:
            ops.append({"op": "badsys", "k": rng.randrange(6), "seed": rng.getrandbits(20),
                        "bad": rng.choice(["shape", "weights", "down", "flat", "column"])})
        else:
            ops.append(gen_op(rng, ["tset_nui", "treset", "tset_yield", "read", "hfill"]))
    return {"cfg": cfg, "ops": ops, "perm": rng.getrandbits(30)}


def nontrivial(res):
    return res["probes"].get("added", 0) >= 2


def bad_systematic(w, op):
    key = w.pick(op)
    t, rt, ch = w.templates[key], w.rt(key), w.ch_cfg[key[0]]
    from ..world import columns

    cols, up, down = w.variation(key, op["seed"], 0.1)
    data = columns(ch, cols)
    bad = op["bad"]
    if bad in ("shape", "flat", "column") and ch["dim"] == 1:
        cov = {"shape": np.eye(rt.n + 1), "flat": np.ones(rt.n + op["k"] % 2),
               "column": np.ones((rt.n, 1)) if rt.n > 1 else np.ones((1, 2))}[bad]
        call = lambda: t.add_cov_mat(cov)
    elif bad == "down":
        call = lambda: t.add_variation(data, up, np.append(down, [1.0, 2.0]))
    else:
        call = lambda: t.add_variation(data, np.append(up, [1.0, 2.0]), down)
    before = snap_template(t)
    out = w.sim.call(f"bad systematic {bad}", call)
    check(not out.ok, "systematics", f"an invalid systematic ({bad}) was accepted")
    diff = same_nested(before, snap_template(t))
    check(diff is None, "systematics", f"a rejected systematic changed the template: {diff}")


def verify(w):
    for key, t in w.templates.items():
        check_covariance(t, w.rt(key), f"template{key}", "systematics")
        check_template(t, w.rt(key), f"template{key}", "systematics")
    want = [np.sqrt(sum(np.sum(c.t[p].errors() ** 2) for c in w.ref.channels.values() if p in c.t))
            for p in w.ref.processes]
    close(w.mct.process_yield_errors, want, "systematics", "total uncertainty of the processes", 1e-7, 1e-8)


def run(plan, sim):
    w = Session(sim, plan["cfg"]).build()
    verify(w)
    added = []
    for op in plan["ops"]:
        if op["op"] == "badsys":
            bad_systematic(w, op)
        elif op["op"] == "sys":
            key = w.pick(op)
            before = snap_template(w.templates[key])
            out = w.apply(op)
            if out.ok:
                added.append((key, op))
                sim.probe("added")
            else:
                diff = same_nested(before, snap_template(w.templates[key]))
                check(diff is None, "systematics",
                      f"a systematic that failed with {type(out.exc).__name__} changed the template: {diff}")
        else:
            w.apply(op)
        verify(w)
        sim.state(op["op"], op.get("how"), str(op.get("fault")), len(added))
    # the order in which systematics arrive does not matter
    if len(added) >= 2:
        twin = Session(sim, plan["cfg"], "twin:").build()
        order = list(added)
        np.random.RandomState(plan["perm"] % 2 ** 32).shuffle(order)
        for key, op in order:
            twin.add_systematic(key, op)
        for key, t in twin.templates.items():
            a, b = snap_template(t), snap_template(w.templates[key])
            for name in ("cov", "corr"):
                close(a[name], b[name], "systematics-order", f"template{key}.{name}", 1e-8, 1e-8)
