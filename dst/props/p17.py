"""P17: toys are independent Poisson variables around the current expectation,
Asimov data are the expectation itself."""
import numpy as np

from ..core import check, close, same_nested
from ..session import SHRINK_INTS, Session, gen_op  # noqa: F401
from ..toys import check_integer, expectation
from ..world import gen_data, gen_model, shape_of, snap_model

RUNS = {"quick": 1000, "thorough": 8000}
REAL = ["MultiChannelTemplate", "Channel", "templates", "histograms", "scipy.stats.poisson"]
STUBS = ["numpy global random stream seeded per run", "poisson generator wrapped for fault injection"]
ASSUMPTIONS = [
    "randomness comes from the global numpy stream (numpy.random.seed), as a user controls it",
    "distributions are judged by tests with a false alarm probability below 1e-9 per run",
]
RULE = (
    "One run draws many toys and Asimov datasets from one model between seeded changes of yields, nuisance "
    "parameters, systematics and data, with failing Poisson draws in between. Every toy has integer counts and "
    "Poisson errors in the binning of its channel; mean, variance and correlations between bins, channels and "
    "consecutive toys of a batch are tested against independent Poisson variables around the current expectation; "
    "the same seed gives the same toys and consecutive toys differ; Asimov data equal the (rounded) expectation. "
    "Non-trivial: at least one batch was tested."
)


def generate(rng, index, tier):
    cfg = gen_model(rng, big=0.04, channels=(1, 3), processes=(1, 3), max_bins=5,
                    level=rng.choice([(5, 40), (50, 500), (1000, 20000)]), dims=(1, 1, 2))
    ops = []
    for _ in range(rng.randint(1, 3)):
        for _ in range(rng.randint(0, 3)):
            op = gen_op(rng, ["set_yield", "tset_nui", "tset_yield", "sys", "data", "reset", "creset"], 0.2)
            if op["op"] in ("set_yield", "tset_yield"):
                op["value"] = round(rng.choice([5, 100, 3000]) * rng.uniform(0.5, 2), 2)
            if op["op"] == "sys":
                op["scale"] = min(op["scale"], 0.08)
            ops.append(op)
        op = {"op": "batch", "n": rng.choice([150, 300]), "seed": rng.getrandbits(30), "fault": None}
        if rng.random() < 0.3:
            op["fault"] = {"seam": "poisson", "at": rng.randint(1, 3),
                           "do": rng.choice(["MemoryError", "ValueError", "KeyboardInterrupt"])}
        ops.append(op)
    return {"cfg": cfg, "data": gen_data(rng, cfg) if rng.random() < 0.5 else {}, "ops": ops}


def nontrivial(res):
    return res["probes"].get("batches", 0) >= 1


def run(plan, sim):
    w = Session(sim, plan["cfg"]).build()
    if plan["data"]:
        w.add_data(plan["data"])
    for op in plan["ops"]:
        if op["op"] == "batch":
            batch(w, op)
        else:
            w.apply(op)


def counts_of(w, datasets, label):
    """Public content of a dictionary of datasets."""
    check(isinstance(datasets, dict) and list(datasets) == list(w.ref.channels), "toy",
          f"{label}: datasets for channels {list(datasets)}, the model has {list(w.ref.channels)}")
    out = {}
    for name, h in datasets.items():
        cfg = w.ch_cfg[name]
        c = np.array(h.bin_counts, dtype=float)
        check(c.shape == tuple(shape_of(cfg)), "toy", f"{label}: {name} has shape {c.shape}")
        edges = h.bin_edges if cfg["dim"] == 2 else [h.bin_edges]
        for a, b in zip(edges, cfg["edges"]):
            close(a, b, "toy", f"{label}: bin edges of {name}", 1e-12, 1e-12)
        close(h.bin_errors, np.sqrt(c), "toy", f"{label}: bin errors of {name}", 1e-9, 1e-9)
        out[name] = c.reshape(-1)
    return out


def batch(w, op):
    sim = w.sim
    mu = expectation(w)
    if any(np.any(m < 0) for m in mu.values()):
        sim.probe("negative-expectation")
        return
    before = w.must("snapshot", lambda: snap_model(w.mct, w.complete()))
    if op["fault"]:
        out = sim.call("generate_toy_dataset", w.mct.generate_toy_dataset, op["fault"])
        check(out.ok or out.injected, "unexpected-exception", f"generate_toy_dataset raised {out.exc}")
    np.random.seed(op["seed"])
    draws = w.must("toys", lambda: [w.mct.generate_toy_dataset() for _ in range(op["n"])])
    toys = [counts_of(w, d, f"toy {k}") for k, d in enumerate(draws)]
    for k in range(0, len(toys), 10):
        check_integer(w, toys[k], f"toy {k}")
    np.random.seed(op["seed"])
    again = counts_of(w, w.must("toy", w.mct.generate_toy_dataset), "toy again")
    diff = same_nested(toys[0], again)
    check(diff is None, "toy-seed", f"the same seed gives another toy: {diff}")
    # a later toy must not change an earlier one
    diff = same_nested(toys[0], counts_of(w, draws[0], "toy 0"))
    check(diff is None, "toy-seed", f"toy 0 changed after it was handed out: {diff}")
    statistics(w, toys, mu, op["n"])
    single(w, op["seed"], mu)
    asimov(w, mu)
    after = w.must("snapshot", lambda: snap_model(w.mct, w.complete()))
    diff = same_nested(before, after)
    check(diff is None, "model-changed", f"generating toys changed the model: {diff}")
    sim.probe("batches")
    sim.state(len(mu), sum(len(m) for m in mu.values()), str(op["fault"]))


LIMIT = 7.5


def statistics(w, toys, mu, n):
    all_mu = np.concatenate([mu[c] for c in mu])
    x = np.array([np.concatenate([t[c] for c in mu]) for t in toys])
    zero = all_mu == 0
    check(np.all(x[:, zero] == 0), "toy", "events in a bin without expectation")
    use = all_mu * n > 200
    x, m = x[:, use], all_mu[use]
    if not len(m):
        return
    z = (x.mean(axis=0) - m) / np.sqrt(m / n)
    k = int(np.argmax(np.abs(z)))
    check(abs(z[k]) < LIMIT, "toy-mean",
          f"mean of {n} toys in bin {k} is {x[:, k].mean()!r}, the expectation is {m[k]!r}")
    # variance of the sample variance: (mu4 - sigma^4)/n, mu4 = m + 3 m^2
    r = ((x - m) ** 2).mean(axis=0)
    zv = (r - m) / np.sqrt((m + 2 * m ** 2) / n)
    k = int(np.argmax(np.abs(zv)))
    check(-LIMIT < zv[k] < LIMIT + 2 + 10 / np.sqrt(m[k]), "toy-variance",
          f"variance of {n} toys in bin {k} is {r[k]!r}, the expectation is {m[k]!r}")
    y = (x - m) / np.sqrt(m)
    corr = y.T @ y / n
    np.fill_diagonal(corr, 0.0)
    lag = y[1:].T @ y[:-1] / n
    for what, c in (("bins", corr), ("consecutive toys", lag)):
        i, j = np.unravel_index(np.argmax(np.abs(c)), c.shape)
        check(abs(c[i, j]) * np.sqrt(n) < LIMIT + 2 + 10 / np.sqrt(min(m[i], m[j])), "toy-correlation",
              f"{what} {i} and {j} of {n} toys have correlation {c[i, j]!r}")
    same = np.all(x[1:] == x[:-1], axis=1)
    if np.sum(m) > 200 and len(m) >= 2:
        check(np.sum(same) < 3, "toy-correlation", f"{int(np.sum(same))} of {n} toys are equal to the one before")


def single(w, seed, mu):
    """The same from one channel of the model."""
    name = list(w.ref.channels)[seed % len(w.ref.channels)]
    ch, cfg = w.mct.channels[name], w.ch_cfg[name]
    many = w.must("toys of a channel", lambda: [ch.generate_toy_dataset() for _ in range(40)])
    x = np.array([np.array(h.bin_counts, dtype=float).reshape(-1) for h in many])
    close(many[0].bin_errors, np.sqrt(np.array(many[0].bin_counts, dtype=float)), "toy", "bin errors of a toy", 1e-9, 1e-9)
    use = mu[name] * len(x) > 200
    check(np.all(x == np.round(x)), "toy", f"toys of channel {name} have contents which are no integers")
    z = np.abs(x.mean(axis=0) - mu[name])[use] / np.sqrt(mu[name][use] / len(x))
    check(np.all(z < LIMIT), "toy-mean", f"mean of toys of channel {name} is {x.mean(axis=0)}, expected {mu[name]}")
    z = np.ptp(x, axis=0)[mu[name] > 20]
    check(np.all(z > 0), "toy-correlation", f"{len(x)} toys of channel {name} are equal")
    for args, integer in ((), False), ((False,), False), ((True,), True):
        h = w.must("Asimov data of a channel", lambda: ch.generate_asimov_dataset(*args))
        got = np.array(h.bin_counts, dtype=float)
        check(got.shape == tuple(shape_of(cfg)), "asimov", f"Asimov data of {name} have shape {got.shape}")
        want = np.reshape(mu[name], got.shape)
        if integer:
            check(np.all(got == np.round(got)) and np.all(np.abs(got - want) <= 0.5 + 1e-9), "asimov",
                  f"integer Asimov data of {name} are {got}, the expectation is {want}")
        else:
            close(got, want, "asimov", f"Asimov data of channel {name}", 1e-9, 1e-9)
        close(h.bin_errors, np.sqrt(got), "asimov", f"bin errors of Asimov data of {name}", 1e-9, 1e-9)


def asimov(w, mu):
    exact = w.must("asimov", w.mct.generate_asimov_dataset)
    rounded = w.must("asimov", lambda: w.mct.generate_asimov_dataset(integer_values=True))
    for datasets, integer in ((exact, False), (rounded, True)):
        got = counts_of(w, datasets, "Asimov data")
        for name, m in mu.items():
            if integer:
                check(np.all(got[name] == np.round(got[name])) and np.all(np.abs(got[name] - m) <= 0.5 + 1e-9),
                      "asimov", f"integer Asimov data of {name} are {got[name]}, the expectation is {m}")
            else:
                close(got[name], m, "asimov", f"Asimov data of {name}", 1e-9, 1e-9)
