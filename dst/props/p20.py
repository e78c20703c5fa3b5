"""P20: every call of a minimizer stands on its own and is right about its minimum."""
import numpy as np

from ..analysis import GIVE_UP
from ..core import arr, check, close, num

RUNS = {"quick": 2500, "thorough": 20000}
SHRINK_INTS = {"n": 1, "i": 0}
REAL = ["IMinuitMinimizer", "ScipyMinimizer", "Parameters", "MinimizeResult", "iminuit", "scipy SLSQP", "numdifftools"]
STUBS = ["objective functions with a known minimum", "objective, migrad, scipy.optimize.minimize, Hessian and matrix "
         "inversion wrapped for fault injection"]
ASSUMPTIONS = [
    "objectives are smooth and convex with a finite minimum; initial values lie inside of the bounds",
    "uncertainties are compared where no bound is near the minimum",
]
RULE = (
    "One run drives one to three long-lived minimizer objects of either kind through a seeded sequence of "
    "minimizations from different starting points (with and without Hesse matrix, verbose or not, with additional "
    "arguments), fixing by name and index, releasing, new bounds and removed bounds, interleaved between the "
    "objects and with calls that fail (exceptions in the n-th evaluation, minimizers that fail or stop early, "
    "singular Hesse matrix, unwritable stdout). The reference knows the constrained minimum and the curvature; "
    "all results returned so far stay what they were. Non-trivial: at least two minimizations were compared after "
    "a change of the settings or a failure."
)


def generate(rng, index, tier):
    minis = []
    for _ in range(rng.randint(1, 3)):
        n = rng.randint(1, 4)
        minis.append({"id": rng.choice(["iminuit", "scipy", "iminuit", "Scipy", "IMinuit"]), "n": n,
                      "seed": rng.getrandbits(24), "kind": rng.choice(["quad", "quad", "quartic"]),
                      "scale": rng.choice([0, 0, 1, 2])})
    ops = []
    for _ in range(rng.randint(4, 16)):
        op = {"i": rng.randrange(3), "seed": rng.getrandbits(24), "p": rng.randrange(4)}
        r = rng.random()
        if r < 0.55:
            op.update(op="minimize", hesse=rng.random() < 0.7, verbose=rng.random() < 0.2,
                      shift=rng.choice([None, None, 0.5, -1.5]), errordef=rng.choice([0.5, 0.5, 0.5, 1.0]),
                      xtype=rng.choice(["array", "array", "list", "int"]), defaults=rng.random() < 0.4)
            if rng.random() < 0.25:
                op["fault"] = rng.choice([
                    {"seam": "fcn", "at": rng.choice([1, 2, 5, 20]), "do": rng.choice(
                        ["RuntimeError", "MemoryError", "KeyboardInterrupt", "ValueError"])},
                    {"seam": "migrad", "at": rng.randint(1, 2), "do": rng.choice(["RuntimeError", "nonconv"]), "count": 2},
                    {"seam": "scipy", "at": 1, "do": rng.choice(GIVE_UP[1:] + ["MemoryError"] * 4)},
                    {"seam": "inv", "at": 1, "do": "LinAlgError"},
                    {"seam": "hesse", "at": 1, "do": "KeyboardInterrupt"},
                    {"seam": "stdout", "at": 1, "do": "OSError"},
                ])
                op["verbose"] = op["fault"]["seam"] == "stdout" or op["verbose"]
        elif r < 0.7:
            op.update(op="fix", by=rng.choice(["name", "index"]))
        elif r < 0.8:
            op.update(op="release")
        elif r < 0.95:
            op.update(op="bounds", by=rng.choice(["name", "index"]), which=rng.choice(["both", "low", "high", "none", "tight"]))
        else:
            op.update(op="unknown", by=rng.choice(["name", "index"]), what=rng.choice(["fix", "bounds", "lengths"]))
        ops.append(op)
    for i in range(len(minis)):
        ops.append({"op": "minimize", "i": i, "seed": rng.getrandbits(24), "p": 0, "hesse": True, "verbose": False,
                    "shift": None, "errordef": 0.5, "xtype": "array"})
    return {"cfg": {"minis": minis}, "ops": ops}


def nontrivial(res):
    return res["probes"].get("compared-after-change", 0) >= 2


class Objective:
    """Convex function with known derivatives."""

    def __init__(self, cfg):
        rs = np.random.RandomState(cfg["seed"])
        n = self.n = cfg["n"]
        a = rs.normal(size=(n, n))
        corr = a @ a.T / n + np.eye(n) * 0.7
        d = np.sqrt(np.diag(corr))
        # typical size of the parameters' uncertainties: from unity to yields of thousands of events
        self.sigma = rs.uniform(0.5, 2.0, n) * 10.0 ** rs.uniform(0, cfg["scale"], n)
        self.h = np.linalg.solve(corr / np.outer(d, d), np.eye(n)) / np.outer(self.sigma, self.sigma)
        self.m = rs.normal(size=n) * 5 * self.sigma
        self.c = float(rs.normal() * 100)
        self.k = rs.uniform(0.01, 0.03, n) if cfg["kind"] == "quartic" else np.zeros(n)

    def value(self, x, shift=0.0):
        d = np.asarray(x, dtype=float) - self.m - shift * self.sigma
        return float(0.5 * d @ self.h @ d + np.sum(self.k * (d / self.sigma) ** 4) + self.c)

    def grad(self, x, shift=0.0):
        d = np.asarray(x, dtype=float) - self.m - shift * self.sigma
        return self.h @ d + 4 * self.k * d ** 3 / self.sigma ** 4

    def hesse(self, x, shift=0.0):
        d = np.asarray(x, dtype=float) - self.m - shift * self.sigma
        return self.h + np.diag(12 * self.k * d ** 2 / self.sigma ** 4)

    def minimum(self, x0, fixed, bounds, shift):
        """Constrained minimum, by projected Newton steps with an active set."""
        x = np.array(x0, dtype=float)
        lo = np.array([-np.inf if b[0] is None else b[0] for b in bounds])
        hi = np.array([np.inf if b[1] is None else b[1] for b in bounds])
        free = [i for i in range(self.n) if i not in fixed]
        if not free:
            return x

        def embed(z):
            y = x.copy()
            y[free] = z
            return y

        z = np.clip(x[free], lo[free], hi[free])
        for _ in range(400):
            g = self.grad(embed(z), shift)[free]
            h = self.hesse(embed(z), shift)[np.ix_(free, free)]
            active = ((z <= lo[free]) & (g > 0)) | ((z >= hi[free]) & (g < 0))
            inner = ~active
            if not np.any(inner):
                break
            step = np.zeros(len(z))
            step[inner] = -np.linalg.solve(h[np.ix_(inner, inner)], g[inner])
            t, here = 1.0, self.value(embed(z), shift)
            while t > 1e-12:
                new = np.clip(z + t * step, lo[free], hi[free])
                if self.value(embed(new), shift) <= here - 1e-6 * abs(g[inner] @ step[inner]) * t * 0.1:
                    break
                t /= 2
            else:
                break
            if np.allclose(new, z, rtol=1e-14, atol=1e-13):
                z = new
                break
            z = new
        return embed(z)


class Mini:
    def __init__(self, sim, cfg):
        from templatefitter.minimizer import minimizer_factory

        self.sim, self.cfg = sim, cfg
        self.obj = Objective(cfg)
        self.kind = cfg["id"].lower()
        self.names = [["a", "sig yield", "bin_0", "x"][i] for i in range(cfg["n"])]

        def fcn(x, shift=0.0):
            return self.obj.value(x, shift)

        self.m = sim.must("minimizer", lambda: minimizer_factory(cfg["id"], fcn, list(self.names)))
        self.fixed = set()
        self.bounds = [(None, None)] * cfg["n"]
        self.changed = False

    def pid(self, op):
        i = op["p"] % self.cfg["n"]
        return i, (self.names[i] if op["by"] == "name" else i)

    def start(self, op):
        rs = np.random.RandomState(op["seed"])
        x = self.obj.m + rs.normal(size=self.cfg["n"]) * 4 * self.obj.sigma
        if op["xtype"] == "int":
            x = np.round(x)
        for i, (lo, hi) in enumerate(self.bounds):
            width = hi - lo if lo is not None and hi is not None else self.obj.sigma[i]
            if lo is not None and x[i] <= lo:
                x[i] = lo + 0.3 * width
            if hi is not None and x[i] >= hi:
                x[i] = hi - 0.3 * width
        return x


def freeze(res):
    p = res.params
    return [np.array(v, dtype=float) for v in (res.fcn_min_val, p.values, p.errors, p.covariance, p.correlation,
                                               bool(res.succes))] + [list(p.names)]


def minimize(mini, op, held):
    sim, m, obj, kind = mini.sim, mini.m, mini.obj, mini.kind
    n = mini.cfg["n"]
    x0 = mini.start(op)
    arg = {"array": x0.copy(), "list": x0.tolist(), "int": x0.copy()}[op["xtype"]]
    if op["xtype"] == "int" and np.all(x0 == np.round(x0)):
        arg = x0.astype(int)
    shift = 0.0
    label = f"minimization with {kind}"
    if kind == "scipy":
        extra = {}
        if op["shift"] is not None:
            shift = op["shift"]
            extra["additional_args"] = (shift,)
        extra.update(get_hesse=op["hesse"], verbose=op["verbose"])
        documented = {"get_hesse": True, "verbose": False}
    else:
        extra = {"verbose": int(op["verbose"]), "errordef": op["errordef"], "get_hesse": op["hesse"]}
        documented = {"get_hesse": True, "errordef": 0.5}
    if op.get("defaults"):  # arguments that have their default value are left out
        extra = {k: v for k, v in extra.items() if k not in documented or documented[k] != v}
    call = lambda: m.minimize(arg, **extra)
    out = sim.call(label, call, op.get("fault"))
    sim.state(kind, len(mini.fixed), sum(b != (None, None) for b in mini.bounds), op["hesse"], str(op.get("fault")),
              out.ok, obj.n)
    fired = [f for f in out.fired]
    if not out.ok:
        check(out.injected, "unexpected-exception", f"{label} raised {type(out.exc).__name__}: {out.exc}")
        sim.probe("failed")
        mini.changed = True
        return
    res = out.value
    free = [i for i in range(n) if i not in mini.fixed]
    names = mini.names
    check(list(res.params.names) == names, "result", f"{label}: names {res.params.names}")
    x = arr(res.params.values, f"{label} values", (n,))
    errors = arr(res.params.errors, f"{label} errors", (n,))
    cov = arr(res.params.covariance, f"{label} covariance", (n, n))
    corr = arr(res.params.correlation, f"{label} correlation", (n, n))
    fval = num(res.fcn_min_val, "fcn_min_val")
    close(fval, obj.value(x, shift), "result", f"{label}: fcn_min_val against the objective at the result", 1e-10, 1e-9)
    for i in mini.fixed:
        check(abs(x[i] - x0[i]) <= 1e-9 * max(1.0, abs(x0[i])), "result-fixed",
              f"{label}: the fixed parameter {names[i]} moved from {x0[i]!r} to {x[i]!r}")
    for i in free:
        lo, hi = mini.bounds[i]
        eps = 1e-7 * obj.sigma[i]
        check((lo is None or x[i] >= lo - eps) and (hi is None or x[i] <= hi + eps), "result-bounds",
              f"{label}: {names[i]} = {x[i]!r} is outside of {mini.bounds[i]}")
    # the object shows the same result
    for what, a, b in (("param_values", m.param_values, x), ("param_errors", m.param_errors, errors),
                       ("param_covariance", m.param_covariance, cov), ("param_correlation", m.param_correlation, corr),
                       ("fcn_min_val", m.fcn_min_val, fval)):
        check(np.array_equal(np.asarray(a, dtype=float), b, equal_nan=True), "result",
              f"{label}: {what} of the minimizer differs from the result")
    for i, name in enumerate(names):
        check(res.params[name] == res.params[i] == (x[i], errors[i]), "result", f"{label}: value of {name}")
        check(res.params.get_param_value(name) == x[i] and res.params.get_param_error(name) == errors[i], "result",
              f"{label}: get_param_value/get_param_error of {name}")
    held.append((label, res, freeze(res)))
    if bool(res.succes) and not fired:
        sim.probe("compared")
        sim.probe("compared-after-change", int(mini.changed))
        best = obj.minimum(x0, mini.fixed, mini.bounds, shift)
        gain = obj.value(x, shift) - obj.value(best, shift)
        check(gain <= (0.01 if kind == "iminuit" else 0.05), "result-minimum",
              f"{label} claims success at {x}, but the objective at {best} is lower by {gain:.4g} (fixed: "
              f"{sorted(mini.fixed)}, bounds: {mini.bounds})")
        uncertainties(mini, op, best, shift, errors, cov, corr, label)
    elif not fired:
        check(kind != "scipy", "result", f"{label}: a scipy minimization that is not successful returned")
        check(False, "not-converged", f"{label}: no success for a convex function (start {x0}, fixed "
              f"{sorted(mini.fixed)}, bounds {mini.bounds})")
    elif bool(res.succes):
        best = obj.minimum(x0, mini.fixed, mini.bounds, shift)
        gain = obj.value(x, shift) - obj.value(best, shift)
        check(gain <= (0.01 if kind == "iminuit" else 0.05), "result-minimum",
              f"disturbed {label} claims success at {x}, but the objective at {best} is lower by {gain:.4g}")


def uncertainties(mini, op, best, shift, errors, cov, corr, label):
    obj, kind, n = mini.obj, mini.kind, mini.cfg["n"]
    free = [i for i in range(n) if i not in mini.fixed]
    for i in mini.fixed:
        check(errors[i] == 0 and np.all(cov[i] == 0) and np.all(cov[:, i] == 0), "result-errors",
              f"{label}: the fixed parameter {mini.names[i]} has uncertainty {errors[i]!r}, covariance {cov[i]}")
    if not op["hesse"]:
        if kind == "scipy":
            check(not np.any(errors) and not np.any(cov) and not np.any(corr), "result-errors",
                  f"{label} without Hesse matrix has uncertainties {errors}, covariance {cov}, correlation {corr}")
        return
    for i in free:
        lo, hi = mini.bounds[i]
        if lo is not None and best[i] - lo < 30 * obj.sigma[i] or hi is not None and hi - best[i] < 30 * obj.sigma[i]:
            return
    if not free:
        return
    scale = 2 * op["errordef"] if kind == "iminuit" else 1.0
    want = scale * np.linalg.inv(obj.hesse(best, shift)[np.ix_(free, free)])
    rtol = 0.05 if kind == "iminuit" else 0.02
    s = np.sqrt(np.diag(want))
    close(errors[free], s, "result-errors", f"{label}: uncertainties", rtol, 0)
    close(cov[np.ix_(free, free)] / np.outer(s, s), want / np.outer(s, s), "result-errors",
          f"{label}: covariance relative to the uncertainties", 0, 3 * rtol)
    close(corr[np.ix_(free, free)], want / np.outer(s, s), "result-errors", f"{label}: correlation", 0, 3 * rtol)
    mini.sim.probe("uncertainties-compared")


def wrong_lengths(mini):
    """A container of parameters takes one value and one uncertainty per parameter or nothing."""
    from templatefitter.minimizer import Parameters

    n = mini.cfg["n"]
    params = mini.sim.must("Parameters", lambda: Parameters(list(mini.names)))
    good = np.arange(1.0, n + 1)
    for what in ("values", "errors"):
        mini.sim.must(what, lambda: setattr(params, what, good.copy()))
        for bad in (np.ones(n + 1), np.ones(n - 1)):
            out = mini.sim.call("wrong length", lambda: setattr(params, what, bad))
            check(not out.ok, "accepted", f"{len(bad)} {what} for {n} parameters were accepted")
            check(np.array_equal(getattr(params, what), good), "accepted", f"rejected {what} changed the parameters")
    mini.sim.probe("wrong-lengths")


def run(plan, sim):
    minis = [Mini(sim, c) for c in plan["cfg"]["minis"]]
    held = []
    for op in plan["ops"]:
        mini = minis[op["i"] % len(minis)]
        kind = op["op"]
        if kind == "minimize":
            minimize(mini, op, held)
        elif kind == "fix":
            i, pid = mini.pid(op)
            sim.must("set_param_fixed", lambda: mini.m.set_param_fixed(pid))
            mini.fixed.add(i)
            mini.changed = True
        elif kind == "release":
            sim.must("release_params", mini.m.release_params)
            mini.fixed.clear()
            mini.changed = True
        elif kind == "bounds":
            i, pid = mini.pid(op)
            s, c = mini.obj.sigma[i], mini.obj.m[i]
            rs = np.random.RandomState(op["seed"])
            a = c - rs.uniform(-2, 3) * s
            b = {"both": (a, a + rs.uniform(1, 6) * s), "low": (a, None), "high": (None, a), "none": (None, None),
                 "tight": (a, a + 0.05 * s)}[op["which"]]
            sim.must("set_param_bounds", lambda: mini.m.set_param_bounds(pid, b))
            mini.bounds[i] = b
            mini.changed = True
        elif kind == "unknown":
            pid = "no such parameter" if op["by"] == "name" else 99
            if op["what"] == "lengths":
                wrong_lengths(mini)
                continue
            call = (lambda: mini.m.set_param_fixed(pid)) if op["what"] == "fix" else (
                lambda: mini.m.set_param_bounds(pid, (0.0, 1.0)))
            out = sim.call("unknown parameter", call)
            check(not out.ok, "accepted", f"{op['what']} of the unknown parameter {pid!r} was accepted")
        for label, res, frozen in held:
            now = freeze(res)
            for a, b in zip(now, frozen):
                same = a == b if isinstance(a, list) else np.array_equal(a, b, equal_nan=True)
                check(same, "result-changed", f"{kind} changed an earlier result of a {label}: {b} -> {a}")
