"""What the result of a fit has to satisfy, judged with the reference model."""
import numpy as np

from .core import Violation, arr, check, close, num
from .session import Session, gen_op
from .world import gen_model

TOL = {"iminuit": 0.02, "scipy": 0.2}

# what the documented analyses do unless they are told otherwise
FIT = {"update_templates": True, "get_hesse": True, "fix_nui_params": False, "nui_param_limits": None}
PROFILE = {"num_points": 100, "sigma": 2.0, "subtract_min": True, "fix_nui_params": False, "num_cpu": 4}
SIGNIFICANCE = {"fix_nui_params": False}


def gen_fit_world(rng, minimizer, channels=(1, 2), processes=(1, 3), max_bins=4, nui=None, dims=(1, 1, 2),
                  level=(400, 3000), prep=True, weak=False):
    """Model, data and preparation steps of a fit that is well defined."""
    args = {"channels": channels, "processes": processes, "dims": dims}
    if minimizer == "iminuit" and rng.random() < 0.03:  # many bins
        max_bins, args = rng.randint(11, 13), {"channels": (1, 1), "processes": (1, 2), "dims": (1,)}
    cfg = gen_model(rng, max_bins=max_bins, level=level, norm_eff=rng.random() < 0.3, max_rel=0.12, **args)
    if level[1] < 100:
        for k, t in enumerate(cfg["templates"]):
            if t["mode"] == "fill":  # whole events, but not the same ones everywhere
                counts = np.array(t["counts"])
                t["counts"] = (counts + 1.0 + np.arange(counts.size).reshape(counts.shape) * (k + 1) % 4).tolist()
    scale = {p: round(rng.uniform(0.6, 1.5), 3) for p in cfg["processes"]}
    if weak and len(scale) > 1:
        scale[rng.choice(cfg["processes"])] = round(rng.choice([0.0, 0.0, 0.02, 0.05, 0.1, 0.2]), 3)
    # the data follow the model: expected events are yield * efficiency * shape
    data = gen_scaled_data(rng, cfg, scale)
    ops = []
    for _ in range(rng.randint(0, 3) if prep else 0):
        op = gen_op(rng, ["sys", "sys", "constraint"], 0.0)
        if op["op"] == "sys":
            op["scale"] = min(op["scale"], 0.08)
        if op["op"] == "constraint":
            op["value"] = round(rng.uniform(500, 3000), 2)
            op["error"] = round(rng.uniform(100, 800), 2)
        ops.append(op)
    return cfg, data, ops


def gen_scaled_data(rng, cfg, scale):
    """Data of a world in which process p has `scale[p]` times its nominal
    yield; every channel sees the same yields."""
    shapes = {}
    for t in cfg["templates"]:
        counts = np.array(t["counts"], dtype=float)
        frac = counts / max(np.sum(counts), 1e-300)
        eff = 1.0 if t["eff"] is None else t["eff"]
        mean = scale[t["proc"]] * nominal_yield(cfg, t["proc"]) * eff * frac
        shapes[t["ch"]] = shapes.get(t["ch"], 0.0) + mean
    out = {}
    for name, mean in shapes.items():
        flat = [max(0.0, rng.gauss(v, np.sqrt(v))) for v in mean.reshape(-1)]
        out[name] = np.round(flat, 0 if np.sum(mean) > 2 else 3).reshape(mean.shape).tolist()
    return out


def nominal_yield(cfg, p):
    """Yield at which channel expectations are of the size of the templates."""
    mine = [t for t in cfg["templates"] if t["proc"] == p]
    if not mine:
        return 100.0
    total = sum(float(np.sum(t["counts"])) for t in mine)
    eff = sum(1.0 if t["eff"] is None else t["eff"] for t in mine)
    return total / eff


def fixed_of(w, fix_nui, extra=()):
    """name -> starting value of the parameters a fit must not move."""
    names, x0 = w.ref.names(), w.ref.x0()
    npr = len(w.ref.processes)
    out = {}
    for i, n in enumerate(names):
        if (fix_nui and i >= npr) or n in extra:
            out[n] = float(x0[i])
    return out


def honest_failure(out, minimizer):
    """An analysis may fail without any injected fault only because SLSQP reports that it did not converge, or
    because Minuit has no covariance matrix."""
    if not isinstance(out.exc, RuntimeError) or not out.converged:
        return False
    return not out.converged[-1] if minimizer == "scipy" else not out.covariance


def check_failure(out, minimizer, label):
    exc = out.exc
    check(isinstance(exc, RuntimeError), "unexpected-exception", f"{label} raised {type(exc).__name__}: {exc}")
    check(honest_failure(out, minimizer), "failed-without-reason",
          f"{label} raised {type(exc).__name__}: {str(exc)[:200]}, no minimization failed")


def valid(w, x):
    """Well inside of the domain of the likelihood."""
    v = w.ref.as_dict(x)
    for cname, ch in w.ref.channels.items():
        if not np.all(w.ref.expectation(cname, v) > 1e-3):
            return False
        for p, t in ch.t.items():
            theta = np.array([v[f"{cname}_{p}_bin_{i}"] for i in range(t.n)])
            if np.any(np.abs(theta) > 4) or np.any(1 + theta * t.rel < 0.1):
                return False
    return True


def improvement(w, x, fixed=None, bounds=None):
    """By how much the reference minimiser, started at x, gets below x."""
    here = w.ref.nll(x)
    best, at = w.ref.minimum(fixed, bounds, start=x)
    return here - best, at


def local_minimum(w, x, fixed, bounds, tol=0.01):
    """x is (within the tolerance `tol` of the likelihood) a minimum of its own:
    a minimizer that ends here is right, whatever lies elsewhere."""
    names = w.ref.names()
    x = np.array(x, dtype=float)
    value, grad = w.ref.nll_grad(x)
    if grad is None:
        return False
    free = []
    for i, n in enumerate(names):
        lo, hi = (bounds or {}).get(n, (None, None))
        eps = 1e-3 * max(1.0, abs(x[i]))
        if n not in fixed and ((lo is not None and x[i] < lo - eps) or (hi is not None and x[i] > hi + eps)):
            return False
        stuck = (lo is not None and x[i] <= lo + eps and grad[i] > 0) or \
                (hi is not None and x[i] >= hi - eps and grad[i] < 0)
        if n not in fixed and not stuck:
            free.append(i)
    if not free:
        return True
    h = w.ref.hessian(x, free)
    if h is None or not np.all(np.isfinite(h)) or np.min(np.diag(h)) <= 0:
        return False
    scale = np.sqrt(np.diag(h))
    h = h / np.outer(scale, scale)
    g = grad[free] / scale
    if np.min(np.linalg.eigvalsh(h)) < 1e-3:
        # at a flat direction or saddle point a small slope is all a minimizer can see
        return 0.5 * g @ g < 0.1
    return 0.5 * g @ np.linalg.solve(h, g) < tol


def minuit_misjudges(w, x0, fixed, bounds, tol):
    """Minuit itself, given the reference likelihood and these starting values,
    claims to have converged away from any minimum."""
    return any(m.fmin.is_valid and improvement(w, m.np_values(), fixed, bounds)[0] > tol
               for m in minuit_alone(w, x0, fixed, bounds))


def minuit_gives_up(w, x0, fixed, bounds):
    """Minuit itself does not converge from these starting values."""
    return any(not m.fmin.is_valid for m in minuit_alone(w, x0, fixed, bounds))


def minuit_alone(w, x0, fixed, bounds):
    from .seams import REAL

    names = w.ref.names()
    nll = w.mct.create_nll()

    def same(x):
        """The likelihood of the model, where it is the right one: the last digits
        decide which way Minuit goes."""
        value, want = float(nll(x)), w.ref.nll(x)
        return want if abs(value - want) > 1e-8 * (1e3 + abs(want)) and np.isfinite(want) else value

    for fcn, jitter in ((same, 0.0), (w.ref.nll, 0.0), (same, 1e-6), (same, -1e-6), (w.ref.nll, 1e-6)):
        m = REAL["Minuit"].from_array_func(
            fcn, np.array(x0, dtype=float) * (1 + jitter), error=np.maximum(0.05 * np.abs(x0), 0.1),
            errordef=0.5, fix=[n in fixed for n in names], name=names,
            limit=[(bounds or {}).get(n, (None, None)) for n in names], print_level=0)
        m.migrad(ncall=20000)
        m.migrad(ncall=20000)
        yield m


def check_result(w, res, x0, fixed, bounds, minimizer, label, kind="fit"):
    """Honesty of a returned result: names, value, bounds, minimum."""
    names = w.ref.names()
    check(list(res.params.names) == names, kind, f"{label}: parameter names {list(res.params.names)[:6]}")
    x = arr(res.params.values, f"{label} values", (len(names),))
    errors = arr(res.params.errors, f"{label} errors", (len(names),))
    fval = num(res.fcn_min_val, f"{label} fcn_min_val")
    ref = w.ref.nll(x)
    if not np.isfinite(ref):
        check(not bool(res.succes), kind, f"{label}: success at a point with likelihood {ref}")
        return None
    close(fval, ref, kind, f"{label}: fcn_min_val against the likelihood at the result", rtol=1e-7, atol=1e-5)
    for n, value in fixed.items():
        i = names.index(n)
        check(abs(x[i] - value) <= 1e-7 * max(1.0, abs(value)), kind + "-fixed",
              f"{label}: fixed parameter {n} moved from {value!r} to {x[i]!r}")
    for n, (lo, hi) in (bounds or {}).items():
        i = names.index(n)
        eps = 1e-6 * max(1.0, abs(x[i]))
        check((lo is None or x[i] >= lo - eps) and (hi is None or x[i] <= hi + eps), kind + "-bounds",
              f"{label}: {n} = {x[i]!r} outside of [{lo}, {hi}]")
    # a parameter that does not start inside of its bounds cannot be compared with the start
    feasible = all((lo is None or x0[names.index(n)] >= lo) and (hi is None or x0[names.index(n)] <= hi)
                   for n, (lo, hi) in (bounds or {}).items() if n not in fixed)
    if feasible and bool(res.succes):
        start = w.ref.nll(x0)
        check(not np.isfinite(start) or ref <= start + 1e-3, kind,
              f"{label}: result {ref!r} is worse than the start {start!r}")
    if bool(res.succes) and valid(w, x):
        gain, at = improvement(w, x, fixed, bounds)
        tol = TOL[minimizer]
        if minimizer == "scipy":
            # SLSQP stops early in models with a (nearly) flat direction and at bounds
            free = [i for i, n in enumerate(names) if n not in fixed]
            if bounds or curvature(w, at, free, 0.03) is None:
                tol = 5.0
        if gain > tol and local_minimum(w, x, fixed, bounds):
            w.sim.probe("separate-minimum")
            return x, errors, fval
        if gain > tol and minimizer == "iminuit" and minuit_misjudges(w, x0, fixed, bounds, tol):
            w.sim.probe("misjudged-by-minuit")
            return x, errors, fval
        check(gain <= tol, kind + "-minimum",
              lambda: f"{label} claims success, but the likelihood at {dict(zip(names, at.round(3)))} is lower by "
                      f"{gain:.4g} than at the result {dict(zip(names, x.round(3)))}")
    return x, errors, fval


def curvature(w, x, free, limit=1e-4):
    """Second derivatives of the reference; None where they do not determine
    the parameters."""
    h = w.ref.hessian(x, free)
    if h is None or not np.all(np.isfinite(h)) or np.min(np.diag(h)) <= 0:
        return None
    scale = np.sqrt(np.diag(h))
    if np.min(np.linalg.eigvalsh(h / np.outer(scale, scale))) < limit:
        return None
    return h


def check_uncertainties(w, res, fixed, bounds, label, rtol, kind="fit-errors"):
    """Parameter uncertainties against the curvature of the reference
    likelihood at the result; only where every free parameter is away from
    its bounds."""
    names = w.ref.names()
    x = np.array(res.params.values, dtype=float)
    if not valid(w, x):
        return False
    for n, (lo, hi) in (bounds or {}).items():
        if n not in fixed:
            return False
    free = [i for i, n in enumerate(names) if n not in fixed]
    if not free:
        return False
    h = curvature(w, x, free)
    if h is None:
        return False
    want = np.sqrt(np.diag(np.linalg.inv(h)))
    errors = arr(res.params.errors, f"{label} errors", (len(names),))
    for i, e in zip(free, want):
        check(np.isfinite(errors[i]) and abs(errors[i] - e) <= rtol * e, kind,
              f"{label}: uncertainty of {names[i]} is {errors[i]!r}, the curvature of the likelihood gives {e!r}")
    for n in fixed:
        check(errors[names.index(n)] == 0.0, kind, f"{label}: fixed parameter {n} has uncertainty {errors[names.index(n)]!r}")
    cov = arr(res.params.covariance, f"{label} covariance", (len(names), len(names)))
    close(cov, cov.T, kind, f"{label}: covariance is not symmetric", rtol=1e-6, atol=1e-6 * np.max(np.abs(cov)))
    return True


class FitWorld(Session):
    """A session that is ready to be fitted."""

    @classmethod
    def start(cls, sim, plan, tag=""):
        w = cls(sim, plan["cfg"], tag).build()
        w.add_data(plan["data"])
        # start at sensible values: yields such that expectations have the size of the data
        for p in w.ref.processes:
            w.set_yield(p, round(nominal_yield(plan["cfg"], p), 3))
        for op in plan.get("prep", ()):
            w.apply(op)
        return w


def constrained(w, fixed, bounds, start):
    """(value, position) of the constrained minimum of the reference, or None
    when it is not a well defined one."""
    if not np.isfinite(w.ref.nll(start)):
        return None
    value, x = w.ref.minimum(fixed, bounds, start=start)
    if not valid(w, x):
        return None
    return value, x


def clipped(w, x, fixed, bounds):
    names = w.ref.names()
    x = np.array(x, dtype=float)
    for n, (lo, hi) in (bounds or {}).items():
        i = names.index(n)
        if n in fixed:
            continue
        x[i] = min(max(x[i], -np.inf if lo is None else lo), np.inf if hi is None else hi)
    for n, v in fixed.items():
        x[names.index(n)] = v
    return x


def settled(flags):
    """The last call of the minimizer converged."""
    return bool(flags) and flags[-1]


def elsewhere(w, fmin, fixed, bounds, x, loose=False):
    """The minimizer ended in another local minimum than the reference (or far
    outside of the domain in which the likelihood means anything)."""
    if len(x) != len(w.ref.names()):
        return False
    if not valid(w, x):
        return True
    gain, _ = improvement(w, x, fixed, bounds)
    if loose and gain > 0.05:
        return True
    return w.ref.nll(x) > fmin + max(0.02, 4 * gain)


def deceived(w, end, x0, fixed, bounds, minimizer):
    """The minimizer ended away from any minimum, and so does Minuit on its own."""
    return (minimizer == "iminuit" and len(end) == len(w.ref.names()) and improvement(w, end, fixed, bounds)[0] > 0.02
            and minuit_misjudges(w, x0, fixed, bounds, 0.02))


def dict_start(w, x, name, value):
    out = np.array(x, dtype=float)
    out[w.ref.names().index(name)] = value
    return out


def check_profile(w, value, name, num_points, sigma, fixed, bounds, minimizer, label, subtract=True,
                  disturbed=False, allow_nan=()):
    """A profile scan against the constrained minima of the reference. Returns
    the number of points that were compared."""
    names = w.ref.names()
    i = names.index(name)
    points = arr(value[0], f"{label} points", (num_points,))
    values = arr(value[1], f"{label} values", (num_points,))
    hesse = arr(value[2], f"{label} hesse approximation", (num_points,))
    flags = w.sim.task_converged
    if not flags and len(w.sim.converged) > num_points:
        # no worker pool was used
        flags = {j: [f] for j, f in enumerate(w.sim.converged[-num_points:])}
        nominal = w.sim.converged[:-num_points]
    else:
        nominal = w.sim.converged
    if disturbed or not settled(nominal):
        w.sim.probe("profile-not-converged")
        return 0
    best = constrained(w, fixed, bounds, clipped(w, w.ref.x0(), fixed, bounds))
    if best is None:
        return 0
    fmin, at = best
    end = w.sim.endpoints[len(nominal) - 1]
    if elsewhere(w, fmin, fixed, bounds, end) or deceived(w, end, w.ref.x0(), fixed, bounds, minimizer):
        w.sim.probe("other-local-minimum")
        return 0
    free = [j for j, n in enumerate(names) if n not in fixed]
    loose = minimizer == "scipy"  # SLSQP stops early along weakly constrained directions
    h = curvature(w, at, free, 0.03 if loose else 1e-4)
    if h is None:
        w.sim.probe("profile-degenerate")
        return 0
    near = any(abs(at[names.index(n)] - b) < 1e-3 * max(1.0, abs(b))
               for n, lims in (bounds or {}).items() if n not in fixed for b in lims if b is not None)
    mid = 0.5 * (points[0] + points[-1])
    unc = (points[-1] - points[0]) / (2 * sigma)
    if num_points > 1:
        step = np.diff(points)
        if loose and not np.all(np.isfinite(points)):
            w.sim.probe("profile-degenerate")
            return 0
        check(np.all(step > 0) and np.allclose(step, step[0], rtol=1e-6), "profile-points",
              f"{label}: scan points {points}")
    if not near and num_points > 1:
        want = float(np.sqrt(np.linalg.inv(h)[free.index(i), free.index(i)]))
        check(abs(mid - at[i]) <= (1.0 if loose else 0.1) * want, "profile-points",
              f"{label}: the scan is centred at {mid!r}, the best fit is {at[i]!r} +- {want!r}")
        if not (bounds or {}):
            check(abs(unc - want) <= 0.2 * want, "profile-points",
                  f"{label}: half width of the scan {unc!r} per sigma, the uncertainty is {want!r}")
    if num_points > 1:
        expect = 0.5 * ((points - mid) / unc) ** 2 + (0.0 if subtract else fmin)
        close(hesse, expect, "profile-hesse", f"{label} hesse approximation", rtol=1e-3,
              atol=1.0 if loose and not subtract else 0.03)
    compared = 0
    for j, point in enumerate(points):
        others = {n: b for n, b in (bounds or {}).items() if n != name}
        here = dict(fixed)
        here[name] = float(point)
        start = clipped(w, at, here, others)
        ref = constrained(w, here, others, start)
        if ref is None:
            continue
        want = ref[0] - (fmin if subtract else 0.0)
        if np.isnan(values[j]):
            check(j in allow_nan or minimizer == "scipy", "profile-value",
                  f"{label}: point {j} ({point!r}) is nan, the likelihood there is {want!r}")
            continue
        if not settled(flags.get(j, ())):
            w.sim.probe("profile-point-not-converged")
            continue
        compared += 1
        tol = (1.0 if loose else 0.05) + 0.01 * abs(want if subtract else 0.0)
        end = (w.sim.task_endpoints.get(j) or [None])[-1]
        for n, (lo, hi) in others.items() if end is not None and len(end) == len(names) else ():
            v = float(end[names.index(n)])
            eps = 1e-6 * max(1.0, abs(v))
            check(n in fixed or ((lo is None or v >= lo - eps) and (hi is None or v <= hi + eps)), "constraint-violated",
                  f"{label}: {n} is {v!r} at point {j}, its bounds are {lo!r} and {hi!r}")
        if abs(values[j] - want) > tol and end is not None and len(end) == len(names) and end[i] == point \
                and abs(w.ref.nll(end) - (fmin if subtract else 0.0) - values[j]) < 0.02 \
                and local_minimum(w, end, here, others):
            w.sim.probe("other-local-minimum")
            continue
        if abs(values[j] - want) > tol and end is not None and deceived(w, end, dict_start(w, at, name, point), here,
                                                                        others, minimizer):
            w.sim.probe("misjudged-by-minuit")
            continue
        check(abs(values[j] - want) <= tol, "profile-value",
              f"{label}: point {j} ({name} = {point!r}) has value {values[j]!r}, the constrained minimum is {want!r}")
    w.sim.probe("profile-points-compared", compared)
    return compared


def reference_significance(w, p, fixed, bounds):
    """(fitted yield, its uncertainty or None, q0) or None"""
    names = w.ref.names()
    i = names.index(f"{p}_yield")
    best = constrained(w, fixed, bounds, clipped(w, w.ref.x0(), fixed, bounds))
    if best is None:
        return None
    here = dict(fixed)
    here[names[i]] = 0.0
    others = {n: b for n, b in (bounds or {}).items() if n != names[i]}
    start = clipped(w, best[1], here, others)
    null = constrained(w, here, others, start)
    if null is None:
        return None
    return best[1][i], 2 * (null[0] - best[0])


def impossible_without(w, p, fixed):
    """There are data where nothing but process p can be (fixed: name -> value)."""
    for ch in w.ref.channels.values():
        rest = np.zeros(ch.data.size, dtype=bool)
        for q, t in ch.t.items():
            if q != p and fixed.get(f"{q}_yield") != 0.0:
                rest |= t.c != 0
        if ch.t and np.any((ch.data.reshape(-1) > 0) & ~rest):
            return True
    return False


def far_null(w, got, p, fixed, bounds, label):
    """The tested process is needed so much that the null fit ends far away from the nominal model (where the
    reference is not valid): the value still belongs to the constrained minimum, or to the point at which Minuit
    alone arrives from there."""
    names = w.ref.names()
    i = names.index(f"{p}_yield")
    best = constrained(w, fixed, bounds, clipped(w, w.ref.x0(), fixed, bounds))
    if best is None or best[1][i] < 1.0:
        return False
    here = {**fixed, names[i]: 0.0}
    others = {n: b for n, b in (bounds or {}).items() if n != names[i]}
    begin = dict_start(w, w.ref.x0(), names[i], 0.0)
    for start in (clipped(w, best[1], here, others), begin, np.array(w.sim.endpoints[-1])):
        if np.isfinite(w.ref.nll(start)):
            q0 = 2 * (w.ref.minimum(here, others, start=start)[0] - best[0])
            if abs(got ** 2 - max(q0, 0.0)) <= 0.05 + 0.02 * max(q0, 0.0):
                w.sim.probe("far-null-compared")
                return True
    for m in minuit_alone(w, begin, here, others):
        q0 = 2 * (m.fval - best[0])
        if np.isfinite(q0) and abs(got ** 2 - q0) <= 0.05 + 0.02 * abs(q0):
            w.sim.probe("misjudged-by-minuit")
            return True
    raise Violation("significance", f"{label}: significance of {p} is {got!r}, no constrained minimum has this value")


def in_domain(w, p):
    """The likelihood exists where the nominal and the null fit start."""
    x = w.ref.x0()
    null = x.copy()
    null[w.ref.names().index(f"{p}_yield")] = 0.0
    for y in (x, null):
        v = w.ref.as_dict(y)
        if any(np.any(w.ref.expectation(c, v) < 0) for c in w.ref.channels):
            return False
    return True


def check_significance(w, got, p, fixed, bounds, minimizer, label):
    if np.isnan(got) and not in_domain(w, p):
        w.sim.probe("start-outside-of-domain")
        return
    check(got >= 0, "significance", f"{label}: significance of {p} is {got!r}")
    impossible = impossible_without(w, p, fixed)
    check(np.isfinite(got) or impossible or not in_domain(w, p), "significance",
          f"{label}: significance of {p} is {got!r}, but the other processes can explain the data")
    flags, nominal = w.sim.converged, 0
    if minimizer == "iminuit" and len(flags) == 4:
        # nominal fit and null fit call Minuit twice each; the second call counts
        flags, nominal = flags[1::2], 1
    if impossible and flags and flags[0] and in_domain(w, p):
        end = w.sim.endpoints[nominal]
        if len(end) == len(w.ref.names()) and end[w.ref.names().index(f"{p}_yield")] > 0.05:
            w.sim.probe("impossible-without")
            check(np.isinf(got), "significance", f"{label}: significance of {p} is {got!r}, but there are data only {p} "
                  "can explain")
            return
    if not flags or not all(flags):
        w.sim.probe("significance-not-converged")
        return
    ref = reference_significance(w, p, fixed, bounds)
    best = constrained(w, fixed, bounds, clipped(w, w.ref.x0(), fixed, bounds))
    x0 = w.ref.x0()
    if best is not None and (elsewhere(w, best[0], fixed, bounds, w.sim.endpoints[nominal], minimizer == "scipy")
                             or deceived(w, w.sim.endpoints[nominal], x0, fixed, bounds, minimizer)):
        w.sim.probe("other-local-minimum")
        return
    if ref is None and minimizer == "iminuit" and in_domain(w, p) and not impossible and len(w.sim.converged) == 4 \
            and far_null(w, got, p, fixed, bounds, label):
        return
    if ref is None:
        # without this process the data might be impossible
        w.sim.probe("significance-undefined")
        return
    fitted, q0 = ref
    i = w.ref.names().index(f"{p}_yield")
    last = w.sim.endpoints[-1]
    if got > 0 and last[i] == 0:
        here = dict(fixed)
        here[f"{p}_yield"] = 0.0
        others = {n: b for n, b in (bounds or {}).items() if n != f"{p}_yield"}
        if elsewhere(w, best[0] + 0.5 * q0, here, others, last, minimizer == "scipy") or \
                deceived(w, last, dict_start(w, x0, f"{p}_yield", 0.0), here, others, minimizer):
            w.sim.probe("other-local-minimum")
            return
    # the nominal fit may end anywhere near zero
    tol = (0.05 if minimizer == "iminuit" else 0.5) + 0.02 * max(q0, 0.0)
    want = max(q0, 0.0)
    if fitted < 0:
        ok = got ** 2 <= tol if fitted > -1.0 else got == 0
        check(ok, "significance", f"{label}: fitted yield {fitted!r} is negative, the significance is {got!r}")
        w.sim.probe("negative-yield")
    elif fitted < 1.0 and not (len(w.sim.converged) == (4 if minimizer == "iminuit" else 2)
                               and w.sim.endpoints[nominal][i] > 0.01):
        check(got ** 2 <= want + tol, "significance", f"{label}: significance {got!r}, q0 = {q0!r}")
    else:
        check(abs(got ** 2 - want) <= tol, "significance",
              f"{label}: significance {got!r} of {p}, sqrt(q0) = {np.sqrt(want)!r}")
    w.sim.probe("significance-compared")
