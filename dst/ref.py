"""Reference models: small, direct implementations of what the library documents.

They share no code with the library and are only fed with plan data.
"""
import numpy as np

from . import seams


class RHist:
    """Weighted histogram: every bin is half open, the last one is closed."""

    def __init__(self, edges, dim=1):
        self.dim = dim
        self.edges = [np.array(e, dtype=float) for e in (edges if dim > 1 else [edges])]
        self.shape = tuple(len(e) - 1 for e in self.edges)
        self.counts = np.zeros(self.shape)
        self.errs_sq = np.zeros(self.shape)
        self.empty = True

    def index(self, columns):
        idx = []
        ok = np.ones(len(columns[0]), dtype=bool)
        for col, edges in zip(columns, self.edges):
            col = np.asarray(col, dtype=float)
            i = np.searchsorted(edges, col, side="right") - 1
            i = np.where(col == edges[-1], len(edges) - 2, i)
            ok &= (i >= 0) & (i < len(edges) - 1)
            idx.append(i)
        return idx, ok

    def fill(self, columns, weights=None):
        n = len(columns[0])
        w = np.ones(n) if weights is None else np.asarray(weights, dtype=float)
        idx, ok = self.index(columns)
        cells = tuple(i[ok] for i in idx)
        np.add.at(self.counts, cells, w[ok])
        np.add.at(self.errs_sq, cells, w[ok] ** 2)
        if n or self.empty is False:
            self.empty = False
        else:
            self.empty = None  # nothing is said about fills without entries

    def set_binned(self, counts, errors=None):
        self.counts = np.array(counts, dtype=float)
        self.errs_sq = (
            np.array(counts, dtype=float)
            if errors is None
            else np.array(errors, dtype=float) ** 2
        )
        self.empty = False


def cov_of_variation(nominal, up, down):
    sign = np.where(up < down, -1.0, 1.0)
    diff = sign * 0.5 * (np.abs(up - nominal) + np.abs(down - nominal))
    return np.outer(diff, diff)


class RTemplate:
    def __init__(self, counts, errs_sq):
        self.shape = np.shape(counts)
        self.c = np.array(counts, dtype=float).reshape(-1)
        e = np.array(errs_sq, dtype=float).reshape(-1)
        self.n = len(self.c)
        self.covs = [np.diag(np.where(e == 0, 1e-14, e))]
        self.original = float(np.sum(self.c))
        self.reset()
        self._update()

    def reset(self):
        self.y = self.original
        self.theta = np.zeros(self.n)

    def _update(self):
        self.cov = np.sum(self.covs, axis=0)
        sigma = np.sqrt(np.diag(self.cov))
        self.rel = np.where(self.c != 0, sigma / np.where(self.c != 0, self.c, 1.0), 1e-7)
        self.corr = self.cov / np.outer(sigma, sigma)
        self.inv_corr = np.linalg.solve(self.corr, np.eye(self.n))

    def add_cov(self, cov):
        self.covs.append(np.array(cov, dtype=float))
        self._update()

    def fractions(self, theta):
        if not np.any(self.c):
            return np.zeros(self.n)
        w = self.c * (1.0 + np.asarray(theta) * self.rel)
        return w / np.sum(w)

    def fractions_jac(self, theta):
        """df_b / dtheta_j"""
        if not np.any(self.c):
            return np.zeros((self.n, self.n))
        w = self.c * (1.0 + theta * self.rel)
        s = np.sum(w)
        f = w / s
        return (np.eye(self.n) - f[:, None]) * (self.c * self.rel / s)[None, :]

    def values(self):
        return (self.y * self.fractions(self.theta)).reshape(self.shape)

    def errors(self):
        return self.rel.reshape(self.shape) * self.values()


class RChannel:
    def __init__(self, name):
        self.name = name
        self.t = {}
        self.eff = {}
        self.data = None
        self.data_errs_sq = None

    @property
    def nbins(self):
        return next(iter(self.t.values())).n


def poisson_term(n, mu):
    """sum(mu - n - n log(mu/n)), bins without data contribute mu"""
    total = 0.0
    for ni, mi in zip(n, mu):
        if ni < 1e-100:
            total += mi - ni
        else:
            if mi <= 0:
                return np.inf
            total += mi - ni - ni * np.log(mi / ni)
    return total


class RModel:
    def __init__(self):
        self.processes = []
        self.channels = {}
        self.constraints = {}

    # parameters are addressed by name only
    def names(self):
        out = [f"{p}_yield" for p in self.processes]
        for cname, ch in self.channels.items():
            for p, t in ch.t.items():
                out.extend(f"{cname}_{p}_bin_{i}" for i in range(t.n))
        return out

    def x0(self):
        v = {f"{p}_yield": 0.0 for p in self.processes}
        for cname, ch in self.channels.items():
            for p, t in ch.t.items():
                v[f"{p}_yield"] += t.y
                for i in range(t.n):
                    v[f"{cname}_{p}_bin_{i}"] = t.theta[i]
        return np.array([v[n] for n in self.names()])

    def as_dict(self, x):
        return dict(zip(self.names(), np.asarray(x, dtype=float)))

    def expectation(self, cname, v):
        ch = self.channels[cname]
        mu = 0.0
        for p, t in ch.t.items():
            theta = np.array([v[f"{cname}_{p}_bin_{i}"] for i in range(t.n)])
            mu = mu + v[f"{p}_yield"] * ch.eff[p] * t.fractions(theta)
        return mu

    def nll(self, v):
        if not isinstance(v, dict):
            v = self.as_dict(v)
        total = 0.0
        for cname, ch in self.channels.items():
            if not ch.t:
                continue
            mu = self.expectation(cname, v)
            total += poisson_term(ch.data.reshape(-1), mu)
            for p, t in ch.t.items():
                theta = np.array([v[f"{cname}_{p}_bin_{i}"] for i in range(t.n)])
                total += 0.5 * theta @ t.inv_corr @ theta
        for p, (value, error) in self.constraints.items():
            total += 0.5 * ((v[f"{p}_yield"] - value) / error) ** 2
        return float(total)

    def nll_grad(self, x):
        """Value and gradient; (inf, None) outside of the domain."""
        names = self.names()
        pos = {n: i for i, n in enumerate(names)}
        x = np.asarray(x, dtype=float)
        g = np.zeros(len(x))
        total = 0.0
        for cname, ch in self.channels.items():
            parts = []
            mu = 0.0
            for p, t in ch.t.items():
                first = pos[f"{cname}_{p}_bin_0"]
                theta = x[first:first + t.n]
                f = t.fractions(theta)
                yi = pos[f"{p}_yield"]
                mu = mu + x[yi] * ch.eff[p] * f
                parts.append((t, ch.eff[p], yi, first, theta, f))
            n = ch.data.reshape(-1)
            has = n >= 1e-100
            if np.any(mu[has] <= 0):
                return np.inf, None
            total += np.sum(mu - n)
            total -= np.sum(n[has] * np.log(mu[has] / n[has]))
            dmu = np.ones(len(n))
            dmu[has] -= n[has] / mu[has]
            for t, eff, yi, first, theta, f in parts:
                g[yi] += eff * (dmu @ f)
                g[first:first + t.n] += x[yi] * eff * (dmu @ t.fractions_jac(theta))
                g[first:first + t.n] += t.inv_corr @ theta
                total += 0.5 * theta @ t.inv_corr @ theta
        for p, (value, error) in self.constraints.items():
            yi = pos[f"{p}_yield"]
            total += 0.5 * ((x[yi] - value) / error) ** 2
            g[yi] += (x[yi] - value) / error ** 2
        return float(total), g

    def minimum(self, fixed=None, bounds=None, start=None):
        """Independent minimisation (quasi Newton with analytic gradient).
        `fixed`: name -> value, `bounds`: name -> (low, high)."""
        fixed, bounds = dict(fixed or {}), dict(bounds or {})
        names = self.names()
        base = np.array(self.x0() if start is None else start, dtype=float)
        for n, val in fixed.items():
            base[names.index(n)] = val
        free = [i for i, n in enumerate(names) if n not in fixed]
        if not free:
            return self.nll(base), base
        scale = np.array(
            [max(1.0, np.sqrt(abs(base[i]))) if names[i].endswith("_yield") and i < len(self.processes) else 1.0
             for i in free]
        )
        lims = []
        for i, s in zip(free, scale):
            lo, hi = bounds.get(names[i], (None, None))
            lims.append((None if lo is None else lo / s, None if hi is None else hi / s))

        def fun(z):
            x = base.copy()
            x[free] = z * scale
            value, grad = self.nll_grad(x)
            if grad is None:
                return 1e12, np.zeros(len(free))
            return value, grad[free] * scale

        z = base[free] / scale
        best = None
        for _ in range(4):
            res = seams.REAL["minimize"](
                fun, z, jac=True, method="L-BFGS-B", bounds=lims,
                options={"maxiter": 20000, "maxfun": 20000, "ftol": 1e-16, "gtol": 1e-9,
                         "maxcor": 40},
            )
            if best is not None and best.fun - res.fun < 1e-12:
                best = res if res.fun <= best.fun else best
                break
            best, z = res, res.x
        x = base.copy()
        x[free] = best.x * scale
        return float(best.fun), x

    def hessian(self, x, free):
        """Numerical second derivatives of the reference likelihood from its
        analytic gradient."""
        x = np.asarray(x, dtype=float)
        h = np.zeros((len(free), len(free)))
        for a, i in enumerate(free):
            step = 1e-4 * max(1.0, np.sqrt(abs(x[i])))
            xp, xm = x.copy(), x.copy()
            xp[i] += step
            xm[i] -= step
            gp, gm = self.nll_grad(xp)[1], self.nll_grad(xm)[1]
            if gp is None or gm is None:
                return None
            h[a] = (gp[free] - gm[free]) / (2 * step)
        return 0.5 * (h + h.T)
