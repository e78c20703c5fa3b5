"""What has been drawn on an axis, read back in data coordinates.

The drawing is judged by its shapes, not by the calls that made them: every
filled shape is cut along vertical lines.
"""
import numpy as np

from .core import check, close


class Drawing:
    """The artists that appear on an axis between construction and `done`."""

    def __init__(self, ax):
        self.ax = ax
        self.old = set(map(id, ax.get_children()))
        self.labels_before = len(ax.get_legend_handles_labels()[1])

    def done(self):
        from matplotlib.collections import Collection, PolyCollection
        from matplotlib.lines import Line2D
        from matplotlib.patches import Patch

        new = [a for a in self.ax.get_children() if id(a) not in self.old and a is not self.ax.patch]
        spines = set(map(id, self.ax.spines.values()))
        new = [a for a in new if id(a) not in spines and a.get_visible()]
        self.fills = [a for a in new if isinstance(a, (Patch, PolyCollection))]
        self.collections = [a for a in new if isinstance(a, Collection)]
        self.lines = [a for a in new if isinstance(a, Line2D)]
        handles, labels = self.ax.get_legend_handles_labels()
        self.labelled = {}
        for h, text in list(zip(handles, labels)):
            parts = list(h) if isinstance(h, tuple) else [h]
            parts = [p for p in parts if p is not None]
            flat = [q for p in parts for q in (p if isinstance(p, (tuple, list)) else [p])]
            if flat and all(id(a) not in self.old for a in flat):
                self.labelled.setdefault(text, []).append(flat)
        return self

    def polygons(self, artist):
        """Outlines of a filled shape in data coordinates."""
        back = self.ax.transData.inverted()
        if hasattr(artist, "get_paths"):
            paths, trans = artist.get_paths(), artist.get_transform()
        else:
            paths, trans = [artist.get_path()], artist.get_transform()
        return [p for path in paths for p in (trans + back).transform_path(path).to_polygons(closed_only=False)]

    def span(self, artists, x):
        """Lowest and highest point of the shapes on the vertical line at x."""
        ys = []
        for a in artists:
            for p in self.polygons(a):
                q = np.vstack([p, p[:1]])
                for (x0, y0), (x1, y1) in zip(q[:-1], q[1:]):
                    if min(x0, x1) <= x <= max(x0, x1):
                        if x0 == x1:
                            ys += [y0, y1]
                        else:
                            ys.append(y0 + (y1 - y0) * (x - x0) / (x1 - x0))
        return (min(ys), max(ys)) if ys else None

    def spans(self, artists, xs):
        return [self.span(artists, x) for x in xs]

    def points(self, n):
        """Markers drawn at n positions and the vertical bars around them."""
        out = []
        for line in self.lines:
            if len(line.get_xdata()) == n and line.get_marker() not in (None, "None", "", " ", "_", "|"):
                out.append(np.array([line.get_xdata(), line.get_ydata()], dtype=float))
        bars = []
        for c in self.collections:
            if hasattr(c, "get_segments"):
                bars += [s for s in c.get_segments() if len(s) == 2 and s[0][0] == s[1][0]]
        return out, bars


def coloured(artist):
    """Whether the inside of a shape is painted."""
    if hasattr(artist, "get_fill"):
        return bool(artist.get_fill())
    return bool(np.any(np.atleast_2d(artist.get_facecolor())[..., 3:] > 0))


def positions(edges):
    """Three places in every bin."""
    e = np.array(edges, dtype=float)
    w = np.diff(e)
    return np.concatenate([e[:-1] + w * f for f in (0.1, 0.5, 0.9)])


def spans_equal(d, artists, edges, low, high, label, kind="drawing", rtol=0.0, ok=None):
    """The shapes reach from `low` to `high` in every bin."""
    xs = positions(edges)
    got = d.spans(artists, xs)
    n = len(edges) - 1
    scale = max(1.0, float(np.max(np.abs(high))))
    for i, (x, g) in enumerate(zip(xs, got)):
        b = i % n
        if ok is not None and not ok[b]:
            continue
        if abs(high[b] - low[b]) < 1e-9 * scale and g is None:
            continue
        check(g is not None, kind, f"{label}: nothing is drawn in bin {b}")
        for name, a, want in (("lower", g[0], low[b]), ("upper", g[1], high[b])):
            check(abs(a - want) <= 1e-6 * scale + rtol * abs(high[b] - low[b]), kind,
                  f"{label}: {name} end in bin {b} at x={x:.4g} is {a!r}, the model has {want!r}")


def check_stack(d, procs, err, edges, label, kind="drawing", rtol=0.0, ok=None):
    """`procs`: (label, contents) from bottom to top; `err`: half height of the band."""
    bottom = np.zeros(len(edges) - 1)
    for text, values in procs:
        found = d.labelled.get(text, [])
        check(bool(found), kind, f"{label}: no entry '{text}', but {sorted(d.labelled)}")
        spans_equal(d, found[0], edges, bottom, bottom + values, f"{label}: {text}", kind)
        bottom = bottom + values
    texts = {text for text, _ in procs}
    mine = {id(a) for text in texts for group in d.labelled[text] for a in group}
    rest = [a for a in d.fills if id(a) not in mine]
    spans_equal(d, rest, edges, bottom - err, bottom + err, f"{label}: uncertainty band", kind, rtol, ok)


def check_data(d, data, errors, edges, label, kind="drawing"):
    """Points with error bars at the bin centres; no points if `data` is None."""
    e = np.array(edges, dtype=float)
    mids = (e[1:] + e[:-1]) / 2
    points, bars = d.points(len(mids))
    if data is None:
        check(not points, kind, f"{label}: data points of a channel without data")
        return
    check(len(points) == 1, kind, f"{label}: data are drawn {len(points)} times")
    close(points[0][0], mids, kind, f"{label}: position of the data points", 1e-9, 1e-9)
    close(points[0][1], data, kind, f"{label}: data points", 1e-9, 1e-9)
    check(len(bars) == len(data), kind, f"{label}: {len(bars)} error bars for {len(data)} points")
    got = sorted((float(s[0][0]), *sorted((float(s[0][1]), float(s[1][1])))) for s in bars)
    want = [(m, v - u, v + u) for m, v, u in zip(mids, data, errors)]
    close(np.array(got), np.array(want), kind, f"{label}: error bars of the data", 1e-8, 1e-8)
