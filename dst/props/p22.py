"""P22: drawings show the current state."""
import numpy as np

from ..build import BuildSession, gen_session
from ..core import check, close, same_nested
from ..drawn import Drawing, check_data, check_stack
from ..observers import BrokenAxis, new_axis
from ..session import SHRINK_INTS  # noqa: F401

RUNS = {"quick": 1200, "thorough": 8000}
REAL = ["Template1d", "Template2d", "Channel", "MultiChannelTemplate", "matplotlib (Agg)", "numpy"]
STUBS = ["operation scheduler", "axes that fail at a seeded drawing call"]
ASSUMPTIONS = [
    "filled shapes are read back in data coordinates; colours and styles are not specified",
    "expected contents are positive in every bin that is drawn",
]
RULE = (
    "One run builds a model in seeded order (1d/2d, with and without colours and labels) and draws templates, their "
    "projections and stacked channels, on new and on used axes and interleaved with changes of yields, nuisance "
    "parameters, systematics, data and resets; some drawings fail at a seeded call and are repeated. Every stack, "
    "uncertainty band and data point that is drawn is read back from the figure and equals the current state of the "
    "reference model, and drawing changes nothing. Non-trivial: at least 3 drawings were compared."
)
KINDS = ("tset_yield", "tset_nui", "tset_params", "set_yield", "update", "sys", "reset", "creset", "treset", "data",
         "hfill", "draw", "draw", "draw", "draw")


def gen_draw(rng):
    return {"op": "draw", "what": rng.choice(["stack", "stack", "stack", "template", "x", "y", "2d"]),
            "k": rng.randrange(12), "used": rng.random() < 0.3, "seed": rng.getrandbits(20),
            "broken": rng.choice([None, None, None, 0, 1, 2])}


def generate(rng, index, tier):
    cfg, ops = gen_session(rng, KINDS, rng.randint(5, 14), interleave=0.5, big=0.06, channels=(1, 3), processes=(1, 3),
                           max_bins=6, empty=rng.choice([0.0, 0.2]))
    ops = [gen_draw(rng) if op["op"] == "draw" else op for op in ops]
    for op in ops:
        if "value" in op and op["value"] < 1:
            op["value"] = 120.0
    ops += [gen_draw(rng) for _ in range(4)]
    colours = rng.choice(["all", "none", "some"])
    for i, t in enumerate(cfg["templates"]):
        t["colour"] = {"all": True, "none": False, "some": rng.random() < 0.5}[colours]
        t["label"] = rng.choice([None, None, "$" + "B_{%d}$" % i])
        t["vars"] = [rng.choice([None, "$M_{%d}$" % i]), rng.choice([None, "$E_{%d}$" % i])]
    return {"cfg": cfg, "ops": ops}


def nontrivial(res):
    return res["probes"].get("drawings-compared", 0) >= 3


class Gallery(BuildSession):
    """A session in which templates differ in colour and label."""

    def make(self, key):
        hist, template = super().make(key)
        t = self.t_cfg[key]
        template.color = "C2" if t["colour"] else None
        template.pretty_label = t["label"]
        for name, text in zip(self.axis_attributes(key), t["vars"]):
            setattr(template, name, text)
        return hist, template

    def axis_attributes(self, key):
        return ["pretty_variable"] if self.ch_cfg[key[0]]["dim"] == 1 else ["x_pretty_var", "y_pretty_var"]


def draw(w, op, axes):
    sim = w.sim
    keys = w.keys()
    if not keys:
        return
    what = op["what"]
    key = keys[op["k"] % len(keys)]
    if what == "stack" and w.ch_cfg[key[0]]["dim"] > 1:
        ax, before = new_axis(), w.must("snapshot", w.snapshot)
        out = sim.call("stack of a 2d channel", lambda: w.mct.channels[key[0]].plot_stacked_on(ax))
        check(isinstance(out.exc, NotImplementedError), "drawing-accepted",
              f"drawing the stack of the two-dimensional channel {key[0]}: {out.exc!r} instead of NotImplementedError")
        check(not ax.has_data(), "drawing-accepted", f"the refused stack of {key[0]} left shapes on the axes")
        diff = same_nested(before, w.must("snapshot", w.snapshot))
        check(diff is None, "drawing-effect", f"the refused stack of {key[0]} changed {diff}")
    if what in ("template", "stack") and w.ch_cfg[key[0]]["dim"] > 1:
        what = ["x", "y", "2d"][op["k"] % 3]
    if what in ("x", "y", "2d") and w.ch_cfg[key[0]]["dim"] == 1:
        what = "stack" if op["k"] % 2 else "template"
    cname, proc = key
    channel, t, rt = w.mct.channels[cname], w.templates[key], w.rt(key)
    rch = w.ref.channels[cname]
    shown = [rt] if what != "stack" else list(rch.t.values())
    if any(np.any(r.values() < 0) for r in shown):
        return
    label = f"drawing {what} of {cname if what == 'stack' else key}"
    before = w.must("snapshot", w.snapshot)
    calls = {
        "stack": lambda ax: channel.plot_stacked_on(ax), "template": lambda ax: t.plot_on(ax),
        "x": lambda ax: t.plot_x_projection_on(ax), "y": lambda ax: t.plot_y_projection_on(ax),
        "2d": lambda ax: t.plot_on(ax.figure, ax),
    }
    if op["broken"] is not None and what != "2d":
        out = sim.call(label + " on a failing axis", lambda: calls[what](BrokenAxis(new_axis(), op["broken"])))
        if not out.ok:
            check(isinstance(out.exc, OSError), "unexpected-exception",
                  f"{label} raised {type(out.exc).__name__}: {out.exc}")
            sim.fired["axis:OSError"] += 1
            sim.probe("drawing-failed")
    if op["used"] and what != "2d" and axes:
        ax = axes[-1]
    else:
        ax = new_axis()
        if what != "2d":
            axes.append(ax)
    d = Drawing(ax)
    w.must(label, lambda: calls[what](ax))
    d.done()
    sim.state(what, op["broken"], op["used"], w.t_cfg[key]["colour"], len(shown), rch.data is not None)
    edges = [np.array(e) for e in w.ch_cfg[cname]["edges"]]
    if what != "stack":
        names = [text or name for text, name in zip(w.t_cfg[key]["vars"], "xy")]
        shown_on = {"x": [names[0]], "y": [names[1]], "2d": names, "template": [names[0]]}[what]
        got = [ax.get_xlabel(), ax.get_ylabel()][:len(shown_on)]
        check(got == shown_on, "drawing-labels", f"{label}: the axes are labelled {got}, they show {shown_on}")
    if what == "2d":
        title = w.t_cfg[key]["label"] or t.name
        check(ax.get_title() == title, "drawing-labels", f"{label}: the title is {ax.get_title()!r}, not {title!r}")
        check_map(d, rt, edges, label)
    else:
        if what == "stack":
            procs = [(p, r.values().reshape(-1)) for p, r in rch.t.items()]
            err = np.sqrt(sum(r.errors().reshape(-1) ** 2 for r in rch.t.values()))
            e = edges[0]
        else:
            values, errors = rt.values(), rt.errors()
            axis = {"x": 1, "y": 0}.get(what)
            if axis is not None:
                values, errors = values.sum(axis=axis), np.sqrt((errors ** 2).sum(axis=axis))
            procs, err = [(proc, values)], errors
            e = edges[1] if what == "y" else edges[0]
        check_stack(d, [(w.t_cfg[(cname, p)]["label"] or p, v) for p, v in procs], err, e, label)
        if what == "stack":
            data = None if rch.data is None else rch.data.reshape(-1)
            check_data(d, data, w.data_errors.get(cname), e, label)
    diff = same_nested(before, w.must("snapshot", w.snapshot))
    check(diff is None, "drawing-effect", f"{label} changed {diff}")
    sim.probe("drawings-compared")


def check_map(d, rt, edges, label):
    maps = [c for c in d.collections if c.get_array() is not None]
    check(len(maps) == 1, "drawing", f"{label}: {len(maps)} colour maps were drawn")
    got = np.ma.filled(np.ma.masked_invalid(maps[0].get_array()), 0.0).reshape(-1)
    want = rt.values()
    close(got, want.T.reshape(-1), "drawing", f"{label}: contents", 1e-8, 1e-8)
    xy = np.array(maps[0].get_coordinates(), dtype=float)
    close(xy[0, :, 0], edges[0], "drawing", f"{label}: edges in x", 1e-9, 1e-9)
    close(xy[:, 0, 1], edges[1], "drawing", f"{label}: edges in y", 1e-9, 1e-9)


def run(plan, sim):
    w = Gallery(sim, plan["cfg"])
    axes = []
    n = len(plan["ops"])
    for i, op in enumerate(plan["ops"]):
        if i == n - 4:
            w.finish()
        if op["op"] == "draw":
            draw(w, op, axes)
        else:
            w.apply(op)
