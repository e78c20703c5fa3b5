"""P23: models in one process do not influence each other."""
import os
import pickle

import numpy as np

from ..analysis import REAL, STUBS, fitter_for, result_of  # noqa: F401
from ..build import BuildSession, gen_build
from ..core import HarnessError, Violation, check, same_nested
from ..session import SHRINK_INTS, gen_op  # noqa: F401
from ..world import gen_model

RUNS = {"quick": 800, "thorough": 8000}
ASSUMPTIONS = ["the models share no library object; numpy's global random stream is re-seeded before every operation"]
RULE = (
    "Two or three models with identical process and channel names but different contents are built and used in "
    "one process, their operations (construction, changes, systematics, fits with long-lived fitters and their fixed and bounded parameters, toys, "
    "failing operations) interleaved by the seeded scheduler; each is compared with the same history executed "
    "alone in a fresh process. Non-trivial: at least two models were active and at least one fit ran."
)
KINDS = ("tset_yield", "tset_nui", "set_yield", "update", "sys", "reset", "data", "constraint", "fit", "toydata",
         "eval", "hfill", "study", "study")


def generate(rng, index, tier):
    n = rng.choice([2, 2, 3])
    cfg = gen_model(rng, big=0.06, channels=(1, 2), processes=(1, 3), max_bins=4)
    models = []
    ops = []
    for m in range(n):
        mine = cfg if rng.random() < 0.5 else gen_model(rng, channels=(1, 2), processes=(1, 3), max_bins=4)
        models.append({"cfg": mine})
        seq = gen_build(rng, mine)
        seq += [gen_op(rng, KINDS, 0.4) for _ in range(rng.randint(2, 7))]
        seq += [{"op": "fit", "k": 0, "seed": rng.getrandbits(20)}]
        for op in seq:
            op["m"] = m
            if op["op"] == "fit":
                op["update"] = rng.random() < 0.5
                if rng.random() < 0.35:
                    op["setting"] = {"what": rng.choice(["fix", "bound", "bound"]), "i": rng.randrange(8),
                                     "by": rng.choice(["name", "index"]), "width": round(rng.uniform(0.01, 0.5), 3)}
                if rng.random() < 0.3:
                    op["fault"] = {"seam": "fcn", "at": rng.randint(1, 20), "do": "RuntimeError"}
        ops.append(seq)
    merged = []
    while any(ops):
        live = [s for s in ops if s]
        merged.append(rng.choice(live).pop(0))
    merged += [{"op": "read", "m": m} for m in range(n)]
    return {"models": models, "ops": merged}


def nontrivial(res):
    return res["probes"].get("fits", 0) >= 1 and res["probes"].get("models", 0) >= 2


class Runner:
    """One model with its own fitter and toy study."""

    def __init__(self, sim, cfg, m):
        self.w = BuildSession(sim, cfg, f"model{m}:")
        self.fitter = self.study = None
        self.snaps = []

    def set(self, setting):
        """Fixes or bounds a parameter of this model's fitter."""
        if setting is None:
            return
        w, names = self.w, self.w.ref.names()
        i = setting["i"] % len(names)
        pid = names[i] if setting["by"] == "name" else i
        if setting["what"] == "fix":
            w.must("set_parameter_fixed", lambda: self.fitter.set_parameter_fixed(pid))
        else:
            x = float(w.ref.x0()[i])
            d = setting["width"] * max(1.0, abs(x))
            w.must("set_parameter_bounds", lambda: self.fitter.set_parameter_bounds(pid, (x - d, x + d)))

    def step(self, op):
        from templatefitter import ToyStudy

        w, sim = self.w, self.w.sim
        np.random.seed(op.get("seed", 0) % 2 ** 32)
        extra = None
        if op["op"] == "fit":
            w.finish()
            self.fitter = self.fitter or fitter_for(w, "iminuit")
            self.set(op.get("setting"))
            out = sim.call(f"{w.tag}fit", lambda: self.fitter.do_fit(
                update_templates=op["update"], verbose=0,
                fix_nui_params=len(w.ref.names()) > 14 or op["seed"] % 2 == 0), op.get("fault"))
            extra = result_of(out.value) if out.ok else type(out.exc).__name__
            for key, t in w.templates.items():
                p = np.array(t.params, dtype=float)
                w.rt(key).y, w.rt(key).theta = p[0], p[1:]
            sim.probe("fits")
        elif op["op"] == "study":
            w.finish()
            if w.drawable():
                self.study = self.study or w.must("ToyStudy()", lambda: ToyStudy(w.mct, "iminuit"))
                extra = sim.call(f"{w.tag}study", lambda: self.study.do_experiments(1 + op["k"] % 3, 2)).ok
        elif op["op"] == "toydata":
            if w.complete() and w.drawable():
                data = w.must("toy", w.mct.generate_toy_dataset)
                w.must("add_data", lambda: w.mct.add_data(**data))
                for name in data:
                    w.ref.channels[name].data = np.array(w.mct.channels[name].data_bin_counts, dtype=float)
        else:
            w.apply(op)
        if self.study is not None:
            try:
                extra = [extra, np.array(self.study.result_parameters), np.array(self.study.result_uncertainties)]
            except RuntimeError:
                extra = [extra, "no results"]
        self.snaps.append((op["op"], w.must("snapshot", lambda: w.snapshot()), extra))


def alone(sim, plan, m):
    """The history of one model in a process of its own."""
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                runner = Runner(sim, plan["models"][m]["cfg"], m)
                for op in plan["ops"]:
                    if op["m"] == m:
                        runner.step(op)
                answer = ("ok", runner.snaps)
            except Violation as v:
                answer = ("violation", (v.kind, v.message))
            except BaseException as exc:
                answer = ("error", repr(exc))
            with os.fdopen(wfd, "wb") as fh:
                pickle.dump(answer, fh)
        finally:
            os._exit(0)
    os.close(wfd)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    if not data:
        raise HarnessError("baseline process died")
    kind, value = pickle.loads(data)
    if kind == "violation":
        raise Violation(*value)
    if kind == "error":
        raise HarnessError(f"baseline: {value}")
    return value


def run(plan, sim):
    active = sorted({op["m"] for op in plan["ops"]})
    base = {m: alone(sim, plan, m) for m in active}
    runners = {m: Runner(sim, plan["models"][m]["cfg"], m) for m in active}
    sim.probe("models", len(active))
    order = []
    for op in plan["ops"]:
        runners[op["m"]].step(op)
        order.append(op["m"])
        sim.state(op["op"], op["m"], len(set(order)))
    for m in active:
        for step, ((name, a, ra), (_, b, rb)) in enumerate(zip(base[m], runners[m].snaps)):
            diff = same_nested(a, b, 1e-7, 1e-7)
            check(diff is None, "interference", f"model {m}, step {step} ({name}): other models changed {diff}")
            diff = same_nested(ra, rb, 1e-6, 1e-6)
            check(diff is None, "interference", f"model {m}, step {step} ({name}): other models changed the fit {diff}")
