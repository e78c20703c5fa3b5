"""Operations of simulated analysis sessions (a `World`), shared by several
properties: generation of random operations and their execution against the
library and the reference model."""
import numpy as np

from .world import World, bin_mids, columns

SHRINK_INTS = {"k": 0, "p": 0, "c": 0}

MUTATIONS = (
    "tset_yield", "tset_nui", "tset_params", "set_yield", "update", "sys",
    "reset", "creset", "treset", "constraint", "data", "hfill",
)


def gen_op(rng, kinds, sys_fault=0.3):
    kind = rng.choice(kinds)
    op = {"op": kind, "k": rng.randrange(12), "seed": rng.getrandbits(30)}
    if kind in ("tset_yield", "set_yield"):
        op["value"] = rng.choice(
            [0.0, 1.0, round(rng.uniform(1, 5000), 3), round(rng.uniform(1, 5000), 3), 10 ** rng.randint(3, 6), 0.25]
        )
        op["type"] = rng.choice(["float", "int", "array", "npfloat"])
        op["p"] = rng.randrange(6)
    if kind in ("constraint",):
        op["p"] = rng.randrange(6)
        op["value"] = round(rng.uniform(10, 3000), 2)
        op["error"] = round(rng.uniform(1, 300), 2)
    if kind == "sys":
        op["how"] = rng.choice(["cov", "var", "var"])
        op["scale"] = round(rng.choice([0.01, 0.05, 0.1, 0.2]) * rng.uniform(0.5, 1.5), 4)
        if rng.random() < sys_fault:
            op["fault"] = rng.choice([
                {"seam": "inv", "at": 1, "do": "LinAlgError"},
                {"seam": "inv", "at": 1, "do": "MemoryError"},
                {"seam": "inv", "at": 1, "do": "KeyboardInterrupt"},
                {"seam": "binned", "at": rng.randint(1, 4), "do": "MemoryError"},
                {"seam": "binned", "at": rng.randint(1, 4), "do": "KeyboardInterrupt"},
            ])
    if kind == "creset":
        op["c"] = rng.randrange(4)
    if kind == "data":
        op["c"] = rng.randrange(8)
        op["mode"] = rng.choice(["poisson", "zeros", "float", "poisson"])
    return op


class Session(World):
    def pick(self, op):
        keys = self.keys()
        return keys[op["k"] % len(keys)] if keys else None

    def pick_process(self, op):
        ps = self.ref.processes
        return ps[op["p"] % len(ps)] if ps else None

    def rt(self, key):
        return self.ref.channels[key[0]].t[key[1]]

    def apply(self, op):
        """Executes one operation; returns True if it did something."""
        return getattr(self, "op_" + op["op"])(op)

    # -- template level
    def op_tset_yield(self, op):
        key = self.pick(op)
        if key is None:
            return False
        v = op["value"]
        kind = op["type"]
        if kind == "int":
            v = int(v)
        value = {"float": float(v), "int": int(v), "array": np.array([v]), "npfloat": np.float64(v)}[kind]
        t = self.templates[key]
        self.must(f"yield_param{key}={v}", lambda: setattr(t, "yield_param", value))
        self.rt(key).y = float(v)
        return True

    def nui_of(self, key, seed):
        rs = np.random.RandomState(seed)
        return np.round(np.clip(rs.normal(size=self.rt(key).n), -1.5, 1.5), 4)

    def op_tset_nui(self, op):
        key = self.pick(op)
        if key is None:
            return False
        theta = self.nui_of(key, op["seed"])
        t = self.templates[key]
        self.must(f"nui_params{key}", lambda: setattr(t, "nui_params", theta.copy()))
        self.rt(key).theta = theta
        return True

    def op_tnudge(self, op):
        """Parameters that hardly change."""
        key = self.pick(op)
        if key is None:
            return False
        rt, t = self.rt(key), self.templates[key]
        rs = np.random.RandomState(op["seed"])
        size = 10.0 ** rs.randint(-6, -2)
        theta = rt.theta + size * rs.choice([-1.0, 1.0], rt.n) * rs.uniform(0.5, 1.0, rt.n)
        if op["seed"] % 3:
            self.must(f"nui_params{key} nudged", lambda: setattr(t, "nui_params", theta.copy()))
        else:
            rt.y = float(rt.y * (1 + size))
            self.must(f"params{key} nudged", lambda: setattr(t, "params", np.concatenate([[rt.y], theta])))
        rt.theta = theta
        return True

    def op_tset_params(self, op):
        key = self.pick(op)
        if key is None:
            return False
        theta = self.nui_of(key, op["seed"])
        y = float(round(np.random.RandomState(op["seed"] + 1).uniform(0, 3000), 3))
        t = self.templates[key]
        arrv = np.concatenate([[y], theta])
        self.must(f"params{key}", lambda: setattr(t, "params", arrv.copy()))
        self.rt(key).theta = theta
        self.rt(key).y = y
        return True

    def op_treset(self, op):
        key = self.pick(op)
        if key is None:
            return False
        self.must(f"reset{key}", self.templates[key].reset)
        self.rt(key).reset()
        return True

    def op_sys(self, op):
        key = self.pick(op)
        if key is None:
            return False
        return self.add_systematic(key, op, op.get("fault"))

    def op_hfill(self, op):
        """The user goes on filling the histogram the template was made from."""
        key = self.pick(op)
        if key is None:
            return False
        ch = self.ch_cfg[key[0]]
        cols = bin_mids(ch)
        w = np.random.RandomState(op["seed"]).uniform(0.5, 20, len(cols[0]))
        h = self.hists[key]
        self.must(f"hist{key}.fill", lambda: h.fill(columns(ch, cols), w))
        return True

    # -- session level
    def op_set_yield(self, op):
        p = self.pick_process(op)
        if p is None:
            return False
        self.set_yield(p, float(op["value"]))
        return True

    def op_update(self, op):
        if not self.complete_params():
            return False
        self.update(self.random_x(op["seed"]))
        return True

    def complete_params(self):
        return bool(self.templates) and all(c.t for c in self.ref.channels.values())

    def drawable(self):
        """A Poisson distribution needs a non-negative (and not too large) expectation."""
        total = [sum(np.asarray(t.values, dtype=float) for t in ch.templates.values())
                 for ch in self.mct.channels.values() if ch.templates]
        return all(np.all((v >= 0) & (v < 1e15)) for v in total)

    def op_reset(self, op):
        self.reset()
        return True

    def op_creset(self, op):
        names = list(self.ref.channels)
        if not names:
            return False
        name = names[op["c"] % len(names)]
        channel = self.mct.channels[name]
        self.must(f"channel {name}.reset", channel.reset)
        for t in self.ref.channels[name].t.values():
            t.reset()
        return True

    def op_constraint(self, op):
        p = self.pick_process(op)
        if p is None:
            return False
        self.constrain(p, op["value"], op["error"])
        return True

    def op_data(self, op):
        names = [n for n, c in self.ref.channels.items() if c.t]
        if not names:
            return False
        rs = np.random.RandomState(op["seed"])
        chosen = [n for i, n in enumerate(names) if (op["c"] >> i) & 1] or names
        data = {}
        for n in chosen:
            total = sum(np.abs(t.values()) for t in self.ref.channels[n].t.values())
            total = np.minimum(np.maximum(total, 0.2), 1e7)
            if op["mode"] == "zeros":
                counts = rs.poisson(total) * (rs.uniform(size=total.shape) < 0.6)
            elif op["mode"] == "float":
                counts = np.round(total * rs.uniform(0.8, 1.2, total.shape), 3)
            elif op["mode"] == "tiny":  # weighted events of next to no weight
                counts = total * np.where(rs.uniform(size=total.shape) < 0.5, 10.0 ** rs.uniform(-9, -2, total.shape), 1)
            else:
                counts = rs.poisson(total)
            data[n] = np.asarray(counts, dtype=float).tolist()
        self.add_data(data)
        return True

    # -- observers: never mirrored, they must not change anything
    def op_read(self, op):
        self.must("read", lambda: self.snapshot())
        return True

    def op_toy(self, op):
        if not self.complete_params() or not self.drawable():
            return False
        self.must("generate_toy_dataset", self.mct.generate_toy_dataset)
        return True

    def op_asimov(self, op):
        if not self.complete_params():
            return False
        flag = bool(op["seed"] & 1)
        self.must("generate_asimov_dataset", lambda: self.mct.generate_asimov_dataset(flag))
        return True

    def op_eval(self, op):
        if not self.complete():
            return False
        x = self.random_x(op["seed"])
        nll = self.must("create_nll", self.mct.create_nll)
        self.must("nll", lambda: nll(x))
        return True
