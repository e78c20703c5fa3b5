"""Sessions in which the model itself is put together step by step, interleaved
with use: processes, channels, templates and data arrive in seeded order."""
from .session import Session, gen_op
from .world import gen_model


def gen_build(rng, cfg):
    """A random linear extension of the construction steps."""
    steps = [{"op": "b_process", "name": p} for p in cfg["processes"]]
    steps += [{"op": "b_channel", "name": c["name"]} for c in cfg["channels"]]
    steps += [{"op": "b_template", "ch": t["ch"], "proc": t["proc"]} for t in cfg["templates"]]
    rng.shuffle(steps)
    out, have = [], set()
    while steps:
        for s in steps:
            if s["op"] != "b_template" or {("b_process", s["proc"]), ("b_channel", s["ch"])} <= have:
                out.append(s)
                have.add((s["op"], s.get("name")))
                steps.remove(s)
                break
    return out


def gen_session(rng, kinds, n_ops, interleave=0.5, **model_args):
    cfg = gen_model(rng, **model_args)
    ops = gen_build(rng, cfg)
    extra = [gen_op(rng, kinds) for _ in range(n_ops)]
    if rng.random() < interleave:
        for op in extra:
            ops.insert(rng.randint(0, len(ops)), op)
    else:
        ops += extra
    return cfg, ops


class BuildSession(Session):
    def op_b_process(self, op):
        if op["name"] in self.ref.processes:
            return False
        self.define_process(op["name"])
        return True

    def op_b_channel(self, op):
        if op["name"] in self.ref.channels:
            return False
        self.define_channel(op["name"])
        return True

    def op_b_template(self, op):
        key = (op["ch"], op["proc"])
        if key in self.templates or op["ch"] not in self.ref.channels or op["proc"] not in self.ref.processes:
            return False
        self.add_template(key)
        return True

    def finish(self):
        """Whatever is still missing, so that the session ends usable."""
        for p in self.cfg["processes"]:
            self.op_b_process({"name": p})
        for c in self.cfg["channels"]:
            self.op_b_channel({"name": c["name"]})
        for t in self.cfg["templates"]:
            self.op_b_template(t)
        missing = [n for n, c in self.ref.channels.items() if c.data is None]
        for n in missing:
            self.add_data({n: sum(t.values() for t in self.ref.channels[n].t.values()).round().tolist()})
