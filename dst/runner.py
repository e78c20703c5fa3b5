"""Command line of the checks.

  python -m dst.runner check P07 [quick|thorough]   run the check of one property
  python -m dst.runner replay FILE                  re-execute a replay file
  python -m dst.runner digest P07 N [workers]       trace digests of N runs (determinism test)
  python -m dst.runner one P07 INDEX                execute one run verbosely

Every simulated run happens in its own forked process: it starts from the same
freshly imported state, so one (VERIF_SEED, run index) pair is one execution.
"""
import hashlib
import importlib
import json
import os
import pickle
import random
import selectors
import signal
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("DST_WORKERS") or os.cpu_count() or 4)
RUN_CPU_LIMIT = 150.0       # cpu seconds of one simulated run
RUN_WALL_LIMIT = 600.0      # wall seconds of one simulated run: harness error
SHRINK_ATTEMPTS = 160


def setup():
    from . import seams

    seams.install()
    import warnings

    import numpy as np

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    import templatefitter  # noqa: F401
    import templatefitter.templates_legacy  # noqa: F401

    here = os.path.realpath(templatefitter.__file__)
    want = os.path.realpath(os.path.join(os.environ.get("DST_REPO", "/repo"), "templatefitter"))
    if os.path.dirname(here) != want:
        raise SystemExit(f"templatefitter imported from {here}, not from {want}")
    warm_up()


def warm_up():
    """Compile the jitted functions once, before the runs are forked."""
    import numpy as np

    from templatefitter.histograms import Hist1d
    from templatefitter.templates import Template1d
    from templatefitter.utility import xlogyx

    try:
        t = Template1d("w", "w", Hist1d.from_binned_data(np.ones(2), np.arange(3.0)))
        t.fractions(np.zeros(2))
        xlogyx(np.ones(2), np.ones(2))
    except Exception:
        pass  # reported by the runs themselves


def load(prop):
    return importlib.import_module(f"dst.props.{prop.lower()}")


def make_plan(prop, master, index, tier):
    mod = load(prop)
    seed = random.Random(f"{prop}-{master}-{index}").getrandbits(48)
    rng = random.Random(seed)
    plan = mod.generate(rng, index, tier)
    plan = json.loads(json.dumps(plan))  # plans are plain JSON
    plan["property"] = prop
    plan["seed"] = seed
    return plan


def _alarm(signum, frame):
    from .core import Hang, Sim

    exc = Hang(f"run used more than {RUN_CPU_LIMIT:.0f} s of cpu")
    if Sim.current is not None:
        Sim.current.hang = exc
    raise exc


def blame(exc):
    """Kind of violation shown by an exception nothing in the harness expects, or None.

    Everything the harness evaluates outside of `Sim.call` has to work (properties that are read,
    results that are taken apart).  An exception that comes out of the code under test breaks that;
    so does a result that cannot be taken apart.  Trouble of the harness itself (I/O, memory, names
    that it does not find) stays an error without a verdict."""
    import templatefitter

    from .core import HarnessError

    if not isinstance(exc, Exception) or isinstance(exc, (HarnessError, MemoryError, OSError)):
        return None
    home = os.path.dirname(os.path.realpath(templatefitter.__file__)) + os.sep
    frames = [os.path.realpath(f.filename) for f in traceback.extract_tb(exc.__traceback__)]
    if any(f.startswith(home) for f in frames):
        return "unexpected-exception"
    if isinstance(exc, (TypeError, ValueError, IndexError, KeyError)):
        return "malformed"
    if isinstance(exc, AttributeError) and exc.obj is None:
        return "malformed"
    return None


def execute(plan):
    """Executes one plan in this process. Returns a result dictionary."""
    import numpy as np

    from .core import Hang, Sim, Violation

    mod = load(plan["property"])
    sim = Sim(plan)
    Sim.current = sim
    np.random.seed(plan["seed"] % (2 ** 32))
    random.seed(plan["seed"])
    result = {"violation": None, "error": None}
    try:
        mod.run(plan, sim)
        if sim.hang is not None:
            raise sim.hang
        if sim.open_pools:
            raise Violation("resource-leak", "a worker pool was left running")
    except Violation as v:
        result["violation"] = {"kind": v.kind, "message": v.message}
        sim.log("violation", v.kind, v.message)
    except Hang as h:
        result["violation"] = {"kind": "no-progress", "message": str(h)}
        sim.log("violation", "no-progress")
    except BaseException as exc:
        kind = blame(exc)
        if kind is None:
            result["error"] = traceback.format_exc()
        else:
            where = traceback.extract_tb(exc.__traceback__)[-1]
            result["violation"] = {"kind": kind, "message": f"{type(exc).__name__}: {exc} "
                                   f"({os.path.basename(where.filename)}:{where.lineno})"}
            sim.log("violation", kind, type(exc).__name__)
    finally:
        Sim.current = None
    result.update(
        digest=sim.digest(),
        events=sim.n_events,
        steps=sim.steps,
        clock=sim.clock,
        fired=dict(sim.fired),
        probes=dict(sim.probes),
        schedules=sorted(sim.schedules),
        states=sorted(sim.states),
        tail=list(sim.tail),
    )
    return result


def _child(plan_source, out_fd):
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    if not os.environ.get("DST_STDERR"):
        os.dup2(devnull, 2)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, RUN_CPU_LIMIT, 5.0)
    try:
        plan = plan_source()
        result = execute(plan)
        result["plan"] = plan
    except BaseException:
        result = {"violation": None, "error": traceback.format_exc(), "plan": None}
    signal.setitimer(signal.ITIMER_PROF, 0)
    payload = pickle.dumps(result)
    while payload:
        n = os.write(out_fd, payload)
        payload = payload[n:]


CRASHES = (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL)


def crashed(plan, how):
    return {"violation": {"kind": "process-died", "message": f"the process died of {how}"}, "error": None,
            "plan": plan, "digest": hashlib.sha256(how.encode()).hexdigest()[:24], "events": 0, "steps": 0,
            "clock": 0.0, "fired": {}, "probes": {}, "schedules": [], "states": [], "tail": []}


def run_many(sources, workers=None, stop=None):
    """Runs the plan sources [(key, callable)], each in its own process.
    Yields (key, result) in completion order."""
    workers = workers or WORKERS
    sel = selectors.DefaultSelector()
    active = {}
    pending = iter(sources)
    exhausted = False

    def launch(key, source):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(r)
                _child(source, w)
            finally:
                os._exit(0)
        os.close(w)
        sel.register(r, selectors.EVENT_READ, pid)
        active[pid] = [key, r, [], time.monotonic(), source]

    def finish(pid):
        key, r, chunks, _, source = active.pop(pid)
        sel.unregister(r)
        os.close(r)
        try:
            os.killpg(pid, signal.SIGKILL)  # leftovers of the run
        except (ProcessLookupError, PermissionError):
            pass
        _, status = os.waitpid(pid, 0)
        data = b"".join(chunks)
        if not data and os.WIFSIGNALED(status) and os.WTERMSIG(status) in CRASHES:
            # the code under test took the whole process with it
            return key, crashed(source(), signal.Signals(os.WTERMSIG(status)).name)
        if not data:
            return key, {"violation": None, "error": "run process died or timed out", "plan": None}
        return key, pickle.loads(data)

    try:
        while True:
            while not exhausted and len(active) < workers and not (stop and stop()):
                try:
                    key, source = next(pending)
                except StopIteration:
                    exhausted = True
                    break
                launch(key, source)
            if not active:
                return
            for sk, _ in sel.select(timeout=5.0):
                pid = sk.data
                chunk = os.read(sk.fd, 1 << 20)
                if chunk:
                    active[pid][2].append(chunk)
                else:
                    yield finish(pid)
            now = time.monotonic()
            for pid in [p for p, a in active.items() if now - a[3] > RUN_WALL_LIMIT]:
                active[pid][2].clear()
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                yield finish(pid)
            if stop and stop() and not active:
                return
    finally:
        for pid in list(active):
            try:
                os.killpg(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(pid, 0)


def run_one(plan):
    for _, result in run_many([(0, lambda: plan)], workers=1):
        return result


# -- shrinking ---------------------------------------------------------------


def shrink(plan, kind):
    """Delta debugging over the operation list, then over faults and numbers.
    Keeps a candidate only if it fails with the same violation class."""
    budget = [SHRINK_ATTEMPTS]

    def fails(candidates):
        """First candidate which still fails (evaluated in parallel)."""
        candidates = candidates[: max(0, budget[0])]
        budget[0] -= len(candidates)
        good = {}
        srcs = [(i, (lambda c=c: c)) for i, c in enumerate(candidates)]
        for i, res in run_many(srcs):
            v = res["violation"]
            if v and v["kind"] == kind:
                good[i] = res
        return candidates[min(good)] if good else None

    def with_ops(p, ops):
        q = dict(p)
        q["ops"] = ops
        return q

    best = plan
    n = 2
    while len(best["ops"]) >= 2 and budget[0] > 0:
        ops = best["ops"]
        size = max(1, len(ops) // n)
        cands = [
            with_ops(best, ops[:i] + ops[i + size:]) for i in range(0, len(ops), size)
        ]
        found = fails(cands)
        if found is not None:
            best = found
            n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(ops), n * 2)
    # drop faults
    for key in ("fault", "task_faults"):
        cands = []
        for i, op in enumerate(best["ops"]):
            if op.get(key):
                ops = list(best["ops"])
                ops[i] = {k: v for k, v in op.items() if k != key}
                cands.append(with_ops(best, ops))
        if cands and budget[0] > 0:
            found = fails(cands)
            if found is not None:
                best = found
    # smaller numbers
    names = getattr(load(plan["property"]), "SHRINK_INTS", {})
    progress = True
    while progress and budget[0] > 0:
        progress = False
        cands = []
        for i, op in enumerate(best["ops"]):
            for name, low in names.items():
                value = op.get(name)
                if isinstance(value, int) and not isinstance(value, bool) and value > low:
                    for smaller in {low, value // 2, value - 1}:
                        if low <= smaller < value:
                            ops = list(best["ops"])
                            ops[i] = dict(op, **{name: smaller})
                            cands.append(with_ops(best, ops))
        if cands:
            found = fails(cands)
            if found is not None:
                best, progress = found, True
    return best, SHRINK_ATTEMPTS - budget[0]


# -- commands ----------------------------------------------------------------


def known_findings(prop):
    path = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:") and f"property={prop} " in line:
                out.append(line)
    return out


def cmd_check(prop, tier):

    started = time.monotonic()
    master = int(os.environ.get("VERIF_SEED", "1"))
    mod = load(prop)
    total = mod.RUNS[tier]
    cap = float(os.environ.get("DST_WALL_CAP", 780 if tier == "quick" else 12 * 3600))

    agg = dict(fired={}, probes={}, schedules=set(), states=set(), digests=set(),
               events=0, steps=0, clock=0.0, done=0, nontrivial=set(), samples=[])
    violation = [None]
    errors = []

    def stop():
        return violation[0] is not None or len(errors) >= 40 or time.monotonic() - started > cap

    sources = (
        (i, (lambda i=i: make_plan(prop, master, i, tier))) for i in range(total)
    )
    for index, res in run_many(sources, stop=stop):
        if res["error"]:
            errors.append((index, res["error"]))
            continue
        agg["done"] += 1
        agg["events"] += res["events"]
        agg["steps"] += res["steps"]
        agg["clock"] += res["clock"]
        for name in ("fired", "probes"):
            for k, v in res[name].items():
                agg[name][k] = agg[name].get(k, 0) + v
        agg["schedules"].update(res["schedules"])
        agg["states"].update(res["states"])
        agg["digests"].add(res["digest"])
        if mod.nontrivial(res):
            agg["nontrivial"].add(res["digest"])
        if index < 2:
            agg["samples"].append(
                {"run": index, "plan": clip(res["plan"]), "trace_tail": res["tail"][-12:]}
            )
        if res["violation"] is not None:
            if violation[0] is None or index < violation[0][0]:
                violation[0] = (index, res)

    wall = time.monotonic() - started
    status = 0
    n_viol = 0
    if errors:
        for index, text in errors[:3]:
            print(f"HARNESS-ERROR run={index}\n{text}", file=sys.stderr)
        status = 2
    if violation[0] is not None:
        status = 1
        n_viol = 1
        index, res = violation[0]
        path = report(prop, master, tier, index, res)
        print(f"VIOLATION property={prop} replay={path}")
    elif status == 0 and agg["done"] < total:  # (never silently less than announced)
        print(f"ran out of time after {agg['done']} of {total} runs", file=sys.stderr)
        status = 3
    for line in known_findings(prop):
        print("KNOWN-FINDING: " + line[len("finding:"):].strip())

    per_hour = agg["done"] / max(wall, 1e-9) * 3600.0
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": master,
        "level": "exploration",
        "coverage": {
            "evaluations": agg["done"],
            "distinct_nontrivial": len(agg["nontrivial"]),
            "rule": mod.RULE,
            "samples": agg["samples"],
            "simulated_runs": agg["done"],
            "seeds_per_hour": round(per_hour),
            "simulated_events": agg["events"],
            "seam_steps": agg["steps"],
            "simulated_time": round(agg["clock"], 3),
            "faults_injected": dict(sorted(agg["fired"].items())),
            "probes": dict(sorted(agg["probes"].items())),
            "distinct_traces": len(agg["digests"]),
            "distinct_pool_schedules": len(agg["schedules"]),
            "distinct_abstract_states": len(agg["states"]),
            "real_components": mod.REAL,
            "stub_components": mod.STUBS,
        },
        "assumptions": mod.ASSUMPTIONS,
        "wall_s": round(time.monotonic() - started, 3),
        "violations": n_viol,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(evidence, fh, indent=1)
    print(
        f"{prop} {tier} seed={master}: {agg['done']}/{total} runs, "
        f"{len(agg['nontrivial'])} distinct non-trivial, faults {sum(agg['fired'].values())}, "
        f"{wall:.1f} s"
    )
    return status


def clip(obj, depth=0):
    """Keeps samples in the evidence readable."""
    if isinstance(obj, dict):
        return {k: clip(v, depth + 1) for k, v in obj.items()}
    if isinstance(obj, list):
        if len(obj) > 12:
            return [clip(v, depth + 1) for v in obj[:12]] + [f"... {len(obj) - 12} more"]
        return [clip(v, depth + 1) for v in obj]
    return obj


def report(prop, master, tier, index, res):
    """Minimises the violating plan, writes the replay file and replays it."""
    plan, first = res["plan"], res["violation"]
    again = run_one(plan)
    confirmed = bool(again["violation"]) and again["violation"]["kind"] == first["kind"]
    small, attempts = (plan, 0)
    if confirmed:
        small, attempts = shrink(plan, first["kind"])
    final = run_one(small)
    if not (final["violation"] and final["violation"]["kind"] == first["kind"]):
        small, final = plan, res
    folder = os.path.join(ROOT, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{prop}-s{master}-r{index}.json")
    doc = {
        "property": prop,
        "verif_seed": master,
        "tier": tier,
        "run": index,
        "violation": final["violation"] or first,
        "original_operations": len(plan["ops"]),
        "minimised_operations": len(small["ops"]),
        "shrink_attempts": attempts,
        "digest": final["digest"],
        "plan": small,
        "trace": final["tail"],
    }
    with open(path, "w") as fh:
        json.dump(doc, fh, indent=1)
    proc = subprocess.run(
        [sys.executable, "-m", "dst.runner", "replay", path],
        cwd=ROOT, capture_output=True, text=True,
    )
    doc["reproduced_in_fresh_process"] = proc.returncode == 1
    with open(path, "w") as fh:
        json.dump(doc, fh, indent=1)
    print(f"{prop}: {doc['violation']['kind']}: {doc['violation']['message']}")
    print(
        f"run {index}, {len(plan['ops'])} operations minimised to {len(small['ops'])}, "
        f"replay {'reproduces' if proc.returncode == 1 else 'DOES NOT reproduce'}"
    )
    return path


def cmd_replay(path):
    doc = json.load(open(path))
    res = run_one(doc["plan"])
    if res["error"]:
        print(res["error"], file=sys.stderr)
        return 2
    for line in res["tail"]:
        print(line)
    want = doc["violation"]
    if res["violation"] is None:
        print("replay: the property held")
        return 0
    same = res["violation"]["kind"] == want["kind"] and res["digest"] == doc["digest"]
    print(f"replay: {res['violation']['kind']}: {res['violation']['message']}")
    print("replay: identical trace" if same else "replay: violation, but the trace differs")
    print(f"VIOLATION property={doc['property']} replay={path}")
    return 1


def cmd_digest(prop, n, workers):
    master = int(os.environ.get("VERIF_SEED", "1"))
    out = {}
    sources = ((i, (lambda i=i: make_plan(prop, master, i, "quick"))) for i in range(n))
    for i, res in run_many(sources, workers=workers):
        out[i] = res["error"] or (res["digest"], res["violation"] and res["violation"]["kind"])
    for i in sorted(out):
        print(prop, i, out[i])
    return 0


def cmd_one(prop, index):
    master = int(os.environ.get("VERIF_SEED", "1"))
    plan = make_plan(prop, master, index, "quick")
    t = time.monotonic()
    res = run_one(plan)
    print(json.dumps(plan, indent=None)[:4000])
    for line in res.get("tail", []):
        print(line)
    print({k: res.get(k) for k in ("violation", "fired", "probes", "steps", "events")})
    if res["error"]:
        print(res["error"])
    print(f"{time.monotonic() - t:.2f} s")
    return 0


def main(argv):
    cmd = argv[0]
    if cmd == "check":
        tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        setup()
        return cmd_check(argv[1], tier)
    if cmd == "replay":
        setup()
        return cmd_replay(argv[1])
    if cmd == "digest":
        setup()
        return cmd_digest(argv[1], int(argv[2]), int(argv[3]) if len(argv) > 3 else WORKERS)
    if cmd == "setup":
        setup()
        print("ready")
        return 0
    if cmd == "one":
        setup()
        return cmd_one(argv[1], int(argv[2]))
    raise SystemExit(__doc__)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
