"""Plants one bug in a scratch copy of /repo and keeps it under seeded/ once confirmed.

  plant.py ID   reads /tmp/bugs/defs/ID.py, which defines PROPERTY, NEEDS, BREAKS,
                EDITS = [(file, old, new)] and DEMO (python source run with cwd = repository)

Confirms: edits apply, the lines removed are original ones, stable tests pass,
the demonstration passes on /repo and fails on the copy.
"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "e0ed29a"
DEMO_SH = """#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TQDM_DISABLE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def main(bug):
    defs = {}
    exec(open(f"/tmp/bugs/defs/{bug}.py").read(), defs)
    work = f"/tmp/bugs/{bug}"
    shutil.rmtree(work, ignore_errors=True)
    shutil.copytree("/repo", work, symlinks=True)
    for name, old, new in defs["EDITS"]:
        path = os.path.join(work, "templatefitter", name)
        text = open(path).read()
        if text.count(old) != 1:
            return f"{bug}: {text.count(old)} matches in {name} of\n{old}"
        open(path, "w").write(text.replace(old, new))
    diff = sh("git diff", work).stdout
    original = sh(f"git grep -h '' {BASE} -- templatefitter", "/repo").stdout.splitlines()
    removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    fresh = [l for l in removed if l.strip() and l not in original]
    if not [l for l in removed if l.strip() and l in original]:
        return f"{bug}: no original line changed"
    out = os.path.join(ROOT, "seeded", bug)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    open(os.path.join(out, "demo.py"), "w").write(defs["DEMO"].lstrip())
    json.dump({"property": defs["PROPERTY"], "needs": defs["NEEDS"], "what_it_breaks": defs["BREAKS"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    good, bad = (sh(f"timeout 250 {out}/demo.sh", d) for d in ("/repo", work))
    env = dict(os.environ, PYTHONPATH=work, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0")
    test = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests 2>&1 | tail -4", work, env=env)
    ok = good.returncode == 0 and bad.returncode != 0 and " failed" not in test.stdout and "passed" in test.stdout
    if not ok:
        shutil.rmtree(out)
    lines = [f"{bug}: {'KEPT' if ok else 'REJECTED'} demo {good.returncode}/{bad.returncode} tests {test.stdout.strip().splitlines()[-1]}"]
    if good.returncode:
        lines.append(good.stderr[-800:])
    if not ok:
        lines += [bad.stderr[-400:], test.stdout]
    if fresh:
        lines.append(f"   (also changes lines of own commits: {fresh[:3]})")
    return "\n".join(lines)


for b in sys.argv[1:]:
    print(main(b))
