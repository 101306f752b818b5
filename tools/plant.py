"""Plant, validate and keep bugs: tools/plant.py [--check] ID ...  (see plants.py).

Every bug is made in a scratch copy of /repo, kept as seeded/<id>/ after confirming that
the patch applies, the tests pass and the demonstration discriminates."""

import concurrent.futures
import json
import os
import pathlib
import shutil
import subprocess
import sys
import textwrap

HERE = pathlib.Path(__file__).resolve().parent
VERIF = HERE.parent
sys.path.insert(0, str(HERE))
import plants2  # noqa: E402,F401
import plants3  # noqa: E402,F401
import plants4  # noqa: E402,F401
import plants5, plants6, plants7, plants8, plants9, plants10, plants11, plants12, plants13, plants14, plants15  # noqa: E402,F401
from plants import PLANTS  # noqa: E402

PY = "/opt/venv/bin/python"
SH = """#!/bin/bash
# run with cwd = the repository, after its build
export PYTHONPATH="$PWD/src${PYTHONPATH:+:$PYTHONPATH}" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export MPLCONFIGDIR=$(mktemp -d)
/opt/venv/bin/python "$(dirname "$0")/demo.py"
rc=$?
rm -rf "$MPLCONFIGDIR"
exit $rc
"""


def run(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def make(pid, checks):
    p = PLANTS[pid]
    root = pathlib.Path(f"/tmp/plants/{pid}")
    if root.exists():
        shutil.rmtree(root)
    root.mkdir(parents=True)
    repo = root / "repo"
    run(f"cp -a /repo {repo}")
    out = {"id": pid, "property": p["property"]}
    try:
        for file, old, new in p["edits"]:
            f = repo / "src/hyperelastic" / file
            s = f.read_text()
            if s.count(old) != 1:
                return {**out, "error": f"{file}: {s.count(old)} matches of {old!r}"}
            f.write_text(s.replace(old, new))
        diff = run("git diff", cwd=repo).stdout
        d = root / "keep"
        d.mkdir()
        (d / "patch.diff").write_text(diff)
        (d / "demo.sh").write_text(SH)
        os.chmod(d / "demo.sh", 0o755)
        (d / "demo.py").write_text(textwrap.dedent(p["demo"]).lstrip())
        (d / "meta.json").write_text(json.dumps(
            {"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, indent=1) + "\n")
        a = run(f"bash {d}/demo.sh", cwd="/repo", timeout=300)
        b = run(f"bash {d}/demo.sh", cwd=repo, timeout=300)
        out["demo"] = (a.returncode, b.returncode)
        if a.returncode or not b.returncode:
            return {**out, "error": "demo", "log": a.stdout + a.stderr + b.stdout + b.stderr}
        out["demo_says"] = (b.stdout + b.stderr).strip().splitlines()[-1:]
        t = run(f"{PY} -m pytest -q -x -p no:cacheprovider tests", cwd=repo,
                env={**os.environ, "PYTHONPATH": str(repo / "src"), "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1"})
        out["tests"] = t.returncode
        if t.returncode:
            return {**out, "error": "tests", "log": t.stdout[-1500:]}
        for c in checks or [p["property"]]:
            r = run(f"./run.sh {c}", cwd=VERIF, timeout=900,
                    env={**os.environ, "VMON_REPO": str(repo), "VERIF_SEED": "1", "VERIF_TIER": "quick",
                         "VMON_EVIDENCE": str(root / "ev")})
            out[c] = r.returncode
            out[c + " says"] = [x[:160] for x in r.stdout.splitlines() if "raised" in x or "x tolerance" in x or "(" in x][:2]
            if r.returncode not in (0, 1):
                out[c + " err"] = r.stderr[-800:]
        keep = VERIF / "seeded" / pid
        if keep.exists():
            shutil.rmtree(keep)
        shutil.copytree(d, keep)
        out["kept"] = True
        return out
    finally:
        shutil.rmtree(root)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    checks = [a[2:] for a in sys.argv[1:] if a.startswith("--C")]
    if "--all-checks" in sys.argv:
        checks = [f"C{i:02d}" for i in range(1, 25)]
    ids = args or list(PLANTS)
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for r in ex.map(lambda i: make(i, checks), ids):
            log = r.pop("log", None)
            print(json.dumps(r))
            if log:
                print(log)
            sys.stdout.flush()
