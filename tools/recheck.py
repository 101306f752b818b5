"""Run the checks against every kept planted bug: tools/recheck.py [IDs] [--seeds 1,2] [--all-checks] [-j N].

Every bug is applied to a scratch copy; /repo is not touched.  Prints one line per bug."""

import argparse
import concurrent.futures
import json
import os
import pathlib
import shutil
import subprocess
import tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="*")
ap.add_argument("--seeds", default="1")
ap.add_argument("--all-checks", action="store_true")
ap.add_argument("-j", type=int, default=6)
args = ap.parse_args()
CHECKS = [c["property"] for c in json.load(open(VERIF / "MANIFEST.json"))["checks"]]


def one(d):
    meta = json.load(open(d / "meta.json"))
    root = pathlib.Path(tempfile.mkdtemp(prefix="recheck-"))
    try:
        shutil.copytree("/repo/src", root / "src", ignore=shutil.ignore_patterns("__pycache__"))
        p = subprocess.run(["git", "apply", "--directory", str(root)[1:], "--unsafe-paths", str(d / "patch.diff")], cwd="/", capture_output=True, text=True)
        if p.returncode:
            return d.name, {"apply": p.stderr[:200]}
        out = {}
        for c in CHECKS if args.all_checks else [meta["property"]]:
            for s in args.seeds.split(","):
                env = dict(os.environ, VMON_REPO=str(root), VERIF_SEED=s, VMON_EVIDENCE=str(root / "ev"))
                try:
                    p = subprocess.run(["./run.sh", c, "quick"], cwd=VERIF, env=env, capture_output=True, text=True, timeout=900)
                    out[f"{c}/{s}"] = p.returncode
                except subprocess.TimeoutExpired:
                    out[f"{c}/{s}"] = "timeout"
        return d.name, out
    finally:
        shutil.rmtree(root, ignore_errors=True)


dirs = [d for d in sorted((VERIF / "seeded").iterdir()) if (d / "patch.diff").exists() and (not args.ids or d.name in args.ids)]
table = {}
with concurrent.futures.ThreadPoolExecutor(args.j) as ex:
    for name, out in ex.map(one, dirs):
        own = json.load(open(VERIF / "seeded" / name / "meta.json"))["property"]
        caught = [k for k, v in out.items() if v == 1]
        missed = [k for k, v in out.items() if k.startswith(own + "/") and v != 1]
        odd = {k: v for k, v in out.items() if v not in (0, 1)}
        print(name, "| caught by", " ".join(caught) or "-", "| MISSED " + " ".join(missed) if missed else "", odd or "", flush=True)
        table[name] = caught
if args.all_checks:
    json.dump(table, open("/tmp/caught.json", "w"), indent=1)
