"""Environment of a check: which tree is observed, where scratch files go.

Imported first.  The code under observation is always /repo/src (the working
tree); nothing is written there (no byte code, no caches)."""

import atexit
import os
import shutil
import sys
import tempfile
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VMON_REPO", "/repo")  # VMON_REPO: development only
SRC = os.path.join(REPO, "src")
EVIDENCE = os.environ.get("VMON_EVIDENCE", os.path.join(VERIF, "evidence"))  # development only

sys.dont_write_bytecode = True
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
os.environ["MPLBACKEND"] = "Agg"

SCRATCH = tempfile.mkdtemp(prefix="vmon-")
os.environ["MPLCONFIGDIR"] = SCRATCH


def _cleanup(path=SCRATCH):
    shutil.rmtree(path, ignore_errors=True)


atexit.register(_cleanup)

sys.path.insert(0, SRC)

import numpy as np  # noqa: E402

import hyperelastic as hel  # noqa: E402

_where = os.path.realpath(hel.__file__)
if not _where.startswith(os.path.realpath(SRC) + os.sep):
    raise SystemExit(f"hyperelastic imported from {_where}, not from {SRC}")

TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1

np.seterr(all="ignore")
warnings.simplefilter("ignore")


def pick(quick, thorough):
    "Workload size of the current tier."
    return quick if TIER == "quick" else thorough
