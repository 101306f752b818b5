"""Verdicts, evidence, replay files, known findings."""

import json
import os
import sys
import time
import traceback

import numpy as np

from . import env

FINDINGS = os.path.join(env.VERIF, "KNOWN_FINDINGS.txt")


class Failed:
    "Result of an observed call that raised."

    def __bool__(self):
        return False


FAILED = Failed()


def jsonable(x, depth=0):
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in x]
    if isinstance(x, np.ndarray):
        if x.size > 400:
            return {"shape": list(x.shape), "head": x.ravel()[:20].tolist()}
        return x.tolist()
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:300]


def known_findings(pid):
    out = {}
    if os.path.exists(FINDINGS):
        with open(FINDINGS) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known:"):
                    words = dict(w.split("=", 1) for w in line.split() if "=" in w)
                    if words.get("property") == pid and "mechanism" in words:
                        out[words["mechanism"]] = line
    return out


class Report:
    def __init__(self, pid, rule, level="exploration"):
        self.pid, self.rule, self.level = pid, rule, level
        self.t0 = time.time()
        self.n = 0
        self.keys = set()
        self.counters = {}
        self.worst = {}
        self.samples = []
        self.viol = {}
        self.nviol = 0
        self.required = []
        self.known = known_findings(pid)
        self.assumptions = []

    # -- observations --------------------------------------------------------------
    def event(self, key=None, n=1):
        "n evaluations; ``key`` marks a distinct non-trivial case."
        self.n += n
        if key is not None:
            self.keys.add(key)

    def bump(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def require(self, name, at_least=1):
        "Inconclusive unless the counter reached this value."
        self.required.append((name, at_least))

    def sample(self, obj, limit=6):
        if len(self.samples) < limit:
            self.samples.append(jsonable(obj))

    def violation(self, mech, msg, **ctx):
        self.nviol += 1
        if mech not in self.viol:
            self.viol[mech] = {"message": msg, "count": 0, "context": jsonable(ctx)}
        self.viol[mech]["count"] += 1

    def check(self, ok, mech, msg, **ctx):
        self.bump("assertions")
        if not ok:
            self.violation(mech, msg, **ctx)
        return bool(ok)

    def close(self, got, ref, scale, tol, mech, msg="", **ctx):
        """|got - ref| <= tol * scale everywhere (NaN fails).  scale and tol
        broadcast against the arrays."""
        self.bump("comparisons")
        got = np.asarray(got)
        ref = np.asarray(ref)
        if got.shape != ref.shape:
            self.violation(mech + ":shape", f"{msg}: shape {got.shape}, expected {ref.shape}", **ctx)
            return False
        if got.size == 0:
            return True
        with np.errstate(all="ignore"):
            try:
                err = np.abs(got - ref) / (np.asarray(scale) * np.asarray(tol))
            except TypeError:
                self.violation(mech + ":type", f"{msg}: not numeric ({got.dtype})", **ctx)
                return False
        # 0/0: exact agreement where the scale is zero
        err = np.where(got == ref, 0.0, err)
        w = err.max() if not np.isnan(err).any() else np.inf
        if w > self.worst.get(mech, -1.0):
            self.worst[mech] = float(w)
        if not w <= 1.0:
            i = np.unravel_index(np.nanargmax(np.where(np.isnan(err), np.inf, err)), err.shape)
            self.violation(
                mech,
                f"{msg}: {got[i]!r} instead of {ref[i]!r} at {tuple(int(k) for k in i)}"
                f" ({w:.3g} x tolerance)",
                index=[int(k) for k in i],
                got=got[i],
                expected=ref[i],
                **ctx,
            )
            return False
        return True

    def call(self, mech, fun, *args, ctx=None, **kwargs):
        "Call the code under observation; an exception is a violation."
        self.bump("calls")
        try:
            return fun(*args, **kwargs)
        except Exception as e:  # noqa: BLE001
            tb = traceback.extract_tb(e.__traceback__)
            where = [
                f"{os.path.basename(f.filename)}:{f.name}" for f in tb if env.SRC in f.filename
            ]
            self.violation(
                f"{mech}:raised:{type(e).__name__}",
                f"{type(e).__name__}: {str(e)[:300]} in {where[-1:] or ['?']}",
                trace=where,
                **(ctx or {}),
            )
            return FAILED

    # -- verdict ---------------------------------------------------------------------
    def finish(self):
        wall = time.time() - self.t0
        missing = [(n, k, self.counters.get(n, 0)) for n, k in self.required if self.counters.get(n, 0) < k]
        new = {m: v for m, v in self.viol.items() if m not in self.known}
        os.makedirs(env.EVIDENCE, exist_ok=True)
        ev = {
            "property": self.pid,
            "tier": env.TIER,
            "seed": env.SEED,
            "level": self.level,
            "coverage": {
                "evaluations": int(self.n),
                "distinct_nontrivial": len(self.keys),
                "rule": self.rule,
                "samples": self.samples,
                "monitor_events": {k: int(v) for k, v in sorted(self.counters.items())},
                "largest_error_over_tolerance": {
                    k: float(f"{v:.3g}") for k, v in sorted(self.worst.items(), key=lambda x: -x[1])[:40]
                },
            },
            "assumptions": self.assumptions,
            "wall_s": round(wall, 3),
            "violations": len(new),
        }
        replays = []
        rdir = os.path.join(env.EVIDENCE, "replay")
        for i, (m, v) in enumerate(new.items()):
            if i >= 5:
                break
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{self.pid}_{i}.json")
            with open(path, "w") as f:
                json.dump(
                    {
                        "property": self.pid,
                        "mechanism": m,
                        "rerun": f"VERIF_SEED={env.SEED} VERIF_TIER={env.TIER} ./run.sh {self.pid}",
                        **v,
                    },
                    f,
                    indent=1,
                    default=repr,
                )
            replays.append((m, v, path))
        with open(os.path.join(env.EVIDENCE, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        for m, line in self.known.items():
            if m in self.viol:
                print(f"KNOWN-FINDING: property={self.pid} {line}")
        print(
            f"{self.pid}: {self.n} evaluations, {len(self.keys)} distinct, "
            f"{self.counters.get('comparisons', 0)} comparisons, "
            f"{self.counters.get('assertions', 0)} assertions, {wall:.1f} s"
        )
        if os.environ.get("VMON_VERBOSE"):
            for k, v in sorted(self.worst.items(), key=lambda x: -x[1])[:25]:
                print(f"   {v:10.3g}  {k}")
            print("  ", self.counters)
        if new:
            for m, v, path in replays:
                print(f"  {m} ({v['count']}x): {v['message']}"[:600])
            for m, v, path in replays:
                print(f"VIOLATION property={self.pid} replay={os.path.relpath(path, env.VERIF)}")
            sys.stdout.flush()
            return 1
        if missing:
            print(f"INCONCLUSIVE: monitors did not see enough: {missing}")
            return 2
        return 0
