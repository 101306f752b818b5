"""C28: the same material in every process, interpreter mode, installation and copy."""

import copy
import multiprocessing
import os
import pickle
import subprocess
import sys
import threading

import numpy as np

from .. import env, usage
from ..engine import FAILED
from ..env import SCRATCH, SEED, hel, pick
from ..worker import build, uses

RULE = (
    "the same objects are used in this process, in fresh interpreters (optimized, other hash "
    "seeds, warnings as errors, minimal environment, other import orders, without the optional "
    "packages), in forked children, in other threads, and as deep, shallow and pickled copies; "
    "results must agree, and changing a deep copy must not change its original; one evaluation "
    "= one object used once in one setting; distinct = (setting, object)"
)

OPTIONAL = ["torch", "einsumt", "felupe", "sympy", "tensortrax", "jax"]


def compare(R, mode, got, ref, seed, only=None):
    labels = [k for k in ref if only is None or only(k)]
    for label in labels:
        ctx = {"setting": mode, "object": " ".join(map(str, label)), "seed": seed}
        R.event((mode, label))
        if not R.check(label in got, f"{mode}:{label[0]}:missing", "not evaluated", **ctx):
            continue
        a, b = got[label], ref[label]
        if isinstance(a, str) or isinstance(b, str):
            R.check(not isinstance(a, str), f"{mode}:{label[0]}:raised", f"{a}", **ctx)
            continue
        for x, y in zip(a, b):
            tol = 1e-10 if label[0] != "fit" else 1e-4
            R.close(x, y, np.abs(y).max() if np.size(y) else 1.0, tol, f"{mode}:{label[0]}:result", "in another setting", **ctx)
        R.bump("compared")


def jobs(seed, pickled):
    "label, interpreter flags, environment, job, which objects."
    plain = {"seed": seed, "float64": True}
    no_torch = lambda k: "torch" not in k and "{'parallel': True}" not in k  # noqa: E731
    everything = lambda k: True  # noqa: E731
    yield "fresh", [], {"PYTHONHASHSEED": "0"}, plain, everything
    yield "optimized", ["-O"], {"PYTHONHASHSEED": "12345"}, plain, everything
    yield "without docstrings", ["-OO"], {"PYTHONHASHSEED": "2"}, plain, everything
    yield "warnings are errors", [], {"PYTHONHASHSEED": "3"}, {**plain, "errors": True}, everything
    yield "without optional packages", [], {"PYTHONHASHSEED": "4"}, {"seed": seed, "missing": OPTIONAL, "torch": False, "parallel": False}, no_torch
    yield "other import order", [], {"PYTHONHASHSEED": "42"}, {**plain, "before": ["felupe", "einsumt", "torch", "sympy"]}, everything
    yield "developer mode", ["-X", "dev"], {"PYTHONHASHSEED": "123"}, plain, everything
    yield "minimal environment", ["-s"], None, plain, everything
    yield "unpickled", [], {"PYTHONHASHSEED": str(1000 + seed)}, {"float64": True, "objects": pickled}, None


def start(name, flags, envs, job, k):
    here = env.VERIF
    a, b = os.path.join(SCRATCH, f"job{k}"), os.path.join(SCRATCH, f"out{k}")
    with open(a, "wb") as f:
        pickle.dump(job, f)
    base = {"PATH": os.environ.get("PATH", ""), "VMON_REPO": env.REPO, "TMPDIR": SCRATCH, "OMP_NUM_THREADS": "1"}
    if envs is not None:
        base = {**os.environ, "VMON_REPO": env.REPO, "TMPDIR": SCRATCH, **envs}
    p = subprocess.Popen([sys.executable, "-B", *flags, "-m", "vmon.worker", a, b], env=base, cwd=here,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p, b


def forked(R, objects, ref, seed):
    "A forked child, after this process has used everything."
    some = {k: v for k, v in objects.items() if "{'parallel': True}" not in k and "torch" not in k and k[0] != "math"}
    ctx = multiprocessing.get_context("fork")
    r, w = ctx.Pipe(duplex=False)

    def work():
        try:
            out = uses(some)
        except BaseException as e:  # noqa: BLE001
            out = {"error": repr(e)}
        w.send_bytes(pickle.dumps(out))
        os._exit(0)

    p = ctx.Process(target=work, daemon=True)
    p.start()
    w.close()
    if not r.poll(120):
        p.kill()
        R.check(False, "forked:hangs", "no answer from a forked child in 120 s", seed=seed)
        return
    try:
        got = pickle.loads(r.recv_bytes())
    except EOFError:
        R.check(False, "forked:dies", "a forked child ended without an answer", seed=seed)
        return
    p.join(10)
    compare(R, "forked", got, {k: ref[k] for k in some}, seed)


def in_thread(R, objects, ref, seed):
    got = {}
    t = threading.Thread(target=lambda: got.update(uses(objects)), daemon=True)
    t.start()
    t.join(200)
    R.check(not t.is_alive(), "thread:hangs", "no answer from another thread in 200 s", seed=seed)
    compare(R, "other thread", got, ref, seed)


def state(obj, depth=0):
    "Parameters that can be changed in a copy: (owner, attribute)."
    out = []
    if depth > 5 or not hasattr(obj, "__dict__"):
        return out
    for k, v in vars(obj).items():
        if isinstance(v, (float, int)) and not isinstance(v, bool) and k in ("C10", "C01", "C11", "C20", "C30", "a", "b", "mu", "exponent"):
            out.append((obj, k))
        elif k in ("mu",) and isinstance(v, (list, np.ndarray)):
            out.append((obj, k))
        elif k == "kwargs" and isinstance(v, dict):
            out += [(v, n) for n in v if isinstance(v[n], (float, int))]
        elif hasattr(v, "__dict__") and not isinstance(v, type) and not callable(v):
            out += state(v, depth + 1)
    return out


def change(obj):
    n = 0
    for owner, k in state(obj):
        v = owner[k] if isinstance(owner, dict) else getattr(owner, k)
        if isinstance(owner, dict):  # (keywords)
            owner[k] = v * 1.5 + 0.1
        elif isinstance(v, list):
            v[0] = v[0] * 1.5 + 0.1  # in place
        elif isinstance(v, np.ndarray):
            v *= 1.5
        else:
            setattr(owner, k, v * 1.5 + 0.1)
        n += 1
    return n


def copies(R, objects, ref, seed):
    for how, fun in (
        ("deep copy", copy.deepcopy),
        ("copy", copy.copy),
        ("pickled copy", lambda o: pickle.loads(pickle.dumps(o))),
        ("copy of a copy", lambda o: copy.deepcopy(copy.copy(copy.deepcopy(o)))),
    ):
        made = {}
        for label, (kind, obj, args) in objects.items():
            if kind == "math" or ("pickled" in how and "user" in label[1]):
                continue
            c = R.call(f"{how}:{kind}", fun, obj, ctx={"object": " ".join(map(str, label))})
            if c:
                made[label] = kind, c, args
        compare(R, how, uses(made), {k: ref[k] for k in made}, seed)
        if how == "copy":
            continue
        # changing the copy: the copy responds, the original does not
        changed = {}
        for label, (kind, c, args) in made.items():
            if kind == "material" and "user" not in label[1] and change(c):
                changed[label] = kind, c, args
        got = uses(changed)
        for label in changed:
            ctx = {"object": " ".join(map(str, label)), "copied": how, "seed": seed}
            if isinstance(got[label], str):
                R.check(False, f"{how}:changed:raised", got[label], **ctx)
                continue
            same = all(np.allclose(x, y, rtol=1e-9, atol=0) for x, y in zip(got[label], ref[label]) if np.abs(y).max() > 0)
            if label[2] != "Dilatational" and label[1] != "torch":
                R.check(not same, f"{how}:changed:deaf", "new parameters of the copy have no effect", **ctx)
            R.bump("changed")
        some = {k: objects[k] for k in changed}
        compare(R, f"original of a {how}", uses(some), {k: ref[k] for k in some}, seed)


def laboratory(R, rng, rep):
    """Copies of simulations and experiments that are changed afterwards, in place or not, and
    copies of fits that have been carried out: what they report and show."""
    import matplotlib.pyplot as plt

    ways = (("deep copy", copy.deepcopy), ("pickled copy", lambda o: pickle.loads(pickle.dumps(o))),
            ("copy of a copy", lambda o: copy.deepcopy(copy.copy(o))))
    x = rng.uniform(0.6, 2.2, 8)
    for k, (name, made) in enumerate(usage.simulations(x).items()):
        for how, fun in ways:
            sim = hel.lab.Simulation(made.loadcase, x.copy(), list(made.labels), made.material,
                                     np.array(made.parameters) if k % 2 else list(made.parameters))
            ref = np.array(sim.stress())
            ctx = {"simulation": name, "copied": how}
            c = R.call(f"lab:{how}", fun, sim, ctx=ctx)
            if not c:
                continue
            R.close(c.stress(), ref, np.abs(ref).max(), 1e-12, f"lab:{how}", "simulation of the copy", **ctx)
            for a, b, which in ((c, sim, "original after a change of the copy"), (sim, fun(sim), "copy after a change of the original")):
                a.parameters[0] *= 1.7
                a.stretch[0] *= 1.1
                a.labels[0], a.label = "other", "other"
                y = R.call(f"lab:{how}:changed", b.stress, ctx=ctx)
                R.close(ref if y is FAILED else np.asarray(y, float), ref, np.abs(ref).max(), 1e-12, f"lab:{how}:changed", which, **ctx)
                R.check(b.label != "other" and list(b.labels) == list(made.labels), f"lab:{how}:labels", which, **ctx)
                a.labels[0] = made.labels[0]
                a.parameters[0] /= 1.7
                a.stretch[0] /= 1.1
                a.label = made.label
            R.event(("simulation", name, how), 2)
    for mask in (None, [np.arange(15) % 4 != 1, np.arange(3, 14)]):
        opt = usage.optimize(rng, mask=mask)
        opt.curve_fit()
        shown = lambda o: [[t.get_text() for t in o.plot()[1].texts], plt.close("all")][0]  # noqa: E731
        text = shown(opt)
        for how, fun in ways + (("copy", copy.copy),):
            c = R.call(f"fitted:{how}", fun, opt)
            if not c:
                continue
            ctx = {"copied": how, "masked": mask is not None}
            for what in ("parameters", "errors", "residuals"):
                a, b = np.asarray(getattr(c, what), float), np.asarray(getattr(opt, what), float)
                R.close(a, b, np.abs(b).max(), 1e-13, f"fitted:{how}:{what}", f"{what} of a copied fit", **ctx)
            R.close(c.norm_residuals(), opt.norm_residuals(), 1.0, 1e-13, f"fitted:{how}:norm", "norm of the residuals of a copied fit", **ctx)
            R.close(c.mean_relative_std(), opt.mean_relative_std(), 100.0, 1e-13, f"fitted:{how}:std", "mean deviation of a copied fit", **ctx)
            for a, b, d in zip(c.simulations, opt.simulations, (c.experiments[0], c.experiments[1])):
                R.close(a.stress(), b.stress(), 1.0, 1e-12, f"fitted:{how}:simulation", "simulation of a copied fit", **ctx)
            for a, b in zip(c.experiments, opt.experiments):
                R.close(a.stress(), b.stress(), 1.0, 1e-12, f"fitted:{how}:experiment", "experiment of a copied fit", **ctx)
            got = R.call(f"fitted:{how}:plot", shown, c, ctx=ctx)
            if got:
                R.check(got == text, f"fitted:{how}:plot", f"{got} instead of {text}", **ctx)
            again = R.call(f"fitted:{how}:again", c.curve_fit, ctx=ctx)
            if again:
                R.close(again[0], opt.parameters, np.abs(opt.parameters).max(), 1e-4, f"fitted:{how}:again", "fit of a copied fit", **ctx)
            if how != "copy":
                before = np.array(opt.residuals), np.array(opt.errors), np.array(opt.simulations[0].stress())
                for e in c.experiments:
                    e.force *= 1.5
                R.call(f"fitted:{how}:other", c.curve_fit, ctx=ctx)
                after = np.array(opt.residuals), np.array(opt.errors), np.array(opt.simulations[0].stress())
                for a, b in zip(after, before):
                    R.close(a, b, np.abs(b).max(), 1e-13, f"fitted:{how}:original", "original after a fit of its copy to other data", **ctx)
            R.event(("fitted", how, mask is not None), 1)
            R.bump("fits copied")


def run(R):
    import torch

    torch.set_default_dtype(torch.float64)
    R.require("compared", 900)
    R.require("changed", 60)
    R.require("fits copied", 8)
    for rep in range(pick(1, 6)):
        seed = SEED * 100 + rep
        objects = build(seed)
        pickled = {k: v for k, v in objects.items() if v[0] != "math" and "user" not in k[1]}
        try:
            blob = pickle.dumps(pickled)
        except Exception as e:  # noqa: BLE001
            for k, v in pickled.items():
                R.call("pickled:object", pickle.dumps, v[1], ctx={"object": " ".join(map(str, k))})
            R.check(False, "pickled", f"{e}")
            blob = pickle.dumps({})
            pickled = {}
        running = []
        for k, (name, flags, envs, job, only) in enumerate(jobs(seed, blob)):
            running.append((name, start(name, flags, envs, job, f"{rep}-{k}"), only))
        ref = uses(objects)
        for label, r in ref.items():
            R.check(not isinstance(r, str), f"here:{label[0]}:raised", f"{r}", object=" ".join(map(str, label)), seed=seed)
        copies(R, objects, ref, seed)
        laboratory(R, np.random.default_rng([seed, 282]), rep)
        in_thread(R, objects, ref, seed)
        forked(R, objects, ref, seed)
        for name, (p, path), only in running:
            try:
                text = p.communicate(timeout=400)[0]
            except subprocess.TimeoutExpired:
                p.kill()
                R.check(False, f"{name}:hangs", "no answer in 400 s", seed=seed)
                continue
            if not R.check(p.returncode == 0 and os.path.exists(path), f"{name}:fails", f"exit {p.returncode}: {text[-400:]}", seed=seed):
                continue
            with open(path, "rb") as f:
                got = pickle.load(f)
            R.check(os.path.realpath(got["file"]).startswith(os.path.realpath(env.SRC)), f"{name}:other tree", got["file"])
            R.check("optimized" not in name or got["optimized"], f"{name}:mode", "interpreter not optimized")
            if "optional" in name:
                R.check(not got["modules"], f"{name}:imported", f"{got['modules']}")
            compare(R, name, got["results"], ref, seed, only or (lambda k: k in pickled))
            R.bump("processes")
    R.require("processes", 9)
    R.sample({"objects": len(ref), "processes": 9})
