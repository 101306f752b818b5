"""C26: long analyses keep their footprint - nothing accumulates, memory is proportional."""

import gc
import sys
import threading
import tracemalloc

import numpy as np

from ..engine import FAILED
from ..env import SEED, hel, pick
from ..states import lay, states
from ..materials import MAKERS, SPACES, framework
from ..usage import frameworks, math_calls, materials, optimize, simulations

RULE = (
    "long histories of evaluations with always new inputs on every material, configuration, "
    "tensor function, simulation, fit and plot under an allocation monitor: live memory, live "
    "objects, threads, figures and the calls an evaluation makes must not grow with the "
    "history (also of small evaluations of always new shapes), and peak memory must grow in proportion to the batch; one evaluation = one call; "
    "distinct = (what, option)"
)


def tensors():
    import torch

    return sum(1 for o in gc.get_objects() if type(o) is torch.Tensor)


def footprint():
    gc.collect()
    return tracemalloc.get_traced_memory()[0], len(gc.get_objects())


def grows(R, what, step, n, ctx, scale, warm=4, base=1000):
    """step(k) for k = 0 ... n: live memory and objects after the first and the second half.
    What is kept of single evaluations (the latest results) cancels in the difference; a
    growth by a tenth of an evaluation's data per evaluation is a leak."""
    for k in range(warm):
        if R.call(f"{what}", step, k, ctx=ctx) is FAILED:
            return
    limit = 0.1 * scale + base  # caches of the interpreter and its libraries
    k = warm
    for attempt in range(3):  # (a leak goes on; caches of the libraries fill up)
        marks = []
        for half in range(3):
            for _ in range(n):
                step(k)
                k += 1
            marks.append(footprint())
        per = [(marks[i + 1][0] - marks[i][0]) / n for i in (0, 1)]
        obj = [(marks[i + 1][1] - marks[i][1]) / n for i in (0, 1)]
        if min(per) < limit and min(obj) < 0.9:
            break
        R.bump("repeated")
    # growing in both halves
    R.worst[f"{what}:memory"] = max(R.worst.get(f"{what}:memory", 0.0), min(per) / limit)
    R.check(min(per) < limit, f"{what}:memory", f"{min(per):.0f} bytes more per evaluation (of {scale} bytes of results)", **ctx)
    R.check(min(obj) < 0.9, f"{what}:objects", f"{min(obj):.2f} objects more per evaluation", **ctx)
    R.event((what, repr(sorted(ctx.items(), key=str))), 3 * n + warm)
    R.bump("histories")


def ages(R, what, evaluate, n, ctx, shapes):
    """evaluate(trail) on always new, small batches: nothing at all is kept of them.
    Every mark follows an evaluation of the same batch shape (latest results cancel)."""
    same = (2, 3)
    for trail in (*shapes[3 * n : 3 * n + 20], same):  # (free lists of the interpreter and numpy fill up)
        if R.call(what, evaluate, trail, ctx=ctx) is FAILED:
            return
    limit = 20 + 1000 / n
    for attempt in range(3):  # (a leak goes on; caches of the libraries fill up)
        marks = []
        for part in range(3):
            for k in range(n):
                evaluate(shapes[part * n + k])
            evaluate(same)
            evaluate(same)
            marks.append(footprint()[0])
        per = min(b - a for a, b in zip(marks, marks[1:])) / n
        if per < limit:
            break
        R.bump("repeated")
        shapes = [(*t, 1) for t in shapes]  # new ones
    R.worst[f"{what}:age"] = max(R.worst.get(f"{what}:age", 0.0), per / limit)
    R.check(per < limit, f"{what}:age", f"{per:.0f} bytes more per small evaluation ({3 * n} evaluations of new shapes)", **ctx)
    R.event((what, "age", repr(sorted(ctx.items(), key=str))), 3 * n)
    R.bump("ages")


def direct(rng):
    "The models without framework and space."
    fw = frameworks(rng)
    out = {}
    for f, make in fw.items():
        if "user" not in f or f == "generalized-user":
            out["tod-invariants" if f == "tod" else f] = make().material
    return out


class Refusing:
    "A model that refuses some of its calls."

    def __init__(self, inner):
        self.inner, self.refuse = inner, ""

    def gradient(self, *a):
        if self.refuse == "gradient":
            raise ArithmeticError("refused")
        return self.inner.gradient(*a)

    def hessian(self, *a):
        if self.refuse == "hessian":
            raise ArithmeticError("refused")
        return self.inner.hessian(*a)


def refusals(R, rng, m, shapes):
    "Evaluations that end in an exception leave nothing behind, either."
    for i, (kind, make) in enumerate(MAKERS.items()):
        for j, s in enumerate(SPACES):
            if (i + j + SEED) % 2 and pick(1, 0):
                continue
            spec = make(rng)
            model = Refusing(spec.model())
            u = spec.space(s, framework=framework(spec, model))
            n = [0]

            def evaluate(trail):
                F = np.eye(3).reshape(3, 3, *np.ones(len(trail), int)) + 0.2 * rng.uniform(-1, 1, (3, 3, *trail))
                n[0] += 1
                # the last evaluation of a part is an ordinary one
                model.refuse = ("gradient", "hessian", "")[n[0] % 3] if trail != (2, 3) else ""
                for f in (u.gradient, u.hessian):
                    try:
                        f([F, None])
                    except ArithmeticError:
                        R.bump("refused evaluations")
                if n[0] % 5 == 0:
                    for bad in (F[:2, :2], F[0], "no array"):
                        try:
                            u.gradient([bad, None])
                        except Exception:  # noqa: BLE001 (any refusal)
                            pass

            ages(R, f"refused:{kind}", evaluate, m, {"material": kind, "space": s}, shapes)


def calls_of(fun):
    n = [0]

    def count(frame, event, arg):
        if event in ("call", "c_call"):
            n[0] += 1

    sys.setprofile(count)
    try:
        fun()
    finally:
        sys.setprofile(None)
    return n[0]


def effort(R, what, u, name, rng, ctx):
    "An evaluation makes as many calls after a long history as at its start."
    xs = [lay(states(rng, 6)[0], (6,)) for _ in range(3)]
    f = lambda k: getattr(u, name)([xs[k % 3], None])  # noqa: E731
    for k in range(3):
        f(k)
    first = [calls_of(lambda: f(k)) for k in range(3)]
    for _ in range(12):
        getattr(u, name)([lay(states(rng, 6)[0], (6,)), None])
    last = [calls_of(lambda: f(k)) for k in range(3)]
    R.check(min(last) <= 1.3 * max(first) + 10, f"{what}:effort",
            f"{min(last)} calls after a history, {max(first)} before", **ctx)
    R.bump("efforts")


def peak_of(fun):
    gc.collect()
    a = tracemalloc.get_traced_memory()[0]
    tracemalloc.reset_peak()
    out = fun()
    p = tracemalloc.get_traced_memory()[1]
    del out
    return p - a


def proportional(R, what, make, ctx, base=300):
    "Peak memory of batches of n, 2n and 4n points."
    peaks = []
    for m in (base, 2 * base, 4 * base):
        f = make(m)
        f()
        peaks.append(peak_of(f))
    r = peaks[2] / max(peaks[0], 1)
    R.worst[f"{what}:peak"] = max(R.worst.get(f"{what}:peak", 0.0), peaks[2] / (5.2 * peaks[0] + 60_000))
    R.check(peaks[2] <= 5.2 * peaks[0] + 60_000, f"{what}:peak", f"peak memory {peaks} for batches of {base}, {2 * base}, {4 * base} ({r:.1f} x)", **ctx)
    R.bump("peaks")
    R.event((what, "peak", repr(sorted(ctx.items(), key=str))), 6)


def small(R, rng):
    "Small objects that are made, used and dropped leave nothing behind; small evaluations neither."
    d, f = np.linspace(0, 1, 3), np.array([0.0, 0.2, 0.3])
    x = np.array([1.1, 1.5])
    kept = list(simulations(x).values())
    experiment = hel.lab.Experiment("kept", d, f)
    made = list(frameworks(rng, torch=False).values())

    def experiments(k):
        e = hel.lab.Experiment("small", d, f, area=1.0 + k)
        e.stress()

    def sims(k):
        s = kept[k % len(kept)]
        hel.lab.Simulation(s.loadcase, x, s.labels, s.material, s.parameters).stress()

    def fits(k):
        hel.lab.Optimize([experiment], [kept[0]], np.ones(3))

    def loadcases(k):
        lc = (hel.lab.Uniaxial, hel.lab.Planar, hel.lab.Biaxial)[k % 3](label=f"case {k % 7}")
        lc.defgrad(x)

    def constructed(k):
        list(SPACES.values())[k % 3](made[k % len(made)]())

    def evaluated(k):
        s = kept[k % len(kept)]
        s.stress()
        s.stress_curve_fit(x, *s.parameters)
        experiment.stress()

    for what, step in (("experiments", experiments), ("simulations", sims), ("fits", fits), ("load cases", loadcases),
                       ("materials", constructed), ("small simulation", evaluated)):
        grows(R, f"dropped:{what}" if step is not evaluated else what, step, pick(60, 300), {}, 0, warm=30, base=60)


def closed(R, rng):
    "Figures that were closed are gone, whatever drew them and is still alive."
    import weakref

    import matplotlib.pyplot as plt

    opt = optimize(rng, 6)
    opt.curve_fit()
    e = opt.experiments[0]
    for what, draw in (("fit", opt.plot), ("force", e.plot_force_displacement), ("stress", e.plot_stress_stretch),
                       ("simulation", opt.simulations[0].plot_stress_stretch)):
        figures = []
        for _ in range(6):
            figures.append(weakref.ref(draw()[0]))
            plt.close("all")
        gc.collect()
        left = sum(r() is not None for r in figures)
        R.check(left <= 2, f"closed:{what}", f"{left} of 6 closed figures are alive", drawn=what)
        R.event(("closed", what), 6)
        R.bump("figures closed", 6)


def run(R):
    import matplotlib.pyplot as plt
    import torch

    torch.set_default_dtype(torch.float64)
    rng = np.random.default_rng([SEED, 26])
    R.require("histories", 40)
    R.require("efforts", 20)
    R.require("peaks", 20)
    R.require("ages", 33)
    R.require("refused evaluations", 300)
    R.require("figures closed", 24)
    gc.collect()
    gc.freeze()  # what was imported is not walked again
    # on all the time: what replaces untraced memory would look like growth
    tracemalloc.start()
    n = pick(6, 40)
    pts = 150
    rest = np.eye(3)[..., None]

    def inputs(m=pts):
        F = rest + 0.2 * rng.uniform(-1, 1, (3, 3, m))
        return F.reshape(3, 3, *((m,), (m, 1), (m // 5, 5))[rng.integers(3)])

    for rep in range(pick(1, 3)):
        threads = None
        for i, (key, make) in enumerate(materials(rng)):
            f, s, opt = key
            ctx = {"material": f, "space": s, "options": opt}
            u = make()

            order = (("gradient", "hessian"), ("hessian",), ("gradient",))[i % 3]

            def step(k, u=u, order=order):
                getattr(u, order[k % len(order)])([inputs(), None])

            grows(R, f"{f}", step, n, ctx, pts * 6 * 8)
            if i % 2 == 0:
                effort(R, f, u, ("gradient", "hessian")[(i // 2) % 2], rng, ctx)
            if i % 2 or rep:
                name = ("gradient", "hessian")[(i // 2) % 2]

                def at(m, u=u, name=name):
                    F = rest + 0.2 * rng.uniform(-1, 1, (3, 3, m))
                    return lambda: getattr(u, name)([F, None])

                proportional(R, f"{f}:{name}", at, ctx)
            if "parallel" in opt:
                if threads is not None:
                    R.check(threading.active_count() <= threads, "threads", f"{threading.active_count()} threads alive, {threads} before", **ctx)
                threads = threading.active_count()
                R.bump("threads")
        # small evaluations of always new shapes
        m = pick(45, 250)
        shapes = [(1 + k,) for k in range(60)] + [(a, b) for a in range(2, 60) for b in (1, 2, 3, 4, 5, 6, 7) if a * b < 60]
        shapes += [(a, b, c) for a in range(1, 20) for b in range(1, 12) for c in (1, 2, 3) if a * b * c < 60]
        shapes = [shapes[k] for k in rng.permutation(len(shapes))]
        shapes = (shapes * 3)[: 4 * m]
        for i, (f, make) in enumerate(frameworks(rng).items()):
            for j, (s, space) in enumerate(SPACES.items()):
                if (i + j + SEED) % 3 and not rep:
                    continue
                u = space(make())

                def evaluate(trail, u=u):
                    F = np.eye(3).reshape(3, 3, *np.ones(len(trail), int)) + 0.2 * rng.uniform(-1, 1, (3, 3, *trail))
                    u.gradient([F, None])
                    u.hessian([F, None])

                ages(R, f, evaluate, m, {"material": f, "space": s}, shapes)
        refusals(R, rng, m, shapes)
        for name in math_calls(rng, (2,)):
            ages(R, f"math:{name}", lambda trail, name=name: math_calls(rng, trail)[name](), 2 * m // 3, {"function": name}, shapes)
        # the models themselves
        inv = [1.0 + rng.uniform(0, 1, (3, pts)) for _ in range(4)]
        for f, model in direct(rng).items():
            for order in (("gradient", "hessian"), ("hessian",), ("gradient",)):

                def call(k, model=model, order=order):
                    a = inv[k % 4] * rng.uniform(0.9, 1.1, (3, 1))
                    getattr(model, order[k % len(order)])(*(a if "invariants" in f or f == "torch" else (a,)), None)

                grows(R, f"model:{f}", call, n, {"model": f, "order": order}, pts * 3 * 8)
        # graphs and tensors of automatic differentiation
        u = dict(materials(rng))[("torch", "Deformation", "{}")]()
        model = direct(rng)["torch"]
        for order in (("gradient", "hessian"), ("hessian",), ("gradient",), ("model",)):

            def autograd(k):
                if order == ("model",):
                    model.hessian(*inv[k % 4], None)
                else:
                    step(k, u, order)

            for k in range(4):
                autograd(k)
            gc.collect()
            t0 = tensors()
            for k in range(2 * n):
                autograd(k)
            gc.collect()
            R.check(tensors() <= t0 + 6, "torch:tensors", f"{tensors()} tensors alive after {2 * n} evaluations, {t0} before", order=order)
        # tensor functions
        for name in math_calls(rng, (pts,)):
            grows(R, f"math:{name}", lambda k, name=name: math_calls(rng, (pts,))[name](), n, {"function": name}, pts * 8)
            proportional(R, f"math:{name}", lambda m, name=name: math_calls(rng, (m,))[name], {"function": name})
        # laboratory
        x = np.linspace(0.6, 2.5, pts)
        for name, sim in simulations(x).items():
            def lab_step(k, sim=sim):
                sim.stress_curve_fit(x * rng.uniform(0.9, 1.1), *np.array(sim.parameters) * rng.uniform(0.9, 1.1))
                sim.parameters = list(np.array(sim.parameters) * rng.uniform(0.99, 1.01))
                sim.stress()

            grows(R, "simulation", lab_step, n, {"simulation": name}, pts * 8)

            def curve(m, sim=sim):
                y = np.linspace(0.6, 2.5, m)
                return lambda: sim.stress_curve_fit(y, *sim.parameters)

            proportional(R, "simulation", curve, {"simulation": name})
        opt = optimize(rng, 60)

        def fit_step(k):
            opt.parameters[:] = rng.uniform(0.5, 1.5, 2)
            opt.curve_fit(method="lm")

        grows(R, "fit", fit_step, pick(6, 25), {}, 60 * 8 * 2)
        # a small fit keeps nothing at all
        few = optimize(rng, 6)

        def small_fit(k):
            few.curve_fit(method="lm")

        grows(R, "small fit", small_fit, pick(60, 200), {}, 0, warm=30, base=60)
        small(R, rng)
        closed(R, rng)
        fig, ax = plt.subplots()
        figs = len(plt.get_fignums())
        for k in range(n):
            for e in (*opt.experiments, *opt.simulations):
                e.plot_stress_stretch(ax=ax)
        R.check(len(plt.get_fignums()) == figs, "plot:figures", f"{len(plt.get_fignums())} figures open, {figs} before plots into given axes")
        R.check(len(ax.lines) == 4 * n, "plot:lines", f"{len(ax.lines)} lines of {4 * n} plots")
        f2, a2 = opt.experiments[0].plot_force_displacement()
        R.check(len(plt.get_fignums()) == figs + 1 and f2 is not fig, "plot:new figure", f"{len(plt.get_fignums())} figures open, {figs} before one plot")
        opt.plot()
        R.check(len(plt.get_fignums()) == figs + 2, "plot:fit figure", f"{len(plt.get_fignums())} figures open, {figs + 1} before one fit plot")
        plt.close("all")
        R.event(("plots", rep), 4 * n + 2)
    R.sample({"points": pts, "evaluations per history": 3 * n + 4})
