"""C22: experiments and plots."""

import numpy as np

from ..engine import FAILED
from ..env import SEED, hel, pick
from ..materials import SPACES, _inv_terms, tod_terms
from ..monitors import Watch
from ..oracle import principal, unimodular
from .c20 import CASES, stretches_of

RULE = (
    "random experiments, simulations and fits are converted and plotted into new and existing axes "
    "with default and chosen labels and styles; the artists on the axes after every call are compared "
    "with the data that was given; distinct = (what, axes, label, style, data form)"
)

lab = hel.lab

FORMS = {
    "float array": lambda d: np.array(d, dtype=float),
    "integer array": lambda d: np.round(np.array(d) * 10).astype(int),
    "list": lambda d: [float(v) for v in d],
    "tuple": lambda d: tuple(float(v) for v in d),
    "strided": lambda d: np.repeat(np.array(d, dtype=float), 2)[::2],
    "readonly": lambda d: _readonly(d),
    "single": lambda d: np.array(d[:1], dtype=float),
    "float32": lambda d: np.array(d, dtype=np.float32),
}


def _readonly(d):
    a = np.array(d, dtype=float)
    a.flags.writeable = False
    return a


def track(rng, n):
    "A time or temperature per point, in any order."
    t = np.cumsum(rng.uniform(0.1, 1, n))
    return [lambda: np.arange(n), lambda: t, lambda: t[::-1], lambda: rng.permutation(t), lambda: np.zeros(n), lambda: t % 2.0,
            lambda: np.repeat(t[: n // 2 + 1], 2)[:n], lambda: list(rng.permutation(n)), lambda: tuple(-t),
            lambda: np.where(np.arange(n) % 5, t, np.nan), lambda: np.sin(t), lambda: t.reshape(-1, 1), lambda: np.arange(n - 1)][rng.integers(13)]()


def gaps(R, rng, i):
    """Masked points of a record (no measurement there, whatever the array holds) stay masked in
    stretch and stress and are not drawn."""
    import matplotlib.pyplot as plt

    n = int(rng.integers(4, 60))
    A, L = float(10.0 ** rng.uniform(-2, 2)), float(10.0 ** rng.uniform(-2, 2))
    no = rng.uniform(size=(2, n)) < 0.3
    no[:, 1] = True
    fill = [9999.0, -1e30, np.nan, 0.0][rng.integers(4)]
    d, f = rng.normal(size=(2, n))
    which = rng.integers(3)
    if which == 0:  # both
        no[1] = no[0]
    if which == 1:  # the force alone
        no[0] = False
    D, G = (np.ma.MaskedArray(np.where(m, fill, v), mask=m) for v, m in ((d, no[0]), (f, no[1])))
    if which == 1:
        D = d.copy()
    ctx = {"displacement": D, "force": G, "area": A, "length": L, "masked": no}
    e = R.call("gaps", lab.Experiment, "gaps", D, G, ctx=ctx, area=A, length=L)
    if e is FAILED:
        return
    s = R.call("gaps:stress", e.stress, ctx=ctx)
    if s is FAILED:
        return
    for got, want, m, what in ((e.stretch, 1 + d / L, no[0], "stretch"), (s, f / A, no[1], "stress")):
        R.check(np.array_equal(np.ma.getmaskarray(got), m), f"gaps:{what}:mask", f"masked points of the {what}", **ctx)
        R.close(np.asarray(got)[~m], want[~m], np.abs(want[~m]).max() + 1e-300, 1e-14, f"gaps:{what}", what, **ctx)
    R.check(np.array_equal(np.ma.getmaskarray(G), no[1]) and np.array_equal(np.ma.getmaskarray(D), no[0]), "gaps:data", "masks of the data changed", **ctx)
    for method, x, y in (("plot_force_displacement", d, f), ("plot_stress_stretch", 1 + d / L, f / A)):
        out = R.call(f"gaps:{method}", getattr(e, method), ctx=ctx)
        if out is FAILED or not R.check(len(out[1].lines) == 1, "gaps:curves", "number of curves", **ctx):
            continue
        line = out[1].lines[0]
        got = np.ma.filled(np.ma.asarray(line.get_xdata(orig=False), dtype=float), np.nan), np.ma.filled(np.ma.asarray(line.get_ydata(orig=False), dtype=float), np.nan)
        path = line.get_path().vertices
        for g, want, m, k, what in zip(got, (x, y), no, (0, 1), "xy"):
            if R.check(len(g) == n and len(path) == n, "gaps:drawn", f"{len(g)} points drawn", **ctx):
                ok = ~(no[0] | no[1])
                R.check(not np.isfinite(path[~ok]).all(axis=1).any(), "gaps:drawn", "points without a measurement are drawn", **ctx)
                R.close(path[ok, k], want[ok], np.abs(want).max(), 1e-12, f"gaps:drawn:{what}", "drawn points", **ctx)
    plt.close("all")
    R.event(("gaps", which, repr(fill)), n)
    R.bump("records with gaps")


def experiment(R, rng, i):
    form = list(FORMS)[i % len(FORMS)]
    n = int([rng.integers(2, 40), rng.integers(2, 40), rng.integers(40, 300), rng.integers(300, 6000)][rng.integers(4)])
    d = FORMS[form](rng.normal(size=n) * 10.0 ** rng.uniform(-2, 3))
    f = FORMS[form](rng.normal(size=n) * 10.0 ** rng.uniform(-2, 5))
    name = [f"test {i}", f"test {i}", f"{i} mm", "Pr\xfcfk\xf6rper \u03b2", f"{i}"][rng.integers(5)]
    if rng.integers(8) == 0:
        f = d  # (one array for both)
    elif n > 5 and form == "float array" and rng.integers(2):
        f[2] = np.nan  # a gap in the record
    kw = {}
    A, L = 1.0, 1.0
    if rng.integers(4):
        A = kw["area"] = [float(10.0 ** rng.uniform(-3, 3)), int(rng.integers(1, 50))][rng.integers(2)]
    if rng.integers(4):
        L = kw["length"] = [float(10.0 ** rng.uniform(-3, 3)), int(rng.integers(1, 200))][rng.integers(2)]
    if rng.integers(3):
        kw["time"] = track(rng, n)
    if rng.integers(2):
        kw["temperature"] = [np.full(n, 20.0), track(rng, n)][rng.integers(2)]
    ctx = {"form": form, "displacement": d, "force": f, **{k: v for k, v in kw.items() if k in ("area", "length")}}
    w = Watch()
    w.add("data", *[a for a in (d, f) if isinstance(a, np.ndarray)])
    keep = (list(d), list(f))
    e = R.call(f"experiment:{form}", lab.Experiment, name, d, f, ctx=ctx, **kw)
    if e is FAILED:
        return None
    D, G = np.array(keep[0]), np.array(keep[1])
    tol = 1e-6 if form == "float32" else 1e-14
    for rep in range(2):
        want = 1 + D / L
        R.close(np.asarray(e.stretch), want, 1 + np.abs(want), tol, "stretch", "stretch", **ctx)
        s = R.call("stress", e.stress, ctx=ctx)
        if s is not FAILED:
            want = G / A
            ok = np.isfinite(want)
            R.check(np.shape(s) == want.shape and np.array_equal(np.isnan(s), ~ok), "stress:gaps", "shape or gaps", **ctx)
            if np.shape(s) == want.shape:
                R.close(np.asarray(s)[ok], want[ok], 1e-300 + np.abs(want[ok]), tol, "stress", "stress", **ctx)
            if isinstance(s, np.ndarray) and s.flags.writeable and s.dtype.kind == "f":  # (results are the caller's)
                s += 1.0
                R.bump("results written into")
    R.check(not w.changed() and all(np.array_equal(a, b, equal_nan=True) for a, b in zip((d, f), keep)), "data changed",
            "data of the experiment changed", **ctx)
    R.check(e.label == name, "label", f"{e.label!r}", **ctx)
    R.check(np.array_equal(np.asarray(e.displacement), D) and np.array_equal(np.asarray(e.force), G, equal_nan=True)
            and e.area == A and e.length == L, "attributes", "attributes differ from the arguments", **ctx)
    for k in ("time", "temperature"):
        v = getattr(e, k)
        R.check(v is None if k not in kw else np.array_equal(v, kw[k], equal_nan=True), f"attribute:{k}", f"{v!r}", **ctx)
    R.event(("experiment", form, "area" in kw, "length" in kw, n), n)
    R.bump("experiments")
    return e, D, G, A, L, ctx


def line_data(line):
    return np.asarray(line.get_xdata(orig=True)), np.asarray(line.get_ydata(orig=True))


def same_curve(R, line, x, y, mech, ctx, tol=1e-12):
    a, b = line_data(line)
    for got, want, n in ((a, x, "x"), (b, y, "y")):
        want = np.asarray(want, dtype=float)
        got = np.asarray(got, dtype=float)
        if not R.check(got.shape == want.shape, f"{mech}:{n}:shape", f"{got.shape} instead of {want.shape}", **ctx):
            continue
        ok = np.isfinite(want)
        R.check(np.array_equal(np.isfinite(got), ok), f"{mech}:{n}:gaps", "gaps", **ctx)
        top = np.abs(want[ok]).max() if ok.any() else 1.0
        R.close(got[ok], want[ok], top + 1e-300, tol, f"{mech}:{n}", f"{n} data of the drawn curve", **ctx)


STYLES = [
    ((), {}), ((), {"lw": 2}), (("o",), {}), (("C3--",), {"lw": 0.5}), (("k.",), {"markersize": 3}),
    ((), {"color": "red", "linestyle": ":"}), (("C1",), {"alpha": 0.5}),
]


def style_ok(line, args, kw):
    import matplotlib.colors as mc

    ok = True
    if "lw" in kw:
        ok &= line.get_linewidth() == kw["lw"]
    if "color" in kw:
        ok &= mc.to_rgb(line.get_color()) == mc.to_rgb(kw["color"])
    if "linestyle" in kw:
        ok &= line.get_linestyle() == kw["linestyle"]
    if "markersize" in kw:
        ok &= line.get_markersize() == kw["markersize"]
    if "alpha" in kw:
        ok &= line.get_alpha() == kw["alpha"]
    if args == ("o",):
        ok &= line.get_marker() == "o"
    if args and args[0].startswith("C"):
        ok &= mc.to_rgb(line.get_color()) == mc.to_rgb(args[0][:2])
    return bool(ok)


DEFAULTS = {
    "plot_force_displacement": (r"Displacement $d$", r"Force $F$"),
    "plot_stress_stretch": (r"Stretch $l/L$", r"Force per undeformed area $F/A$"),
}


def plot_one(R, rng, obj, method, x, y, default_label, ax, ctx, tol=1e-12):
    import matplotlib.pyplot as plt

    args, style = STYLES[rng.integers(len(STYLES))]
    kw = dict(style)
    label = None
    if rng.integers(2):
        label = kw["label"] = str(rng.choice(["my curve", "B", "$x$", "", "0"]))
    xl, yl = DEFAULTS[method]
    if rng.integers(3) == 0:
        xl = kw["xlabel"] = str(rng.choice(["my x", "my x", ""]))
    if rng.integers(3) == 0:
        yl = kw["ylabel"] = str(rng.choice(["my y", "my y", ""]))
    figs = plt.get_fignums()
    before = [] if ax is None else [(ln, *line_data(ln), ln.get_label()) for ln in ax.lines]
    others = [] if ax is None else [(a, *appearance(a)) for a in ax.get_figure(root=True).axes if a is not ax]
    own = None if ax is None else appearance(ax)[0]
    if ax is not None:
        kw["ax"] = ax
    mech = f"plot:{method[5:]}"
    ctx = {**ctx, "method": method, "args": args, "kwargs": {k: v for k, v in kw.items() if k != "ax"},
           "existing axes": ax is not None}
    out = R.call(mech, getattr(obj, method), *args, ctx=ctx, **kw)
    R.event((mech, type(obj).__name__, ax is not None, label is None, args, tuple(sorted(style))))
    R.bump("plots")
    if out is FAILED:
        return None
    if not R.check(isinstance(out, tuple) and len(out) == 2, f"{mech}:return", f"{out!r}"[:200], **ctx):
        return None
    fig, got = out
    new = [n for n in plt.get_fignums() if n not in figs]
    if ax is None:
        R.check(len(new) == 1 and fig.number == new[0] and got in fig.axes, f"{mech}:new figure",
                f"{len(new)} new figures", **ctx)
    else:
        R.check(got is ax and fig in (ax.get_figure(), ax.get_figure(root=True)) and not new, f"{mech}:given axes",
                "not drawn into the given axes", **ctx)
        R.check(appearance(ax)[0] == own, f"{mech}:appearance of given axes", f"{appearance(ax)[0]} instead of {own}", **ctx)
        for a, *was in others:
            R.check(list(appearance(a)) == was, f"{mech}:other axes", f"{appearance(a)} instead of {was}", **ctx)
        R.check([a for a in ax.get_figure(root=True).axes if a is not ax] == [a for a, *_ in others], f"{mech}:other axes",
                "axes came or went", **ctx)
        R.bump("plots beside other axes", bool(others))
    lines = list(got.lines)
    R.check(len(lines) == len(before) + 1, f"{mech}:number of curves", f"{len(lines)} after {len(before)}", **ctx)
    for (ln, a, b, lb), now in zip(before, lines):
        c, d = line_data(now)
        R.check(now is ln and np.array_equal(a, c, equal_nan=True) and np.array_equal(b, d, equal_nan=True)
                and lb == now.get_label(), f"{mech}:earlier curves", "an earlier curve changed", **ctx)
    if lines:
        same_curve(R, lines[-1], x, y, mech, ctx, tol)
        want = default_label if label is None else label
        drawn = lines[-1].get_label()
        R.check(drawn == want or (want == "" and drawn.startswith("_child")), f"{mech}:label", f"{lines[-1].get_label()!r} instead of {want!r}", **ctx)
        R.check(style_ok(lines[-1], args, style), f"{mech}:style", "style not applied", **ctx)
        R.check(lines[-1].get_visible() and got.get_visible(), f"{mech}:visible", "the curve is not shown", **ctx)
        if ax is None:  # all of the curve is inside of the new axes
            ok = np.isfinite(np.asarray(x, float)) & np.isfinite(np.asarray(y, float))
            got.get_xlim(), got.get_ylim()  # (limits are set when they are asked for)
            at = got.transAxes.inverted().transform(got.transData.transform(np.stack([np.asarray(v, float)[ok] for v in (x, y)], axis=-1)))
            R.check(bool(((at > -1e-6) & (at < 1 + 1e-6)).all()), f"{mech}:inside", f"{(~((at > -1e-6) & (at < 1 + 1e-6))).any(axis=-1).sum()} points outside of the axes", **ctx)
    R.check(got.get_xlabel() == xl and got.get_ylabel() == yl, f"{mech}:axis labels",
            f"{got.get_xlabel()!r}, {got.get_ylabel()!r}", **ctx)
    return got


def appearance(a):
    "What drawing a curve does not touch; its curves and labels."
    fixed = [a.get_xscale(), a.get_yscale(), a.get_title(), str(a.get_aspect()), a.get_autoscalex_on(), a.get_autoscaley_on(),
             a.get_visible(), a.axison, a.get_facecolor(), [round(float(v), 9) for v in a.get_position().bounds], len(a.texts),
             repr(a.xaxis.get_tick_params()), repr(a.yaxis.get_tick_params()), a.xaxis_inverted(), a.yaxis_inverted()]
    if not a.get_autoscalex_on():
        fixed.append([float(v) for v in a.get_xlim()])
    if not a.get_autoscaley_on():
        fixed.append([float(v) for v in a.get_ylim()])
    return fixed, [[id(ln), ln.get_label(), len(ln.get_xdata())] for ln in a.lines], [a.get_xlabel(), a.get_ylabel()]


def axes(rng):
    "Axes of a user: alone, one of several, of a subfigure, twins, insets; also prepared ones."
    import matplotlib.pyplot as plt

    kind = rng.integers(7)
    if kind < 2:
        ax = plt.subplots()[1]
    elif kind == 2:
        ax = plt.subplots(1, 3)[1][rng.integers(3)]
    elif kind == 3:
        ax = plt.figure().subfigures(1, 2)[rng.integers(2)].subplots()
    elif kind == 4:
        a = plt.subplots()[1]
        ax = (a, a.twinx(), a)[rng.integers(3)]
    elif kind == 5:
        a = plt.subplots()[1]
        ax = (a, a.inset_axes([0.6, 0.1, 0.3, 0.3]))[rng.integers(2)]
    else:
        ax = plt.subplots(2, 2, sharex=True, sharey=bool(rng.integers(2)))[1][rng.integers(2), rng.integers(2)]
    for act in rng.permutation(8)[: rng.integers(4)]:
        [lambda: ax.set_xscale("log"), lambda: ax.set_yscale("symlog"), lambda: ax.set_title("prepared"), lambda: ax.grid(True),
         lambda: ax.set_xlim(0.25, 4.5), lambda: ax.set_ylim(-3, 7), lambda: ax.invert_xaxis(), lambda: ax.set_facecolor("0.9")][act]()
    return ax


def tod(sp):
    return lambda **C: SPACES[sp](hel.InvariantsFramework(hel.models.invariants.ThirdOrderDeformation(**C)))


def curve(case, lc, x, labels, p):
    lam = stretches_of(case, lc, x)
    g = principal(unimodular(_inv_terms(tod_terms(dict(zip(labels, p))))), lam)[1]
    return g[0] - g[2] * lam[2] / lam[0]


def simulation(rng):
    case = ("uniaxial", "planar", "biaxial")[rng.integers(3)]
    name = "my test" if rng.integers(2) else None
    lc = {"uniaxial": lab.Uniaxial, "planar": lab.Planar, "biaxial": lab.Biaxial}[case](label=name)
    labels = ["C10", "C01"]
    p = rng.uniform(0.2, 1, 2)
    x = rng.uniform(0.7, 2.0, int([rng.integers(2, 20), rng.integers(2, 20), rng.integers(20, 500), 3000][rng.integers(4)]))
    if rng.integers(2):
        x = np.sort(x)
    sim = lab.Simulation(lc, x, labels, tod(("Distortional", "Deformation")[rng.integers(2)]), p.tolist())
    return sim, x, curve(case, lc, x, labels, p), name or CASES[case][2], {"case": case, "stretch": x, "parameters": p}


def drawing(R, rng, i):
    import matplotlib.pyplot as plt

    ax = None
    if rng.integers(2):
        ax = axes(rng)
        if rng.integers(2):
            ax.plot([0, 1], [0, 1], label="earlier")
        if rng.integers(2):
            plt.subplots()  # another current figure
    for _ in range(3):
        if rng.integers(2):
            made = experiment(R, rng, int(rng.integers(100)))
            if made is None:
                continue
            e, D, G, A, L, ctx = made
            w = Watch()
            w.add("experiment", *[a for a in (e.displacement, e.force, e.stretch) if isinstance(a, np.ndarray)])
            t = 1e-6 if ctx["form"] == "float32" else 1e-12
            if rng.integers(2):
                got = plot_one(R, rng, e, "plot_force_displacement", D, G, e.label, ax, ctx, t)
            else:
                got = plot_one(R, rng, e, "plot_stress_stretch", 1 + D / L, G / A, e.label, ax, ctx, t)
            R.check(not w.changed(), "data changed", "plotting changed the experiment", **ctx)
        else:
            sim, x, y, label, ctx = simulation(rng)
            w = Watch()
            w.add("stretch", x)
            got = plot_one(R, rng, sim, "plot_stress_stretch", x, y, label, ax, ctx, 1e-8)
            R.check(not w.changed(), "data changed", "plotting changed the simulation", **ctx)
        if got is not None and rng.integers(2):
            ax = got
    plt.close("all")


def fits(R, rng, i):
    import matplotlib.pyplot as plt

    n = int(rng.integers(1, 5))
    labels = ["C10", "C01"]
    true = np.array([rng.uniform(0.4, 0.9), rng.uniform(0.05, 0.3)])
    ex, sims, xs, ys, cases, lcs = [], [], [], [], [], []
    for k in range(n):
        case = ("uniaxial", "planar", "biaxial")[rng.integers(3)]
        lc = {"uniaxial": lab.Uniaxial, "planar": lab.Planar, "biaxial": lab.Biaxial}[case]()
        m = int(rng.integers(6, 15))
        x = np.linspace(1, 2.2, m)
        y = curve(case, lc, x, labels, true) * (1 + 0.02 * rng.normal(size=m))
        A, L = float(rng.uniform(0.5, 30)), float(rng.uniform(0.5, 100))
        ex.append(lab.Experiment(f"specimen {k}", (x - 1) * L, y * A, area=A, length=L))
        xs.append(1 + ((x - 1) * L) / L)
        ys.append(y)
        own = rng.integers(2)
        sims.append(lab.Simulation(lc, np.linspace(1, 2, 5) if own else ex[-1].stretch, labels, tod("Distortional")))
        cases.append(case)
        lcs.append(lc)
    mask = None
    if rng.integers(2):
        kind = i % 6  # (points spread, first or last part, a slice, indices)
        mask = [[np.arange(len(x)) % 3 != 1, np.arange(len(x)) < 4, np.arange(len(x)) >= len(x) - 4, slice(1, 5),
                 np.array([4, 1, 3, 0]), np.arange(len(x)) > -1][kind] for x in xs]
    opt = lab.Optimize(ex, sims, np.ones(2), mask)
    ctx = {"cases": cases, "mask": mask is not None}
    out = R.call("fit", opt.curve_fit, ctx=ctx)
    if out is FAILED:
        return
    p = np.array(out[0])
    std = np.sqrt(np.diag(out[1]))
    figs = plt.get_fignums()
    if rng.integers(2):
        plt.subplots()[1].plot([0, 1])
        figs = plt.get_fignums()
    title = "my title" if rng.integers(2) else None
    w = Watch()
    w.add("data", *[e.displacement for e in ex], *[e.force for e in ex], *[e.stretch for e in ex], *[s.stretch for s in sims])
    grids = [np.array(s.stretch) for s in sims]
    kw = {} if title is None else {"title": title}
    res = R.call("fit plot", opt.plot, ctx=ctx, **kw)
    R.event(("fit plot", n, tuple(cases), mask is not None, title))
    R.bump("fit plots")
    if res is FAILED:
        return
    fig, ax = res
    new = [k for k in plt.get_fignums() if k not in figs]
    R.check(len(new) == 1 and fig.number == new[0] and ax in fig.axes, "fit plot:new figure", f"{new}", **ctx)
    R.check(not w.changed(), "data changed", "the fit plot changed the data", **ctx)
    if R.check(len(ax.lines) == 2 * n, "fit plot:number of curves", f"{len(ax.lines)} for {n} pairs", **ctx):
        by = {ln.get_label(): ln for ln in ax.lines}
        colors = []
        for k in range(n):
            s, e = f"specimen {k}", f"specimen {k} (Experiment)"
            if not R.check(s in by and e in by, "fit plot:labels", f"{list(by)}", **ctx):
                continue
            same_curve(R, by[e], xs[k], ys[k], "fit plot:experiment", ctx)
            x = grids[k]
            same_curve(R, by[s], x, curve(cases[k], lcs[k], x, labels, p), "fit plot:simulation", ctx, 1e-8)
            R.check(by[s].get_color() == by[e].get_color(), "fit plot:colors", "a pair has two colors", **ctx)
            colors.append(by[s].get_color())
        R.check(len(set(colors)) == len(colors), "fit plot:colors", "pairs share a color", **ctx)
    leg = ax.get_legend()
    if R.check(leg is not None, "fit plot:legend", "no legend", **ctx):
        texts = {t.get_text() for t in leg.get_texts()}
        want = {f"specimen {k}" for k in range(n)} | {f"specimen {k} (Experiment)" for k in range(n)}
        R.check(texts == want, "fit plot:legend", f"{texts}", **ctx)
    R.check(ax.get_title() == (title or ""), "fit plot:title", f"{ax.get_title()!r}", **ctx)
    text = "\n".join(t.get_text() for t in ax.texts)
    for name, v, sd in zip(labels, p, std):
        R.check(f"{name} = {v:1.2g}" in text, "fit plot:parameters", f"{name} = {v} not shown in {text!r}", **ctx)
        R.check(f"{2 * sd:1.2g}" in text, "fit plot:errors", f"two standard deviations {2 * sd} of {name} not in {text!r}", **ctx)
    norm = f"{np.linalg.norm(opt.residuals):1.4g}"
    R.check(norm in text, "fit plot:residuals", f"norm of residuals {norm} not in {text!r}", **ctx)
    mean = f"{opt.mean_relative_std():1.1f}"
    R.check(mean in text, "fit plot:mean deviation", f"mean deviation {mean} not in {text!r}", **ctx)
    for t in ax.texts:
        at = t.get_transform().transform(t.get_position())
        R.check(fig.bbox.contains(*at), "fit plot:text", f"text at {at} outside of the figure", **ctx)
    plt.close("all")


def many_parameters(R, rng, i):
    "The text of all parameters of the simulations, however many; of many experiments."
    import matplotlib.pyplot as plt

    k, n = (1, 6, 9, 12)[i % 4], (1, 2, 7)[i % 3]
    labels = [f"q{j}_" for j in range(k)]

    def material(**kw):
        mu = [kw[s] for s in labels]
        return hel.DistortionalSpace(hel.StretchesFramework(hel.models.stretches.Ogden(mu, [1 + 0.5 * j for j in range(k)])))

    ex = [lab.Experiment(f"specimen {j}", np.linspace(0, 1, 8), rng.uniform(0.5, 2, 8)) for j in range(n)]
    opt = lab.Optimize(ex, [lab.Simulation(lab.Uniaxial(), e.stretch, labels, material) for e in ex], rng.uniform(0.1, 2, k))
    ctx = {"parameters": k, "experiments": n}
    R.call("many parameters", opt.init_curve_fit, ctx=ctx)
    res = R.call("many parameters", opt.plot, ctx=ctx)
    R.event(("many parameters", k, n))
    if res is not FAILED:
        ax = res[1]
        text = "\n".join(t.get_text() for t in ax.texts)
        for s, v in zip(labels, opt.parameters):
            R.check(f"{s} = {v:1.2g}" in text, "many parameters:text", f"{s} = {v} not shown in {text!r}", **ctx)
        got = {ln.get_label() for ln in ax.lines}
        want = {f"specimen {j}" for j in range(n)} | {f"specimen {j} (Experiment)" for j in range(n)}
        R.check(got == want, "many parameters:curves", f"{got}", **ctx)
    plt.close("all")


def alike_labels(R, rng, i):
    "A fit of several experiments of the same label draws all of them."
    import matplotlib.pyplot as plt

    labels = ["C10", "C01"]
    n = 2 + i % 2
    names = [["rubber"] * n, ["rubber", "steel", "rubber"][:n][::-1], [""] * n][i % 3]
    ex, sims, xs, ys = [], [], [], []
    x = np.linspace(1, 2, 9)
    for k in range(n):
        lc = lab.Uniaxial()
        y = curve("uniaxial", lc, x, labels, rng.uniform(0.2, 0.6, 2))
        ex.append(lab.Experiment(names[k], x - 1, y))
        sims.append(lab.Simulation(lc, x, labels, tod("Distortional")) if k == 0 or i % 4 < 2 else sims[0])
        ys.append(y)
    opt = lab.Optimize(ex, sims, np.ones(2))
    ctx = {"labels": names}
    out = R.call("same labels", opt.curve_fit, ctx=ctx)
    res = R.call("same labels", opt.plot, ctx=ctx)
    if out is FAILED or res is FAILED:
        return
    lines = res[1].lines
    y0 = curve("uniaxial", lc, x, labels, np.array(out[0]))
    if R.check(len(lines) == 2 * n, "same labels:number of curves", f"{len(lines)} curves of {n} pairs", **ctx):
        left = [line_data(ln) for ln in lines]
        for want in [*ys, *[y0] * n]:
            hit = [j for j, (a, b) in enumerate(left) if np.shape(b) == want.shape and np.abs(b - want).max() < 1e-6 * np.abs(want).max()]
            if R.check(bool(hit), "same labels:curves", "a curve is missing", **ctx):
                left.pop(hit[0])
    R.event(("same labels", tuple(names)), n)
    plt.close("all")


def long_records(R, rng, i):
    "Long records are drawn point by point, peaks of single points included."
    import matplotlib.pyplot as plt

    n = (20_001, 65_536, 100_003, 250_000)[i % 4]
    d = np.linspace(0, 100, n)
    f = np.sin(d) + rng.normal(size=n) * 0.01
    f[rng.integers(n, size=5)] += 10
    f[-1] = -7
    e = lab.Experiment("long", d, f, area=2.0, length=50.0)
    plot_one(R, rng, e, "plot_force_displacement", d, f, "long", None, {"points": n})
    plot_one(R, rng, e, "plot_stress_stretch", 1 + d / 50.0, f / 2.0, "long", None, {"points": n})
    x = np.linspace(0.7, 2.0, n // 4)
    x[n // 9] = 2.3
    lc = lab.Uniaxial()
    sim = lab.Simulation(lc, x, ["C10", "C01"], tod("Distortional"), [0.5, 0.1])
    plot_one(R, rng, sim, "plot_stress_stretch", x, curve("uniaxial", lc, x, ["C10", "C01"], [0.5, 0.1]), "Uniaxial Tension", None, {"points": n}, 1e-8)
    plt.close("all")


def independent(R, rng):
    "Many experiments and simulations alive at once keep their own data."
    made = [experiment(R, rng, int(rng.integers(100))) for _ in range(6)]
    made = [m for m in made if m is not None]
    sims = [simulation(rng) for _ in range(4)]
    for e, D, G, A, L, ctx in made:
        t = 1e-6 if ctx["form"] == "float32" else 1e-14
        R.close(np.asarray(e.stretch), 1 + D / L, 1 + np.abs(1 + D / L), t, "independent:stretch", "stretch", **ctx)
        s = np.asarray(e.stress())
        ok = np.isfinite(G)
        R.close(s[ok], (G / A)[ok], np.abs(G / A)[ok] + 1e-300, t, "independent:stress", "stress", **ctx)
        R.event(("independent", ctx["form"]), 1)
    for s, x, y, label, ctx in sims:
        R.close(np.asarray(s.stress()), y, np.abs(y).max() + 1, 1e-8, "independent:simulation", "stress", **ctx)
        R.check(s.label == label, "independent:label", f"{s.label!r}", **ctx)


def corrected(R, rng, i):
    """A corrected area, force, label, parameter or stretch enters what is evaluated and drawn
    afterwards."""
    import matplotlib.pyplot as plt

    made = experiment(R, rng, int(rng.choice([0, 1, 4, 5])))
    if made is not None:
        e, D, G, A, L, ctx = made
        for step in range(4):
            k = rng.integers(4)
            if k == 0:
                A = e.area = float(10.0 ** rng.uniform(-2, 2))
            elif k == 1:
                G = rng.normal(size=D.shape)
                e.force = G.copy()
            elif k == 2 and isinstance(e.force, np.ndarray) and e.force.flags.writeable and e.force.dtype == float:
                e.force[:1] = 3.5
                G = np.array(e.force)
            else:
                e.label = f"renamed {step}"
            s = R.call("corrected", e.stress, ctx=ctx)
            ok = np.isfinite(G)
            if s is not FAILED:
                R.close(np.asarray(s)[ok], (G / A)[ok], np.abs(G / A)[ok] + 1e-300, 1e-14, "corrected:stress",
                        "stress after a correction of the data", **ctx)
            plot_one(R, rng, e, "plot_stress_stretch", 1 + D / L, G / A, e.label, None, ctx)
            R.bump("corrections")
            plt.close("all")
    sim, x, y, label, ctx = simulation(rng)
    lc, case = sim.loadcase, ctx["case"]
    for step in range(3):
        if step:
            p = rng.uniform(0.2, 1, 2)
            sim.parameters = p.tolist()
            if rng.integers(2):
                x = rng.uniform(0.7, 2.0, len(x) if rng.integers(2) else 5)
                sim.stretch = x
            y = curve(case, lc, x, ["C10", "C01"], p)
        s = R.call("corrected", sim.stress, ctx=ctx)
        if s is not FAILED:
            R.close(np.asarray(s), y, np.abs(y).max() + 1, 1e-8, "corrected:simulation", "stress after new parameters", **ctx)
        plot_one(R, rng, sim, "plot_stress_stretch", x, y, label, None, ctx, 1e-8)
        R.bump("corrections")
        plt.close("all")


def run(R):
    rng = np.random.default_rng([SEED, 22])
    R.require("plots", 60)
    R.require("plots beside other axes", 10)
    R.require("fit plots", 8)
    R.require("experiments", 60)
    for i in range(pick(80, 2000)):
        experiment(R, rng, i)
    for i in range(pick(80, 1200)):
        drawing(R, rng, i)
    for i in range(pick(16, 200)):
        fits(R, rng, i)
    for i in range(pick(20, 300)):
        independent(R, rng)
    for i in range(pick(12, 100)):
        alike_labels(R, rng, i)
        many_parameters(R, rng, i)
    for i in range(pick(3, 12)):
        long_records(R, rng, i)
    R.require("records with gaps", 20)
    for i in range(pick(24, 300)):
        gaps(R, rng, i)
    R.require("corrections", 40)
    for i in range(pick(14, 300)):
        corrected(R, rng, i)
    R.sample({"forms": list(FORMS), "styles": [list(map(repr, s)) for s in STYLES]})
