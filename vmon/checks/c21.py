"""C21: curve fits."""

import warnings

import numpy as np
from scipy.optimize import curve_fit

from ..engine import FAILED
from ..env import SEED, hel, pick
from ..materials import MEASURES, SPACES, _inv_terms, gi_terms, ogden_terms, tod_terms
from ..monitors import Watch
from .c20 import CASES, Fibre, SimpleShear, fibre_curve, stretches_of
from ..oracle import principal, unimodular

RULE = (
    "synthetic experiments (1..4 load cases of different length, with and without noise) fitted "
    "with linear and nonlinear models, masks, initial values and scipy options; monitored: agreement "
    "of all reported parameters, residuals, errors, optimality against independent least squares, "
    "influence of excluded data, repeated and interleaved fits; distinct = (model, load cases, mask, "
    "options, data kind)"
)

lab = hel.lab


class Model:
    def __init__(self, kind, labels, true, start, framework, terms, linear):
        self.kind, self.labels, self.true, self.start = kind, labels, np.array(true), np.array(start)
        self.framework, self.terms, self.linear = framework, terms, linear

    def material(self, sp):
        return lambda **kw: SPACES[sp](self.framework(**kw))

    def curve(self, case, lc, x, p):
        "Independent nominal stress."
        lam = stretches_of(case, lc, x)
        g = principal(unimodular(self.terms(p)), lam)[1]
        return g[0] - g[2] * lam[2] / lam[0]


def model(rng, kind):
    if kind == "tod":
        pool = [["C10", "C01"], ["C10", "C20"], ["C20", "C10", "C30"], ["C01", "C10"], ["C10"], ["C11", "C10"],
                ["C01", "C20", "C10"]]
        labels = pool[rng.integers(len(pool))]
        mags = dict(C10=0.5, C01=0.2, C11=0.03, C20=0.05, C30=0.01)
        fw = lambda **C: hel.InvariantsFramework(hel.models.invariants.ThirdOrderDeformation(**C))  # noqa: E731
        return Model(kind, labels, [mags[n] * rng.uniform(0.5, 1.5) for n in labels], np.ones(len(labels)), fw,
                     lambda p: _inv_terms(tod_terms(dict(zip(labels, p)))), True)
    if kind == "ogden":
        labels = ["alpha", "mu"]
        fw = lambda alpha, mu: hel.StretchesFramework(hel.models.stretches.Ogden([mu], [alpha]))  # noqa: E731
        return Model(kind, labels, [rng.uniform(1.5, 3.5), rng.uniform(0.3, 1.5)], [2.0, 1.0], fw,
                     lambda p: ogden_terms([p[1]], [p[0]]), False)
    labels = ["C10", "k"]
    s = kind == "generalized strain"
    name = "strain" if s else "deformation"
    fw = lambda k, **C: hel.GeneralizedInvariantsFramework(  # noqa: E731
        hel.models.invariants.ThirdOrderDeformation(**C, strain=s), MEASURES[name][1](), exponent=k)
    return Model(kind, labels, [rng.uniform(0.3, 0.8), rng.uniform(1.3, 2.6)], [1.0, 2.0], fw,
                 lambda p: gi_terms(name, p[1], tod_terms({"C10": p[0]}, s)), False)


KINDS = ["tod", "tod", "ogden", "generalized", "generalized strain"]


def masks(rng, lengths):
    "A mask per experiment and the indices it selects."
    out, idx, kinds = [], [], []
    for i, n in enumerate(lengths):
        k = int(rng.integers(6))
        if k == 0:
            m = rng.random(n) < 0.7
            m[:4] = True
            kind = "boolean"
        elif k == 1:
            m = np.sort(rng.permutation(n)[: max(5, n // 2)])
            kind = "indices"
        elif k == 2:
            m = slice(int(rng.integers(0, 3)), n - int(rng.integers(0, 3)))
            kind = "slice"
        elif k == 3:
            m = slice(None, None, 2)
            kind = "stride"
        elif k == 4:
            m = rng.permutation(n)[: max(5, n // 2)]
            kind = "unordered indices"
        else:
            m = slice(None)
            kind = "all"
        if i and rng.integers(6) == 0:
            m, kind = np.zeros(n, dtype=bool), "nothing"
        out.append(m)
        idx.append(np.arange(n)[m])
        kinds.append(kind)
    return out, idx, kinds


class Setup:
    "A fit problem; fresh() gives new lab objects for it."

    def __init__(self, rng, mod, sp, noise, mask):
        self.mod, self.sp = mod, sp
        n = int(rng.integers(1, 5))
        self.cases = [str(c) for c in rng.choice(["uniaxial", "planar", "biaxial"], n)]
        self.lcs = [CASES[c][0](rng) for c in self.cases]
        self.x, self.y, self.area, self.length = [], [], [], []
        for c, lc in zip(self.cases, self.lcs):
            m = int(rng.integers(9, 30))
            hi = 2.0 if c == "biaxial" else 3.0
            x = np.linspace(0.6 if rng.integers(3) == 0 else 1.0, rng.uniform(1.6, hi), m)
            if rng.integers(3) == 0:
                x = rng.permutation(x)
            elif rng.integers(4) == 0:  # loading and unloading, or every point measured again
                x = np.concatenate([x, x[::-1]]) if rng.integers(2) else np.repeat(x, 2 + rng.integers(2))
            y = mod.curve(c, lc, x, mod.true)
            y = y + noise * np.abs(y).max() * rng.uniform(-1, 1, len(x))
            self.x.append(x)
            self.y.append(y)
            self.area.append(float(10.0 ** rng.uniform(-1, 2)))
            self.length.append(float(10.0 ** rng.uniform(-1, 2)))
        self.mask = self.kinds = None
        self.idx = [np.arange(len(x)) for x in self.x]
        if mask:
            self.mask, self.idx, self.kinds = masks(rng, [len(x) for x in self.x])
        # the simulations' own stretches (for plots) may differ from the measured ones
        self.own_stretch = rng.integers(2) == 0
        self.count = [7, None, None, 60][rng.integers(4)]
        self.shared = rng.integers(4) > 0
        self.same = self.same_sim = None
        self.rng = rng

    def data(self, spoil=None):
        "Displacement and force arrays; points outside the mask may be spoilt."
        d = [(x - 1) * L for x, L in zip(self.x, self.length)]
        f = [y * A for y, A in zip(self.y, self.area)]
        if spoil is not None:
            for i, idx in enumerate(self.idx):
                out = np.setdiff1d(np.arange(len(d[i])), idx)
                if spoil in ("force", "both"):
                    f[i][out] = self.rng.choice([np.nan, 1e6, -1e3, np.inf], len(out))
                if spoil in ("displacement", "both"):
                    d[i][out] = self.rng.choice([np.nan, 1e3], len(out))
        return d, f

    def fresh(self, p0=None, spoil=None, mask="own"):
        d, f = self.data(spoil)
        ex = [
            lab.Experiment(f"test {i}", d[i], f[i], area=self.area[i], length=self.length[i])
            for i in range(len(d))
        ]
        one = self.mod.material(self.sp)  # usually one material function serves all simulations
        lcs = {c: lc for c, lc in zip(self.cases, self.lcs)}
        sims = [
            lab.Simulation(lcs[c] if self.shared else lc, self.grid(len(e.stretch)) if self.own_stretch else e.stretch,
                           self.mod.labels, one if self.shared else self.mod.material(self.sp), *self.given())
            for c, lc, e in zip(self.cases, self.lcs, ex)
        ]
        if self.same is not None:
            ex = [ex[k] for k in self.same]
            sims = [sims[k] for k in self.same] if self.same_sim else sims
        p0 = self.mod.start.copy() if p0 is None else p0
        m = self.mask if isinstance(mask, str) else mask
        opt = lab.Optimize(ex, sims, p0, m) if m is not None else lab.Optimize(experiments=ex, simulations=sims, parameters=p0)
        w = Watch()
        w.add("data", *d, *f)
        w.add("mask", *[k for k in (m or []) if isinstance(k, np.ndarray)])
        return opt, ex, sims, w

    def repeat(self, rng):
        "Some of the experiments (and simulations) take part more than once, in any order."
        n = len(self.x)
        pick_ = rng.integers(n, size=int(rng.integers(n + 1, n + 4)))
        pick_[: n] = np.arange(n)
        pick_ = rng.permutation(pick_)
        first = [int(np.flatnonzero(pick_ == k)[0]) for k in pick_]
        for name in ("cases", "lcs", "x", "y", "area", "length"):
            setattr(self, name, [getattr(self, name)[k] for k in pick_])
        self.same, self.same_sim = first, bool(rng.integers(2))
        self.mask, self.idx, self.kinds = masks(rng, [len(x) for x in self.x])
        if rng.integers(3) == 0:
            self.mask, self.kinds = None, None
            self.idx = [np.arange(len(x)) for x in self.x]

    def given(self):
        "Parameters of its own, of a simulation (the fit replaces them)."
        k = [None, None, int, list, float][self.rng.integers(5)]
        one = [1] * len(self.mod.labels)
        return () if k is None else (one if k is list else np.array(one, k),)

    def grid(self, n):
        return np.linspace(1.0, 2.0, n if self.count is None else self.count)

    def selected(self):
        return [x[i] for x, i in zip(self.x, self.idx)], [y[i] for y, i in zip(self.y, self.idx)]

    def model_curve(self, p):
        "Concatenated independent curve over the selected points."
        x, _ = self.selected()
        return np.concatenate([self.mod.curve(c, lc, xi, p) for c, lc, xi in zip(self.cases, self.lcs, x)])

    def target(self):
        return np.concatenate(self.selected()[1])

    def describe(self):
        return {"model": self.mod.kind, "labels": self.mod.labels, "true": self.mod.true, "cases": self.cases,
                "masks": self.kinds, "space": self.sp, "lengths": [len(x) for x in self.x]}


def consistent(R, s, opt, sims, popt, pcov, ctx, weights=None, p0=None):
    "All reported quantities belong to one optimum."
    popt = np.asarray(popt, dtype=float)
    sc = np.abs(popt) + 1e-3
    if not R.check(popt.shape == (len(s.mod.labels),), "parameters:shape", f"{popt.shape}", **ctx):
        return
    R.close(np.asarray(opt.parameters, float), popt, sc, 1e-12, "parameters:optimizer", "stored parameters", **ctx)
    for i, sim in enumerate(sims):
        R.close(np.asarray(list(sim.parameters), float), popt, sc, 1e-12, "parameters:simulation",
                f"parameters of simulation {i}", **ctx)
    y = s.target()
    res = s.model_curve(popt) - y
    top = np.abs(y).max() + np.abs(res).max() + 1e-3
    got = np.asarray(opt.residuals, float)
    R.close(got, res, top, 1e-8, "residuals", "residuals at the reported parameters", **ctx)
    pcov = np.asarray(pcov, float)
    err = np.sqrt(np.diag(pcov))
    R.check(np.array_equal(np.isfinite(err), np.isfinite(np.asarray(opt.errors, float))), "errors:finite",
            f"{opt.errors} and {err}", **ctx)
    if np.isfinite(err).all():
        R.close(np.asarray(opt.errors, float), err, err + 1e-300, 1e-10, "errors", "standard deviations", **ctx)
        if (np.abs(popt) > 1e-12).all():
            R.close(opt.mean_relative_std(), np.mean(err / np.abs(popt)) * 100, 1e-12 + np.mean(err / np.abs(popt)) * 100,
                    1e-9, "mean_relative_std", "mean relative standard deviation", **ctx)
    R.close(opt.norm_residuals(), np.linalg.norm(got), top, 1e-12, "norm_residuals", "norm of the residuals", **ctx)
    if p0 is not None:
        w = 1.0 if weights is None else 1 / weights
        r0 = np.linalg.norm(w * (s.model_curve(p0) - y))
        r1 = np.linalg.norm(w * got) if got.shape == res.shape else np.inf
        R.check(r1 <= r0 * (1 + 1e-7) + 1e-9 * top, "not above the start", f"{r1} above {r0}", **ctx)
    # each simulation now reproduces the reported curve
    for c, lc, sim in zip(s.cases, s.lcs, sims):
        z = R.call("simulation after fit", sim.stress, ctx=ctx)
        if z is not FAILED:
            want = s.mod.curve(c, lc, np.asarray(sim.stretch), popt) if np.isfinite(sim.stretch).all() else z
            R.close(z, want, np.abs(want).max() + 1e-3, 1e-8, "simulation after fit", "simulated stress after the fit", **ctx)
    R.bump("fits checked")
    R.event(n=len(y))


def start(R, s, opt, sims, p, ctx):
    "The state of a fit at its start: residuals of the initial parameters, no errors yet."
    n = len(s.mod.labels)
    y = s.target()
    res = s.model_curve(p) - y
    top = np.abs(y).max() + np.abs(res).max() + 1e-3
    R.close(np.asarray(opt.residuals, float), res, top, 1e-8, "start:residuals", "residuals of the initial parameters", **ctx)
    R.close(opt.norm_residuals(), np.linalg.norm(res), top, 1e-8, "start:norm", "norm of the residuals", **ctx)
    R.close(np.asarray(opt.parameters, float), p, 1.0, 1e-15, "start:parameters", "initial parameters", **ctx)
    e = np.asarray(opt.errors, float)
    R.check(e.shape == (n,) and np.isnan(e).all(), "start:errors", f"errors {e} before a fit", **ctx)
    for k, sim in enumerate(sims):
        R.close(np.asarray(list(sim.parameters), float), p, 1.0, 1e-15, "start:simulation", f"parameters of simulation {k}", **ctx)
    R.bump("starts")


def optimal(R, s, popt, pcov, ctx, sigma=None, absolute=False):
    "Against independent (linear) least squares, or an independent scipy run."
    y = s.target()
    w = np.ones(len(y)) if sigma is None else 1 / sigma
    n = len(s.mod.labels)
    if len(y) <= n + 1:
        return
    popt = np.asarray(popt, float)
    if s.mod.linear:
        D = np.column_stack([s.model_curve(e) for e in np.eye(n)]) * w[:, None]
        q, *_ = np.linalg.lstsq(D, y * w, rcond=None)
        cond = np.linalg.cond(D / np.linalg.norm(D, axis=0))
        if cond > 1e4:
            return
        r = D @ q - y * w
        cov = np.linalg.inv(D.T @ D)
        if not absolute:
            cov = cov * (r @ r) / (len(y) - n)
        tol, tc = 1e-3, 1e-2
    else:
        try:
            q, _ = curve_fit(lambda x, *p: s.model_curve(p), np.zeros(len(y)), y, s.mod.true,
                             sigma=sigma, absolute_sigma=absolute)
        except RuntimeError:
            return
        r = (s.model_curve(q) - y) * w
        # covariance from the linearization at the reported optimum
        h = 1e-5
        D = np.column_stack([(s.model_curve(popt + h * e) - s.model_curve(popt - h * e)) / (2 * h) for e in np.eye(n)])
        D = D * w[:, None]
        cond = np.linalg.cond(D / np.linalg.norm(D, axis=0))
        rr = (s.model_curve(popt) - y) * w
        cov = np.linalg.inv(D.T @ D) if cond < 100 else np.full((n, n), np.inf)
        if not absolute:
            cov = cov * (rr @ rr) / (len(y) - n)
        tc = 2e-2
    a, b = np.linalg.norm((s.model_curve(popt) - y) * w), np.linalg.norm(r)
    if not s.mod.linear and a > b * 1.01 + 1e-6:
        R.bump("other local optimum")  # legitimate for nonlinear problems
        return
    top = np.linalg.norm(y * w)
    R.check(a <= b * (1 + 1e-5) + 1e-7 * top, "optimum", f"norm of residuals {a}, least squares {b}", reference=q, **ctx)
    if s.mod.linear and cond < 100:
        R.close(popt, q, np.abs(q) + 0.1 * np.abs(q).max(), tol, "optimum:parameters", "parameters of least squares", **ctx)
    d = np.sqrt(np.diag(cov))
    sharp = s.mod.linear or (d < 0.1 * np.abs(popt)).all()  # else the linearization says little
    if np.isfinite(d).all() and sharp and b > 1e-6 * top:
        R.close(np.asarray(pcov, float), cov, np.outer(d, d), tc, "covariance", "covariance of least squares", **ctx)
        R.bump("covariances compared")
    R.bump("optima compared")


def options(rng, s):
    n = len(s.mod.labels)
    m = len(s.target())
    k = int(rng.integers(7))
    if k == 0:
        return "lm", {"method": "lm"}, None, False
    if k == 1:
        return "trf", {"method": "trf", "x_scale": 1.0, "ftol": 1e-13, "xtol": 1e-13, "gtol": 1e-13}, None, False
    if k == 2:
        return "bounds", {"bounds": ([-50.0] * n, [50.0] * n), "ftol": 1e-13, "xtol": 1e-13, "gtol": 1e-13}, None, False
    if k == 3:
        sg = rng.uniform(0.5, 2, m)
        return "sigma", {"sigma": sg}, sg, False
    if k == 4:
        sg = rng.uniform(0.5, 2, m)
        return "absolute sigma", {"sigma": sg, "absolute_sigma": True}, sg, True
    if k == 5:
        return "dogbox", {"method": "dogbox", "ftol": 1e-13, "xtol": 1e-13, "gtol": 1e-13}, None, False
    return "default", {}, None, False


def fit(R, opt, kw, ctx, mech="fit"):
    """A fit, or None where scipy itself could not find the optimum (legitimate)."""
    try:
        return opt.curve_fit(**kw)
    except RuntimeError as e:
        if "Optimal parameters not found" in str(e):
            R.bump("scipy: not converged")
            return None
        R.violation(f"{mech}:raised:RuntimeError", str(e)[:300], **ctx)
        return None
    except Exception as e:  # noqa: BLE001
        R.violation(f"{mech}:raised:{type(e).__name__}", str(e)[:300], **ctx)
        return None


def recorded(rng, s):
    "Records as machines write them; the fit is that of their points all the same."
    kind = ("unloaded", "quantized", "plateau", "outliers", "repeated", "ends", "one value", "clipped")[rng.integers(8)]
    for y in s.y:
        n, top = len(y), np.abs(y).max()
        if kind == "unloaded":
            y[rng.permutation(n)[: n // 2]] = 0.0
        elif kind == "quantized":
            y[...] = np.round(y / top * 8) / 8 * top
        elif kind == "plateau":
            y[n // 2 :] = y[n // 2]
        elif kind == "outliers":
            y[rng.integers(n, size=2)] *= rng.choice([-3, 5, 20], 2)
        elif kind == "repeated":
            y[1::2] = y[: 2 * (n // 2) : 2]
        elif kind == "ends":
            y[[0, -1]] = [0.3 * top, 0.0]
        elif kind == "one value":
            y[...] = 0.4 * top
        else:
            y[...] = np.clip(y, -0.3 * top, 0.3 * top)
    return kind


def one(R, rng, i):
    mod = model(rng, KINDS[i % len(KINDS)])
    sp = ("Distortional", "Deformation")[rng.integers(2)]
    noise = [0.0, 0.02, 0.1][rng.integers(3)]
    s = Setup(rng, mod, sp, noise, mask=bool(rng.integers(2)))
    if len(s.target()) < len(mod.labels) + 2:
        return
    form = recorded(rng, s) if noise and mod.linear and i % 5 == 1 else "smooth"
    oname, kw, sigma, absolute = options(rng, s)
    ctx = {**s.describe(), "options": oname, "noise": noise, "record": form}
    p0 = mod.start.copy()
    opt, ex, sims, w = s.fresh(p0=p0.copy())
    if i % 2:  # the start of a fit
        R.call("start", opt.init_curve_fit, ctx=ctx)
        start(R, s, opt, sims, p0, ctx)
    out = fit(R, opt, kw, ctx)
    R.check(not w.changed(), "changed", f"{w.changed()} changed by the fit", **ctx)
    if out is None:
        return
    popt, pcov = np.array(out[0], dtype=float), np.array(out[1], dtype=float)
    consistent(R, s, opt, sims, popt, pcov, ctx, sigma, p0)
    optimal(R, s, popt, pcov, ctx, sigma, absolute)
    R.event((mod.kind, tuple(mod.labels), tuple(s.cases), repr(s.kinds), oname, noise), 0)
    if noise == 0.0:
        sc = np.abs(mod.true) + 0.1 * np.abs(mod.true).max()
        D = np.linalg.norm(s.model_curve(popt) - s.target()) / np.linalg.norm(s.target())
        if mod.linear or D < 1e-3:
            R.check(D < 1e-6, "exact data", f"relative residual {D} for noise-free data", **ctx)
            if mod.linear and len(s.target()) > 6 and _well_posed(s):
                R.close(popt, mod.true, sc, 1e-4, "exact data:parameters", "parameters of noise-free data", **ctx)
            R.bump("noise-free fits")
    scale = np.abs(popt) + 0.1 * np.abs(popt).max()
    # type of the initial parameters
    forms = [p0.tolist(), tuple(p0.tolist()), p0.astype(int).tolist(), p0.astype(int), tuple(p0.astype(int).tolist())]
    q0 = forms[rng.integers(len(forms))]
    opt2, _, sims2, _ = s.fresh(p0=q0)
    out2 = fit(R, opt2, kw, {**ctx, "initial": repr(q0)}, "fit:types")
    if out2 is not None:
        R.close(np.asarray(out2[0], float), popt, scale, 1e-6, "initial type", f"initial parameters {q0!r}", **ctx)
        consistent(R, s, opt2, sims2, out2[0], out2[1], {**ctx, "initial": repr(q0)}, sigma, p0)
        R.bump("type pairs")
    # excluded data has no influence
    if s.mask is not None:
        spoil = ["force", "displacement", "both"][rng.integers(3)]
        own = s.own_stretch
        s.own_stretch = True  # spoilt stretches only enter through the mask
        opt3, _, sims3, w3 = s.fresh(p0=p0.copy(), spoil=spoil)
        out3 = fit(R, opt3, kw, {**ctx, "spoilt": spoil}, "fit:excluded data")
        s.own_stretch = own
        R.check(not w3.changed(), "changed", f"{w3.changed()} changed by the fit", **ctx)
        if out3 is not None:
            R.close(np.asarray(out3[0], float), popt, scale, 1e-6, "mask", f"excluded {spoil} data has influence", **ctx)
            R.close(np.asarray(out3[1], float), pcov, np.abs(pcov).max() + 1e-300, 1e-4, "mask:covariance", "covariance", **ctx)
            consistent(R, s, opt3, sims3, out3[0], out3[1], {**ctx, "spoilt": spoil}, sigma, p0)
            R.bump("mask pairs")
    elif rng.integers(2):
        full = [[slice(None), np.ones(len(x), bool), np.arange(len(x))][rng.integers(3)] for x in s.x]
        opt3, _, sims3, _ = s.fresh(p0=p0.copy(), mask=full)
        out3 = fit(R, opt3, kw, ctx, "fit:full mask")
        if out3 is not None:
            R.close(np.asarray(out3[0], float), popt, scale, 1e-6, "mask:full", "a mask that selects everything", **ctx)
            consistent(R, s, opt3, sims3, out3[0], out3[1], ctx, sigma, p0)
            R.bump("mask pairs")
    # another optimizer does not touch this one; a repeated fit stays at the optimum
    other = s.fresh(p0=p0 * 1.5)[0]
    fit(R, other, kw, ctx, "fit:other")
    consistent(R, s, opt, sims, popt, pcov, {**ctx, "history": "another optimizer"}, sigma, p0)
    out4 = fit(R, opt, kw, ctx, "fit:repeated")
    if out4 is not None:
        p4 = np.array(out4[0], dtype=float)
        consistent(R, s, opt, sims, p4, out4[1], {**ctx, "history": "repeated"}, sigma, popt)
        R.bump("repeated fits")
    # new data for the same optimizer
    if rng.integers(2):
        t = 1.0 + 0.2 * rng.uniform()
        for k, e in enumerate(ex):
            e.force = e.force * t
            s.y[k] = s.y[k] * t
        out5 = fit(R, opt, kw, ctx, "fit:new data")
        if out5 is not None:
            consistent(R, s, opt, sims, np.array(out5[0], float), out5[1], {**ctx, "history": "new data"}, sigma, popt)
            if mod.linear and sigma is None:
                optimal(R, s, out5[0], out5[1], {**ctx, "history": "new data"})
    R.sample(s.describe())


def bounded(R, rng, i):
    """Limits of parameters (on one side, on both sides, on some of them; active or not) and
    other ways to hand options over: every option reaches the least squares."""
    mod = model(rng, KINDS[i % len(KINDS)])
    n = len(mod.labels)
    s = Setup(rng, mod, "Distortional", 0.05, mask=bool(rng.integers(2)))
    if len(s.target()) < n + 2:
        return
    lo, hi = np.full(n, -np.inf), np.full(n, np.inf)
    j = int(rng.integers(n))
    kind = ("upper", "lower", "both", "one upper", "wide upper", "wide")[i // len(KINDS) % 6]
    t = mod.true
    if kind == "upper":
        hi[:] = 10.0
        hi[j] = 0.9 * t[j]
    elif kind == "lower":
        lo[:] = 0.0
        lo[j] = 1.1 * t[j]
    elif kind == "both":
        lo, hi = 0.2 * t, 5 * t
        hi[j] = 0.95 * t[j]
    elif kind == "one upper":
        hi[j] = 0.9 * t[j]
    elif kind == "wide upper":
        hi[:] = 20.0
    else:
        lo[:], hi[:] = -30.0, 30.0
    p0 = np.clip(mod.start, lo + 0.05 * np.abs(t), hi - 0.05 * np.abs(t))
    p0 = np.where((lo <= p0) & (p0 <= hi), p0, t * 0.85 if kind != "lower" else t * 1.2)
    if not ((lo <= p0) & (p0 <= hi)).all():
        return
    form = int(rng.integers(4))
    limits = [(lo, hi), (lo.tolist(), hi.tolist()), [list(lo), list(hi)], (tuple(lo), tuple(hi))][form]
    if form == 3 and kind == "wide upper":
        limits = (-np.inf, hi)
    elif form == 3 and kind == "wide":
        limits = (-30.0, 30.0)
    kw = {"bounds": limits, "ftol": 1e-12, "xtol": 1e-12, "gtol": 1e-12}
    sg = None
    if rng.integers(2):
        sg = rng.uniform(0.5, 2, len(s.target()))
    args = ()
    if sg is not None and rng.integers(2):
        args = (sg,)  # without its name
    elif sg is not None:
        kw["sigma"] = sg
    extra = [{}, {"jac": "3-point"}, {"max_nfev": 400}, {"loss": "linear"}, {"check_finite": False}][rng.integers(5)]
    kw.update(extra)
    ctx = {**s.describe(), "bounds": kind, "index": j, "lower": lo, "upper": hi, "sigma": sg is not None, "positional": bool(args), **extra}
    opt, ex, sims, w = s.fresh(p0=p0.copy())
    kw0 = repr(sorted(kw.items()))
    out = fit(R, opt, kw, ctx, "bounds") if not args else fit(R, _Positional(opt, args), kw, ctx, "bounds")
    R.check(not w.changed(), "changed", f"{w.changed()} changed by the fit", **ctx)
    R.check(repr(sorted(kw.items())) == kw0, "options:changed", f"options were changed: {kw0} -> {kw}", **ctx)
    if out is None:
        return
    popt, pcov = np.array(out[0], float), np.array(out[1], float)
    R.check(((popt >= lo - 1e-9) & (popt <= hi + 1e-9)).all(), "bounds:violated", f"{popt} outside of the limits", **ctx)
    consistent(R, s, opt, sims, popt, pcov, ctx, sg, p0)
    y = s.target()
    wt = 1.0 if sg is None else 1 / sg
    try:
        q, qcov = curve_fit(lambda x, *p: s.model_curve(p), np.zeros(len(y)), y, p0, sigma=sg, bounds=(lo, hi),
                            ftol=1e-12, xtol=1e-12, gtol=1e-12)
    except RuntimeError:
        return
    a = np.linalg.norm((s.model_curve(popt) - y) * wt)
    b = np.linalg.norm((s.model_curve(q) - y) * wt)
    top = np.linalg.norm(y * wt)
    if mod.linear:
        R.check(a <= b * (1 + 1e-4) + 1e-6 * top, "bounds:optimum", f"norm of residuals {a}, least squares {b}", reference=q, **ctx)
    R.bump("bounded fits")
    R.event(("bounded", mod.kind, kind, sg is not None, repr(extra)))


def repeated(R, rng, i):
    """One experiment (and one simulation) several times in a fit, with a mask of its own each
    time; masks as plain lists."""
    mod = model(rng, KINDS[i % len(KINDS)])
    s = Setup(rng, mod, ("Distortional", "Deformation")[i % 2], (0.0, 0.05)[rng.integers(2)], mask=False)
    s.repeat(rng)
    if s.mask is not None and rng.integers(2):
        s.mask = [m.tolist() if isinstance(m, np.ndarray) and len(m) else m for m in s.mask]
        s.kinds = [f"{k} (list)" for k in s.kinds]
    if len(s.target()) < len(mod.labels) + 2:
        return
    ctx = {**s.describe(), "same object": s.same, "same simulation": s.same_sim}
    p0 = mod.start.copy()
    opt, ex, sims, w = s.fresh(p0=p0.copy())
    R.call("repeated:start", opt.init_curve_fit, ctx=ctx)
    start(R, s, opt, sims, p0, ctx)
    out = fit(R, opt, {}, ctx, "repeated")
    R.check(not w.changed(), "changed", f"{w.changed()} changed by the fit", **ctx)
    if out is None:
        return
    popt, pcov = np.array(out[0], float), np.array(out[1], float)
    consistent(R, s, opt, sims, popt, pcov, ctx, None, p0)
    optimal(R, s, popt, pcov, ctx)
    R.bump("fits of repeated objects")
    R.event(("repeated", mod.kind, tuple(s.same), s.same_sim, repr(s.kinds)))


def units(R, rng, i):
    "The same measurements in another unit of stress give the same parameters in that unit."
    mod = model(rng, "tod")
    s = Setup(rng, mod, ("Distortional", "Deformation")[i % 2], (0.0, 0.03)[rng.integers(2)], mask=bool(rng.integers(2)))
    if len(s.target()) < len(mod.labels) + 4 or not _well_posed(s):
        return
    u = 2.0 ** int(rng.integers(10, 48) * rng.choice([-1, 1]))
    p0 = mod.start * rng.uniform(0.5, 2, len(mod.start))
    ctx = {**s.describe(), "unit": u, "initial": p0}
    a = s.fresh(p0=p0.copy())[0]
    out = fit(R, a, {}, ctx, "units")
    s.y = [y * u for y in s.y]
    b = s.fresh(p0=p0 * u)[0]
    out2 = fit(R, b, {}, ctx, "units")
    if out is None or out2 is None:
        return
    p, q = (np.array(o[0], float) for o in (out, out2))
    top = np.abs(p) + 1e-3 * np.abs(p).max()
    R.close(q / u, p, top, 1e-6, "units:parameters", "parameters in another unit", **ctx)
    R.close(np.asarray(b.parameters, float) / u, p, top, 1e-6, "units:stored", "stored parameters in another unit", **ctx)
    n = np.abs(s.target()).max() / u
    R.close(np.asarray(b.residuals, float) / u, np.asarray(a.residuals, float), n, 1e-6, "units:residuals", "residuals in another unit", **ctx)
    R.close(b.norm_residuals() / u, a.norm_residuals(), n, 1e-6, "units:norm", "norm of the residuals in another unit", **ctx)
    if np.linalg.norm(a.residuals) > 1e-4 * n:
        e = np.asarray(a.errors, float)
        R.close(np.asarray(b.errors, float) / u, e, e, 1e-4, "units:errors", "standard deviations in another unit", **ctx)
    R.bump("fits in other units")
    R.event(("units", tuple(mod.labels), repr(s.kinds)))


class _Positional:
    def __init__(self, opt, args):
        self.opt, self.args = opt, args

    def curve_fit(self, **kw):
        return self.opt.curve_fit(*self.args, **kw)


def undetermined(R, rng, i):
    """As many parameters as data, or a parameter without influence: the covariance is unknown,
    and so are the reported errors."""
    mod = model(rng, "tod")
    while len(mod.labels) < 2:
        mod = model(rng, "tod")
    what = ("as many", "no influence", "as many, by a mask")[i % 3]
    if what == "no influence":
        inner = mod
        mod = Model("tod", [*inner.labels, "none"], [*inner.true, 1.0], [*inner.start, 1.0],
                    lambda none, **C: inner.framework(**C), lambda p: inner.terms(p[:-1]), False)
    s = Setup(rng, mod, ("Distortional", "Deformation")[rng.integers(2)], 0.02, mask=False)
    n = len(mod.labels)
    if what != "no influence":
        for k, (x, y) in enumerate(zip(s.x, s.y)):
            m = n if k == 0 else 0  # (the other experiments contribute nothing)
            at = np.sort(rng.permutation(len(x))[:m]) if m else np.zeros(0, dtype=int)
            if what == "as many":
                s.x[k], s.y[k] = x[at], y[at]
                s.idx[k] = np.arange(m)
            else:
                s.idx[k] = at
        if what == "as many":
            for a in ("cases", "lcs", "x", "y", "area", "length", "idx"):
                setattr(s, a, getattr(s, a)[:1])
        else:
            s.mask, s.kinds = list(s.idx), ["indices"] * len(s.x)
    ctx = {**s.describe(), "case": what}
    kw = ({}, {"method": "trf"}, {"method": "dogbox"}, {"absolute_sigma": True})[rng.integers(4)]
    opt, ex, sims, w = s.fresh(p0=mod.start.copy())
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")  # (scipy tells that the covariance is unknown)
        out = fit(R, opt, kw, ctx, "undetermined")
    R.check(not w.changed(), "changed", f"{w.changed()} changed by the fit", **ctx)
    if out is None:
        return
    consistent(R, s, opt, sims, np.array(out[0], float), np.array(out[1], float), {**ctx, "options": kw}, None, mod.start)
    if not np.isfinite(np.diag(out[1])).all():
        R.bump("unknown covariances")
        R.check(not np.isfinite(opt.mean_relative_std()), "mean_relative_std", f"{opt.mean_relative_std()} of unknown errors", **ctx)
    R.event(("undetermined", what, n, repr(kw)))


def same_start(R, rng, i):
    "Several optimizers (also of other data) start from one array, which stays as it is."
    a = Setup(rng, model(rng, "tod"), "Distortional", 0.02, mask=bool(rng.integers(2)))
    b = Setup(rng, a.mod, ("Distortional", "Deformation")[rng.integers(2)], 0.02, mask=bool(rng.integers(2)))
    n = len(a.mod.labels)
    b.y = [y * rng.uniform(0.3, 0.7) for y in b.y]
    if min(len(a.target()), len(b.target())) < n + 2:
        return
    start_ = a.mod.start.astype(float)
    form = ("array", "read-only", "broadcast", "strided")[i % 4]
    p0 = {"array": lambda: start_.copy(), "read-only": lambda: start_.copy(), "broadcast": lambda: np.broadcast_to(1.0, n),
          "strided": lambda: np.repeat(start_, 2)[::2]}[form]()
    if form == "read-only":
        p0.flags.writeable = False
    p = np.array(p0)
    ctx = {**a.describe(), "initial": form}
    o1, _, s1, _ = a.fresh(p0=p0)
    o2, _, s2, _ = b.fresh(p0=p0)
    r1 = fit(R, o1, {}, ctx, "same start:first")
    r2 = fit(R, o2, {}, ctx, "same start:second")
    R.check(np.array_equal(p0, p), "same start:changed", f"the given initial parameters {p} are {p0} now", **ctx)
    if r1 is None or r2 is None:
        return
    for s, o, sims, r in ((a, o1, s1, r1), (b, o2, s2, r2)):
        consistent(R, s, o, sims, np.array(r[0], float), np.array(r[1], float), {**ctx, "history": "two optimizers from one start"}, None, p)
    R.bump("common starts")
    R.event(("same start", form, tuple(a.mod.labels)))


def unfit(R, rng, i):
    "Data that is no number can not be fitted, unless it is masked; the fit does not invent it."
    s = Setup(rng, model(rng, "tod"), ("Distortional", "Deformation")[i % 2], 0.02, mask=False)
    k = int(rng.integers(len(s.x)))
    bad = np.sort(rng.permutation(len(s.x[k]))[: int(rng.integers(1, 3))])
    what = ("force", "displacement")[rng.integers(2)]
    value = float(rng.choice([np.nan, np.inf, -np.inf])) if what == "force" else np.nan
    keep = np.setdiff1d(np.arange(len(s.x[k])), bad)
    for masked in (False, True):
        opt, ex, sims, w = s.fresh(p0=s.mod.start.copy())
        d, f = s.data()
        (f if what == "force" else d)[k][bad] = value
        e = ex[k]
        new = lab.Experiment(e.label, d[k], f[k], area=s.area[k], length=s.length[k])
        exps = [new if j == k else o for j, o in enumerate(ex)]
        mask = [keep if j == k else np.arange(len(x)) for j, x in enumerate(s.x)] if masked else None
        opt = lab.Optimize(exps, sims, s.mod.start.copy(), mask)
        ctx = {**s.describe(), "value": value, "in": what, "of experiment": k, "points": bad, "masked": masked}
        if masked:
            if len(keep) + sum(len(x) for j, x in enumerate(s.x) if j != k) < len(s.mod.labels) + 2:
                continue
            out = fit(R, opt, {}, ctx, "masked numbers")
            if out is not None:
                s.idx[k] = keep
                consistent(R, s, opt, sims, np.array(out[0], float), np.array(out[1], float), ctx, None, s.mod.start)
            continue
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            try:
                out = opt.curve_fit(**({}, {}, {"method": "trf"}, {"method": "lm"})[i % 4])
            except Exception:  # noqa: BLE001
                out = None  # (refused)
        if out is not None:
            R.check(not np.isfinite(np.asarray(out[0], float)).all(), "no numbers:fitted",
                    f"{value} of the data has no influence on the fitted {out[0]}", **ctx)
        R.bump("data of no numbers")
    R.event(("no numbers", what, value, len(bad)))


def own_classes(R, rng, i):
    "Load cases and materials written by the user, with data of more than one direction."
    ks = [(0, 1), (1, 0), (0, 1)][: int(rng.integers(1, 4))]
    true, L, A = rng.uniform(0.3, 2, 2), float(rng.uniform(0.5, 30)), float(rng.uniform(0.5, 30))
    noise = (0.0, 0.02)[i % 2]
    sims, exps, idx, want = [], [], [], []
    for k in ks:
        g = rng.uniform(-1.5, 2.5, int(rng.integers(6, 15)))
        y = fibre_curve(k, g, *true) + noise * rng.normal(size=len(g))
        m = np.sort(rng.permutation(len(g))[:5]) if rng.integers(2) else np.arange(len(g))
        e = lab.Experiment("shear", (g - 1) * L, y * A, area=A, length=L)  # (stretch: the shear)
        exps.append(e)
        idx.append(m)
        sims.append(lab.Simulation(SimpleShear(k), e.stretch, ["mu", "stiff"], lambda mu, stiff, k=k: Fibre(mu, stiff, k)))
        want.append((np.array([fibre_curve(k, g[m], *v) for v in np.eye(2)]).T, y[m]))
    opt = lab.Optimize(exps, sims, np.ones(2), idx)
    ctx = {"load cases": ks, "true": true, "masks": idx}
    out = fit(R, opt, {}, ctx, "own")
    if out is None:
        return
    D, y = np.concatenate([w[0] for w in want]), np.concatenate([w[1] for w in want])
    best = np.linalg.lstsq(D, y, rcond=None)[0]
    top = np.abs(y).max()
    R.close(np.array(out[0], float), best, np.abs(best) + 1, 1e-5, "own:parameters", "parameters of the user's material", **ctx)
    R.close(np.asarray(opt.residuals, float), D @ np.array(out[0]) - y, top, 1e-9, "own:residuals", "residuals of the user's material", **ctx)
    for sim, k in zip(sims, ks):
        z = R.call("own:after", sim.stress, ctx=ctx)
        if z is not FAILED:
            R.close(np.asarray(z), fibre_curve(k, np.asarray(sim.stretch), *out[0]), 1 + np.abs(z).max(), 1e-9, "own:after", "simulated stress after the fit", **ctx)
    R.bump("fits of own classes")
    R.event(("own", tuple(ks), noise), len(y))


def _well_posed(s):
    n = len(s.mod.labels)
    D = np.column_stack([s.model_curve(e) for e in np.eye(n)])
    return np.linalg.cond(D / np.linalg.norm(D, axis=0)) < 1e3


def run(R):
    rng = np.random.default_rng([SEED, 21])
    R.require("fits checked", 100)
    R.require("optima compared", 20)
    R.require("mask pairs", 15)
    for i in range(pick(120, 2500)):
        one(R, rng, i)
    R.require("bounded fits", 25)
    for i in range(pick(60, 1200)):
        bounded(R, rng, i)
    R.require("fits in other units", 10)
    for i in range(pick(30, 600)):
        units(R, rng, i)
    R.require("unknown covariances", 10)
    for i in range(pick(30, 600)):
        undetermined(R, rng, i)
    R.require("data of no numbers", 15)
    for i in range(pick(24, 400)):
        unfit(R, rng, i)
    R.require("fits of own classes", 10)
    for i in range(pick(24, 400)):
        own_classes(R, rng, i)
    R.require("common starts", 10)
    for i in range(pick(24, 400)):
        same_start(R, rng, i)
    R.require("fits of repeated objects", 20)
    for i in range(pick(36, 800)):
        repeated(R, rng, i)
