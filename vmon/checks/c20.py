"""C20: lab load cases and simulations."""

import itertools

import numpy as np

from ..engine import FAILED
from ..env import SEED, hel, pick
from ..materials import (
    GEN_TERMS, INV_TERMS, MEASURES, SPACES, STR_TERMS, Energy, UserInvariants, UserStretches,
    _inv_terms, gi_terms, ogden_terms, tod_terms,
)
from ..monitors import Watch
from ..oracle import principal, unimodular

RULE = (
    "simulated curves of random materials (all frameworks, distortional / full / summed spaces, "
    "with and without pressure-like terms), load cases, stretches (0.2..6 and far: 1e-3..1e3, scalars, whole numbers and arrays) and "
    "parameter containers, compared with the derivative of the energy along the load path; "
    "distinct = (material, load case, space, container, stretch form)"
)

lab = hel.lab


class Tilted(lab.IncompressibleHomogeneousStretch):
    "A user-written load case: transverse stretches l^m and l^-(1+m)."

    def __init__(self, m):
        self.m, self.label = m, f"tilted {m}"

    def defgrad(self, stretch):
        x = np.asarray(stretch, dtype=float)
        z = np.zeros_like(x)
        return np.array([[x, z, z], [z, x**self.m, z], [z, z, x ** (-1 - self.m)]])


class SimpleShear:
    "A load case of the user's own, related to none of the library: the shear stress."

    def __init__(self, k=(0, 1)):
        self.k, self.label = k, f"my shear {k}"

    def defgrad(self, stretch):
        F = np.tile(np.eye(3)[..., None], np.size(stretch))
        F[self.k] = np.ravel(stretch)
        return F

    def stress(self, F, P):
        return P[self.k]


class Fibre:
    "A material of the user's own, without strain energy of the library: stiff along a direction."

    def __init__(self, mu, stiff, k):
        self.mu, self.stiff = mu, stiff
        self.a = np.array([0.6, 0.8]) if k == (0, 1) else np.array([0.8, -0.6])

    def gradient(self, x):
        F = np.asarray(x[0])
        a = np.array([*self.a, 0.0])
        Fa = np.einsum("iJ...,J->i...", F, a)
        e = (Fa**2).sum(axis=0) - 1
        return [self.mu * F + self.stiff * e * np.einsum("i...,J->iJ...", Fa, a), x[-1]]


def fibre_curve(k, g, mu, stiff):
    "Its shear stress in simple shear, written out."
    a = [0.6, 0.8, 0.0] if k == (0, 1) else [0.8, -0.6, 0.0]
    i, j = k
    v = list(a)
    v[i] = a[i] + g * a[j]
    e = v[0] ** 2 + v[1] ** 2 + v[2] ** 2 - 1
    return mu * g + stiff * e * v[i] * a[j]


def own_classes(R, rng):
    "Load cases and materials written by the user, also beside those of the library."
    k = [(0, 1), (1, 0)][rng.integers(2)]
    g = rng.uniform(-2, 3, int(rng.integers(1, 12)))
    p = rng.uniform(0.2, 2, 2)
    ctx = {"load case": f"simple shear {k}", "shear": g, "parameters": p}
    sim = lab.Simulation(SimpleShear(k), g, ["mu", "stiff"], lambda mu, stiff: Fibre(mu, stiff, k), p if rng.integers(2) else p.tolist())
    R.check(sim.label == f"my shear {k}", "own:label", f"{sim.label!r}", **ctx)
    y = R.call("own:material", sim.stress, ctx=ctx)
    if y is not FAILED:
        want = fibre_curve(k, g, *p)
        R.close(np.asarray(y), want, 1 + np.abs(want).max(), 1e-12, "own:material", "shear stress of the user's material", **ctx)
    # a library material in the user's load case: shear of any isotropic material, P01 = P10 part
    fam = family(rng, ("tod", "ogden")[rng.integers(2)])
    g = rng.uniform(0.05, 1.5, int(rng.integers(1, 8))) * rng.choice([-1, 1])
    l = g / 2 + np.sqrt(1 + g**2 / 4)  # principal stretches l, 1/l, 1; dW/dg = dW/dl dl/dg
    lam = np.array([l, 1 / l, np.ones_like(l)])
    for sp in ("Distortional", "Deformation"):
        vals = fam.values
        terms = fam.terms(vals)
        d = principal(unimodular(terms) if sp == "Distortional" else terms, lam)[1]
        want = (d[0] - d[1] / l**2) * (0.5 + g / 4 / np.sqrt(1 + g**2 / 4))
        c = {"material": fam.kind, "space": sp, "shear": g, "parameters": vals}
        s = lab.Simulation(SimpleShear(k), g, fam.labels, fam.material(sp), vals)
        y = R.call("own:load case", s.stress, ctx=c)
        if y is not FAILED:
            R.close(np.asarray(y), want, np.abs(d).sum(axis=0).max() + 10 * np.abs(vals).max(), 1e-8, "own:load case", "shear stress by the user's load case", **c)
    R.bump("own classes")
    R.event(("own", k, fam.kind, len(g)), len(g))


def named(rng):
    return () if rng.integers(3) else ("a specimen",)


CASES = {
    "uniaxial": (lambda r: lab.Uniaxial(*named(r)), lambda x, m: (x, x**-0.5, x**-0.5), "Uniaxial Tension"),
    "planar": (lambda r: lab.Planar(*named(r)), lambda x, m: (x, x**0.0, x**-1.0), "Planar Tension"),
    "biaxial": (lambda r: lab.Biaxial(*named(r)), lambda x, m: (x, x, x**-2.0), "Biaxial Tension"),
    "tilted": (lambda r: Tilted(float(r.uniform(-0.9, 0.9))), lambda x, m: (x, x**m, x ** (-1 - m)), None),
}


def stretches_of(case, lc, x):
    return np.array(CASES[case][1](np.asarray(x, dtype=float), getattr(lc, "m", None)))


class Family:
    "A material with labelled parameters: factory(space)(**parameters), energy terms."

    def __init__(self, kind, labels, values, framework, terms, wide, vol=None):
        self.kind, self.labels, self.values = kind, labels, values
        self.framework, self.terms, self.wide, self.vol = framework, terms, wide, vol
        self.seen = []

    def material(self, sp):
        def make(**kw):
            self.seen.append(dict(kw))
            fw = self.framework(**kw)
            if sp == "Sum":
                return Sum(hel.DistortionalSpace(fw), hel.DilatationalSpace(self.vol()))
            return SPACES[sp](fw)

        return make


class Sum:
    "A user-written composite of a distortional and a dilatational part."

    def __init__(self, a, b):
        self.parts = a, b
        self.x = a.x

    def gradient(self, x):
        r = [p.gradient(x) for p in self.parts]
        return [r[0][0] + r[1][0], r[0][1]]


def pressure(rng):
    e = Energy.random(rng, INV_TERMS, names=rng.choice(["I3", "I3^2", "(J-1)^2", "lnI3", "ln^2I3", "1/I3"], 2, replace=False))
    return e.scaled(float(10.0 ** rng.uniform(-1, 2)))


FORMS = itertools.cycle(range(5))  # of the numbers of a parameter set


def family(rng, kind):
    vol = pressure(rng)
    vfw = lambda: hel.InvariantsFramework(UserInvariants(vol))  # noqa: E731
    if kind == "tod":
        labels = [str(s) for s in rng.permutation(["C10", "C01", "C11", "C20", "C30"])[: rng.integers(1, 6)]]
        mags = dict(C10=0.5, C01=0.3, C11=0.02, C20=0.05, C30=0.01)
        v = [float(mags[n] * rng.uniform(-0.5, 2)) for n in labels]
        form = next(FORMS)
        if form == 0:  # whole numbers, zeros among them
            v = [int(x) for x in rng.choice([-1, 0, 1, 2], len(v))]
            if not any(v):
                v[0] = 1
        elif form == 1:  # other units
            unit = 10.0 ** rng.uniform(-8, 8)
            v = [x * unit for x in v]
        elif form == 2:
            v = [x if rng.integers(2) else 0.0 for x in v]
        fw = lambda **C: hel.InvariantsFramework(hel.models.invariants.ThirdOrderDeformation(**C))  # noqa: E731
        return Family(kind, labels, v, fw, lambda p: _inv_terms(tod_terms(dict(zip(labels, p)))), True, vfw)
    if kind == "ogden":
        n = int(rng.integers(1, 4))
        al = [float(rng.choice([rng.uniform(-3, -0.4), rng.uniform(0.4, 3), 2, 1])) for _ in range(n)]
        labels = [f"mu{i}" for i in range(n)] + [f"alpha{i}" for i in range(n)]
        order = rng.permutation(2 * n)
        allv = [float(rng.uniform(0.2, 1)) for _ in range(n)] + al
        lab_ = [labels[i] for i in order]

        def fw(**q):
            return hel.StretchesFramework(hel.models.stretches.Ogden(
                [q[f"mu{i}"] for i in range(n)], [q[f"alpha{i}"] for i in range(n)]))

        def terms(p):
            q = dict(zip(lab_, p))
            return ogden_terms([q[f"mu{i}"] for i in range(n)], [q[f"alpha{i}"] for i in range(n)])

        return Family(kind, lab_, [allv[i] for i in order], fw, terms, True, vfw)
    if kind == "generalized":
        name = str(rng.choice(["strain", "deformation"]))
        s = name == "strain"
        labels = ["k", "C20", "C10", "C01"]
        v = [float(rng.uniform(1.1, 2.5)), float(rng.uniform(0, 0.02)), float(rng.uniform(0.2, 1)), float(rng.uniform(0, 0.2))]

        def fw(k, **C):
            return hel.GeneralizedInvariantsFramework(
                hel.models.invariants.ThirdOrderDeformation(**C, strain=s), MEASURES[name][1](), exponent=k)

        return Family(kind + ":" + name, labels, v, fw,
                      lambda p: gi_terms(name, p[0], tod_terms(dict(zip(labels[1:], p[1:])), s)), True, vfw)
    if kind == "generalized-user":
        e = Energy.random(rng, GEN_TERMS, n=2)
        name = str(rng.choice(list(MEASURES)))
        k = 0.4 if name.startswith("user") else 1.7
        labels = ["a", "b"]

        def en(p):
            return Energy(e.pool, [(n, w * x, q) for (n, w, q), x in zip(e.items, p)])

        fw = lambda a, b: hel.GeneralizedInvariantsFramework(  # noqa: E731
            UserInvariants(en((a, b))), MEASURES[name][1](), exponent=k)
        return Family(kind, labels, [1.2, -0.3], fw, lambda p: gi_terms(name, k, en(p).terms), False, vfw)
    if kind == "user-stretches":
        e = Energy.random(rng, STR_TERMS, n=3)
        labels = ["x", "y", "z"]

        def en(p):
            return Energy(e.pool, [(n, w * x, q) for (n, w, q), x in zip(e.items, p)])

        fw = lambda **q: hel.StretchesFramework(UserStretches(en([q[n] for n in labels])))  # noqa: E731
        return Family(kind, labels, [float(v) for v in rng.uniform(0.3, 2, 3)], fw, lambda p: en(p).terms, False, vfw)
    # invariants (user or torch) plus a pressure-like part in the full space
    e = Energy.random(rng, INV_TERMS, n=2)
    labels = ["a", "b"]

    def en(p):
        return Energy(e.pool, [(n, w * x, q) for (n, w, q), x in zip(e.items, p)]).plus(vol if kind == "pressure" else Energy(INV_TERMS, []))

    if kind == "torch":
        fw = lambda a, b: hel.InvariantsFramework(hel.models.invariants.TorchModel(  # noqa: E731
            lambda I1, I2, I3: en((a, b))(I1, I2, I3)))
    else:
        fw = lambda a, b: hel.InvariantsFramework(UserInvariants(en((a, b))))  # noqa: E731
    return Family(kind, labels, [float(v) for v in rng.uniform(0.3, 2, 2)], fw, lambda p: _inv_terms(en(p).terms), False, vfw)


KINDS = ["tod", "ogden", "generalized", "generalized-user", "user-stretches", "invariants", "pressure", "torch"]

# other materials that take as many parameters of the same kind
PARTNERS = {"invariants": "torch", "torch": "pressure", "pressure": "generalized-user", "generalized-user": "invariants"}

CONTAINERS = {
    "list": lambda v, n: list(v),
    "tuple": lambda v, n: tuple(v),
    "array": lambda v, n: np.array(v),
    "dict values": lambda v, n: dict(zip(n, v)).values(),
    "strided array": lambda v, n: np.repeat(np.array(v), 2)[::2],
    "readonly array": lambda v, n: _readonly(v),
}


def _readonly(v):
    a = np.array(v)
    a.flags.writeable = False
    return a


def expected(fam, sp, case, lc, x, p, axis=0, free=2):
    "Nominal stress along ``axis`` with a traction-free direction, and its tolerance."
    lam = stretches_of(case, lc, np.atleast_1d(x))
    terms = fam.terms(p)
    if sp in ("Distortional", "Sum"):
        terms = unimodular(terms)
    _, g, _, gs, hs = principal(terms, lam)
    _, _, _, g0, h0 = principal(fam.terms(p), lam)  # round-off of terms that cancel
    gs, hs = gs + 0.1 * g0, hs + 0.1 * h0
    n = g[axis] - g[free] * lam[free] / lam[axis]
    lmax = lam.max(axis=0)
    tol = 1e-10 * (gs + hs * lmax) * np.maximum(1, lmax / lam[axis])
    if sp == "Sum" or fam.kind == "pressure":
        tol = tol + 1e-9 * lmax / lam.min(axis=0)
    return n, tol


def along_path(fam, sp, case, lc, x, p):
    """The derivative of the energy along the load path (half of it for equi-biaxial:
    two equal forces do work)."""
    lam = stretches_of(case, lc, x)
    t = fam.terms(p)
    _, g, _, _, _ = principal(unimodular(t) if sp != "Deformation" else t, lam)
    d = {"uniaxial": (1, -0.5 * x**-1.5, -0.5 * x**-1.5), "planar": (1, 0, -(x**-2.0)),
         "biaxial": (1, 1, -2 * x**-3.0)}[case]
    return sum(gi * di for gi, di in zip(g, d)) * (0.5 if case == "biaxial" else 1.0)


def stretch_data(rng, wide):
    a, b = (0.2, 6.0) if wide else (0.55, 2.2)
    k = int(rng.integers(10))
    if k == 9:
        return "far", np.exp(rng.uniform(np.log(0.6 * a), np.log(2 * b), int(rng.integers(2, 8))))
    if k == 6:
        return "long", np.linspace(1.0, min(b, 3), int(rng.choice([501, 640, 1024])))
    if k == 7:
        return "repeated", np.repeat(np.exp(rng.uniform(np.log(a), np.log(b), 4)), [1, 3, 2, 1])
    if k == 8:
        return "single precision", np.exp(rng.uniform(np.log(0.55), np.log(2.2), 5)).astype(np.float32)
    if k == 0:
        return "scalar", float(np.exp(rng.uniform(np.log(a), np.log(b))))
    if k == 1:
        return "ramp", np.linspace(max(a, 0.5), min(b, 3), int(rng.integers(2, 40)))
    if k == 2:
        return "single", np.exp(rng.uniform(np.log(a), np.log(b), 1))
    if k == 3:
        return "integers", np.arange(1, 3 if not wide else 6)
    if k == 4:
        x = np.exp(rng.uniform(np.log(a), np.log(b), int(rng.integers(3, 12))))
        x[0] = 1.0
        return "with rest", np.concatenate([x, x[::-1]])[::2]
    return "random", np.exp(rng.uniform(np.log(a), np.log(b), int(rng.choice([3, 6, 9, 17]))))


def simulate(R, rng, fam, sp, case):
    lc = CASES[case][0](rng)
    form, x = stretch_data(rng, fam.wide)
    cname = str(rng.choice(list(CONTAINERS)))
    params = CONTAINERS[cname](fam.values, fam.labels)
    labels = [fam.labels, tuple(fam.labels), dict(zip(fam.labels, fam.values)).keys()][rng.integers(3)]
    ctx = {"material": fam.kind, "labels": fam.labels, "parameters": fam.values, "space": sp, "loadcase": case,
           "container": cname, "stretch": x}
    w = Watch()
    w.add("stretch", x)
    w.add("parameters", params)
    fam.seen.clear()
    sim = R.call("simulation", lab.Simulation, loadcase=lc, stretch=x, labels=labels, material=fam.material(sp),
                 parameters=params, ctx=ctx)
    if sim is FAILED:
        return
    y = R.call(f"{fam.kind}:stress", sim.stress, ctx=ctx)
    if y is FAILED:
        return
    n = np.size(x)
    R.event((repr(fam.values), fam.kind, case, sp, cname, form), n)
    R.check(fam.seen and all(s == dict(zip(fam.labels, fam.values)) for s in fam.seen), "parameters",
            f"the material was built with {fam.seen}", **ctx)
    if form != "scalar" and not R.check(np.shape(y) == np.shape(x), "shape", f"{np.shape(y)} for {np.shape(x)}", **ctx):
        return
    ref, tol = expected(fam, sp, case, lc, np.asarray(x, dtype=float), fam.values)
    if form == "single precision":
        if sp == "Sum" or fam.kind in ("pressure", "torch") or not np.isfinite(tol).all():
            return form
        tol = 1e6 * tol
    y = np.ravel(y)
    if not R.check(y.shape == ref.shape, "shape", f"{y.shape} instead of {ref.shape}", **ctx):
        return
    R.close(y, ref, 1.0, tol, f"{case}:{sp}:stress", "nominal stress", **ctx)
    if case != "tilted":
        p = along_path(fam, sp, case, lc, np.atleast_1d(np.asarray(x, float)), fam.values)
        R.close(y, p, 1.0, 4 * tol, f"{case}:{sp}:work", "energy derivative along the load path", **ctx)
    R.bump("points", n)
    # again, with other parameters and stretches in between
    other = [v * (1.0 if n_ in ("k",) or n_.startswith("alpha") else 1.3) for n_, v in zip(fam.labels, fam.values)]
    x2 = np.atleast_1d(np.asarray(x, dtype=float))[::-1] * 1.01
    y2 = R.call(f"{fam.kind}:stress_curve_fit", sim.stress_curve_fit, x2, *other, ctx=ctx)
    if y2 is not FAILED:
        ref2, tol2 = expected(fam, sp, case, lc, x2, other)
        R.close(np.ravel(y2), ref2, 1.0, tol2, f"{case}:{sp}:curve fit function", "nominal stress", **ctx)
    # ... the same parameters at other stretches of the same number, and back
    x3 = np.atleast_1d(np.asarray(x, dtype=float)) * float(rng.uniform(0.8, 1.25))
    y2 = R.call(f"{fam.kind}:stress_curve_fit", sim.stress_curve_fit, x3, *fam.values, ctx=ctx)
    ref2, tol2 = expected(fam, sp, case, lc, x3, fam.values)
    if y2 is not FAILED:
        R.close(np.ravel(y2), ref2, 1.0, tol2, f"{case}:{sp}:other stretches", "nominal stress", **ctx)
    # ... the simulation's own stretches rearranged, copied, refined or continued
    own = np.atleast_1d(np.asarray(x, dtype=float))
    if own.size > 1:
        grids = {"rest": np.where(np.arange(own.size) < 2, own, own * 1.1), "last": np.where(np.arange(own.size) < own.size - 1, own, own * 0.9),
                 "permuted": rng.permutation(own), "reversed": own[::-1], "ends": np.concatenate([own[:1], own[1:-1] * 1.05, own[-1:]]),
                 "sum": np.concatenate([own[:-2], own[-2:].mean() + np.array([-1, 1]) * 0.3 * own[-2:].mean()]),
                 "copy": own.copy(), "refined": np.repeat(own, 2), "continued": np.append(own, own[-1] * 1.1), "part": own[: own.size // 2 + 1]}
        for what in rng.permutation(list(grids))[:3]:
            g = grids[str(what)]
            if rng.integers(2):
                R.call(f"{fam.kind}:stress", sim.stress, ctx=ctx)
            p = [fam.values, other][rng.integers(2)]
            y2 = R.call(f"{fam.kind}:stress_curve_fit", sim.stress_curve_fit, g, *p, ctx=ctx)
            ref4, tol4 = expected(fam, sp, case, lc, g, p)
            if y2 is not FAILED:
                R.close(np.ravel(y2), ref4, 1.0, tol4, f"{case}:{sp}:own stretches", f"nominal stress at the simulation's stretches, {what}", **ctx)
            R.bump("related stretches")
    old = sim.stretch
    sim.stretch = x3
    y2 = R.call(f"{fam.kind}:stress", sim.stress, ctx=ctx)
    if y2 is not FAILED:
        R.close(np.ravel(y2), ref2, 1.0, tol2, f"{case}:{sp}:new stretches", "nominal stress", **ctx)
    if form != "scalar":  # the caller's own array, changed in place
        x3 *= 1.01
        y2 = R.call(f"{fam.kind}:stress", sim.stress, ctx=ctx)
        ref2, tol2 = expected(fam, sp, case, lc, x3, fam.values)
        if y2 is not FAILED:
            R.close(np.ravel(y2), ref2, 1.0, tol2, f"{case}:{sp}:stretches in place", "nominal stress", **ctx)
    sim.stretch = old
    y3 = R.call(f"{fam.kind}:stress", sim.stress, ctx=ctx)
    if y3 is not FAILED:
        R.close(np.ravel(y3), y, 1.0, 0.01 * tol, f"{case}:{sp}:repeated", "repeated evaluation", **ctx)
    R.check(not w.changed(), "changed", f"{w.changed()} changed", **ctx)
    return form


def replaced(R, rng, a, b):
    """One simulation over its life: its load case, material, labels and parameters are
    replaced one after another; every evaluation describes the present ones."""
    cases = [list(CASES)[i] for i in rng.permutation(len(CASES))]
    x = np.exp(rng.uniform(np.log(0.6), np.log(2.2), 6))
    case, sp = cases[0], str(rng.choice(["Distortional", "Deformation", "Sum"]))
    lc = CASES[case][0](rng)
    sim = lab.Simulation(lc, x, list(a.labels), a.material(sp), list(a.values))
    fam, values = a, list(a.values)

    def observe(what):
        ctx = {"material": fam.kind, "labels": fam.labels, "parameters": values, "space": sp, "loadcase": case,
               "stretch": x, "history": what}
        via = bool(rng.integers(2))
        y = R.call(f"replaced:{what}", *((sim.stress_curve_fit, x, *values) if via else (sim.stress,)), ctx=ctx)
        if y is FAILED:
            return
        ref, tol = expected(fam, sp, case, lc, x, values)
        R.close(np.ravel(y), ref, 1.0, tol, f"replaced:{what}", "nominal stress", **ctx)
        R.event((what, fam.kind, sp, case, via), len(x))
        R.bump("replaced")

    observe("new")
    for k in rng.permutation(6):
        if k == 0:
            case = cases[1]
            lc = sim.loadcase = CASES[case][0](rng)
            what = "load case"
        elif k == 1:  # another space, same parameters
            sp = {"Distortional": "Sum", "Deformation": "Distortional", "Sum": "Deformation"}[sp]
            sim.material = fam.material(sp)
            what = "space"
        elif k == 2:  # another material which takes the same parameters
            if b is None or len(values) != len(b.values):
                continue
            fam, values = b, list(values)
            sim.material, sim.labels = fam.material(sp), list(fam.labels)
            what = "material"
        elif k == 3:  # the same numbers under other labels
            if fam.kind not in ("tod", "user-stretches"):
                continue
            order = [int(i) for i in np.roll(np.arange(len(values)), 1)]
            was = fam
            fam = Relabelled(was, [was.labels[i] for i in order])
            sim.labels = list(fam.labels)
            what = "labels"
        elif k == 4:
            values = [v * (1.0 if n == "k" or n.startswith("alpha") else float(rng.uniform(0.8, 1.2)))
                      for n, v in zip(fam.labels, values)]
            if rng.integers(2):
                sim.parameters = list(values)
            else:
                sim.parameters[:] = list(values)  # in place
            what = "parameters"
        else:
            case = cases[2]
            lc = CASES[case][0](rng)
            sim.loadcase = lc
            x = x[::-1] * 1.02
            sim.stretch = x
            what = "load case and stretch"
        if k != 4 and rng.integers(3) == 0:
            sim.parameters = np.array(values, dtype=float)
        elif k == 2:
            sim.parameters = list(values)
        observe(what)


class Relabelled(Family):
    "A family whose values belong to its labels in another order."

    def __init__(self, fam, labels):
        super().__init__(fam.kind, labels, fam.values, fam.framework, None, fam.wide, fam.vol)
        order = [fam.labels.index(n) for n in labels]
        self.inner, self.order = fam, np.argsort(order)
        # values[i] belongs to labels[i] = inner.labels[order[i]]
        self.terms = lambda p: fam.terms([p[i] for i in self.order])


def spaces_agree(R, rng, fam, case):
    "Distortional, full and summed space give one curve."
    lc = CASES[case][0](rng)
    x = np.exp(rng.uniform(np.log(0.5), np.log(2.5), 9)) if fam.wide else rng.uniform(0.6, 2.0, 9)
    ctx = {"material": fam.kind, "labels": fam.labels, "parameters": fam.values, "loadcase": case, "stretch": x}
    ys = {}
    for sp in ("Distortional", "Deformation", "Sum"):
        y = R.call(f"{fam.kind}:{sp}", lambda: lab.Simulation(lc, x, fam.labels, fam.material(sp), fam.values).stress(), ctx=ctx)
        if y is not FAILED:
            ys[sp] = y
    _, tol = expected(fam, "Deformation", case, lc, x, fam.values)
    lam = stretches_of(case, lc, x)
    tol = 4 * tol + 1e-9 * lam.max(axis=0) / lam.min(axis=0)
    for sp in ("Deformation", "Sum"):
        if sp in ys and "Distortional" in ys:
            R.close(ys[sp], ys["Distortional"], 1.0, tol, f"spaces:{sp}", f"{sp} and Distortional space", **ctx)
            R.bump("space pairs")
            R.event((fam.kind, repr(fam.values), case, sp, "agree"), 9)


def sequences(R, rng, n):
    """Parameters that are sequences themselves (moduli and exponents of a series), given as
    lists, tuples, arrays or an array of both."""
    import hyperelastic as hel

    for i in range(n):
        m = (1, 2, 2, 3, 4)[i % 5]
        v = [[float(v) for v in rng.uniform(0.2, 1, m)], [float(v) for v in rng.choice([-3, -2, -0.7, 0.9, 1, 2, 3.2], m)]]
        form = ("lists", "tuples", "arrays", "array", "tuple of lists", "integers")[i % 6]
        if form == "integers":
            v = [[int(a) for a in rng.integers(1, 4, m)], [int(a) for a in rng.choice([-3, -2, -1, 1, 2, 3], m)]]
        sp = ("Distortional", "Deformation")[i % 2]
        case = list(CASES)[i % 3]
        got = []

        def make(**q):
            got.append(q)
            return SPACES[sp](hel.StretchesFramework(hel.models.stretches.Ogden(list(q["mu"]), list(q["alpha"]))))

        fam = Family("ogden", ["mu", "alpha"], v, None, lambda p: ogden_terms(list(p[0]), list(p[1])), True)
        lc = CASES[case][0](rng)
        x = np.exp(rng.uniform(np.log(0.4), np.log(3), int(rng.choice([1, 2, m, 7]))))
        p = {"lists": [list(a) for a in v], "tuples": [tuple(a) for a in v], "arrays": [np.array(a) for a in v],
             "array": np.array(v), "integers": np.array(v), "tuple of lists": tuple(list(a) for a in v)}[form]
        ctx = {"material": "ogden", "labels": fam.labels, "parameters": v, "container": form, "space": sp, "loadcase": case, "stretch": x}
        w = Watch()
        w.add("parameters", p)
        sim = lab.Simulation(lc, x, ["mu", "alpha"], make, p)
        ref, tol = expected(fam, sp, case, lc, x, v)
        for what, fun in (("stress", sim.stress), ("function", lambda: sim.stress_curve_fit(x, *p)), ("again", sim.stress)):
            y = R.call(f"sequences:{what}", fun, ctx=ctx)
            if y is not FAILED:
                R.close(np.ravel(y), ref, 1.0, tol, f"sequences:{what}", "nominal stress", **ctx)
                R.event(("sequences", form, m, sp, case, what), len(x))
                R.bump("sequences")
        R.check(all(np.shape(q["mu"]) == (m,) and np.array_equal(q["alpha"], v[1]) for q in got), "sequences:parameters", f"{got}", **ctx)
        R.check(not w.changed(), "sequences:changed", "parameters changed", **ctx)


def one_loadcase(R, rng, n):
    "One load case takes many sets of stretches: of one number, of one range, permuted, repeated, changed in place."
    for i in range(n):
        case = list(CASES)[i % 4]
        lc = CASES[case][0](rng)
        m = int(rng.choice([2, 3, 5, 8, 40]))
        x = np.sort(np.exp(rng.uniform(np.log(0.4), np.log(3), m)))
        inner = x.copy()
        inner[1:-1] = rng.uniform(x[0], x[-1], m - 2)
        mean = x.copy()
        if m > 4:
            d = 0.1 * min(x[2] - x[1], x[3] - x[2]) * np.array([1, -1])
            mean[1:3] += d
        sets = [x, inner, mean, x[::-1], rng.permutation(x), x[:1], x[-1:], x * (1 + 1e-6), x[None], x[:, None], x]
        kept = []
        for k, y in enumerate(sets + [sets[j] for j in rng.permutation(len(sets))]):
            y = np.array(y)
            ctx = {"loadcase": case, "stretch": y, "call": k}
            F = R.call(f"many:{case}", lc.defgrad, y, ctx=ctx)
            if F is FAILED:
                continue
            want = np.zeros((3, 3, *y.shape))
            for a, l in enumerate(stretches_of(case, lc, y)):
                want[a, a] = l
            R.close(F, want, 1.0, 1e-13 * (1 + np.abs(want)), f"many:{case}", "deformation gradient of another set of stretches", **ctx)
            kept.append((F, want))
            R.event(("many", case, k, i), y.size)
            if i // 4 % 2:
                continue
            y *= 1.5
            G = R.call(f"many:{case}", lc.defgrad, y, ctx=ctx)
            if G is not FAILED and np.shape(G) == want.shape:
                R.close(np.asarray(G)[0, 0], y, 1.0, 1e-13 * (1 + y), f"many:{case}:in place", "stretches changed in place", **ctx)
        for F, want in kept:
            R.close(F, want, 1.0, 1e-13 * (1 + np.abs(want)), f"many:{case}:kept", "an earlier deformation gradient", loadcase=case)


def loadcases(R, rng, n):
    for i in range(n):
        case = list(CASES)[i % 4]
        lc = CASES[case][0](rng)
        k = int(rng.integers(4))
        x = [float(rng.uniform(0.2, 6)), rng.uniform(0.2, 6, 7), rng.uniform(0.2, 6, (3, 4)), np.arange(1, 7)][k]
        x = np.float64(x) if k == 0 and rng.integers(2) else x
        ctx = {"loadcase": case, "stretch": x}
        w = Watch()
        w.add("stretch", x)
        F = R.call(f"defgrad:{case}", lc.defgrad, x, ctx=ctx)
        if F is FAILED:
            continue
        F = np.asarray(F)
        lam = stretches_of(case, lc, x)
        want = np.zeros((3, 3, *np.shape(x)))
        for a in range(3):
            want[a, a] = lam[a]
        R.close(F, want, 1.0, 1e-13 * (1 + np.abs(want)), f"defgrad:{case}", "deformation gradient", **ctx)
        if F.shape == want.shape:
            d = np.linalg.det(np.moveaxis(F, (0, 1), (-2, -1)).astype(float))
            R.close(d, np.ones_like(d), 1.0, 1e-12, f"det:{case}", "volume ratio", **ctx)
        R.check(not w.changed(), "changed", "stretch changed", **ctx)
        R.event(("defgrad", case, k, i), max(1, np.size(x)))
        # the stress formula for any axis and traction-free direction
        trail = [(), (5,), (2, 3), (1, 4)][rng.integers(4)]
        G = np.eye(3).reshape(3, 3, *[1] * len(trail)) * rng.uniform(0.4, 2, (3, 1, *trail))
        P = rng.normal(size=(3, 3, *trail))
        for axis in range(-3, 3):
            for free in range(-3, 3):
                if free % 3 == axis % 3:
                    continue
                w = Watch()
                w.add("F, P", G, P)
                s = R.call("formula", lc.stress, G, P, axis=axis, traction_free=free, ctx={**ctx, "axis": axis, "free": free})
                if s is FAILED:
                    continue
                a, f = axis % 3, free % 3
                R.close(s, P[a, a] - P[f, f] * G[f, f] / G[a, a], 1.0, 1e-12 * (np.abs(P).max() * 5), "formula",
                        f"axis {axis} traction free {free}", **ctx)
                R.check(not w.changed(), "changed", "F or P changed", **ctx)
                R.event(("formula", axis, free), max(1, P[0, 0].size))
        s = R.call("formula", lc.stress, G, P, ctx=ctx)
        if s is not FAILED:
            R.close(s, P[0, 0] - P[2, 2] * G[2, 2] / G[0, 0], 1.0, 1e-12 * (np.abs(P).max() * 5), "formula:default", "", **ctx)


def transverse(R, rng, fam):
    "The force in the constrained direction of a planar test."
    lc = lab.Planar()
    x = rng.uniform(0.6, 2.0, 8)
    F = lc.defgrad(x)
    ctx = {"material": fam.kind, "parameters": fam.values, "stretch": x}
    for sp in ("Distortional", "Deformation"):
        P = R.call("transverse", lambda: fam.material(sp)(**dict(zip(fam.labels, fam.values))).gradient([F, None])[0], ctx=ctx)
        if P is FAILED:
            continue
        for axis, free in ((1, 2), (0, 2), (1, -1), (2, 1)):
            y = R.call("transverse", lc.stress, F, P, axis=axis, traction_free=free, ctx=ctx)
            if y is not FAILED:
                ref, tol = expected(fam, sp, "planar", lc, x, fam.values, axis, free % 3)
                R.close(y, ref, 1.0, 4 * tol, f"transverse:{sp}", f"axis {axis}, traction free {free}", **ctx)
                R.event((fam.kind, repr(fam.values), sp, axis, free), 8)


def labels(R, rng):
    for case, (make, _, default) in CASES.items():
        if default is None:
            continue
        lc = type(make(rng))()
        R.check(lc.label == default, "label", f"default label {lc.label!r}", loadcase=case)
        t = {"uniaxial": lab.Uniaxial, "planar": lab.Planar, "biaxial": lab.Biaxial}[case]
        R.check(t(label="my test").label == "my test" and t("my test").label == "my test", "label", "own label", loadcase=case)
        seen = []

        def material(**kw):
            seen.append(kw)
            return hel.DistortionalSpace(hel.InvariantsFramework(hel.models.invariants.ThirdOrderDeformation(**kw)))

        sim = lab.Simulation(t("my test"), np.linspace(1, 2, 5), ["C10", "C01"], material)
        R.check(sim.label == "my test", "label", "label of the simulation", loadcase=case)
        # the kinematics, also far from the usual range
        for x in (np.exp(rng.uniform(np.log(1e-3), np.log(1e3), 7)), float(np.exp(rng.uniform(np.log(1e-3), np.log(1e3))))):
            F = R.call("kinematics", lc.defgrad, x, ctx={"loadcase": case, "stretch": x})
            if F is FAILED:
                continue
            lam = stretches_of(case, lc, np.atleast_1d(x))
            want = np.zeros((3, 3, lam.shape[1]))
            want[[0, 1, 2], [0, 1, 2]] = lam
            R.close(np.asarray(F, dtype=float).reshape(3, 3, -1), want, np.maximum(want, 1e-300), 1e-12, "kinematics", "principal stretches", loadcase=case, stretch=x)
        # parameters default to one
        y = R.call("default parameters", sim.stress)
        if y is not FAILED:
            R.check(seen and all({k: float(v) for k, v in s.items()} == {"C10": 1.0, "C01": 1.0} for s in seen),
                    "default parameters", f"{seen}", loadcase=case)
        # changed parameters are used by the next evaluation
        seen.clear()
        sim.parameters = [0.25, 0.5]
        if R.call("new parameters", sim.stress) is not FAILED:
            R.check(seen and all(s == {"C10": 0.25, "C01": 0.5} for s in seen), "new parameters", f"{seen}", loadcase=case)
        # ... and stretches
        sim.stretch = np.linspace(1, 3, 7)
        y = R.call("new stretch", sim.stress)
        if y is not FAILED:
            R.check(np.shape(y) == (7,), "new stretch", f"{np.shape(y)}", loadcase=case)
        R.event(("labels", case), 4)


def run(R):
    import torch

    torch.set_default_dtype(torch.float64)
    rng = np.random.default_rng([SEED, 20])
    R.require("points", 1500)
    R.require("space pairs", 100)
    R.require("replaced", 500)
    R.require("sequences", 100)
    R.require("own classes", 30)
    for _ in range(pick(60, 600)):
        own_classes(R, rng)
    labels(R, rng)
    loadcases(R, rng, pick(60, 1000))
    sequences(R, rng, pick(60, 1000))
    one_loadcase(R, rng, pick(24, 400))
    for rep in range(pick(30, 300)):
        for kind in KINDS:
            fam = family(rng, kind)
            for case in CASES:
                sp = ("Distortional", "Deformation", "Sum")[rng.integers(3)]
                simulate(R, rng, fam, sp, case)
            spaces_agree(R, rng, fam, list(CASES)[rng.integers(4)])
            partner = PARTNERS.get(kind)
            replaced(R, rng, fam, family(rng, partner) if partner else None)
            if rep % 3 == 0:
                transverse(R, rng, fam)
        R.sample({"material": fam.kind, "labels": fam.labels, "parameters": fam.values})
