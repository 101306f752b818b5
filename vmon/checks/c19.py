"""C19: the response is linear in the energy, whatever its unit."""

import numpy as np

from ..engine import FAILED, Expected, col, size, trail_for
from ..env import SEED, hel, pick
from ..materials import (
    GEN_TERMS, INV_TERMS, MAKERS, MEASURES, SPACES, STR_TERMS, Energy, Spec, UserInvariants,
    UserStretches, _inv_terms, gi_terms, ogden_terms, random_measure, random_tod, tod_terms,
)
from ..states import lay, states, unlay

RULE = (
    "families of materials whose energies are known multiples and sums of each other, for every "
    "built-in and user model, framework, space and configuration; stresses and elasticities must "
    "be the same multiples and sums (factors +-1e-15..1e15), and exactly zero for a zero energy; "
    "distinct = (family, space, configuration, factor decade)"
)

OPTIONS = [{}, {}, {}, {"force": 0}, {"area": None}, {"force": 0, "area": None}, {"finalize": False}]


class Family:
    "A linear family of energies: build(coefficients) -> framework; terms for tolerances."

    def __init__(self, label, n, build, terms, spectral, desc):
        self.label, self.n, self.build, self.terms = label, n, build, terms
        self.spectral, self.desc = spectral, desc

    def space(self, sp, coeffs, **opt):
        return SPACES[sp](self.build(coeffs), **opt)


def family(rng, kind):
    """n energies with O(1) coefficients w; the material for coefficients c is
    sum_i c_i w_i psi_i."""
    if kind == "tod":
        C = random_tod(rng, pattern=np.ones(5, int))
        names = list(C)
        if rng.integers(2):  # parameters of one size
            C = {n: float(abs(C["C20"]) * rng.choice([-1, 1])) for n in names}
        strain = bool(rng.integers(2))

        def build(c):
            return hel.InvariantsFramework(hel.models.invariants.ThirdOrderDeformation(
                **{n: C[n] * float(x) for n, x in zip(names, c)}, strain=strain))

        t = _inv_terms(tod_terms(C, strain))
        return Family(kind, 5, build, t, False, C)
    if kind == "ogden":
        mu = [float(rng.uniform(0.3, 2)) for _ in range(3)]
        al = [float(rng.choice([rng.uniform(-4, -0.4), rng.uniform(0.4, 5), 2, 1, -2])) for _ in range(3)]

        def build(c):
            return hel.StretchesFramework(hel.models.stretches.Ogden([m * float(x) for m, x in zip(mu, c)], al))

        return Family(kind, 3, build, ogden_terms(mu, al), True, [mu, al])
    if kind == "ogden-array":
        mu = rng.uniform(0.3, 2, 2)
        al = np.array([1.7, -2.0])

        def build(c):
            return hel.StretchesFramework(hel.models.stretches.Ogden(mu * np.asarray(c, dtype=float), al))

        return Family(kind, 2, build, ogden_terms(mu, al), True, [mu, al])
    if kind in ("user-invariants", "torch"):
        e = Energy.random(rng, INV_TERMS, n=3)

        def build(c):
            s = Energy(e.pool, [(n, w * float(x), p) for (n, w, p), x in zip(e.items, c)])
            if kind == "torch":
                return hel.InvariantsFramework(hel.models.invariants.TorchModel(lambda a, b, d: s(a, b, d)))
            return hel.InvariantsFramework(UserInvariants(s, zero=zero))

        zero = str(rng.choice(["none", "zero", "array"]))
        return Family(kind, 3, build, _inv_terms(e.terms), False, e.describe())
    if kind == "torch-parameters":
        a = rng.uniform(0.3, 1, 2)

        def build(c):
            return hel.InvariantsFramework(hel.models.invariants.TorchModel(
                lambda I1, I2, I3, p, q: p * (I1 - 3) ** 2 + q * (I2 - 3), p=float(a[0] * c[0]), q=float(a[1] * c[1])))

        t = _inv_terms(lambda x, y, z: [a[0] * (x - 3) ** 2, a[1] * (y - 3)])
        return Family(kind, 2, build, t, False, a)
    if kind == "user-stretches":
        e = Energy.random(rng, STR_TERMS, n=3)
        zero = str(rng.choice(["none", "zero", "array"]))
        cont = [tuple, list, np.array][rng.integers(3)]

        def build(c):
            s = Energy(e.pool, [(n, w * float(x), p) for (n, w, p), x in zip(e.items, c)])
            return hel.StretchesFramework(UserStretches(s, zero=zero, container=cont))

        return Family(kind, 3, build, e.terms, True, e.describe())
    name, k = random_measure(rng)
    fun = MEASURES[name][1]
    if kind == "generalized-tod":
        C = random_tod(rng, pattern=np.ones(5, int))
        strain = name in ("strain", "user-exp")

        def build(c):
            m = hel.models.invariants.ThirdOrderDeformation(
                **{n: C[n] * float(x) for n, x in zip(C, c)}, strain=strain)
            return hel.GeneralizedInvariantsFramework(m, fun(), exponent=k)

        return Family(kind, 5, build, gi_terms(name, k, tod_terms(C, strain)), True, [name, k, C])
    e = Energy.random(rng, GEN_TERMS, n=3)

    def build(c):
        s = Energy(e.pool, [(n, w * float(x), p) for (n, w, p), x in zip(e.items, c)])
        return hel.GeneralizedInvariantsFramework(UserInvariants(s), fun(), exponent=k)

    return Family(kind, 3, build, gi_terms(name, k, e.terms), True, [name, k, e.describe()])


KINDS = ["tod", "ogden", "ogden-array", "user-invariants", "torch", "torch-parameters", "user-stretches",
         "generalized-tod", "generalized"]


def factor(rng):
    k = int(rng.integers(6))
    s = 10.0 ** rng.uniform(-15, 15) if k > 2 else 10.0 ** float(rng.choice([-15, -12, -9, -6, -3, 3, 6, 9, 12, 15]))
    return float(s * rng.choice([1, 1, -1]))


def look(R, u, x, trail, fin, ctx, mech):
    out = []
    for name, lead in (("gradient", 2), ("hessian", 4)):
        y = R.call(f"{mech}:{name}", getattr(u, name), [x, None], ctx=ctx)
        if y is FAILED:
            return FAILED
        y = np.asarray(y[0])
        k = lead if fin else lead // 2
        want = ((3,) * lead if fin else (6,) * k) + trail
        if y.shape != want:
            try:  # unfinalized results may keep unit batch axes
                y = np.broadcast_to(y, want)
            except ValueError:
                R.violation(f"{mech}:{name}:shape", f"{y.shape} for input {x.shape}", **ctx)
                return FAILED
        out.append(unlay(y, k))
        R.event(n=max(1, size(trail)))
    return out


def tolerances(ref, opt):
    lmin, lmax = ref.lam.min(axis=0), ref.lam.max(axis=0)
    push = np.maximum(1.0, lmax / ref.J) if opt.get("area", 0) is None else np.ones_like(ref.J)
    pull = np.ones_like(ref.J)
    if opt.get("force", None) == 0 or not opt.get("finalize", True):
        pull = np.maximum(1.0, 1 / lmin)
    return 4 * ref.tolP * push * pull, 4 * ref.tolA * push**2 * pull**4


def linear(R, rng, fam, sp, opt):
    fin = opt.get("finalize", True)
    trail = trail_for(rng, 30)
    F, tags = states(rng, size(trail))
    x = lay(F, trail)
    spec = Spec(fam.label, {"desc": fam.desc}, fam.terms, None, fam.spectral)
    ref = Expected(F, spec, sp)
    tols = tolerances(ref, opt)
    info = {"family": fam.label, "energy": fam.desc, "space": sp, "trail": trail, "F": F, **opt}

    def at(c, mech):
        u = R.call(f"{mech}:build", fam.space, sp, c, ctx={**info, "coefficients": c}, **opt)
        return FAILED if u is FAILED else look(R, u, x, trail, fin, {**info, "coefficients": c}, f"{fam.label}:{mech}")

    one = at(np.ones(fam.n), "one")
    if one is FAILED:
        return
    what = ("stress", "elasticity")
    # scaling
    for _ in range(2):
        s = factor(rng)
        y = at(np.full(fam.n, s), "scaled")
        if y is FAILED:
            continue
        for k in range(2):
            R.close(y[k], s * one[k], abs(s), col(tols[k], y[k].ndim - 1), f"{fam.label}:scaled:{what[k]}",
                    f"{what[k]} of {s:.3g} times the energy", factor=s, **info)
        R.bump("scalings")
        R.event((fam.label, sp, repr(opt), round(np.log10(abs(s)) / 3), s > 0), 0)
    # sums: parts with one energy each, different orders of magnitude
    c = np.array([factor(rng) if rng.integers(3) == 0 else float(rng.uniform(-2, 2)) for _ in range(fam.n)])
    if rng.integers(3) == 0:
        c = rng.choice([-1.0, 1.0], fam.n)
    c = c / np.abs(c).max()
    parts = []
    for i in range(fam.n):
        e = np.zeros(fam.n)
        e[i] = c[i]
        y = at(e, "part")
        if y is FAILED:
            return
        parts.append(y)
    y = at(c, "sum")
    if y is FAILED:
        return
    for k in range(2):
        R.close(y[k], sum(p[k] for p in parts), fam.n, col(tols[k], y[k].ndim - 1), f"{fam.label}:sum:{what[k]}",
                f"{what[k]} of a sum of energies", coefficients=c, **info)
    R.bump("sums")
    R.event((fam.label, sp, repr(opt), "sum", tags[0]), 0)
    # every part alone in another unit: small terms must not be dropped
    i = int(rng.integers(fam.n))
    s = 10.0 ** float(rng.uniform(-15, -6))
    e = np.zeros(fam.n)
    e[i] = 1.0
    a, b = at(e, "part"), at(s * e, "part scaled")
    if a is not FAILED and b is not FAILED:
        for k in range(2):
            R.close(b[k], s * a[k], s, col(tols[k], a[k].ndim - 1), f"{fam.label}:scaled part:{what[k]}",
                    f"{what[k]} of {s:.3g} times one term", factor=s, term=i, **info)
        R.bump("scalings")


def zeros():
    I, S, T = hel.models.invariants, hel.models.stretches, hel.models.invariants.TorchModel  # noqa: E741

    class Const:
        def __init__(self, z):
            self.z = z

        def gradient(self, I1, I2, I3, statevars):
            z = np.zeros_like(I1) if self.z == "array" else self.z
            return z, z, z, statevars

        def hessian(self, I1, I2, I3, statevars):
            z = np.zeros_like(I1) if self.z == "array" else self.z
            return z, z, z, z, z, z

    class ConstS:
        def __init__(self, z):
            self.z = z

        def gradient(self, x, statevars):
            if self.z == "array":
                return np.zeros_like(x), statevars
            return [self.z] * 3, statevars

        def hessian(self, x, statevars):
            if self.z == "array":
                return np.zeros((6, *x.shape[1:]))
            return [self.z] * 6

    inv = {
        "tod": lambda: I.ThirdOrderDeformation(),
        "tod zeros": lambda: I.ThirdOrderDeformation(C10=0.0, C01=0, C11=0.0, C20=0, C30=0.0),
        "tod strain": lambda: I.ThirdOrderDeformation(strain=True),
        "user none": lambda: Const(None),
        "user zero": lambda: Const(0),
        "user zero float": lambda: Const(0.0),
        "user array": lambda: Const("array"),
        "torch 0*I1": lambda: T(lambda a, b, c: 0.0 * (a - 3) ** 2),
        "torch parameter": lambda: T(lambda a, b, c, k: k * (a - 3) * (b - 3) * c, k=0.0),
        "torch constant": lambda: T(lambda a, b, c: (a * 0.0).detach()),
    }
    stre = {
        "ogden": lambda: S.Ogden([0.0], [2.0]),
        "ogden two": lambda: S.Ogden([0, 0.0], [2, -3]),
        "ogden empty": lambda: S.Ogden([], []),
        "user none": lambda: ConstS(None),
        "user zero": lambda: ConstS(0.0),
        "user array": lambda: ConstS("array"),
    }
    out = {f"invariants:{k}": (lambda m=m: hel.InvariantsFramework(m())) for k, m in inv.items()}
    out |= {f"stretches:{k}": (lambda m=m: hel.StretchesFramework(m())) for k, m in stre.items()}
    for n, e in (("strain", 2), ("deformation", 1.7)):
        fun = getattr(hel.models.generalized, n)
        out |= {
            f"generalized {n}:{k}": (lambda m=m, fun=fun, e=e: hel.GeneralizedInvariantsFramework(m(), fun, exponent=e))
            for k, m in inv.items()
        }
    return out


def nothing(R, rng):
    for label, build in zeros().items():
        for sp in SPACES:
            for opt in OPTIONS[2:]:
                trail = trail_for(rng, 16)
                F, tags = states(rng, size(trail))
                ctx = {"material": label, "space": sp, "trail": trail, "F": F, **opt}
                u = R.call("zero:build", lambda: SPACES[sp](build(), **opt), ctx=ctx)
                if u is FAILED:
                    continue
                y = look(R, u, lay(F, trail), trail, opt.get("finalize", True), ctx, f"zero:{label}")
                if y is FAILED:
                    continue
                for k, what in enumerate(("stress", "elasticity")):
                    R.check(not np.any(y[k]), f"zero:{label}:{what}", f"{what} of a zero energy is not zero", **ctx)
                R.bump("zero energies")
                R.event((label, sp, repr(opt), "zero"), 0)


def laboratory(R, rng, n):
    "Simulated curves scale with the parameters, too."
    def tod(sp):
        return lambda **kw: SPACES[sp](hel.InvariantsFramework(hel.models.invariants.ThirdOrderDeformation(**kw)))

    def ogden(sp):
        return lambda m1, m2: SPACES[sp](hel.StretchesFramework(hel.models.stretches.Ogden([m1, m2], [1.6, -2.0])))

    for i in range(n):
        sp = ("Distortional", "Deformation")[i % 2]
        mk, labels = ((tod, ["C10", "C01", "C20"]), (ogden, ["m1", "m2"]))[rng.integers(2)]
        lc = [hel.lab.Uniaxial, hel.lab.Planar, hel.lab.Biaxial][rng.integers(3)]()
        p = rng.uniform(0.1, 1, len(labels))
        x = np.exp(rng.uniform(np.log(0.4), np.log(3), 12))
        s = factor(rng)
        ctx = {"space": sp, "labels": labels, "parameters": p, "factor": s, "stretch": x}
        run = lambda q: hel.lab.Simulation(lc, x, labels, mk(sp), q).stress()  # noqa: E731
        a, b, z = (R.call("lab", run, q, ctx=ctx) for q in (p, s * p, 0 * p))
        if a is FAILED or b is FAILED or z is FAILED:
            continue
        R.close(b, s * a, abs(s) * (1 + np.abs(a).max() + x**2 + x**-4.0), 1e-10, "lab:scaled", "simulated stress", **ctx)
        R.check(not np.any(z), "lab:zero", "simulated stress of a zero energy", **ctx)
        R.event(("lab", sp, labels[0], round(np.log10(abs(s)) / 3)), 12)


def run(R):
    import torch

    torch.set_default_dtype(torch.float64)
    rng = np.random.default_rng([SEED, 19])
    R.require("scalings", 200)
    R.require("sums", 100)
    R.require("zero energies", 100)
    k = 0
    for rep in range(pick(5, 150)):
        for kind in KINDS:
            fam = family(rng, kind)
            for sp in SPACES:
                linear(R, rng, fam, sp, OPTIONS[k % len(OPTIONS)])
                k += 1
            if rep == 0:
                R.sample({"family": fam.label, "energy": fam.desc})
    for rep in range(pick(1, 10)):
        nothing(R, rng)
    laboratory(R, rng, pick(40, 800))
