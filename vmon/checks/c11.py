"""C11: generalized invariants are consistently normalized for every strain measure."""

import numpy as np

from ..engine import FAILED
from ..env import SEED, hel, pick
from ..jets import Jet, full
from ..materials import (
    GEN_TERMS, MEASURES, ORDER6, SPACES, TOD, Energy, UserInvariants, gi_terms, normalization,
    random_tod, spec_gi, tod_terms, user_mixed,
)
from ..engine import Expected, compare_stress, compare_tangent, observe, size, trail_for
from ..states import TRAILS, states

RULE = (
    "exponents -6..6 (integers, fractions, tiny) x measures (built-in and user-written): value "
    "and derivatives of the measure, the invariants the material is really handed (spy), the "
    "model's derivatives with respect to the stretches, and the stiffness at rest; distinct = "
    "(measure, exponent, energy or aspect)"
)


def exponents(rng, n):
    out = [1, 2, 3, -1, -2, -3, 4, 0.5, -0.5, 1.0, 2.0, -1.0, 1 / 3, 6, -6, 5.5]
    # numbers as they come out of arrays and of NumPy
    out += [np.int64(1), np.int64(2), np.int64(-1), np.int64(-2), np.int32(3), np.int32(-3), np.array(2), np.array(-1), np.array(0.5), np.float64(-0.5)]
    out += [float(k + s * 10.0 ** rng.uniform(-6, -3.2)) for k in (1, 2, -1, -2) for s in (-1, 1)]
    out += [float(s * 10.0 ** -rng.uniform(*e)) for e in ((3, 5), (5, 8)) for s in (-1, 1)]
    while len(out) < n:
        out.append(float(rng.choice([rng.uniform(-6, -0.05), rng.uniform(0.05, 6), 10.0 ** rng.uniform(-3, 0), -(10.0 ** rng.uniform(-3, 0))])))
    return out[:n]


def scalar_jets(f, x, k):
    j = Jet.variables(x, np.ones_like(x), np.ones_like(x))[0]
    y = full(f(j, k), j)
    return y.v, y.g[0], y.h[0, 0]


def measures(R, rng, ks):
    for name in ("strain", "deformation"):
        f, fun, ref = MEASURES[name]
        for k in ks:
            trail = (3, *TRAILS[rng.integers(len(TRAILS))])
            lam = np.exp(rng.uniform(-1.5, 1.5, trail))
            if rng.integers(4) == 0:
                lam[0] = 1.0
            lam0 = lam.copy()
            ctx = {"measure": name, "exponent": repr(k)}
            out = R.call(f"{name}", fun(), lam, k, ctx=ctx)
            if out is FAILED or not R.check(len(out) == 6, f"{name}:count", f"{len(out)} values", **ctx):
                continue
            v, d, dd = scalar_jets(f, lam, float(k))
            c = 1.0 + abs(k) + 1 / abs(k)
            for got, want, s, what in (
                (out[0], v, c * (lam**k + 1), "value"),
                (out[1], d, c * lam ** (k - 1), "first derivative"),
                (out[2], dd, c**2 * lam ** (k - 2), "second derivative"),
            ):
                R.close(got, want, s, 1e-13, f"{name}:{what}", f"{what} for exponent {k}", **ctx)
            # the reference measure is the quadratic one, whatever the exponent
            for got, want, what in zip(out[3:], ref, ("value", "first derivative", "second derivative")):
                R.close(np.asarray(got, dtype=float), np.asarray(want), 1.0, 1e-13, f"{name}:reference {what}", f"reference {what} for exponent {k}", **ctx)
            R.check(np.array_equal(lam, lam0), f"{name}:arguments", "stretches changed", **ctx)
            # at a plain number one, as used for the normalization
            one = R.call(f"{name}:one", fun(), 1, k, ctx=ctx)
            if one is not FAILED:
                w = scalar_jets(f, np.array([1.0]), float(k))
                for got, want, what in zip(one, w, ("value", "first derivative", "second derivative")):
                    R.close(np.asarray(got, dtype=float), want[0], c**2, 1e-13, f"{name}:at one:{what}", what, **ctx)
            R.event((name, repr(k)), lam.size)
            R.bump("measures")


class Handed:
    "A material that records what it is handed and answers from an energy."

    def __init__(self, inner):
        self.inner, self.seen = inner, []

    def gradient(self, I1, I2, I3, statevars):
        self.seen.append(tuple(np.array(x, copy=True) for x in (I1, I2, I3)))
        return self.inner.gradient(I1, I2, I3, statevars)

    def hessian(self, I1, I2, I3, statevars):
        self.seen.append(tuple(np.array(x, copy=True) for x in (I1, I2, I3)))
        return self.inner.hessian(I1, I2, I3, statevars)


def well_posed(name, k):
    "The normalization exists (no division by zero at the undeformed state)."
    try:
        c1, c2, *_ = normalization(name, float(k))
    except ZeroDivisionError:
        return False
    return np.isfinite([c1, c2]).all() and abs(c1) < 1e8 and abs(c2) < 1e8


def model(R, rng, name, k):
    if not well_posed(name, k):
        R.bump("ill-posed")
        return
    f, fun, _ = MEASURES[name]
    c1, c2, I10, I20, I30 = normalization(name, float(k))
    builtin = bool(rng.integers(2))
    if builtin:
        C = random_tod(rng)
        strain = bool(rng.integers(2))
        ft, desc = tod_terms(C, strain), {"C": C, "strain": strain}
        inner = hel.models.invariants.ThirdOrderDeformation(**C, strain=strain)
    else:
        e = Energy.random(rng, GEN_TERMS)
        ft, desc = e.terms, {"energy": e.describe()}
        inner = UserInvariants(e, zero=str(rng.choice(["none", "zero", "array"])))
    ctx = {"measure": name, "exponent": repr(k), **desc}
    spy = Handed(inner)
    m = R.call("model:init", lambda: hel.models.stretches.GeneralizedInvariantsModel(spy, fun(), exponent=k), ctx=ctx)
    if m is FAILED:
        return
    spy.seen.clear()
    trail = TRAILS[rng.integers(len(TRAILS))]
    w = min(1.0, 3.0 / max(abs(k), 1))
    z = rng.integers(7)
    if z == 4:  # very large and very small stretches
        w = min(2.0, 4.0 / max(abs(k), 1))
    lam = np.exp(rng.uniform(-w, w, (3, *trail)))
    if z == 0:
        lam[...] = 1.0
    elif z == 1:
        lam[1] = lam[2]
    elif z == 5:  # plane states: one stretch, or two of them, are one in all points
        lam[rng.permutation(3)[: rng.integers(1, 3)]] = 1.0
        R.bump("plane states")
    elif z == 6:  # isochoric states
        lam[rng.integers(3)] /= lam[0] * lam[1] * lam[2]
    whole = z == 2 and rng.integers(3) == 0 and abs(k) < 4
    if whole:  # whole numbers
        lam = rng.integers(1, 4, (3, *trail)).astype(float)
    lam0 = lam.copy()
    terms = gi_terms(name, float(k), ft)
    sv = [None, np.arange(4.0), "state"][rng.integers(3)]
    given = lam.astype(int) if whole else lam
    ctx["whole"] = whole
    G = R.call("model:gradient", m.gradient, given, sv, ctx=ctx)
    H = R.call("model:hessian", m.hessian, given, sv, ctx=ctx)
    if G is not FAILED:
        R.check(G[-1] is sv or np.array_equal(G[-1], sv), "model:statevars", "state variables changed", **ctx)
    R.check(np.array_equal(lam, lam0), "model:arguments", "stretches changed", **ctx)
    # -- what the material was handed
    E = [f(x, float(k)) for x in lam]
    J1, J2, J3 = E[0] + E[1] + E[2], E[0] * E[1] + E[1] * E[2] + E[2] * E[0], E[0] * E[1] * E[2]
    want = (c1 * (J1 - I10) + I10, c2 * (J2 - I20) + I20, J3)
    ab = [np.abs(x) + 1 / abs(k) for x in E]
    s = (1 + abs(c1)) * (ab[0] + ab[1] + ab[2]), (1 + abs(c2)) * (ab[0] * ab[1] + ab[1] * ab[2] + ab[2] * ab[0]), ab[0] * ab[1] * ab[2]
    R.check(len(spy.seen) > 0, "model:not called", "the material was not called", **ctx)
    for seen in spy.seen:
        for i in range(3):
            R.close(np.asarray(seen[i]), want[i], s[i], 1e-12, f"handed:I{i + 1}", f"invariant {i + 1} handed to the material", **ctx)
        R.bump("handed")
    # -- derivatives with respect to the stretches
    x = Jet.variables(*lam)
    g = h = gs = hs = 0.0
    for t in terms(*x):
        t = full(t, x[0])
        g, h = g + t.g, h + t.h
        gs, hs = gs + np.abs(t.g), hs + np.abs(t.h)
    # size of the terms without cancellation: derivative of the energy in shifted steps
    gg, hh = np.max(gs, axis=0), np.max(hs, axis=(0, 1))
    for p in ((1.1, 1, 1), (1, 1.1, 1), (1, 1, 1.1), (0.9, 0.95, 1)):
        y = Jet.variables(*(a * b for a, b in zip(lam, p)))
        for t in terms(*y):
            t = full(t, y[0])
            gg = np.maximum(gg, np.abs(t.g).max(axis=0))
            hh = np.maximum(hh, np.abs(t.h).max(axis=(0, 1)))
    cc = (1 + abs(k) + 1 / abs(k)) * (1 + abs(c2) + abs(c1)) * 10
    lmin = lam.min(axis=0)
    if G is not FAILED:
        R.close(np.asarray(G[0]), g + 0 * x[0].g, gg + hh * lam.max(axis=0), 1e-13 * cc, "model:first derivative", "dW/dl", **ctx)
    if H is not FAILED and R.check(len(H) == 6, "model:hessian:count", f"{len(H)} entries", **ctx):
        h = h + 0 * x[0].h
        for (i, j), v in zip(ORDER6, H):
            if v is None:
                R.check(not np.any(h[i, j]), "model:absent", "absent derivative is not zero", **ctx)
            else:
                R.close(np.broadcast_to(v, h[i, j].shape), h[i, j], hh + gg / lmin, 1e-13 * cc, f"model:second derivative:{'same' if i == j else 'mixed'}", f"d2W/dl{i + 1}dl{j + 1}", **ctx)
    R.event((name, repr(k), repr(desc), trail), lam.size)


def stiffness(R, rng, ks):
    "Small-strain shear stiffness of an energy in the first two invariants."
    one = np.eye(3).reshape(3, 3, 1)
    for rep in range(pick(6, 60)):
        C = {"C10": float(rng.uniform(0.2, 1)), "C01": float(rng.uniform(-0.3, 0.6))}
        for name in ("strain", "deformation"):
            base = None
            for k in [2, *ks]:
                if not well_posed(name, k):
                    continue
                c1, c2, *_ = normalization(name, float(k))
                ctx = {"measure": name, "exponent": repr(k), "C": C}

                def build():
                    return hel.DistortionalSpace(hel.GeneralizedInvariantsFramework(
                        hel.models.invariants.ThirdOrderDeformation(**C, strain=name == "strain"),
                        MEASURES[name][1](), exponent=k))

                u = R.call("stiffness:build", build, ctx=ctx)
                if u is FAILED:
                    continue
                A = R.call("stiffness", u.hessian, [one, None], ctx=ctx)
                if A is FAILED:
                    continue
                A = np.asarray(A[0])[..., 0]
                if base is None:
                    base = A
                    mu = 2 * (C["C10"] + C["C01"]) if name == "deformation" else (C["C10"] - C["C01"] / 2)
                    # Mooney-Rivlin; strain: quadratic invariants of Green-Lagrange strain
                    if name == "deformation":
                        R.close(A[0, 1, 0, 1], np.asarray(mu), 1.0, 1e-11, "stiffness:shear modulus", "shear modulus", **ctx)
                    continue
                s = 1 + abs(k) + 1 / abs(k)
                R.close(A, base, np.abs(base).max() + 0.1, 1e-12 * s**2 * (1 + abs(c1) + abs(c2)), "stiffness:exponent", f"elasticity at rest for exponent {k}", **ctx)
                R.bump("stiffness")
                R.event((name, repr(k), "stiffness"), 1)
        # the same stiffness for the first invariant of any measure, up to the measure's
        # reference: deformation counts twice the strain
        for name in MEASURES:
            vals = []
            for k in (2, 1.3, 0.7) if name in ("strain", "deformation") else (0.2, 0.5):
                u = hel.DistortionalSpace(hel.GeneralizedInvariantsFramework(
                    hel.models.invariants.ThirdOrderDeformation(C10=C["C10"]), MEASURES[name][1](), exponent=k))
                A = R.call("stiffness:first", u.hessian, [one, None], ctx={"measure": name, "exponent": k})
                if A is FAILED:
                    continue
                mu = C["C10"] * (2 if name in ("deformation", "user-mixed") else 1)
                R.close(np.asarray(A[0])[0, 1, 0, 1, 0], np.asarray(mu), 1.0, 1e-10, "stiffness:first invariant", "shear modulus", measure=name, exponent=k, C=C)


def frameworks(R, rng, n):
    "The framework class hands exponent and measure on, in every space."
    for i in range(n):
        spec = spec_gi(rng)
        for sp in SPACES:
            u = R.call("framework:build", spec.space, sp, ctx={"material": spec.describe()})
            if u is FAILED:
                continue
            trail = trail_for(rng, 16)
            F, tags = states(rng, size(trail), ("moderate", "dense", "tiny", "twin", "rest", "volumetric"))
            ctx = {"material": spec.describe(), "space": sp, "trail": trail, "F": F}
            ref = Expected(F, spec, sp)
            P = observe(R, u, "gradient", F, trail, ctx=ctx, mech="framework")
            A = observe(R, u, "hessian", F, trail, ctx=ctx, mech="framework")
            if P is not FAILED:
                compare_stress(R, P, ref, "framework:stress", ctx)
            if A is not FAILED:
                compare_tangent(R, A, ref, "framework:elasticity", ctx)
            R.event((spec.key(), sp), 2 * size(trail))


def user_options(stretch, exponent, shift=0.0, weight=1.0, *, power=2):
    "A user-written measure with parameters of its own."
    λ, k = stretch, exponent
    return (
        weight * λ**k + 0.1 * λ**power + shift,
        weight * k * λ ** (k - 1) + 0.1 * power * λ ** (power - 1),
        weight * k * (k - 1) * λ ** (k - 2) + 0.1 * power * (power - 1) * λ ** (power - 2),
        1.0, 2.0, 2.0,
    )


def user_fixed(stretch):
    "A user-written measure without parameters."
    return stretch**2, 2 * stretch, 2.0 + 0 * stretch, 1.0, 2.0, 2.0


def user_named(stretch, m, n):
    "A user-written measure with parameters of other names."
    λ = stretch
    return (λ**m - λ**-n, m * λ ** (m - 1) + n * λ ** (-n - 1),
            m * (m - 1) * λ ** (m - 2) - n * (n + 1) * λ ** (-n - 2), 0.0, 1.0, 1.0)


def keywords(R, rng, n):
    """All keyword arguments of the model and of the framework reach the user's measure: as if
    they were bound to it before."""
    choices = [
        (user_options, lambda: dict(exponent=float(rng.uniform(1, 3)), shift=float(rng.uniform(0.2, 1)))),
        (user_options, lambda: dict(exponent=2, weight=float(rng.uniform(0.5, 1.5)))),
        (user_options, lambda: dict(power=3, exponent=float(rng.uniform(1, 3)), shift=-0.3, weight=0.7)),
        (user_fixed, dict),
        (user_named, lambda: dict(m=float(rng.uniform(1, 3)), n=float(rng.uniform(0.5, 2)))),
        (user_named, lambda: dict(n=2, m=1)),
        (user_mixed, lambda: dict(exponent=float(rng.uniform(0.2, 0.5)))),
    ]
    for i in range(n):
        f, make = choices[i % len(choices)]
        kw = make()
        seen = []

        def spy(stretch, **k):
            seen.append(dict(k))
            return f(stretch, **k)

        def bound(stretch):
            return f(stretch, **kw)

        C = {"C10": float(rng.uniform(0.2, 1)), "C01": float(rng.uniform(0.1, 0.5)), "C11": 0.02}
        inner = lambda: hel.models.invariants.ThirdOrderDeformation(**C)  # noqa: E731
        ctx = {"measure": f.__name__, "keywords": kw, "C": C}
        lam = np.exp(rng.uniform(-0.4, 0.4, (3, 5)))
        got = R.call("keywords:model", lambda: hel.models.stretches.GeneralizedInvariantsModel(inner(), spy, **kw), ctx=ctx)
        for route in ("model", "framework"):
            seen.clear()
            if route == "model":
                m = got
            else:
                fw = R.call("keywords:framework", lambda: hel.GeneralizedInvariantsFramework(inner(), spy, **kw), ctx=ctx)
                m = FAILED if fw is FAILED else fw.material
            if m is FAILED:
                continue
            want = hel.models.stretches.GeneralizedInvariantsModel(inner(), bound)
            for what in ("gradient", "hessian"):
                a = R.call(f"keywords:{route}:{what}", getattr(m, what), lam, None, ctx=ctx)
                b = getattr(want, what)(lam, None)
                if a is FAILED:
                    continue
                for x, y in zip(a[0] if what == "gradient" else a, b[0] if what == "gradient" else b):
                    R.close(np.asarray(x), np.asarray(y), np.abs(np.asarray(y)).max() + 1, 1e-12, f"keywords:{route}:{what}",
                            "model with keywords against the measure bound to them", **ctx)
            R.check(bool(seen) and all(k == kw for k in seen), f"keywords:{route}:handed", f"the measure received {seen[:2]}", **ctx)
            R.bump("keywords")
            R.event(("keywords", f.__name__, repr(sorted(kw)), route), 2 * lam.size)


def run(R):
    rng = np.random.default_rng([SEED, 11])
    R.require("measures", 40)
    R.require("handed", 100)
    R.require("stiffness", 100)
    R.require("plane states", 20)
    R.require("keywords", 20)
    ks = exponents(rng, pick(60, 400))
    measures(R, rng, ks)
    for rep in range(pick(3, 30)):
        for k in ks:
            model(R, rng, "strain", k)
            model(R, rng, "deformation", k)
        for k in (0.1, 0.25, 0.4, 0.6):
            model(R, rng, "user-mixed", k)
            model(R, rng, "user-exp", k)
    stiffness(R, rng, ks[: pick(24, 100)])
    frameworks(R, rng, pick(25, 400))
    keywords(R, rng, pick(21, 300))
    R.sample({"exponents": ks[:20]})
