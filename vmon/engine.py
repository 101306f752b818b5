"""Shared workloads: evaluate materials on hostile batches and compare the observed
responses with the reference."""

import numpy as np

from .env import hel  # noqa: F401
from .oracle import SPACE_ENERGY, Reference, frob, principal, pull_tangent
from .report import FAILED
from .states import LAYOUTS, TRAILS, alike, extreme, lay, memory_layout, scaled, separated, states, unlay

TOL = 1e-10
COUNT = [0]  # evaluations, which take turns in the memory layout of their input
# divided differences of nearly equal stretches lose digits: relative 1e-6 allowed
TOL_NEAR = 1e-6


def trail_for(rng, nmax=64):
    k = rng.integers(len(TRAILS) + 2)
    if k < len(TRAILS):
        return TRAILS[k]
    return (int(rng.integers(8, nmax)),)


def size(trail):
    return int(np.prod(trail, dtype=int))


class Expected(Reference):
    """Reference response of a material in a space, with the absolute errors allowed
    per point: ``tolP``, ``tolA`` (n,).

    Allowed is a fraction TOL of the magnitude of the response plus round-off of the
    magnitude of the terms it is computed from (which does not vanish where terms
    cancel).  Spectral tangents amplify round-off by the inverse gap of stretches,
    limited to TOL_NEAR."""

    def __init__(self, F, spec, space, tangent=True):
        super().__init__(F, SPACE_ENERGY[space](spec.terms), tangent=tangent)
        lam, J = self.lam, self.J
        lmin, lmax = lam.min(axis=0), lam.max(axis=0)
        if space == "Deformation":
            x, f = lam, np.ones_like(J)
        elif space == "Distortional":
            f = J ** (-1.0 / 3.0)
            x = lam * f
        else:
            s = J ** (1.0 / 3.0)
            x, f = np.array([s, s, s]), s / lmin
        gs, hs = np.zeros_like(J), np.zeros_like(J)
        for p in ((1, 1, 1), (1.1, 1, 1), (1, 1.1, 1), (1, 1, 1.1), (0.9, 0.95, 1)):
            _, _, _, g1, h1 = principal(spec.terms, x * np.array(p)[:, None])
            gs, hs = np.maximum(gs, g1), np.maximum(hs, h1)
        xmin, xmax = x.min(axis=0), x.max(axis=0)
        # (beyond the usual range the projections of the distortional space cancel more)
        c = np.maximum(1.0, 0.1 * self.cond**2) * np.maximum(1.0, (self.cond / 40) ** 5)
        eps = 2e-13 * c
        self.rP = f * (gs + hs * xmax)
        self.rA = f**2 * (hs + gs / xmin)
        self.tolP = spec.tol * (TOL * self.sP + eps * self.rP)
        near = np.zeros_like(J)
        if spec.spectral and space != "Dilatational":
            g = np.maximum(self.gap, 1e-16)
            near = np.minimum(1e-13 / g * c, TOL_NEAR)
            near = np.where(self.gap < 1e-6, TOL_NEAR, near)
        self.tolA = spec.tol * (
            np.maximum(TOL, near) * self.sA + np.maximum(np.where(self.cond > 40, 20, 5) * eps, 0.1 * near) * self.rA
        )
        # rounding of the input itself: the reference sees F, the code sees C
        self.scaleS = self.sP / lmin


def observe(R, space, name, F, trail, statevars=None, mech="call", ctx=None, dtype=None):
    "gradient / hessian of a space on the batch, as (n, ...) or FAILED."
    x = lay(F, trail)
    if dtype is not None:
        x = x.astype(dtype)
    COUNT[0] += 1
    if COUNT[0] % 3 == 0 and x.size:
        x = memory_layout(None, x, LAYOUTS[COUNT[0] // 3 % len(LAYOUTS)])
    elif COUNT[0] % 3 == 1 and 0 < x.size < 50000:
        x = stretched(x)
    fun = getattr(space, name)
    out = R.call(f"{mech}:{name}", fun, [x, statevars], ctx=ctx)
    if out is FAILED:
        return FAILED
    nlead = 2 if name == "gradient" else 4
    y = np.asarray(out[0])
    if y.shape != (3,) * nlead + tuple(trail):
        R.violation(
            f"{mech}:{name}:shape",
            f"result has shape {y.shape} for input {x.shape}",
            **(ctx or {}),
        )
        return FAILED
    return unlay(y, nlead)


def stretched(x):
    "Batch axes along which nothing varies, as a broadcast (read-only) view."
    y = x
    for a in range(2, x.ndim):
        if y.shape[a] > 1 and (y == y.take([0], axis=a)).all():
            y = y.take([0], axis=a)
    return x if y.shape == x.shape else np.broadcast_to(y, x.shape)


def col(x, n):
    return np.asarray(x).reshape(-1, *([1] * n))


def compare_stress(R, P, ref, mech, ctx):
    return R.close(P, ref.P, 1.0, col(ref.tolP, 2), mech, "stress", **ctx)


def compare_tangent(R, A, ref, mech, ctx):
    return R.close(A, ref.A, 1.0, col(ref.tolA, 4), mech, "elasticity", **ctx)


def case_key(spec, space, tag, extra=()):
    return (spec.key(), space, tag, *extra)


def fd_tangent(space, F, h=1e-4):
    """Fourth-order central differences of the observed stress, (n, 3, 3) -> (n,
    3,3,3,3)."""
    n = len(F)
    out = np.empty((n, 3, 3, 3, 3))
    steps = ((1, 8.0 / 12), (-1, -8.0 / 12), (2, -1.0 / 12), (-2, 1.0 / 12))
    for k in range(3):
        for L in range(3):
            acc = 0.0
            for m, w in steps:
                G = F.copy()
                G[:, k, L] += m * h
                P = unlay(space.gradient([lay(G, (n,)), None])[0], 2)
                acc = acc + w * P
            out[:, :, :, k, L] = acc / h
    return out


__all__ = [n for n in dir() if not n.startswith("_")]


def representable(rng, F, spec, space_name):
    "The states, those replaced at which the energy leaves the floating-point range."
    with np.errstate(all="ignore"):
        ref = Expected(F, spec, space_name, tangent=True)
        bad = ~((np.abs(ref.P).max(axis=(1, 2)) < 1e100) & (np.abs(ref.A).max(axis=(1, 2, 3, 4)) < 1e100)
                & (np.abs(ref.tolP) < 1e100) & (np.abs(ref.tolA) < 1e100))
    F = np.array(F)
    for i in np.flatnonzero(bad):
        F[i] = states(rng, 1, ("moderate",))[0][0]
    return F


def monitor_batches(R, rng, space_name, n, stress=True, tangent=False, kinds=None, cats=None,
                    options=({},), singles=0):
    """n materials in one space on hostile batches: the online monitor compares every
    returned point with the reference."""
    from .materials import ALL_MAKERS, single_specs, spec_stream

    def stream():
        for _ in range(singles):  # every named term alone
            for spec in single_specs(rng):
                yield spec, True
        for spec in spec_stream(rng, n, kinds or ALL_MAKERS):
            yield spec, False

    shift = int(rng.integers(1000))
    for i, (spec, single) in enumerate(stream()):
        opt = options[i % len(options)]
        space = R.call("build", spec.space, space_name, ctx={"material": spec.describe()}, **opt)
        if space is FAILED:
            continue
        batches = ((None, trail_for(rng)), (alike, (int(rng.integers(1, 9)),)), ((extreme, scaled)[i % 2], (3,)), (None, (20,)))
        if i % 20 == 7:
            batches += ((None, ((150,), (1100,), (30, 7))[i // 20 % 3]),)
        for make, trail in ((alike, (4,)), batches[-1]) if single else batches:
            if spec.kind == "sorted-stretches":
                F, tags = separated(rng, size(trail))
            elif make is alike and cats is None:
                F, tags = alike(rng, size(trail), i + shift)
                if i % 4 == 3:  # shrunk or blown up as a whole
                    F = representable(rng, F * np.exp(rng.choice([-1, 1]) * rng.uniform(0.4, 1.5)), spec, space_name)
            elif make is not None and cats is None:
                F, tags = make(rng, size(trail))
                F = representable(rng, F, spec, space_name)
            else:
                F, tags = states(rng, size(trail), cats)
            ctx = {"material": spec.describe(), "space": space_name, "trail": trail, "F": F, **opt}
            P = A = None
            if stress:
                P = observe(R, space, "gradient", F, trail, ctx=ctx, mech=spec.kind)
            if tangent:
                A = observe(R, space, "hessian", F, trail, ctx=ctx, mech=spec.kind)
            ref = Expected(F, spec, space_name, tangent=tangent)
            ref.trail = trail
            if P is not None and P is not FAILED:
                compare_stress(R, P, ref, f"{spec.kind}:stress", ctx)
                R.bump("points:stress", len(F))
            if A is not None and A is not FAILED:
                compare_tangent(R, A, ref, f"{spec.kind}:elasticity", ctx)
                R.bump("points:elasticity", len(F))
            for t in tags:
                R.event((spec.key(), t))
            if make is None:
                R.sample({"material": spec.describe(), "state": tags[0], "F": F[0], "W": ref.W[0]})
            yield spec, space, F, P, A, ref


def check_events(R, rng, runs, space_name, stress=True, tangent=True, most=120):
    "Offline comparison of recorded application events with the reference."
    for spec, name, events in runs:
        if name != space_name:
            continue
        for k, e in enumerate(events):
            want = {"gradient": stress, "hessian": tangent}[e["name"]]
            if not want:
                continue
            F = unlay(e["x"][0], 2)
            nlead = 2 if e["name"] == "gradient" else 4
            out = np.asarray(e["out"][0])
            ctx = {"material": spec.describe(), "space": name, "event": k, "workload": "application"}
            if out.shape != (3,) * nlead + e["x"][0].shape[2:]:
                R.violation("application:shape", f"{out.shape} for {e['x'][0].shape}", **ctx)
                continue
            Y = unlay(out, nlead)
            if not np.isfinite(F).all() or not (np.linalg.det(F) > 1e-3).all():
                R.bump("application:inadmissible")
                continue
            sel = rng.permutation(len(F))[:most]
            ctx["F"] = F[sel]
            ref = Expected(F[sel], spec, name, tangent=nlead == 4)
            sane = (ref.cond < 50) & (ref.lam.max(axis=0) < 8)
            if not sane.all():
                R.bump("application:extreme")
                continue
            if nlead == 2:
                compare_stress(R, Y[sel], ref, f"application:{spec.kind}:stress", ctx)
            else:
                compare_tangent(R, Y[sel], ref, f"application:{spec.kind}:elasticity", ctx)
            R.bump("points:application", len(sel))
            R.event((spec.key(), "application", e["name"], k), len(sel))


def spec_stream_distinct(rng, n):
    from .materials import spec_stream

    return list(spec_stream(rng, n))


def field_batch(R, kind, es, coef, measure, space_name, trail, F, ctx, stress=True, tangent=True):
    "One batch of a material whose coefficients of the energies vary from point to point."
    from .materials import MEASURES, SPACES, FieldModel, Spec, _inv_terms, gi_terms, hel

    name, k = measure
    if kind == "invariants":
        wrap = _inv_terms
    elif kind == "stretches":
        wrap = lambda t: t  # noqa: E731
    else:
        wrap = lambda t: gi_terms(name, k, t)  # noqa: E731
    model = FieldModel(es, [c.reshape(trail) for c in coef], kind == "stretches")
    if kind == "invariants":
        fw = hel.InvariantsFramework(model)
    elif kind == "stretches":
        fw = hel.StretchesFramework(model)
    else:
        fw = hel.GeneralizedInvariantsFramework(model, MEASURES[name][1](), exponent=k)
    space = SPACES[space_name](fw)
    P = observe(R, space, "gradient", F, trail, ctx=ctx, mech="field") if stress else None
    A = observe(R, space, "hessian", F, trail, ctx=ctx, mech="field") if tangent else None
    sP = sA = tP = tA = 0.0
    for e, c in zip(es, coef):
        spec = Spec("field", {}, wrap(e.terms), None, kind != "invariants")
        ref = Expected(F, spec, space_name, tangent=tangent)
        sP = sP + col(c, 2) * ref.P
        tP = tP + col(np.abs(c) * ref.tolP, 2)
        if tangent:
            sA = sA + col(c, 4) * ref.A
            tA = tA + col(np.abs(c) * ref.tolA, 4)
    tiny = 1e-300
    if P is not None and P is not FAILED:
        R.close(P, sP, 1.0, tP + tiny, f"field:{kind}:stress", "stress with parameters varying over the batch", **ctx)
        R.bump("points:field", len(F))
    if A is not None and A is not FAILED:
        R.close(A, sA, 1.0, tA + tiny, f"field:{kind}:elasticity", "elasticity with parameters varying over the batch", **ctx)
        R.bump("points:field", len(F))


def monitor_fields(R, rng, space_name, n, stress=True, tangent=True):
    """User models whose parameters vary from point to point, in patterns that defeat
    judging a batch by its sum, its first point or any of its points."""
    from .materials import (
        FIELD_PATTERNS, GEN_TERMS, INV_TERMS, STR_TERMS, Energy, random_measure,
    )

    for i in range(n):
        kind = ("invariants", "stretches", "generalized")[i % 3]
        pool = {"invariants": INV_TERMS, "stretches": STR_TERMS, "generalized": GEN_TERMS}[kind]
        linear = {"invariants": ["I1", "I2", "I3", "I1I3", "I2I3", "I1^2", "I3^2"],
                  "stretches": ["ogden", "i2", "biot^2", "lnJ"],
                  "generalized": ["I1", "I2", "I3", "I1I2", "I2^2", "I3^2"]}[kind]
        names = [str(x) for x in rng.choice(linear if rng.integers(3) else list(pool), size=int(rng.integers(1, 4)), replace=False)]
        es = [Energy.random(rng, pool, names=[k]) for k in names]
        name, k = random_measure(rng)
        trail = ((12,), (4, 3), (1, 8), (2,), (3, 2, 2))[i % 5]
        m = size(trail)
        pats = [FIELD_PATTERNS[(i // 2 + j * 3) % len(FIELD_PATTERNS)] for j in range(len(es))]
        from .materials import field_pattern

        coef = [field_pattern(rng, m, p) for p in pats]
        F, tags = states(rng, m)
        if i % 7 == 5:  # one deformation, different parameters
            F = np.repeat(F[:1], m, axis=0)
            tags = tags[:1] * m
        if m > 1 and i % 4 == 3:  # every sum over the batch vanishes
            F = np.repeat(F[: (m + 1) // 2], 2, axis=0)[:m]
            tags = [tags[q // 2] for q in range(m)]
            coef = [np.repeat(c[: (m + 1) // 2], 2)[:m] * (-1.0) ** np.arange(m) for c in coef]
            coef = [np.append(c[:-1], 0.0) if m % 2 else c for c in coef]
        ctx = {"energies": [e.describe() for e in es], "patterns": pats, "coefficients": coef, "framework": kind,
               "measure": (name, k), "space": space_name, "trail": trail, "F": F}
        field_batch(R, kind, es, coef, (name, k), space_name, trail, F, ctx, stress, tangent)
        for t, p in zip(tags, pats * m):
            R.event(("field", kind, space_name, tuple(names), tuple(pats), t))
