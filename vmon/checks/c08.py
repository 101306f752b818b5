"""C08: finite and continuous where principal stretches coincide."""

import warnings

import numpy as np

from ..engine import FAILED, Expected, col, field_batch, observe, representable
from ..env import SEED, pick
from ..materials import SPACES, STR_TERMS, Energy, spec_gi, spec_ogden, spec_user_str
from ..states import CUBE, compose, rotation

RULE = (
    "spectral materials (Ogden, generalized invariants, user stretch models with and "
    "without cross terms) on ladders of states whose stretches approach each other (gap 0 "
    "and 1e-16..1e-1; each pair, the triple; ascending/descending; diagonal, axis-permuted "
    "and rotated; one third with a superposed uniform stretch of 1e-3..1e3; close stretches beside a far third), all ladder points of a batch mixed; observed values against the exact "
    "limit, finiteness, and numpy's divide/invalid events during the call; one evaluation = "
    "one ladder point; distinct = (material, space, pattern, frame, gap decade)"
)

PATTERNS = ("12", "13", "23", "123", "123-uneven")


def ladder(rng, pattern, frame, sign, scale=1.0, third=None):
    "States along one approach; ``scale`` is a superposed uniform stretch; third stretch: far from the pair."
    gaps = np.concatenate([[0.0], 10.0 ** np.arange(-16, 0.1 - 1, 0.75), [10.0 ** rng.uniform(-9, -6)]])
    a = rng.uniform(0.5, 1.8)
    b = a * (rng.choice([0.6, 1.5]) if third is None else third)
    b = min(max(b, 0.06), 9.0)
    if rng.integers(3) == 0:
        a = 1.0
    L = {"diagonal": np.eye(3), "permuted": CUBE[rng.integers(24)], "rotated": rotation(rng)}[frame]
    M = np.eye(3) if frame != "rotated" else rotation(rng)
    out = []
    for g in gaps:
        d = a * (1 + sign * g)
        lam = {
            "12": (a, d, b), "13": (a, b, d), "23": (b, a, d),
            "123": (a, d, a * (1 - sign * g)), "123-uneven": (a, d, a * (1 + sign * g / 7)),
        }[pattern]
        out.append(scale * (M @ L @ np.diag(lam) @ L.T))
    return np.array(out), gaps


def coupled(R, rng, n):
    """Batches in which only some points are coincident, only some couple the stretches, and
    the coupling is at the coincident or at the distinct points, or at both."""
    names = list(STR_TERMS)
    for i in range(n):
        e = Energy.random(rng, STR_TERMS, names=[names[i % len(names)]])
        base = Energy.random(rng, STR_TERMS, names=["ogden"])
        L, M = rotation(rng), np.eye(3) if i % 2 else rotation(rng)
        m = 8
        F = np.empty((m, 3, 3))
        same = rng.permutation(m) < (4, 1, 7)[i % 3]
        for p in range(m):
            a, b, c = rng.uniform(0.6, 1.0), rng.uniform(1.05, 1.3), rng.uniform(1.4, 1.8)
            lam = np.array([(a, a, b), (a, c, c), (b, b, b)][rng.integers(3)] if same[p] else (a, b, c))
            F[p] = M @ L @ np.diag(lam[rng.permutation(3)]) @ L.T
        where = ("coincident", "distinct", "everywhere")[(i // 3) % 3]
        c = np.where({"coincident": same, "distinct": ~same, "everywhere": same | True}[where], rng.uniform(0.5, 1.5, m), 0.0)
        coef = [c, rng.uniform(0.3, 1, m)]
        for name in SPACES:
            ctx = {"energies": [e.describe(), base.describe()], "coupled": where, "coefficients": coef, "space": name, "F": F}
            field_batch(R, "stretches", [e, base], coef, (None, None), name, (m,), F, ctx)
            R.event(("coupled", e.items[0][0], where, name), m)
            R.bump("points:coupled", m)


def far_third(R, rng, n):
    """Small stretches next to each other beside a large one, and the reverse: their distance
    is small against the largest stretch and not against themselves."""
    for i in range(n):
        # (negative exponents: the small stretches decide)
        spec = spec_user_str(rng) if i % 3 == 2 else spec_ogden(rng, alpha=[rng.uniform(-5, -1)] if i % 3 else None)
        name = list(SPACES)[i // 3 % 3]
        m = 12
        L, M = (np.eye(3), np.eye(3)) if i % 5 == 0 else (rotation(rng), rotation(rng))
        F, gaps = np.empty((m, 3, 3)), np.empty(m)
        for p in range(m):
            a = rng.uniform(0.3, 0.9)
            gaps[p] = 10.0 ** rng.uniform(-8, -4)
            far = 10.0 ** (rng.uniform(0.6, 1.5) if rng.integers(3) else rng.uniform(-0.9, -0.6))
            lam = np.array([a, a * (1 + gaps[p]), a * far])[rng.permutation(3)]
            F[p] = M @ L @ np.diag(lam) @ L.T
        F = F[(representable(rng, F, spec, name) == F).all(axis=(1, 2))]
        if not len(F):
            continue
        ctx = {"material": spec.describe(), "space": name, "F": F}
        space = R.call("build", spec.space, name)
        ref = Expected(F, spec, name)
        for what, want, tol, k in (("gradient", ref.P, ref.tolP, 2), ("hessian", ref.A, ref.tolA, 4)):
            got = observe(R, space, what, F, (len(F),), ctx=ctx, mech=f"far-third:{name}")
            if got is not FAILED:
                R.close(got, want, 1.0, col(tol, k), f"far-third:{name}:{what}", f"{what} near coincidence", **ctx)
        R.event(("far third", spec.kind, name), len(F))
        R.bump("points:far third", len(F))


def run(R):
    rng = np.random.default_rng([SEED, 8])
    R.require("points:far third", 200)
    far_third(R, np.random.default_rng([SEED, 8, 1]), pick(36, 600))
    R.require("points", 3000)
    R.require("points:coupled", 500)
    R.require("ladders:scaled", 20)
    R.require("ladders:far third", 20)
    coupled(R, rng, pick(3, 30) * len(STR_TERMS))
    specs = []
    for i in range(pick(16, 400)):
        specs += [spec_ogden(rng), spec_gi(rng), spec_user_str(rng)]
    for n in STR_TERMS:  # each term alone, cross terms included
        specs.append(spec_user_str(rng, energy=Energy.random(rng, STR_TERMS, names=[n])))
    floating = []

    def on_error(kind, flag):
        floating.append(kind)

    for i, spec in enumerate(specs):
        for name in SPACES:
            space = R.call("build", spec.space, name)
            Fs, keys = [], []
            for pattern in (PATTERNS if i % 2 else rng.permutation(PATTERNS)[:3]):
                frame = str(rng.choice(["diagonal", "permuted", "rotated", "rotated"]))
                sign = float(rng.choice([-1, 1]))
                scale = 10.0 ** rng.uniform(-3, 3) if rng.integers(3) == 0 else 1.0
                if spec.kind == "generalized" and name != "distortional" and scale != 1.0:
                    # normalised invariants: an offset of order one, the round-off of which
                    # is all there is left of those of vanishing stretches
                    scale = 10.0 ** rng.uniform(-0.5, 1)
                third = 10.0 ** (rng.choice([-1, 1]) * rng.uniform(0.6, 1.2)) if scale == 1.0 and rng.integers(3) else None
                F, gaps = ladder(rng, str(pattern), frame, sign, scale, third)
                if third is not None:
                    R.bump("ladders:far third")
                    if not (representable(rng, F, spec, name) == F).all():
                        F, gaps = ladder(rng, str(pattern), frame, sign)
                if scale != 1.0 and not (representable(rng, F, spec, name) == F).all():
                    scale = 1.0
                    F, gaps = ladder(rng, str(pattern), frame, sign)
                R.bump("ladders:scaled", scale != 1.0)
                Fs.append(F)
                keys += [(spec.key(), name, str(pattern), frame, round(np.log10(g)) if g else -99) for g in gaps]
            F = np.concatenate(Fs)
            order = rng.permutation(len(F))  # mix coincident and distinct points
            F = F[order]
            n = len(F)
            ctx = {"material": spec.describe(), "space": name, "F": F}
            ref = Expected(F, spec, name)
            del floating[:]
            with np.errstate(divide="call", invalid="call", over="call", call=on_error), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                P = observe(R, space, "gradient", F, (n,), ctx=ctx, mech=f"{name}:{spec.kind}")
                A = observe(R, space, "hessian", F, (n,), ctx=ctx, mech=f"{name}:{spec.kind}")
            R.check(not floating, f"{name}:{spec.kind}:floating-point-event",
                    f"numpy reported {sorted(set(floating))}", **ctx)
            if P is FAILED or A is FAILED:
                continue
            R.check(np.isfinite(P).all() and np.isfinite(A).all(), f"{name}:{spec.kind}:finite", "not finite", **ctx)
            t = np.maximum(ref.tolP, 1e-9 * ref.sP)
            R.close(P, ref.P, 1.0, col(t, 2), f"{name}:{spec.kind}:stress", "stress near coincidence", **ctx)
            R.close(A, ref.A, 1.0, col(ref.tolA, 4), f"{name}:{spec.kind}:elasticity", "elasticity near coincidence", **ctx)
            R.bump("points", n)
            for k in keys:
                R.event(k)
            # a single coincident point, no batch axes
            j = int(rng.integers(n))
            one = observe(R, space, "hessian", F[j : j + 1], (), ctx=ctx, mech=f"{name}:{spec.kind}:single")
            if one is not FAILED:
                R.close(one, ref.A[j : j + 1], 1.0, ref.tolA[j], f"{name}:{spec.kind}:single", "single point", **ctx)
                R.event()
        R.sample({"material": spec.describe(), "lam": ref.lam[:, 0], "gap": ref.gap[0]})
