"""C23: conservative materials - closed cycles, path independence, symmetry."""

import numpy as np
from scipy.linalg import expm

from ..engine import FAILED, Expected, col, observe, size, trail_for
from ..env import SEED, pick
from ..materials import SPACES, single_specs, spec_stream
from ..states import alike, lay, rotation, separated, states, unlay
from ..workloads import stable_full, stable_shape, stable_volume

RULE = (
    "deformation histories (smooth and polygonal closed cycles, several paths between two states, "
    "there-and-back) through rotation, large strain and volume change, for every material kind and "
    "space; the monitor integrates the observed stress power and checks the symmetries of the "
    "observed elasticity; distinct = (material, space, history kind)"
)

_GX, _GW = np.polynomial.legendre.leggauss(12)
_GX, _GW = 0.5 * (_GX + 1), 0.5 * _GW


def skew(w):
    return np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])


def smooth_cycle(rng, n=128):
    "Periodic F(t) at n points and dF (derivative times step), spectrally accurate."
    t = 2 * np.pi * np.arange(n) / n
    amp = rng.uniform(0.1, 0.4)
    H = np.zeros((n, 3, 3))
    W = np.zeros((n, 3))
    for k in (1, 2):
        for f in (np.sin, np.cos):
            B = rng.uniform(-1, 1, (3, 3))
            H += amp / k * f(k * t)[:, None, None] * (B + B.T) / 2
            W += rng.uniform(0, 1) / k * f(k * t)[:, None] * rng.uniform(-1, 1, 3)
    R0 = rotation(rng)
    F = np.array([expm(skew(w)) @ expm(h) @ R0 for w, h in zip(W, H)])
    k = np.fft.fftfreq(n, 1.0 / n)
    k[n // 2] = 0
    dF = np.fft.ifft(1j * k[:, None, None] * np.fft.fft(F, axis=0), axis=0).real
    return F, dF * (2 * np.pi / n)


def large_cycle(rng, n=192):
    "A smooth cycle through stretches up to about nine."
    t = 2 * np.pi * np.arange(n) / n
    for _ in range(100):
        L = rng.uniform(0.0, 1.6, 3)[:, None] + sum(
            rng.uniform(-0.35, 0.35, (3, 1)) / k * f(k * t) for k in (1, 2) for f in (np.sin, np.cos))
        if L.max() < 2.2 and (L.max(axis=0) - L.min(axis=0)).max() < 2.3:
            break
    w1, w2, v1 = rng.uniform(-0.8, 0.8, (3, 3))
    W = w1 * np.sin(t)[:, None] + w2 * np.cos(t)[:, None]
    V = v1 * np.sin(t)[:, None]
    R0 = rotation(rng)
    F = np.array([expm(skew(w)) @ np.diag(np.exp(l)) @ expm(skew(v)) @ R0 for w, l, v in zip(W, L.T, V)])
    k = np.fft.fftfreq(n, 1.0 / n)
    k[n // 2] = 0
    dF = np.fft.ifft(1j * k[:, None, None] * np.fft.fft(F, axis=0), axis=0).real
    return F, dF * (2 * np.pi / n)


def point(rng, big=0.5):
    H = rng.uniform(-1, 1, (3, 3))
    w = rng.uniform(-1, 1, 3) * rng.uniform(0, 1.2)
    return expm(skew(w)) @ expm(rng.uniform(0.05, big) * (H + H.T) / 2)


def admissible(F):
    s = np.linalg.svd(F, compute_uv=False)
    return (np.linalg.det(F) > 0.1).all() and (s[:, 2] > 0.2).all() and (s[:, 0] < 4).all()


def polygon(rng, vertices, sub=3):
    "Straight segments between the vertices: F and weighted dF of a Gauss rule."
    Fs, dFs = [], []
    for A, B in zip(vertices[:-1], vertices[1:]):
        for k in range(sub):
            a, b = A + (B - A) * k / sub, A + (B - A) * (k + 1) / sub
            for x, w in zip(_GX, _GW):
                Fs.append(a + x * (b - a))
                dFs.append(w * (b - a))
    return np.array(Fs), np.array(dFs)


def closed_polygon(rng):
    for _ in range(100):
        v = [point(rng) for _ in range(int(rng.integers(3, 6)))]
        F, dF = polygon(rng, [*v, v[0]])
        if admissible(F):
            return F, dF
    return smooth_cycle(rng)


def paths(rng):
    "Two polygonal paths between the same states."
    for _ in range(200):
        a, b = point(rng), point(rng)
        p1 = polygon(rng, [a, b])
        p2 = polygon(rng, [a, point(rng), point(rng), b], 2)
        if admissible(p1[0]) and admissible(p2[0]):
            return a, b, p1, p2
    return None


def power(P, dF):
    return np.einsum("niJ,niJ->", P, dF)


def stress(R, u, F, ctx, mech):
    "Observed along the history in batches, as an analysis would."
    return observe(R, u, "gradient", F, (len(F),), mech=mech, ctx=ctx)


def walked(R, u, F, ctx, mech, m):
    """Observed along the history in steps of m points, one after the other through the same
    object: as a specimen which goes through it."""
    out = []
    for k in range(0, len(F), m):
        x = lay(F[k : k + m], (m,)) if m > 1 else F[k]
        y = R.call(f"{mech}:walk", u.gradient, [x, None], ctx=ctx)
        if y is FAILED:
            return FAILED
        try:
            y = np.broadcast_to(np.asarray(y[0]), x.shape)
        except ValueError:
            R.violation(f"{mech}:walk:shape", f"{np.shape(y[0])} for {x.shape}", **ctx)
            return FAILED
        out.append(unlay(y, 2) if m > 1 else y[None])
    return np.concatenate(out)


def walks(R, rng, u, spec, sp, ctx):
    """The work of a closed cycle which is gone through step by step; and twice, with jumps in
    between."""
    mech = f"{sp}:{spec.kind}"
    for m in (1, 4):
        if m == 1:
            F, dF = smooth_cycle(rng, 64)
        else:
            F, dF = smooth_cycle(rng, 96)
            F = F * np.exp(0.25 * np.sin(2 * np.pi * np.arange(96) / 96))[:, None, None]
            k = np.fft.fftfreq(96, 1.0 / 96)
            k[48] = 0
            dF = np.fft.ifft(1j * k[:, None, None] * np.fft.fft(F, axis=0), axis=0).real * (2 * np.pi / 96)
        ref = Expected(F, spec, sp, tangent=False)
        if not (np.isfinite(ref.rP).all() and np.isfinite(ref.P).all()):
            continue
        P = walked(R, u, F, {**ctx, "history": "walk"}, mech, m)
        if P is FAILED:
            continue
        quad = abs(power(ref.P, dF))
        step = np.abs(dF).sum(axis=(1, 2))
        scale = (ref.rP * step).sum()
        roundoff = (ref.tolP * step).sum() * 2 + 1e-10 * scale
        R.close(power(P, dF), 0.0, 1.0, roundoff + 4 * quad, f"{mech}:walk", "work of a cycle gone through step by step",
                F=F[:: len(F) // 8], **{k: v for k, v in ctx.items() if k != "F"})
        # the second time the stress is the same, whatever came in between
        order = rng.permutation(len(F) // m)
        Q = walked(R, u, F.reshape(-1, m, 3, 3)[order].reshape(-1, 3, 3), {**ctx, "history": "walk again"}, mech, m)
        if Q is not FAILED:
            back = Q.reshape(-1, m, 3, 3)[np.argsort(order)].reshape(-1, 3, 3)
            R.close(back, P, 1.0, col(2 * ref.tolP + 1e-10 * ref.rP, 2), f"{mech}:walk again", "stress of a state reached on two paths", **ctx)
        R.bump("walks")
        R.event((spec.key(), sp, "walk", m), 2 * len(F))


def works(R, rng, u, spec, sp, ctx):
    mech = f"{sp}:{spec.kind}"
    for kind, make in (("smooth", smooth_cycle), ("polygon", closed_polygon), ("large", large_cycle)):
        F, dF = make(rng)
        ref = Expected(F, spec, sp, tangent=False)
        if not np.isfinite(ref.rP).all() or not np.isfinite(ref.P).all():  # outside the domain of the energy
            R.bump("histories: outside the domain")
            continue
        P = stress(R, u, F, {**ctx, "history": kind}, mech)
        if P is FAILED:
            continue
        # the quadrature error, measured with the reference on the same history
        quad = abs(power(ref.P, dF))
        step = np.abs(dF).sum(axis=(1, 2))
        scale = (ref.rP * step).sum()
        if not (np.isfinite(scale) and np.isfinite(quad)):  # outside the domain of the energy
            R.bump("histories: outside the domain")
            continue
        roundoff = (ref.tolP * step).sum() * 2 + 1e-10 * scale
        if quad > 1e-6 * scale:
            R.bump("histories: quadrature too coarse")
            continue
        R.close(power(P, dF), 0.0, 1.0, roundoff + 4 * quad, f"{mech}:cycle:{kind}",
                f"work of a closed {kind} cycle", F=F[:: max(1, len(F) // 8)], **{k: v for k, v in ctx.items() if k != "F"})
        R.bump("cycles")
        R.event((spec.key(), sp, kind), len(F))
    made = paths(rng)
    if made is None:
        return
    a, b, p1, p2 = made
    W = []
    for F, dF in (p1, p2):
        P = stress(R, u, F, {**ctx, "history": "path"}, mech)
        if P is FAILED:
            return
        ref = Expected(F, spec, sp, tangent=False)
        step = np.abs(dF).sum(axis=(1, 2))
        W.append((power(P, dF), power(ref.P, dF), (ref.tolP * step).sum() * 2 + 1e-10 * (ref.rP * step).sum(),
                  (ref.rP * step).sum()))
    ends = Expected(np.array([a, b]), spec, sp, tangent=False)
    dW = ends.W[1] - ends.W[0]
    tolW = 1e-11 * np.abs(ends.sW).sum()
    quad = max(abs(w[1] - dW) for w in W)
    if quad > 1e-6 * max(w[3] for w in W) + tolW:
        R.bump("histories: quadrature too coarse")
        return
    tol = sum(w[2] for w in W) + 4 * quad + tolW
    R.close(W[0][0], W[1][0], 1.0, tol, f"{mech}:paths", "work along two paths", start=a, end=b, **ctx)
    for w in W:
        R.close(w[0], dW, 1.0, tol, f"{mech}:energy", "work and energy difference", start=a, end=b, **ctx)
    R.bump("paths")
    R.event((spec.key(), sp, "paths"), len(p1[0]) + len(p2[0]))


OPTIONS = [{}, {}, {"force": 0}, {"area": None}, {"force": 0, "area": None}, {"finalize": False}]


def symmetric(R, rng, spec, sp, opt):
    fin = opt.get("finalize", True)
    trail = trail_for(rng, 24)
    if spec.kind == "sorted-stretches":
        F, tags = separated(rng, size(trail))
    else:
        F, tags = (alike if rng.integers(4) == 0 else states)(rng, size(trail))
    ctx = {"material": spec.describe(), "space": sp, "trail": trail, "F": F, **opt}
    u = R.call("build", spec.space, sp, ctx=ctx, **opt)
    if u is FAILED:
        return
    A = R.call("symmetry", u.hessian, [lay(F, trail), None], ctx=ctx)
    if A is FAILED:
        return
    A = np.asarray(A[0])
    ref = Expected(F, spec, sp)
    lmin, lmax = ref.lam.min(axis=0), ref.lam.max(axis=0)
    k = np.ones_like(ref.J)
    if opt.get("area", 0) is None:
        k = k * np.maximum(1, lmax / ref.J) ** 2
    if opt.get("force", None) == 0 or not fin:
        k = k * np.maximum(1, 1 / lmin) ** 4
    tol = 8 * ref.tolA * k
    mech = f"{sp}:{spec.kind}:symmetry"
    if fin:
        if A.shape != (3, 3, 3, 3, *trail):
            R.violation(mech + ":shape", f"{A.shape}", **ctx)
            return
        A = unlay(A, 4)
        R.close(A, A.transpose(0, 3, 4, 1, 2), 1.0, col(tol, 4), mech + ":major", "major symmetry", **ctx)
        # power of two increments in either order
        a, b = rng.normal(size=(2, 3, 3))
        x = np.einsum("niJkL,iJ,kL->n", A, a, b, optimize=True)
        y = np.einsum("niJkL,iJ,kL->n", A, b, a, optimize=True)
        R.close(x, y, np.abs(a).sum() * np.abs(b).sum(), tol, mech + ":increments", "second-order work", **ctx)
    else:
        try:
            A = unlay(np.broadcast_to(A, (6, 6, *trail)), 2)
        except ValueError:
            R.violation(mech + ":shape", f"{A.shape}", **ctx)
            return
        R.close(A, A.transpose(0, 2, 1), 1.0, col(tol, 2), mech + ":major", "major symmetry", **ctx)
    R.bump("symmetries", len(F))
    R.event((spec.key(), sp, repr(opt)), len(F))


def run(R):
    rng = np.random.default_rng([SEED, 23])
    R.require("cycles", 100)
    R.require("paths", 50)
    R.require("walks", 50)
    R.require("symmetries", 1000)
    k = 0
    for i, spec in enumerate(spec_stream(rng, pick(36, 900))):
        if i % 6 == 5:
            spec = [stable_shape, stable_volume, stable_full][(i // 6) % 3](rng)
        for sp in SPACES:
            ctx = {"material": spec.describe(), "space": sp}
            u = R.call("build", spec.space, sp, ctx=ctx)
            if u is FAILED:
                continue
            works(R, rng, u, spec, sp, ctx)
            walks(R, rng, u, spec, sp, ctx)
            for _ in range(3):
                symmetric(R, rng, spec, sp, OPTIONS[k % len(OPTIONS)])
                k += 1
        if i < 3:
            R.sample(ctx)
    # every term of every pool alone: the symmetry of each contribution
    for _ in range(pick(1, 8)):
        for spec in single_specs(rng):
            for sp in SPACES:
                symmetric(R, rng, spec, sp, OPTIONS[k % len(OPTIONS)])
                k += 1
            R.bump("single-term energies")
    R.require("single-term energies", 60)
