"""C05: frame-indifference and isotropy (metamorphic: observed vs observed)."""

import numpy as np

from .. import engine
from ..engine import FAILED, Expected, col, observe, representable, size
from ..env import SEED, pick
from ..materials import SPACES, spec_stream
from ..states import CUBE, TRAILS, alike, axis_rotation, extreme, rotation, scaled, small_rotation, states

RULE = (
    "every material kind in every space: the observed response at F, Q F and F Q is "
    "related by the rotation Q (random, axis, 90/180 degree and axis-permuting ones); one "
    "evaluation = one rotated material point; distinct = (material, space, rotation kind, "
    "state category)"
)


def rotations(rng, n, only=None):
    Q = np.empty((n, 3, 3))
    kinds = []
    angle = None if only is None else 10.0 ** rng.uniform(-9, -3)
    for i in range(n):
        k = int(rng.integers(5)) if only is None else only
        if k == 0:
            Q[i] = CUBE[rng.integers(24)]
        elif k == 1:
            Q[i] = axis_rotation(rng.integers(3), rng.choice([np.pi, np.pi / 2, rng.uniform(-3, 3)]))
        elif k == 2:
            Q[i] = small_rotation(rng, angle)
        else:
            Q[i] = rotation(rng)
        kinds.append(("cube", "axis", "small", "random", "random")[k])
    return Q, kinds


def structured(rng, n):
    "n states of one shape: diagonal, triangular, sheared ones; turned by half-turns about the axes."
    k = int(rng.integers(5))
    lam = np.exp(rng.uniform(-0.7, 0.7, (n, 3)))
    F = np.einsum("ij,ni->nij", np.eye(3), lam)
    off = rng.uniform(-0.5, 0.5, (n, 3, 3))
    if k == 1:
        F += np.triu(off, 1)
    elif k == 2:
        F += np.tril(off, -1)
    elif k >= 3:
        i, j = rng.permutation(3)[:2]
        F[:, i, j] += off[:, i, j]
        if k == 4:
            F[:, i, j] *= 0.6
            F[:, j, i] = F[:, i, j]
    Q = np.empty((n, 3, 3))
    one = rng.integers(2)
    for i in range(n):
        if i == 0 or not one:
            q = -np.ones(3)
            q[rng.integers(3)] = 1
        Q[i] = np.diag(q)
    return F, ["diagonal", "upper", "lower", "shear", "symmetric shear"][k : k + 1] * n, Q, ["half-turn"] * n


def run(R):
    rng = np.random.default_rng([SEED, 5])
    R.require("points:left", 800)
    R.require("points:right", 800)
    for i, spec in enumerate(spec_stream(rng, pick(160, 1800))):
        for name in SPACES:
            space = R.call("build", spec.space, name)
            if space is FAILED:
                continue
            # batches of all categories with all rotations, and (so that a property of the
            # whole batch may hold) of one category with one kind of rotation
            k = i // 7 + len(name)
            trail = (20,) if k % 4 == 0 else TRAILS[i % len(TRAILS)] if k % 2 == 0 else (int(rng.integers(1, 10)),)
            if i % 29 == 17:
                trail = ((150,), (1100,), (30, 7))[i // 29 % 3]
            n = size(trail)
            form = int(rng.integers(8))
            if form < 2:
                F, tags, Q, kinds = structured(rng, n)
            elif form == 2:
                F, tags = (extreme, scaled)[i % 2](rng, n)
                F = representable(rng, F, spec, name)
                Q, kinds = rotations(rng, n)
            elif k % 2 == 0:
                F, tags = states(rng, n)
                Q, kinds = rotations(rng, n)
            else:
                F, tags = alike(rng, n)
                if rng.integers(2):  # pure stretches
                    U, s, V = np.linalg.svd(F)
                    F = np.einsum("nki,nk,nkj->nij", V, s, V)
                    tags = [t + " (symmetric)" for t in tags]
                Q, kinds = rotations(rng, n, int(rng.choice([0, 1, 2, 2, 3])))
            ctx = {"material": spec.describe(), "space": name, "trail": trail, "F": F, "Q": Q}
            ref = Expected(F, spec, name)
            tP, tA = 4 * ref.tolP, 4 * ref.tolA
            G = {"": F, "left": Q @ F, "right": F @ Q}
            obs = {}
            for k, X in G.items():
                obs[k] = (
                    observe(R, space, "gradient", X, trail, ctx=ctx, mech=name),
                    observe(R, space, "hessian", X, trail, ctx=ctx, mech=name),
                )
            P, A = obs[""]
            if P is FAILED or A is FAILED:
                continue
            want = {
                "left": (
                    np.einsum("nim,nmJ->niJ", Q, P),
                    np.einsum("nim,nkp,nmJpL->niJkL", Q, Q, A, optimize=True),
                ),
                "right": (
                    np.einsum("niM,nMJ->niJ", P, Q),
                    np.einsum("niMkN,nMJ,nNL->niJkL", A, Q, Q, optimize=True),
                ),
            }
            for side in ("left", "right"):
                p, a = obs[side]
                if p is not FAILED:
                    R.close(p, want[side][0], 1.0, col(tP, 2), f"{name}:{spec.kind}:{side}:stress",
                            f"stress after {side} rotation", **ctx)
                if a is not FAILED:
                    R.close(a, want[side][1], 1.0, col(tA, 4), f"{name}:{spec.kind}:{side}:elasticity",
                            f"elasticity after {side} rotation", **ctx)
                R.bump(f"points:{side}", n)
                for t, k in zip(tags, kinds):
                    R.event((spec.key(), name, side, k, t))
            # the rotated rest state
            E = np.broadcast_to(np.eye(3), (n, 3, 3)).copy()
            P0 = observe(R, space, "gradient", E[:1], (1,), ctx=ctx, mech=name)
            PQ = observe(R, space, "gradient", Q, trail, ctx=ctx, mech=name)
            if P0 is not FAILED and PQ is not FAILED:
                t0 = 4 * Expected(E[:1], spec, name, tangent=False).tolP[0]
                R.close(PQ, Q @ P0[0], 1.0, t0, f"{name}:{spec.kind}:rest", "rigidly rotated rest state", **ctx)
                R.event(n=n)
        R.sample({"material": spec.describe(), "F": F[0], "Q": Q[0]})
