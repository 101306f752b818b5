"""C04: the dilatational space responds only to the volume change."""

import numpy as np

from .. import engine
from ..engine import FAILED, col, observe
from ..env import SEED, pick
from ..oracle import Reference  # noqa: F401
from ..states import any_rotation, compose
from ..workloads import felupe_events, stable_shape, stable_volume

RULE = (
    "materials of all kinds in the dilatational space on hostile batches: stress and "
    "elasticity against the derivatives of psi(J^(1/3) 1), spherical Cauchy stress, and "
    "the same Cauchy stress for other deformations of equal volume ratio (0.1..10); plus "
    "recorded FElupe material calls; one evaluation = one material point; distinct = "
    "(material, state category)"
)


def _cauchy(P, F):
    return np.einsum("niJ,njJ->nij", P, F) / np.linalg.det(F)[:, None, None]


def run(R):
    rng = np.random.default_rng([SEED, 4])
    R.require("points:elasticity", 1000)
    R.require("points:equal-volume", 500)
    R.require("points:application", 100)
    R.require("points:field", 100)
    for spec, space, F, P, A, ref in engine.monitor_batches(
        R, rng, "Dilatational", pick(84, 2400), tangent=True, singles=pick(1, 6)
    ):
        if P is FAILED:
            continue
        ctx = {"material": spec.describe(), "F": F}
        s = _cauchy(P, F)
        p = np.trace(s, axis1=1, axis2=2) / 3
        tol = 3 * ref.tolP * ref.lam.max(axis=0) / ref.J
        R.close(s, p[:, None, None] * np.eye(3), 1.0, col(tol, 2), f"{spec.kind}:spherical", "Cauchy stress", **ctx)
        # other deformations with the same volume ratio
        G = np.empty_like(F)
        for i in range(len(F)):
            l2 = np.exp(rng.uniform(-0.5, 0.5, 2))
            iso = compose(rng, np.array([l2[0], l2[1], 1 / (l2[0] * l2[1])]))
            G[i] = np.cbrt(ref.J[i]) * iso @ any_rotation(rng)
        Q = observe(R, space, "gradient", G, (len(G),), ctx=ctx, mech="equal-volume")
        if Q is not FAILED:
            lam = np.linalg.svd(G, compute_uv=False).T
            tol2 = tol + 10 * ref.tolP * lam.max(axis=0) / ref.J
            R.close(_cauchy(Q, G), s, 1.0, col(tol2 * 3, 2), f"{spec.kind}:equal-volume",
                    "Cauchy stress at equal volume ratio", G=G, **ctx)
            R.bump("points:equal-volume", len(F))
        R.event(n=len(F))
    engine.monitor_fields(R, rng, "Dilatational", pick(60, 1200), stress=True, tangent=True)
    for i in range(pick(9, 120)):
        runs = felupe_events(
            R, rng,
            [(stable_shape(rng), "Distortional", {}), (stable_volume(rng), "Dilatational", {})],
            ["tension", "compression", "shear"][i % 3],
        )
        engine.check_events(R, rng, runs, "Dilatational")
