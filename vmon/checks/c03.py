"""C03: the distortional space responds only to the volume-preserving deformation."""

import numpy as np

from .. import engine
from ..engine import FAILED, col, observe
from ..env import SEED, pick
from ..states import lay
from ..workloads import felupe_events, stable_shape, stable_volume

RULE = (
    "materials of all kinds in the distortional space on hostile batches: stress and "
    "elasticity against the derivatives of psi(J^(-1/3) F), deviatoric Cauchy stress, and "
    "the same points under a superposed volume change (ratio 0.1..10); plus recorded "
    "FElupe material calls; one evaluation = one material point; distinct = (material, "
    "state category)"
)


def run(R):
    rng = np.random.default_rng([SEED, 3])
    R.require("points:elasticity", 1000)
    R.require("points:volume-change", 500)
    R.require("points:application", 100)
    R.require("points:field", 100)
    for spec, space, F, P, A, ref in engine.monitor_batches(
        R, rng, "Distortional", pick(84, 2400), tangent=True, singles=pick(1, 6)
    ):
        if P is FAILED:
            continue
        ctx = {"material": spec.describe(), "F": F}
        # tr(P F^T) vanishes
        tr = np.einsum("niJ,niJ->n", P, F)
        R.close(tr, 0 * tr, ref.lam.max(axis=0), 3 * ref.tolP, f"{spec.kind}:deviatoric", "tr(P F^T)", **ctx)
        # superposed volume change
        lo, hi = [(0.1, 10.0), (3.0, 10.0), (0.1, 0.3)][rng.integers(3)]
        J = np.exp(rng.uniform(np.log(lo), np.log(hi), len(F)))
        if rng.integers(4) == 0:
            J[:] = J[:1]  # one volume change of all points
        a = np.cbrt(J)
        G = F * a[:, None, None]
        Q = observe(R, space, "gradient", G, (len(G),), ctx=ctx, mech="volume")
        if Q is not FAILED:
            R.close(Q * a[:, None, None], P, 1.0, col(2 * ref.tolP, 2), f"{spec.kind}:volume:stress",
                    "stress under superposed volume change", J=J, **ctx)
            R.bump("points:volume-change", len(F))
        if A is not FAILED:
            B = observe(R, space, "hessian", G, (len(G),), ctx=ctx, mech="volume")
            if B is not FAILED:
                R.close(B * (a**2)[:, None, None, None, None], A, 1.0, col(2 * ref.tolA, 4),
                        f"{spec.kind}:volume:elasticity", "elasticity under superposed volume change", J=J, **ctx)
        R.event(n=len(F))
    engine.monitor_fields(R, rng, "Distortional", pick(60, 1200), stress=True, tangent=True)
    for i in range(pick(9, 120)):
        runs = felupe_events(
            R, rng,
            [(stable_shape(rng), "Distortional", {}), (stable_volume(rng), "Dilatational", {})],
            ["tension", "compression", "shear"][i % 3],
        )
        engine.check_events(R, rng, runs, "Distortional")
