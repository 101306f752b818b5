"""C02: elasticity is the exact stress derivative in the full deformation space."""

import numpy as np

from .. import engine
from ..engine import FAILED, col, fd_tangent
from ..env import SEED, pick
from ..materials import GEN_TERMS, INV_TERMS, SPACES, STR_TERMS, Energy, spec_gi, spec_user_inv, spec_user_str
from ..report import Report
from . import c25
from ..workloads import felupe_events, stable_full

RULE = (
    "materials of every framework, built-in model and random user energy (every single "
    "term of the pools, so each pure and mixed second derivative alone, and random sums) "
    "in the deformation space on hostile batches; the returned elasticity is compared "
    "with the exact second derivative where the observed stress is the exact first "
    "derivative, else with differences of the observed stress; plus recorded FElupe "
    "calls; one evaluation = one material point; distinct = (material, state category)"
)


def _judge(R, rng, spec, space, F, P, A, ref):
    """The property is about the derivative of the *observed* stress: if that stress is
    not the reference stress, differentiate it numerically instead."""
    if P is FAILED or A is FAILED:
        return
    ctx = {"material": spec.describe(), "F": F}
    with np.errstate(all="ignore"):
        bad = ~(np.abs(P - ref.P).max(axis=(1, 2)) <= ref.tolP)
    if not bad.any():
        engine.compare_tangent(R, A, ref, f"{spec.kind}:elasticity", ctx)
        R.bump("points:elasticity", len(F))
    else:
        R.bump("stress-not-reference")
        ok = (ref.gap > 1e-2) & (ref.cond < 8)
        if ok.any() and np.isfinite(P).all():
            D = R.call("differences", fd_tangent, space, F[ok], ctx=ctx)
            if D is not FAILED:
                s = np.abs(D).reshape(len(D), -1).max(axis=1) + ref.sA[ok]
                R.close(A[ok], D, col(s, 4), 1e-5, f"{spec.kind}:elasticity-vs-differences", "elasticity", **ctx)


def run(R):
    rng = np.random.default_rng([SEED, 2])
    R.require("points:elasticity", 1000)
    R.require("points:application", 100)
    R.require("points:field", 100)
    R.require("points:tensor", 300)
    # every term alone
    singles = []
    for pool, maker in ((INV_TERMS, spec_user_inv), (STR_TERMS, spec_user_str), (GEN_TERMS, spec_gi)):
        for name in pool:
            e = Energy.random(rng, pool, names=[name])
            if maker is spec_gi:
                singles.append(spec_gi(rng, energy=e, builtin=False))
            else:
                singles.append(maker(rng, energy=e))
    for spec in singles:
        F, tags = engine.states(rng, 17)
        space = spec.space("Deformation")
        ctx = {"material": spec.describe(), "F": F}
        P = engine.observe(R, space, "gradient", F, (17,), ctx=ctx)
        A = engine.observe(R, space, "hessian", F, (17,), ctx=ctx)
        ref = engine.Expected(F, spec, "Deformation")
        _judge(R, rng, spec, space, F, P, A, ref)
        for t in tags:
            R.event((spec.key(), t))
        R.bump("single-term energies")
    # random sums
    for spec, space, F, P, A, ref in engine.monitor_batches(
        R, rng, "Deformation", pick(105, 2500), stress=False, tangent=False
    ):
        trail = ref.trail
        ctx = {"material": spec.describe(), "F": F, "trail": trail}
        P = engine.observe(R, space, "gradient", F, trail, ctx=ctx)
        A = engine.observe(R, space, "hessian", F, trail, ctx=ctx)
        _judge(R, rng, spec, space, F, P, A, engine.Expected(F, spec, "Deformation"))
    # differences of the observed stress, independent of the reference
    for spec in engine.spec_stream_distinct(rng, pick(18, 200)):
        F, tags = engine.states(rng, 8, ("moderate", "dense", "triangular", "diagonal"))
        space = spec.space("Deformation")
        ctx = {"material": spec.describe(), "F": F}
        A = engine.observe(R, space, "hessian", F, (8,), ctx=ctx)
        D = R.call("differences", fd_tangent, space, F, ctx=ctx)
        if A is not FAILED and D is not FAILED:
            ref = engine.Expected(F, spec, "Deformation")
            g = np.maximum(ref.gap, 1e-9) if spec.spectral else 1.0
            tol = np.where(ref.cond < 12, 1e-6, 1e-4) + 1e-9 / g
            s = ref.sA + ref.rA
            R.close(A, D, col(s, 4), col(tol, 4), f"{spec.kind}:differences", "elasticity vs differences of the stress", **ctx)
            R.bump("points:differences", len(F))
            R.event((spec.key(), "differences"), len(F))
    engine.monitor_fields(R, rng, "Deformation", pick(60, 1200), stress=False, tangent=True)
    # user-written materials of C: any stress, any material elasticity
    for i in range(pick(3, 40) * len(c25.TERMS)):
        names = [list(c25.TERMS)[i % len(c25.TERMS)]]
        law = c25.Potential(rng, names if i < 2 * len(c25.TERMS) else None)
        u = SPACES["Deformation"](c25.UserMaterial(law, compact=bool(i % 2)))
        F, tags = engine.states(rng, 8) if i % 3 else engine.alike(rng, 8)
        ctx = {"material": law.describe(), "F": F}
        P = engine.observe(R, u, "gradient", F, (8,), ctx=ctx, mech="tensor")
        A = engine.observe(R, u, "hessian", F, (8,), ctx=ctx, mech="tensor")
        wP, wA, tP, tA, *_ = c25.expected(law, "Deformation", F)
        if P is FAILED or A is FAILED:
            continue
        with np.errstate(all="ignore"):
            if not (np.abs(P - wP).max(axis=(1, 2)) <= tP).all():
                R.bump("stress-not-reference")
                continue
        R.close(A, wA, 1.0, col(tA, 4), f"tensor:{law.kind}:elasticity", "elasticity of a material of C", **ctx)
        R.bump("points:tensor", len(F))
        for t in tags:
            R.event((tuple(law.names), t))
    for i in range(pick(12, 150)):
        runs = felupe_events(
            R, rng, [(stable_full(rng), "Deformation", {})],
            ["tension", "compression", "shear"][i % 3],
        )
        # stresses first: tangents are judged against the reference only if the observed
        # stresses are the reference stresses
        probe = Report("C02", "")
        engine.check_events(probe, rng, runs, "Deformation", tangent=False)
        if probe.viol:
            R.bump("application:stress-not-reference")
        else:
            engine.check_events(R, rng, runs, "Deformation", stress=False)
