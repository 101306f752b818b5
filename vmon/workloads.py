"""Application workloads: FElupe analyses and lab simulations whose material calls are
recorded by monitors."""

import numpy as np

from .env import hel
from .materials import (
    GEN_TERMS,
    INV_TERMS,
    STR_TERMS,
    Energy,
    Spec,
    derivatives,
    spec_gi,
    spec_torch,
    _inv_terms,
    gi_terms,
    ogden_terms,
    spec_user_inv,
    spec_user_str,
    tod_terms,
)


def _u(rng, a, b):
    return float(rng.uniform(a, b))


def stable_shape(rng, kind=None):
    """A material with a positive definite distortional response (for the
    distortional space or as part of a sum)."""
    kinds = ["tod", "ogden", "gi", "user-inv", "user-str", "torch"]
    kind = str(rng.choice(kinds)) if kind is None else kind
    if kind == "tod":
        C = {"C10": _u(rng, 0.3, 0.7)}
        if rng.integers(2):
            C["C01"] = _u(rng, 0.05, 0.3)
        if rng.integers(2):
            C["C20"] = _u(rng, 0.01, 0.05)
        if rng.integers(2):
            C["C30"] = _u(rng, 0.001, 0.01)
        if rng.integers(2):
            C["C11"] = _u(rng, 0.001, 0.02)
        model = lambda: hel.models.invariants.ThirdOrderDeformation(**C)  # noqa: E731
        return Spec("tod", {"C": C}, _inv_terms(tod_terms(C)),
                    lambda **kw: hel.InvariantsFramework(model(), **kw), False, model=model)
    if kind == "ogden":
        mu = [_u(rng, 0.5, 1.0), _u(rng, 0.05, 0.2)]
        al = [_u(rng, 1.2, 3.0), _u(rng, -3.0, -1.2)]
        model = lambda: hel.models.stretches.Ogden(mu=mu, alpha=al)  # noqa: E731
        return Spec("ogden", {"mu": mu, "alpha": al}, ogden_terms(mu, al),
                    lambda **kw: hel.StretchesFramework(model(), **kw), True, model=model)
    if kind == "gi":
        C = {"C10": _u(rng, 0.3, 0.7), "C20": _u(rng, 0.005, 0.02)}
        k = _u(rng, 1.3, 2.5)
        model = lambda: hel.models.invariants.ThirdOrderDeformation(**C)  # noqa: E731
        return Spec("generalized", {"measure": "deformation", "exponent": k, "C": C},
                    gi_terms("deformation", k, tod_terms(C)),
                    lambda **kw: hel.GeneralizedInvariantsFramework(
                        model(), hel.models.generalized.deformation, exponent=k, **kw),
                    True, model=model)
    if kind == "user-inv":
        e = Energy(INV_TERMS, [("I1", _u(rng, 0.3, 0.7), ()), ("expI1", _u(rng, 0.2, 1), (_u(rng, 0.02, 0.06),)),
                               ("sqrtI2", _u(rng, 0.01, 0.2), ())])
        return spec_user_inv(rng, energy=e)
    if kind == "user-str":
        e = Energy(STR_TERMS, [("ogden", _u(rng, 0.4, 0.8), (2.0,)), ("exp", _u(rng, 0.1, 0.5), (0.5,)),
                               ("pairs", _u(rng, 0.02, 0.1), (2.0,))])
        return spec_user_str(rng, energy=e)
    e = Energy(INV_TERMS, [("I1", _u(rng, 0.3, 0.7), ()), ("I1^2", _u(rng, 0.01, 0.03), ()),
                           ("lnI2", _u(rng, 0.01, 0.1), ())])
    return spec_torch(rng, energy=e)


def stable_volume(rng, kind=None, stiff=None):
    "A volumetric energy with its minimum at J = 1."
    k = _u(rng, 3.0, 20.0) if stiff is None else stiff
    kind = str(rng.choice(["inv", "str"])) if kind is None else kind
    if kind == "inv":
        e = Energy(INV_TERMS, [("(J-1)^2", k / 2, ()), ("ln^2I3", 0.05 * k, ())])
        return spec_user_inv(rng, energy=e)
    e = Energy(STR_TERMS, [("(J-1)^2", k / 2, ()), ("ln^2J", 0.1 * k, ())])
    return spec_user_str(rng, energy=e)


def stable_full(rng, kind=None):
    "A compressible energy for the full space, stress free at rest."
    kind = str(rng.choice(["inv", "str", "torch", "gi"])) if kind is None else kind
    m = _u(rng, 0.3, 0.8)
    lam = _u(rng, 0.5, 3.0)
    if kind in ("inv", "torch"):
        e = Energy(INV_TERMS, [("I1", m, ()), ("lnI3", -m, ()), ("(J-1)^2", lam, ()), ("I3^2", 0.05 * lam, ()),
                               ("I1I3", 0.02, ())])
        if kind == "torch":
                    return spec_torch(rng, energy=e)
        return spec_user_inv(rng, energy=e)
    if kind == "str":
        e = Energy(STR_TERMS, [("ogden", m * 2, (2.0,)), ("ogden", 0.1 * m, (-2.0,)), ("hencky", 0.2, ()),
                               ("ln^2J", lam, ()), ("biot^2", 0.2 * lam, ())])
        # stress free at rest: subtract the residual through ln J
        return _with_prestress_removed(rng, e)
    return spec_gi(
        rng,
        energy=Energy(
            GEN_TERMS,
            [("I1^2", m + lam / 2, ()), ("I2", -2 * m, ()), ("I3", 0.3 * m, ())],
        ),
        measure=("strain", _u(rng, 1.5, 2.5)),
        builtin=False,
    )


def _with_prestress_removed(rng, e):
    one = np.ones(1)
    _, g, _ = derivatives(e, one, one, one)
    e2 = Energy(STR_TERMS, e.items + [("lnJ", -float(g[0, 0]), ())])
    return spec_user_str(rng, energy=e2)


def cube(n=3, distort=0.0, rng=None):
    import felupe as fem

    mesh = fem.Cube(n=n)
    if distort:
        inner = np.all((mesh.points > 1e-9) & (mesh.points < 1 - 1e-9), axis=1)
        mesh.points[inner] += distort * rng.uniform(-1, 1, (inner.sum(), 3)) / (n - 1)
    region = fem.RegionHexahedron(mesh)
    return mesh, region, fem.FieldContainer([fem.Field(region, dim=3)])


def felupe_run(rng, umats, mode="tension", steps=3, n=3, tol=1e-8, move=None):
    """One FElupe analysis: solid bodies of all ``umats`` on one field, load applied in
    steps.  Returns the field, boundaries, solids."""
    import felupe as fem

    mesh, region, field = cube(n, 0.25, rng)
    solids = [fem.SolidBody(u, field) for u in umats]
    if mode == "shear":
        bounds, _ = fem.dof.shear(field, moves=(0, 0, 0), sym=False)
        key = "move" if "move" in bounds else list(bounds)[-1]
    else:
        bounds, _ = fem.dof.uniaxial(field, clamped=True)
        key = "move"
    if move is None:
        move = {"tension": 0.8, "compression": -0.25, "shear": 0.5}[mode]
    values = fem.math.linsteps([0, move], num=steps)
    step = fem.Step(items=solids, ramp={bounds[key]: values}, boundaries=bounds)
    job = fem.Job(steps=[step])
    job.evaluate(verbose=0, tol=tol)
    return field, bounds, solids


def felupe_events(R, rng, parts, mode, steps=3, n=3):
    """Run FElupe with recorded materials.  parts: [(spec, space name, kwargs)].
    Returns [(spec, space name, events)] or None if the analysis raised."""
    from .monitors import Recorder

    recs = []
    umats = []
    for spec, name, kw in parts:
        u = spec.space(name, **kw)
        recs.append((spec, name, Recorder(u)))
        umats.append(u)
    try:
        felupe_run(rng, umats, mode=mode, steps=steps, n=n)
        R.bump("felupe:converged")
    except Exception as e:  # noqa: BLE001  an analysis may diverge; events still count
        R.bump(f"felupe:stopped:{type(e).__name__}")
    return [(s, nme, r.events) for s, nme, r in recs]
