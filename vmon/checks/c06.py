"""C06: force/area configurations are Piola transforms of one response."""

import itertools

import numpy as np

from .. import engine
from ..engine import FAILED, Expected, col, observe, representable, size, trail_for
from ..env import SEED, pick
from ..materials import SPACES, Spec, _inv_terms, hel, spec_stream, tod_terms
from ..states import alike, extreme, lay, scaled, states, unlay

RULE = (
    "every space x material kind (built-ins with constant derivatives included) x batch "
    "layout x {force, area, finalize, parallel}: all observed configurations are compared "
    "with Piola transforms of each other; one evaluation = one material point in one "
    "configuration; distinct = (material, space, force, area, parallel)"
)

VOIGT = ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2))
IDX = np.array([[0, 3, 5], [3, 1, 4], [5, 4, 2]])


def full2(S, n, trail):
    "(6, ...) reduced, possibly not broadcast -> (n, 3, 3)."
    S = np.broadcast_to(S, (6, *trail)).reshape(6, -1)
    return np.moveaxis(S[IDX], -1, 0)


def full4(C, n, trail):
    C = np.broadcast_to(C, (6, 6, *trail)).reshape(6, 6, -1)
    return np.moveaxis(C[IDX[:, :, None, None], IDX[None, None]], -1, 0)


def constant_specs():
    "Built-in models whose derivatives are scalars or partly absent."
    for C in ({"C10": 0.5}, {"C01": 0.3}, {"C10": 0.5, "C01": 0.2}, {"C11": 0.1}, {"C10": 0.5, "C20": 0.1}, {"C30": 0.02}):
        yield Spec(
            "tod-simple", {"C": C}, _inv_terms(tod_terms(C)),
            lambda C=C, **kw: hel.InvariantsFramework(hel.models.invariants.ThirdOrderDeformation(**C), **kw),
            False,
        )


class Stored:
    """A user-written material of C with constants of its own: St. Venant-Kirchhoff (a stored
    stiffness) or c tr(C) (a stored stress, no stiffness), of the batch's shape or broadcastable along all or
    some of its axes."""

    def __init__(self, mu, la, c, broad):
        self.x = [np.eye(3), np.zeros(0)]
        self.mu, self.la, self.c, self.broad, self.own = mu, la, c, broad, {}

    def _stored(self, C):
        full = C.shape[1:]
        trail = {False: full, True: (1,) * len(full), "first": (*full[:1], *(1 for _ in full[1:])), "last": (*(1 for _ in full[1:]), *full[-1:])}[self.broad]
        if trail not in self.own:
            i = np.array([1.0, 1, 1, 0, 0, 0])
            D = self.la / 4 * np.outer(i, i) + self.mu / 2 * np.diag([1, 1, 1, 0.5, 0.5, 0.5])
            one = np.ones((1,) * (C.ndim - 1))
            self.own[trail] = (np.multiply.outer(D, np.ones(trail) * one), np.multiply.outer(self.c * i, np.ones(trail) * one))
        return self.own[trail]

    def gradient(self, C, statevars):
        D, g = self._stored(C)
        if self.mu == 0 and self.la == 0:
            return g, statevars
        E = np.array(C)
        E[:3] -= 1
        E[3:] *= 2
        return np.einsum("ij...,j...->i...", D, E) + g, statevars

    def hessian(self, C, statevars):
        return self._stored(C)[0]


def stored_specs():
    for i, (mu, la, c) in enumerate(((0.7, 1.3, 0.0), (0.7, 1.3, 0.2), (0.0, 0.0, 0.4), (0.5, 0.0, 0.0))):
        for broad in (False, True, "first", "last"):
            def terms(a, b, d, mu=mu, la=la, c=c):
                x, y, z = a * a - 1, b * b - 1, d * d - 1
                t = x + y + z
                return [mu / 4 * (x * x + y * y + z * z), la / 8 * t * t, c * t]

            yield Spec("stored", {"mu": mu, "lambda": la, "c": c, "broadcastable": broad}, terms,
                       lambda mu=mu, la=la, c=c, broad=broad, **kw: Stored(mu, la, c, broad), False)


def configurations(R, spec, name, trail, n, F, raw, spaces, ctx, par):
    x = lay(F, trail)
    ref = Expected(F, spec, name)
    J = ref.J
    Fi = np.linalg.inv(F)
    if raw is FAILED:
        return
    S = R.call(f"{name}:raw:gradient", raw.gradient, [x, None], ctx=ctx)
    C = R.call(f"{name}:raw:hessian", raw.hessian, [x, None], ctx=ctx)
    if S is FAILED or C is FAILED:
        return
    S, C = np.asarray(S[0]), np.asarray(C[0])
    ok = True
    for what, y, lead in (("stress", S, (6,)), ("elasticity", C, (6, 6))):
        try:
            np.broadcast_to(y, (*lead, *trail))
            good = y.shape[: len(lead)] == lead
        except ValueError:
            good = False
        ok &= R.check(good, f"{name}:raw:{what}:shape", f"unfinalized {what} of shape {y.shape} for batch {trail}", **ctx)
    if not ok:
        return
    S, C = full2(S, n, trail), full4(C, n, trail)
    lmin = ref.lam.min(axis=0)
    lmax = ref.lam.max(axis=0)
    P = np.einsum("niI,nIJ->niJ", F, S)
    A = np.einsum("niI,nkK,nIJKL->niJkL", F, F, C, optimize=True) + np.einsum(
        "ik,nJL->niJkL", np.eye(3), S
    )
    want = {
        (None, 0): (P, A, np.ones(n), np.ones(n)),
        (None, None): (
            np.einsum("niJ,njJ->nij", P, F) / J[:, None, None],
            np.einsum("niJkL,njJ,nlL->nijkl", A, F, F, optimize=True) / J[:, None, None, None, None],
            lmax / J, lmax**2 / J,
        ),
        (0, 0): (
            S,
            np.einsum("nIi,nKk,niJkL->nIJKL", Fi, Fi, A, optimize=True),
            1 / lmin, 1 / lmin**2,
        ),
        (0, None): (
            np.einsum("nIJ,njJ->nIj", S, F) / J[:, None, None],
            np.einsum("nIi,nKk,niJkL,njJ,nlL->nIjKl", Fi, Fi, A, F, F, optimize=True) / J[:, None, None, None, None],
            lmax / lmin / J, lmax**2 / lmin**2 / J,
        ),
    }
    for (force, area), u in spaces.items():
        if u is FAILED:
            continue
        c = {**ctx, "force": force, "area": area}
        tag = f"{name}:force={force}:area={area}"
        p = observe(R, u, "gradient", F, trail, ctx=c, mech=tag)
        a = observe(R, u, "hessian", F, trail, ctx=c, mech=tag)
        wp, wa, fp, fa = want[force, area]
        tol = 10 * (ref.tolP + 1e-13 * ref.rP * ref.cond)
        if p is not FAILED:
            R.close(p, wp, 1.0, col(tol * fp * lmax / lmin, 2), f"{tag}:stress", "stress", **c)
        tol = 10 * (ref.tolA + 1e-13 * ref.rA * ref.cond)
        if a is not FAILED:
            R.close(a, wa, 1.0, col(tol * fa * (lmax / lmin) ** 2, 4), f"{tag}:elasticity", "elasticity", **c)
        R.bump("configurations")
        R.event((spec.key(), name, force, area, par), 2 * n)


def piola(R, rng, n):
    """The transformation by itself, as spaces written by the user call it: any stress and
    elasticity, with and without what is already known of the deformation."""
    import inspect

    fw = hel.InvariantsFramework(hel.models.invariants.ThirdOrderDeformation(C10=0.5))
    for i in range(n):
        name, par = list(SPACES)[i % 3], i % 5 == 4
        trail = [(5,), (8, 5), (2, 3, 4), (1,), (), (4, 1)][i % 6]
        m = size(trail)
        F, _ = states(rng, m, ["moderate", "dense", "shear", "diagonal", "volumetric"])
        f = lay(F, trail)
        one = tuple(1 if rng.integers(4) == 0 else d for d in trail)  # (as of constant derivatives)
        S = rng.normal(size=(6, *one))
        C4 = rng.normal(size=(6, 6, *one))
        if i % 2:
            C4 = C4 + np.swapaxes(C4, 0, 1)
        J = np.linalg.det(F)
        C = np.einsum("pkI,pkJ->pIJ", F, F)
        iC = np.linalg.inv(C)
        known = J.reshape(trail), lay(iC, trail)[[0, 1, 2, 0, 1, 0], [0, 1, 2, 1, 2, 2]]
        # round-off of what the transformation works out by itself
        loss = 1e-13 * np.linalg.cond(C)
        S0, C0 = full2(S, m, trail), full4(C4, m, trail)
        d = np.eye(3)
        for force, area, final in ((None, 0, True), (None, None, True), (0, 0, True), (0, None, True), (None, None, False)):
            u = R.call("piola:build", SPACES[name], fw, force=force, area=area, finalize=final, parallel=par)
            if u is FAILED or not hasattr(u, "piola"):
                continue
            if not {"F", "S", "detF", "C4", "invC"} <= set(inspect.signature(u.piola).parameters):
                continue
            for given in ((), ("detF",), ("invC",), ("detF", "invC")):
                kw = {k: v for k, v in zip(("detF", "invC"), known) if k in given}
                ctx = {"space": name, "force": force, "area": area, "finalize": final, "given": given, "trail": trail,
                       "F": F, "S": S, "C4": C4}
                kept = [a.copy() for a in (f, S, C4, *known)]
                P = R.call("piola:stress", lambda: u.piola(F=f, S=S, **kw), ctx=ctx)
                A = R.call("piola:elasticity", lambda: u.piola(F=f, S=S, C4=C4, **kw), ctx=ctx)
                R.check(all(np.array_equal(a, b) for a, b in zip(kept, (f, S, C4, *known))), "piola:arguments",
                        "an argument was changed", **ctx)
                R.event(("piola", name, force, area, final, given), 2 * m)
                R.bump("transformations", 2)
                if P is FAILED or A is FAILED:
                    continue
                if not final:
                    R.check(np.array_equal(np.broadcast_to(P, (6, *trail)), np.broadcast_to(S, (6, *trail)))
                            and np.array_equal(np.broadcast_to(A, (6, 6, *trail)), np.broadcast_to(C4, (6, 6, *trail))),
                            "piola:unfinalized", "stress or elasticity transformed", **ctx)
                    continue
                a = F if force is None else np.broadcast_to(d, F.shape)
                g = np.broadcast_to(d, F.shape) if force is None else iC
                wP = np.einsum("piI,pIJ->piJ", a, S0)
                wA = np.einsum("piI,pkK,pIJKL->piJkL", a, a, C0) + np.einsum("pik,pJL->piJkL", g, S0)
                if area is None:
                    wP = np.einsum("pjJ,piJ->pij", F, wP) / J[:, None, None]
                    wA = np.einsum("pjJ,plL,piJkL->pijkl", F, F, wA) / J[:, None, None, None, None]
                size_ = np.linalg.norm(F, axis=(1, 2))
                tP = (loss + 1e-13) * 10 * size_**2 / np.minimum(J, 1) + 1e-12
                tA = (loss + 1e-13) * 10 * size_**4 * np.maximum(1, np.abs(iC).max(axis=(1, 2))) / np.minimum(J, 1) + 1e-12
                ok = R.check(P.shape == (3, 3, *trail) and A.shape == (3, 3, 3, 3, *trail), "piola:shape", f"{P.shape}, {A.shape}", **ctx)
                if ok:
                    R.close(unlay(P, 2), wP, 1.0, col(tP, 2), f"piola:stress:{force}:{area}", "transformed stress", **ctx)
                    R.close(unlay(A, 4), wA, 1.0, col(tA, 4), f"piola:elasticity:{force}:{area}", "transformed elasticity", **ctx)


def run(R):
    rng = np.random.default_rng([SEED, 6])
    R.require("configurations", 500)
    piola(R, np.random.default_rng([SEED, 6, 1]), pick(30, 400))
    specs = list(constant_specs()) + list(stored_specs()) + list(spec_stream(rng, pick(36, 800)))
    for i, spec in enumerate(specs):
        for name in SPACES:
            trail = trail_for(rng, 24) if i % 3 else ((12,), (2,), (4,))[rng.integers(3)]
            if i % 20 == 13:
                trail = ((150,), (1100,), (30, 7))[i // 20 % 3]
            if spec.kind == "stored" and isinstance(spec.desc["broadcastable"], str):
                trail = ((4, 6), (3, 3), (2, 3, 4))[(i + len(name)) % 3]
            n = size(trail)
            par = bool((i + len(name)) % 4 == 0)
            info = {"material": spec.describe(), "space": name, "trail": trail, "parallel": par}
            # one material (framework or other) in all of the spaces, or one each
            shared = {"framework": spec.build(parallel=par)} if i % 2 or spec.kind == "stored" else {}
            raw = R.call("build", spec.space, name, finalize=False, parallel=par, ctx=info, **shared,
                         force=[None, 0][rng.integers(2)], area=[None, 0][rng.integers(2)])
            spaces = {(f, a): R.call("build", spec.space, name, force=f, area=a, parallel=par, ctx=info, **shared)
                      for f, a in itertools.product((None, 0), (None, 0))}
            # the same objects on another batch of the same shape: nothing may be left over
            for visit in range(2):
                F, tags = states(rng, n)
                if visit and i % 4 == 2:
                    F, tags = (extreme, scaled)[i // 4 % 2](rng, n)
                    F = representable(rng, F, spec, name)
                elif visit and i % 4 < 2:
                    F, tags = alike(rng, n)
                configurations(R, spec, name, trail, n, F, raw, spaces, {**info, "visit": visit, "F": F}, par)
        R.sample({"material": spec.describe(), "trail": trail, "F": F[0]})
