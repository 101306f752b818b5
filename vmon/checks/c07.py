"""C07: equivalent formulations of one energy give the same response."""

import numpy as np

from ..engine import FAILED, Expected, col, observe, representable, size
from ..env import SEED, hel, pick
from ..jets import Jet, full
from ..materials import (
    GEN_TERMS, INV_TERMS, SPACES, STR_TERMS, Energy, Spec, UserInvariants, UserStretches,
    _inv_terms, gi_terms, invariants, ogden_terms, random_measure, random_tod, spec_gi,
    spec_ogden, spec_tod, tod_terms, MEASURES,
)
from ..states import TRAILS, alike, extreme, scaled, states

RULE = (
    "groups of materials that express one energy differently (polynomial, generalized "
    "invariants of exponent 2, Ogden, user invariants model, user stretch model, autograd); "
    "all members are evaluated on the same hostile states in every space and compared with "
    "each other; one evaluation = one point of one member; distinct = (group, space, state)"
)


class FunctionEnergy(Energy):
    def __init__(self, terms, arity_pool=None):
        self._terms = terms

    def terms(self, a, b, c):
        return self._terms(a, b, c)

    def describe(self):
        return "function"


def inv_family(terms):
    "All ways to write an energy f(I1, I2, I3) given as jet-able terms."
    e = FunctionEnergy(terms)
    s = FunctionEnergy(_inv_terms(terms))

    def torch_fun(I1, I2, I3):
        return e(I1, I2, I3)

    return {
        "user-invariants": lambda: hel.InvariantsFramework(UserInvariants(e)),
        "user-invariants-dense": lambda: hel.InvariantsFramework(UserInvariants(e, zero="array")),
        "torch": lambda: hel.InvariantsFramework(hel.models.invariants.TorchModel(torch_fun)),
        "user-stretches": lambda: hel.StretchesFramework(UserStretches(s)),
        "generalized-2": lambda: hel.GeneralizedInvariantsFramework(
            UserInvariants(e), hel.models.generalized.deformation, exponent=2),
    }


def groups(rng, i):
    "One group: label, terms in the stretches, {member: framework factory}."
    k = i % 7
    if k == 0:  # polynomial
        C = random_tod(rng)
        t = tod_terms(C)
        tod = lambda: hel.models.invariants.ThirdOrderDeformation(**C)  # noqa: E731
        g = inv_family(t)
        g["tod"] = lambda: hel.InvariantsFramework(tod())
        g["tod-generalized-2"] = lambda: hel.GeneralizedInvariantsFramework(
            tod(), hel.models.generalized.deformation, exponent=2)
        return "polynomial", {"C": C}, _inv_terms(t), g
    if k == 1:  # any energy of the invariants
        e = Energy.random(rng, INV_TERMS)
        return "invariants", e.describe(), _inv_terms(e.terms), inv_family(e.terms)
    if k == 2:  # Ogden with exponents 2 and -2
        mu = float(rng.uniform(0.3, 2))
        which = rng.integers(3)
        if which == 2:
            m2, e = float(rng.choice([-1, 1]) * rng.uniform(0.1, 1)), rng.permutation(2)
            t = lambda a, b, c: [mu / 2 * (a - 3), m2 / 2 * (b / c - 3)]  # noqa: E731
            g = inv_family(t)
            m, al = np.array([mu, m2])[e], np.array([2, -2])[e]
            g["ogden+2-2"] = lambda: hel.StretchesFramework(hel.models.stretches.Ogden(m.tolist(), al.tolist()))
            return "ogden+2-2", [mu, m2], _inv_terms(t), g
        if which == 1:
            t = lambda a, b, c: [mu / 2 * (a - 3)]  # noqa: E731
            g = inv_family(t)
            g["ogden+2"] = lambda: hel.StretchesFramework(hel.models.stretches.Ogden([mu], [2]))
            g["neo-hooke"] = lambda: hel.InvariantsFramework(
                hel.models.invariants.ThirdOrderDeformation(C10=mu / 2))
            return "ogden+2", mu, _inv_terms(t), g
        t = lambda a, b, c: [mu / 2 * b / c]  # noqa: E731
        g = inv_family(t)
        g["ogden-2"] = lambda: hel.StretchesFramework(hel.models.stretches.Ogden([mu], [-2.0]))
        return "ogden-2", mu, _inv_terms(t), g
    if k == 3:  # one Ogden term = first generalized invariant
        mu = float(rng.uniform(0.3, 2))
        al = float(rng.choice([rng.uniform(-4, -0.4), rng.uniform(0.4, 4)]))
        t = ogden_terms([mu], [al])
        s = FunctionEnergy(t)
        nh = lambda m: hel.models.invariants.ThirdOrderDeformation(C10=m)  # noqa: E731
        g = {
            "ogden": lambda: hel.StretchesFramework(hel.models.stretches.Ogden([mu], [al])),
            "ogden-split": lambda: hel.StretchesFramework(
                hel.models.stretches.Ogden([0.3 * mu, 0.7 * mu], [al, al])),
            "user-stretches": lambda: hel.StretchesFramework(UserStretches(s)),
            "generalized": lambda: hel.GeneralizedInvariantsFramework(
                nh(mu / 2), hel.models.generalized.deformation, exponent=al),
            # strain: I1 = (2 / k) (sum(l^k) - 3) / k
            "generalized-strain": lambda: hel.GeneralizedInvariantsFramework(
                nh(mu), hel.models.generalized.strain, exponent=al),
        }
        return "ogden-generalized", [mu, al], t, g
    if k == 4:  # Green-Lagrange invariants = polynomial in the invariants of C
        e = Energy.random(rng, GEN_TERMS)

        def t(a, b, c):
            return e.terms((a - 3) / 2, (b - 2 * a + 3) / 4, (c - b + a - 1) / 8)

        g = inv_family(t)
        g["green-lagrange"] = lambda: hel.GeneralizedInvariantsFramework(
            UserInvariants(e), hel.models.generalized.strain, exponent=2)
        C = random_tod(rng)
        return "green-lagrange", e.describe(), _inv_terms(t), g
    if k == 5:  # generalized invariants written out in the stretches
        name, kk = random_measure(rng)
        e = Energy.random(rng, GEN_TERMS)
        t = gi_terms(name, kk, e.terms)
        g = {
            "generalized": lambda: hel.GeneralizedInvariantsFramework(
                UserInvariants(e), MEASURES[name][1](), exponent=kk),
            "generalized-dense": lambda: hel.GeneralizedInvariantsFramework(
                UserInvariants(e, zero="array"), MEASURES[name][1](), exponent=kk),
            "user-stretches": lambda: hel.StretchesFramework(UserStretches(FunctionEnergy(t))),
        }
        return "generalized", [name, kk, e.describe()], t, g
    # several Ogden terms
    o = spec_ogden(rng)
    g = {
        "ogden": o.build,
        "ogden-reversed": lambda: hel.StretchesFramework(
            hel.models.stretches.Ogden(o.desc["mu"][::-1], o.desc["alpha"][::-1])),
        "user-stretches": lambda: hel.StretchesFramework(UserStretches(FunctionEnergy(o.terms))),
        "user-stretches-array": lambda: hel.StretchesFramework(
            UserStretches(FunctionEnergy(o.terms), container=np.array)),
    }
    return "ogden", o.describe(), o.terms, g


def run(R):
    import torch

    torch.set_default_dtype(torch.float64)
    rng = np.random.default_rng([SEED, 7])
    R.require("pairs", 300)
    for i in range(pick(112, 1500)):
        label, desc, terms, members = groups(rng, i)
        spec = Spec("group", {"label": label, "desc": desc}, terms, None, True)
        for name in SPACES:
            # batches of all categories, of one category, of extreme states; of any form
            form = int(rng.integers(4))
            trail = (18,) if form == 0 else TRAILS[rng.integers(len(TRAILS))] if form < 3 else (int(rng.integers(1, 10)),)
            if i % 23 == 11:
                trail = ((150,), (1100,), (30, 7))[i // 23 % 3]
            n = size(trail)
            kind = int(rng.integers(5))
            if kind < 3 or label == "green-lagrange" and kind == 4:
                F, tags = states(rng, n)
            elif kind == 3:
                F, tags = alike(rng, n)
            else:
                F, tags = (extreme, scaled)[rng.integers(2)](rng, n)
                F = representable(rng, F, spec, name)
            ref = Expected(F, spec, name)
            seen = {}
            for m, build in members.items():
                ctx = {"group": label, "energy": desc, "member": m, "space": name, "trail": trail, "F": F}
                u = R.call(f"{label}:{m}:build", lambda: SPACES[name](build()), ctx=ctx)
                if u is FAILED:
                    continue
                seen[m] = (
                    observe(R, u, "gradient", F, trail, ctx=ctx, mech=f"{label}:{m}"),
                    observe(R, u, "hessian", F, trail, ctx=ctx, mech=f"{label}:{m}"),
                )
                R.event(n=2 * n)
            # strain polynomials written in the invariants of C cancel near the reference
            w = 60 if label == "green-lagrange" else 4
            first = next(iter(seen), None)
            for m in seen:
                if m == first:
                    continue
                ctx = {"group": label, "energy": desc, "members": [first, m], "space": name, "F": F}
                for k, what, tol in ((0, "stress", col(w * ref.tolP, 2)), (1, "elasticity", col(w * ref.tolA, 4))):
                    x, y = seen[first][k], seen[m][k]
                    if x is not FAILED and y is not FAILED:
                        R.close(y, x, 1.0, tol, f"{label}:{first}={m}:{what}", f"{what} of {m} and {first}", **ctx)
                R.bump("pairs")
            for t in tags:
                R.event((label, repr(desc), name, t), 0)
        R.sample({"group": label, "energy": desc, "members": list(members), "F": F[0]})
