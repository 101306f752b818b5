"""C15: user models may omit, simplify or vary the form of their derivatives."""

import numpy as np

from ..engine import FAILED, Expected, col, compare_stress, compare_tangent, observe, representable, size
from ..env import SEED, hel, pick
from ..jets import Jet, full
from ..materials import (
    GEN_TERMS, INV_TERMS, MEASURES, ORDER6, SORTED_TERMS, SPACES, STR_TERMS, Energy, Spec, _inv_terms,
    ascending, derivatives, gi_terms, normalization, random_measure,
)
from ..states import TRAILS, alike, lay, scaled, separated, states, unlay

RULE = (
    "user-written invariants, stretch and generalized models whose every derivative is "
    "returned in a random admissible form (full array, scalar, broadcastable array, None or "
    "zero, in tuple, list or array) are compared with the reference response; the arguments "
    "the models receive are recorded and compared with the true invariants / ascending "
    "stretches of the space's deformation; distinct = (model, form pattern, space, batch)"
)


# forms of a derivative which is one whole number
CONSTANTS = {
    "int": lambda c, v: int(c),
    "float": lambda c, v: float(c),
    "np.int64": lambda c, v: np.int64(c),
    "np.int32": lambda c, v: np.int32(c),
    "np.float64": lambda c, v: np.float64(c),
    "0-d int": lambda c, v: np.array(int(c)),
    "0-d float": lambda c, v: np.array(c),
    "one entry": lambda c, v: np.full((1,) * v.ndim, c),
    "one int entry": lambda c, v: np.full((1,) * v.ndim, int(c)),
    "int array": lambda c, v: np.full(v.shape, int(c)),
    "float array": lambda c, v: np.full(v.shape, c),
    "broadcast": lambda c, v: np.broadcast_to(np.float64(c), v.shape),
    "fortran": lambda c, v: np.full(v.shape, c, order="F"),
}


def beyond(x, start):
    "The third power of what exceeds the start (twice continuously differentiable)."
    return (x - start) ** 3 * (x.v > start)


# energies of which parts come into play only at some deformations
LATE_INV = {
    "I1 late": (lambda r: (float(r.uniform(3.1, 5)),), lambda a, b, c, k: beyond(a, k), 0.05),
    "I2 late": (lambda r: (float(r.uniform(3.1, 6)),), lambda a, b, c, k: beyond(b, k), 0.02),
    "compressed": (lambda r: (float(r.uniform(0.7, 1.3)),), lambda a, b, c, k: beyond(-c, -k), 1.0),
    "I1I2 late": (lambda r: (float(r.uniform(3.1, 6)),), lambda a, b, c, k: beyond(a, k) * (b - 3), 0.02),
    "I1": (lambda r: (), lambda a, b, c: a - 3, 1.0),
    "I2": (lambda r: (), lambda a, b, c: b - 3, 0.3),
}
LATE_STR = {
    "tension": (lambda r: (float(r.uniform(1, 1.5)),), lambda a, b, c, k: beyond(a, k) + beyond(b, k) + beyond(c, k), 1.0),
    "pressure": (lambda r: (float(r.uniform(0.7, 1)),), lambda a, b, c, k: beyond(-a, -k) + beyond(-b, -k) + beyond(-c, -k), 1.0),
    "i2 late": (lambda r: (float(r.uniform(3, 4)),), lambda a, b, c, k: beyond(a * b + b * c + c * a, k), 0.2),
    "ogden": (lambda r: (1.0,), lambda a, b, c, k: a + b + c, 1.0),
}
LATE_SORTED = {
    "max late": (lambda r: (float(r.uniform(1, 1.5)),), lambda a, b, c, k: beyond(c, k), 1.0),
    "min late": (lambda r: (float(r.uniform(0.7, 1)),), lambda a, b, c, k: beyond(-a, -k), 1.0),
    "mid late": (lambda r: (float(r.uniform(0.9, 1.2)),), lambda a, b, c, k: beyond(b, k), 1.0),
    "range late": (lambda r: (float(r.uniform(0.2, 0.8)),), lambda a, b, c, k: beyond(c - a, k), 1.0),
}


class Forms:
    """Chooses, reproducibly, in which form one derivative is returned."""

    def __init__(self, seed):
        self.seed = seed
        self.used = set()
        self.fixed = None  # a form of all constants
        self.calls = None  # the forms vary from call to call

    def __call__(self, value, is_zero, is_const, slot):
        r = np.random.default_rng([self.seed, slot])
        k = r.integers(6)
        if self.calls is not None:
            value = np.asarray(value)
            if slot in (0, 10):
                self.calls += 1
            r = np.random.default_rng([self.seed, slot, self.calls])
            k = r.integers(6)
            is_zero = not value.any()
            is_const = bool(value.size) and np.ptp(value) == 0
            if is_zero:
                self.used.add("absent in this call")
        if self.fixed and (is_const or is_zero):
            value = np.asarray(value)
            c = float(value.reshape(-1)[0]) if value.size else 0.0
            if is_zero and slot % 2:
                return None
            self.used.add(self.fixed)
            return CONSTANTS[self.fixed](c, value)
        value = np.asarray(value)
        if is_zero:
            form = ["none", "zero", "float zero", "array", "ones-shape zero", "none"][k]
            self.used.add(form)
            if form == "none":
                return None
            if form == "zero":
                return 0
            if form == "float zero":
                return 0.0
            if form == "array":
                return np.zeros(value.shape)
            return np.zeros((1,) * value.ndim)
        if is_const and k < 3:
            c = float(value.reshape(-1)[0]) if value.size else 0.0
            if c == round(c) and r.integers(2):
                form = "integer"
                self.used.add(form)
                return [int(c), np.int64(c), np.array(int(c))][k]
            form = ["scalar", "numpy scalar", "0-d"][k]
            self.used.add(form)
            return [c, np.float64(c), np.array(c)][k]
        if k % 2:  # reduce axes along which nothing changes
            red = value
            for ax in range(value.ndim):
                first = red.take([0], axis=ax) if red.shape[ax] else red
                if red.shape[ax] > 1 and np.array_equal(np.broadcast_to(first, red.shape), red):
                    red = first
            if red.shape != value.shape:
                self.used.add("broadcastable")
                return red
        if k == 4:
            self.used.add("read-only")
            value = value.copy()
            value.flags.writeable = False
            return value
        self.used.add("array")
        return value


def constancy(energy):
    "Which derivatives do not depend on the deformation."
    r = np.random.default_rng(4)
    x = Jet.variables(*r.uniform(0.8, 2.0, (3, 9)))
    g, h = 0.0, 0.0
    for t in energy.terms(*x):
        t = full(t, x[0])
        g, h = g + t.g, h + t.h
    same = lambda y: np.abs(y - y[..., :1]).max(axis=-1) <= 1e-13 * (np.abs(y).max(axis=-1) + 1e-300)  # noqa: E731
    return same(g + 0 * x[0].g), same(h + 0 * x[0].h)


class InvModel:
    def __init__(self, energy, seed, container):
        self.e, self.forms, self.box = energy, Forms(seed), container
        self.mg, self.mh = energy.mask()
        self.cg, self.ch = constancy(energy)
        self.seen = []

    def gradient(self, I1, I2, I3, statevars):
        self.seen.append((np.array(I1), np.array(I2), np.array(I3)))
        _, g, _ = derivatives(self.e, I1, I2, I3)
        out = [self.forms(g[i], self.mg[i], self.cg[i], i) for i in range(3)]
        if self.box == "generator":
            return (x for x in [*out, statevars])
        return (list if self.box == "list" else tuple)([*out, statevars])

    def hessian(self, I1, I2, I3, statevars_old):
        self.seen.append((np.array(I1), np.array(I2), np.array(I3)))
        _, _, h = derivatives(self.e, I1, I2, I3)
        if self.box == "array":
            return np.array([h[i, j] for i, j in ORDER6])
        out = [self.forms(h[i, j], self.mh[i, j], self.ch[i, j], 10 + m) for m, (i, j) in enumerate(ORDER6)]
        return (list if self.box == "list" else tuple)(out)


class StrModel:
    def __init__(self, energy, seed, container):
        self.e, self.forms, self.box = energy, Forms(seed), container
        self.mg, self.mh = energy.mask()
        self.cg, self.ch = constancy(energy)
        self.seen = []

    def gradient(self, λ, statevars):
        self.seen.append((np.array(λ[0]), np.array(λ[1]), np.array(λ[2])))
        _, g, _ = derivatives(self.e, λ[0], λ[1], λ[2])
        if self.box == "array":
            return g, statevars
        out = [self.forms(g[i], self.mg[i], self.cg[i], i) for i in range(3)]
        return (list if self.box == "list" else tuple)(out), statevars

    def hessian(self, λ, statevars_old):
        self.seen.append((np.array(λ[0]), np.array(λ[1]), np.array(λ[2])))
        _, _, h = derivatives(self.e, λ[0], λ[1], λ[2])
        if self.box == "array":
            return np.array([h[i, j] for i, j in ORDER6])
        out = [self.forms(h[i, j], self.mh[i, j], self.ch[i, j], 10 + m) for m, (i, j) in enumerate(ORDER6)]
        return (list if self.box == "list" else tuple)(out)


def space_stretches(ref, space):
    "Ascending stretches of the space's deformation, (3, n)."
    lam = np.sort(ref.lam, axis=0)
    if space == "Distortional":
        return lam * ref.J ** (-1 / 3)
    if space == "Dilatational":
        s = ref.J ** (1 / 3)
        return np.array([s, s, s])
    return lam


def whole(rng, e):
    "The energy with whole-number coefficients (so that constant derivatives are such numbers)."
    return Energy(e.pool, [(n, float(rng.choice([1, 2, 3, -1])), p) for n, _, p in e.items])


SOME_INV = ["I1", "I2", "I3", "I1^2", "I2^2", "I3^2", "I1I2", "I1I3", "I2I3", "(J-1)^2", "lnI3", "I1iso", "gent", "I2/I3"]


def pick_energy(rng, pool, i):
    e = _pick_energy(rng, pool, i)
    return whole(rng, e) if i % 4 in (1, 2) and pool is not SORTED_TERMS else e


def _pick_energy(rng, pool, i):
    names = list(pool)
    if i % 3 == 0:  # single terms: most derivatives absent or constant
        return Energy.random(rng, pool, names=[names[(i // 3) % len(names)]])
    if i % 3 == 1 and pool is INV_TERMS:  # constants
        return Energy.random(rng, pool, names=[n for n in ("I1", "I2", "I3") if rng.integers(2)] or ["I1"])
    if i % 3 == 1 and pool is STR_TERMS:
        e = Energy.random(rng, pool, n=int(rng.integers(1, 3)))
        w = float(rng.uniform(0.3, 1))
        return e.plus(Energy(STR_TERMS, [("ogden", w, (1.0,)), ("i2", 0.1, ())])) if rng.integers(2) else Energy(STR_TERMS, [("ogden", w, (1.0,))] + ([("i2", 0.2, ())] if rng.integers(2) else []))
    if i % 3 == 1 and pool is GEN_TERMS:
        return Energy.random(rng, pool, names=["I1", "I2"][: rng.integers(1, 3)])
    return Energy.random(rng, pool, n=2 if pool is SORTED_TERMS and i % 2 else None)


def batch(rng, trail, states=states):
    """States that vary only along some axes, so that broadcastable derivatives occur."""
    if len(trail) < 2 or rng.integers(2):
        F, tags = states(rng, size(trail))
        return F, tags, "free"
    keep = int(rng.integers(len(trail)))
    F, tags = states(rng, trail[keep])
    shape = [1] * len(trail)
    shape[keep] = trail[keep]
    X = np.broadcast_to(lay(F, (trail[keep],)).reshape(3, 3, *shape), (3, 3, *trail))
    return unlay(np.ascontiguousarray(X), 2), tags, f"varies along {keep}"


def constants(R, rng):
    """Every form of constant derivatives, one after the other: linear energies with
    whole-number coefficients (second derivatives absent) and quadratic ones."""
    for form in CONSTANTS:
        for kind in ("inv", "str", "gen"):
            for degree in (1, 2):
                seed = int(rng.integers(2**31))
                w = [float(v) for v in rng.choice([1, 2, 3, -1, -2], 3)]
                box = ["tuple", "list"][rng.integers(2)]
                name, k = random_measure(rng)
                if kind == "str":
                    e = Energy(STR_TERMS, [("ogden", abs(w[0]), (1.0,))] if degree == 1 else
                               [("ogden", abs(w[0]), (1.0,)), ("ogden", 2 * abs(w[1]), (2.0,)), ("i2", abs(w[2]), ())][rng.integers(2):])
                    m = StrModel(e, seed, box)
                    spec = Spec("user-stretches", {"energy": e.describe()}, e.terms, lambda: hel.StretchesFramework(m), True)
                else:
                    pool = INV_TERMS if kind == "inv" else GEN_TERMS
                    names = ["I1", "I2", "I3"] if degree == 1 else ["I1^2", "I2^2", "I1I2", "I1", "I1I3"]
                    names = [n for n in names if rng.integers(2)] or names[:1]
                    e = Energy(pool, [(n, v, ()) for n, v in zip(names, [*w, *w])])
                    m = InvModel(e, seed, box)
                    if kind == "inv":
                        spec = Spec("user-invariants", {"energy": e.describe()}, _inv_terms(e.terms), lambda: hel.InvariantsFramework(m), False)
                    else:
                        spec = Spec("generalized", {"energy": e.describe(), "measure": name, "exponent": k}, gi_terms(name, k, e.terms),
                                    lambda: hel.GeneralizedInvariantsFramework(m, MEASURES[name][1](), exponent=k), True)
                m.forms.fixed = form
                for sp in ("Deformation", ["Distortional", "Dilatational"][rng.integers(2)]):
                    trail = [(), (1,), (5,), (2, 3), (2,), (3,), (1, 4), (120,)][rng.integers(8)]
                    F, _ = states(rng, size(trail))
                    ctx = {"material": spec.describe(), "space": sp, "trail": trail, "form": form, "F": F}
                    u = R.call("build", spec.space, sp, ctx=ctx)
                    if u is FAILED:
                        continue
                    ref = Expected(F, spec, sp)
                    P = observe(R, u, "gradient", F, trail, ctx=ctx, mech=f"{kind}:constants")
                    A = observe(R, u, "hessian", F, trail, ctx=ctx, mech=f"{kind}:constants")
                    if P is not FAILED:
                        compare_stress(R, P, ref, f"{kind}:constants:stress", ctx)
                    if A is not FAILED:
                        compare_tangent(R, A, ref, f"{kind}:constants:elasticity", ctx)
                    R.event((kind, form, degree, sp), 2 * len(F))
                    if m.forms.used:
                        R.bump(f"constant form:{form}")
        R.require(f"constant form:{form}", 4)


def varying(R, rng, i):
    """One object along a history in which derivatives come and go: what is zero for all points
    of a call may be left out in this call, and forms differ from call to call."""
    kind = ["inv", "str", "sorted", "gen"][i % 4]
    pool = {"inv": LATE_INV, "gen": LATE_INV, "str": LATE_STR, "sorted": LATE_SORTED}[kind]
    e = Energy.random(rng, pool, n=int(rng.integers(1, 4)))
    seed = int(rng.integers(2**31))
    box = ["tuple", "list"][rng.integers(2)]
    if kind in ("inv", "gen"):
        m = InvModel(e, seed, box)
    else:
        m = StrModel(e, seed, box)
    m.forms.calls = 0
    desc = {"energy": e.describe(), "container": box}
    if kind == "inv":
        spec = Spec("user-invariants", desc, _inv_terms(e.terms), lambda: hel.InvariantsFramework(m), False)
    elif kind == "str":
        spec = Spec("user-stretches", desc, e.terms, lambda: hel.StretchesFramework(m), True)
    elif kind == "sorted":
        spec = Spec("sorted-stretches", desc, lambda a, b, c: e.terms(*ascending(a, b, c)), lambda: hel.StretchesFramework(m), True)
    else:
        name, k = "deformation", float(rng.choice([2, 1, 1.5, 3]))
        spec = Spec("generalized", {**desc, "measure": name, "exponent": k}, gi_terms(name, k, e.terms),
                    lambda: hel.GeneralizedInvariantsFramework(m, MEASURES[name][1](), exponent=k), True)
    for sp in SPACES:
        u = R.call("build", spec.space, sp, ctx={"material": spec.describe()})
        if u is FAILED:
            continue
        for step in range(8):
            kinds = [["rest"], ["moderate", "diagonal"], ["tiny"], None, ["large"], ["rest"], ["volumetric"]][
                step if step < 3 else rng.integers(7)]
            trail = [(), (1,), (5,), (2, 3), (4, 1), (2,), (3,), (120,)][rng.integers(8)]
            if kind == "sorted":
                if kinds in (["rest"], ["tiny"], ["volumetric"]):
                    F = np.exp(0.4 * np.sort(rng.uniform(-0.5, 0.5) + np.array([-1, 0, 1.2]))) * np.eye(3)
                    F = np.repeat(F[None], size(trail), axis=0)
                else:
                    F, _ = separated(rng, size(trail))
            elif kinds in (["rest"], ["volumetric"]) or (kind == "inv" and kinds == ["tiny"]):
                F, _ = states(rng, size(trail), kinds)
            else:  # (the reference of nearly equal stretches needs analytic energies)
                F, _ = separated(rng, size(trail))
            ref = Expected(F, spec, sp)
            ctx = {"material": spec.describe(), "space": sp, "trail": trail, "F": F, "step": step, "form seed": seed}
            order = ["gradient", "hessian"] if rng.integers(3) else ["hessian", "gradient"]
            for what in order:
                y = observe(R, u, what, F, trail, ctx=ctx, mech=f"{kind}:varying")
                if y is FAILED:
                    continue
                if what == "gradient":
                    compare_stress(R, y, ref, f"{kind}:varying:stress", ctx)
                else:
                    compare_tangent(R, y, ref, f"{kind}:varying:elasticity", ctx)
            R.bump("varying")
        R.event((spec.key(), sp, "varying"), 16)
    for f in m.forms.used:
        R.bump(f"varying form:{f}")


def run(R):
    rng = np.random.default_rng([SEED, 15])
    constants(R, np.random.default_rng([SEED, 1500]))
    R.require("arguments", 500)
    r = np.random.default_rng([SEED, 1501])
    for i in range(pick(24, 400)):
        varying(R, r, i)
    R.require("varying", 400)
    R.require("varying form:absent in this call", 4)
    boxes_inv = ["tuple", "list", "array", "tuple"]
    boxes_str = ["list", "tuple", "array", "list"]
    kinds = ["inv", "str", "gen", "sorted"]
    n = pick(176, 3200)
    used = set()
    for i in range(n):
        kind = kinds[i % 4]
        seed = int(rng.integers(2**31))
        if kind == "inv":
            e = pick_energy(rng, INV_TERMS, i // 4)
            box = boxes_inv[(i // 4) % 4]
            m = InvModel(e, seed, box)
            spec = Spec("user-invariants", {"energy": e.describe(), "container": box}, _inv_terms(e.terms),
                        lambda: hel.InvariantsFramework(m), False)
        elif kind == "sorted":
            # every subset of the three stretches, alone and coupled
            e = pick_energy(rng, SORTED_TERMS, i // 4)
            box = boxes_str[(i // 4) % 4]
            m = StrModel(e, seed, box)
            spec = Spec("sorted-stretches", {"energy": e.describe(), "container": box},
                        lambda a, b, c: e.terms(*ascending(a, b, c)), lambda: hel.StretchesFramework(m), True)
        elif kind == "str":
            e = pick_energy(rng, STR_TERMS, i // 4)
            box = boxes_str[(i // 4) % 4]
            m = StrModel(e, seed, box)
            spec = Spec("user-stretches", {"energy": e.describe(), "container": box}, e.terms,
                        lambda: hel.StretchesFramework(m), True)
        else:
            e = pick_energy(rng, GEN_TERMS, i // 4)
            box = boxes_inv[(i // 4) % 4]
            name, k = random_measure(rng)
            m = InvModel(e, seed, box)
            spec = Spec("generalized", {"energy": e.describe(), "measure": name, "exponent": k, "container": box},
                        gi_terms(name, k, e.terms),
                        lambda: hel.GeneralizedInvariantsFramework(m, MEASURES[name][1](), exponent=k), True)
        for sp in SPACES:
            for trail in (TRAILS[rng.integers(len(TRAILS))], [(3,), (4, 3), (3, 3), (2, 1, 3), (5,), (), (2,), (4,), (8,), (9,)][rng.integers(10)]):
                if i % 31 == 19:
                    trail = ((150,), (1100,), (30, 7))[i // 31 % 3]
                F, tags, how = batch(rng, trail, separated if kind == "sorted" else (states, states, alike, scaled)[rng.integers(4)])
                if "scaled" in tags:
                    F = representable(rng, F, spec, sp)
                ref = Expected(F, spec, sp)
                u = R.call("build", spec.space, sp, ctx={"material": spec.describe()})
                if u is FAILED:
                    continue
                m.seen.clear()
                ctx = {"material": spec.describe(), "space": sp, "trail": trail, "batch": how, "F": F, "form seed": seed}
                P = observe(R, u, "gradient", F, trail, ctx=ctx, mech=kind)
                A = observe(R, u, "hessian", F, trail, ctx=ctx, mech=kind)
                if P is not FAILED:
                    compare_stress(R, P, ref, f"{kind}:stress", ctx)
                if A is not FAILED:
                    compare_tangent(R, A, ref, f"{kind}:elasticity", ctx)
                # -- what the model was called with
                lam = space_stretches(ref, sp)
                if kind in ("str", "sorted"):
                    want = lam
                    tol = 1e-11 * lam.max(axis=0) * ref.cond**2 + 0 * lam
                elif kind == "inv":
                    x, y, z = lam**2
                    want = x + y + z, x * y + y * z + z * x, x * y * z
                    # I2 and I3 are differences of products of components
                    tol = [1e-11 * lam[2] ** 2 * ref.cond, 1e-11 * lam[2] ** 4 * ref.cond, 1e-11 * lam[2] ** 6]
                else:
                    f = MEASURES[spec.desc["measure"]][0]
                    c1, c2, I10, I20, _ = normalization(spec.desc["measure"], spec.desc["exponent"])
                    kk = spec.desc["exponent"]
                    E = [f(v, kk) for v in lam]
                    dE = [np.abs(f(v * (1 + 1e-3), kk) - f(v, kk)) * 1e3 + np.abs(f(v, kk)) + 1 / abs(kk) for v in lam]
                    want = (c1 * (E[0] + E[1] + E[2] - I10) + I10, c2 * (E[0] * E[1] + E[1] * E[2] + E[2] * E[0] - I20) + I20, E[0] * E[1] * E[2])
                    s = np.max(dE, axis=0)
                    c = 1e-10 * ref.cond**2
                    tol = [c * (1 + abs(c1)) * (s + abs(I10)), c * (1 + abs(c2)) * (s**2 + abs(I20)), c * s**3]
                R.check(len(m.seen) > 0, f"{kind}:not called", "the model was not called", **ctx)
                for seen in m.seen:
                    for j in range(3):
                        if not R.check(seen[j].shape == tuple(trail), f"{kind}:argument:shape", f"argument {j + 1} of shape {seen[j].shape} for batch {trail}", **ctx):
                            break
                        R.close(seen[j].reshape(-1), want[j], 1.0, tol[j], f"{kind}:argument {j + 1}", f"argument {j + 1} of the model", **ctx)
                        R.bump("arguments")
                    if kind in ("str", "sorted") and seen[0].shape == tuple(trail):
                        R.check(bool((seen[0] <= seen[1]).all() and (seen[1] <= seen[2]).all()), "str:order", "stretches are not ascending", **ctx)
                R.event((spec.key(), tuple(sorted(m.forms.used)), sp, tuple(trail)), 2 * len(F))
        used |= m.forms.used
        for f in m.forms.used:
            R.bump(f"form:{f}")
        R.bump(f"container:{box}")
        R.sample({"material": spec.describe(), "forms": sorted(m.forms.used)})
    for f in ("none", "zero", "array", "scalar", "broadcastable", "ones-shape zero"):
        R.require(f"form:{f}", 3)
