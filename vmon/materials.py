"""Strain energies, the user models built from them, and the materials under
observation.

A Spec knows its energy in two independent ways: as a list of jet-able terms of
the principal stretches (for the reference) and as a factory of a hyperelastic
framework object (the code under observation)."""

import numpy as np

from .env import hel
from .jets import Jet, exp, full, log, sqrt

ORDER6 = ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2))

SPACES = {
    "Deformation": hel.DeformationSpace,
    "Distortional": hel.DistortionalSpace,
    "Dilatational": hel.DilatationalSpace,
}

# -- energies in the invariants -----------------------------------------------------
# name -> (maker(rng) -> parameters, f(I1, I2, I3, *parameters), magnitude)
INV_TERMS = {
    "I1": (lambda r: (), lambda a, b, c: a - 3, 1.0),
    "I2": (lambda r: (), lambda a, b, c: b - 3, 0.5),
    "I3": (lambda r: (), lambda a, b, c: c - 1, 0.5),
    "I1^2": (lambda r: (), lambda a, b, c: (a - 3) ** 2, 0.1),
    "I2^2": (lambda r: (), lambda a, b, c: (b - 3) ** 2, 0.02),
    "I3^2": (lambda r: (), lambda a, b, c: (c - 1) ** 2, 0.05),
    "I1^3": (lambda r: (), lambda a, b, c: (a - 3) ** 3, 0.01),
    "I1I2": (lambda r: (), lambda a, b, c: (a - 3) * (b - 3), 0.05),
    "I1I3": (lambda r: (), lambda a, b, c: (a - 3) * (c - 1), 0.05),
    "I2I3": (lambda r: (), lambda a, b, c: (b - 3) * (c - 1), 0.02),
    "I1I2I3": (lambda r: (), lambda a, b, c: a * b * c, 0.002),
    "(J-1)^2": (lambda r: (), lambda a, b, c: (sqrt(c) - 1) ** 2, 1.0),
    "lnI3": (lambda r: (), lambda a, b, c: log(c), 0.5),
    "ln^2I3": (lambda r: (), lambda a, b, c: log(c) ** 2, 0.25),
    "1/I3": (lambda r: (), lambda a, b, c: c**-1.0, 0.2),
    "I1iso": (lambda r: (), lambda a, b, c: a * c ** (-1.0 / 3.0), 1.0),
    "I2iso": (lambda r: (), lambda a, b, c: b * c ** (-2.0 / 3.0), 0.5),
    "I2/I3": (lambda r: (), lambda a, b, c: b / c, 0.5),
    "expI1": (lambda r: (float(r.uniform(0.01, 0.08)),),
              lambda a, b, c, k: exp(k * (a - 3)), 1.0),
    "expI2I3": (lambda r: (float(r.uniform(0.01, 0.03)),),
                lambda a, b, c, k: exp(k * (b - 3)) * c ** -0.5, 0.5),
    "sqrtI2": (lambda r: (), lambda a, b, c: sqrt(b), 1.0),
    "lnI1": (lambda r: (), lambda a, b, c: log(a / 3), 1.0),
    "lnI2": (lambda r: (), lambda a, b, c: log(b / 3), 1.0),
    "gent": (lambda r: (float(r.uniform(500, 900)),),
             lambda a, b, c, k: -k / 2 * log(1 - (a - 3) / k), 1.0),
    "I1^q": (lambda r: (float(r.uniform(-1.5, 2.5)),), lambda a, b, c, q: a**q, 0.3),
    "I3^q": (lambda r: (float(r.uniform(-1.5, 1.5)),), lambda a, b, c, q: c**q, 0.3),
}

# -- energies in the stretches (symmetric functions) ---------------------------------
STR_TERMS = {
    "ogden": (lambda r: (float(r.choice([-4, -2, -1, 0.5, 1, 1.3, 2, 3, 4.7])),),
              lambda a, b, c, k: (a**k + b**k + c**k - 3.0) * (2 / k**2), 1.0),
    "hencky": (lambda r: (), lambda a, b, c: log(a) ** 2 + log(b) ** 2 + log(c) ** 2, 1.0),
    "valanis-landel": (lambda r: (), lambda a, b, c: a * log(a) + b * log(b) + c * log(c) - a - b - c, 1.0),
    "exp": (lambda r: (float(r.uniform(-0.8, 0.8)),),
            lambda a, b, c, k: exp(k * (a - 1)) + exp(k * (b - 1)) + exp(k * (c - 1)), 1.0),
    "biot^2": (lambda r: (), lambda a, b, c: (a + b + c - 3) ** 2, 0.5),
    "i2": (lambda r: (), lambda a, b, c: a * b + b * c + c * a, 1.0),
    "i1i2": (lambda r: (), lambda a, b, c: (a + b + c) * (a * b + b * c + c * a), 0.1),
    "i2^2": (lambda r: (), lambda a, b, c: (a * b + b * c + c * a) ** 2, 0.1),
    "(J-1)^2": (lambda r: (), lambda a, b, c: (a * b * c - 1) ** 2, 0.5),
    "ln^2J": (lambda r: (), lambda a, b, c: log(a * b * c) ** 2, 0.5),
    "lnJ": (lambda r: (), lambda a, b, c: log(a * b * c), 0.5),
    "i1J": (lambda r: (), lambda a, b, c: (a + b + c) * (a * b * c), 0.1),
    "exp(i1)": (lambda r: (float(r.uniform(0.1, 0.4)),),
                lambda a, b, c, k: exp(k * (a + b + c - 3)), 0.5),
    "i1^2/i2": (lambda r: (), lambda a, b, c: (a + b + c) ** 2 / (a * b + b * c + c * a), 1.0),
    "pairs": (lambda r: (float(r.choice([-2, -1, 2, 3])),),
              lambda a, b, c, k: (a * b) ** k + (b * c) ** k + (c * a) ** k, 0.3),
}


# the stress unit of the materials made by spec_stream
_unit = [1.0]


class Energy:
    "A sum of named terms with coefficients."

    def __init__(self, pool, items):
        self.pool = pool
        self.items = [(n, float(c), tuple(p)) for n, c, p in items]

    @classmethod
    def random(cls, rng, pool, n=None, names=None):
        if names is None:
            n = int(rng.integers(1, 5)) if n is None else n
            names = rng.choice(list(pool), size=n, replace=False)
        items = []
        for k in names:
            make, _, mag = pool[str(k)]
            c = _unit[0] * mag * rng.uniform(0.3, 2.0) * (1 if rng.uniform() < 0.75 else -1)
            items.append((str(k), c, make(rng)))
        return cls(pool, items)

    def terms(self, a, b, c):
        return [w * self.pool[n][1](a, b, c, *p) for n, w, p in self.items]

    def __call__(self, a, b, c):
        out = 0.0
        for t in self.terms(a, b, c):
            out = out + t
        return out

    def scaled(self, s):
        return Energy(self.pool, [(n, s * w, p) for n, w, p in self.items])

    def plus(self, other):
        return Energy(self.pool, self.items + other.items)

    def describe(self):
        return [[n, w, list(p)] for n, w, p in self.items]

    def mask(self):
        "Which first and second derivatives are identically zero."
        r = np.random.default_rng(20240229)
        x = Jet.variables(*r.uniform(0.8, 2.0, (3, 7)))
        g = np.zeros(3)
        h = np.zeros((3, 3))
        for t in self.terms(*x):
            t = full(t, x[0])
            g += np.abs(t.g).max(axis=1)
            h += np.abs(t.h).max(axis=2)
        return g == 0, h == 0


def derivatives(energy, a, b, c):
    x = Jet.variables(a, b, c)
    j = full(energy(*x), x[0])
    return j.v, j.g, j.h


class UserInvariants:
    """A user-written invariants model following the README template.

    zero: how identically zero derivatives are reported ("none", "zero" scalar,
    "array").  The model is also a spy: the arguments it was called with are kept in
    ``calls`` when ``spy`` is set."""

    def __init__(self, energy, zero="none", container=tuple, spy=False):
        self.energy, self.zero, self.container = energy, zero, container
        self.mg, self.mh = energy.mask()
        self.spy = spy
        self.calls = []

    def _pack(self, value, is_zero):
        if is_zero:
            if self.zero == "none":
                return None
            if self.zero == "zero":
                return 0.0
        return value

    def gradient(self, I1, I2, I3, statevars):
        if self.spy:
            self.calls.append(("gradient", np.array(I1), np.array(I2), np.array(I3)))
        _, g, _ = derivatives(self.energy, I1, I2, I3)
        return self.container([*[self._pack(g[i], self.mg[i]) for i in range(3)], statevars])

    def hessian(self, I1, I2, I3, statevars):
        if self.spy:
            self.calls.append(("hessian", np.array(I1), np.array(I2), np.array(I3)))
        _, _, h = derivatives(self.energy, I1, I2, I3)
        return self.container([self._pack(h[i, j], self.mh[i, j]) for i, j in ORDER6])


class UserStretches:
    "A user-written principal-stretch model following the README template."

    def __init__(self, energy, zero="none", container=tuple, spy=False, absent=False):
        self.energy, self.zero, self.container = energy, zero, container
        self.mg, self.mh = energy.mask()
        self.spy = spy
        self.absent = absent  # report absent first derivatives, too
        self.calls = []

    def gradient(self, stretches, statevars):
        if self.spy:
            self.calls.append(("gradient", np.array(stretches)))
        _, g, _ = derivatives(self.energy, *stretches)
        if self.container is np.array:
            return g, statevars
        g = list(g)
        if self.absent and self.zero != "array":
            g = [(None if self.zero == "none" else 0.0) if self.mg[i] else g[i] for i in range(3)]
        return self.container(g), statevars

    def hessian(self, stretches, statevars):
        if self.spy:
            self.calls.append(("hessian", np.array(stretches)))
        _, _, h = derivatives(self.energy, *stretches)
        out = []
        for i, j in ORDER6:
            if self.mh[i, j] and self.zero == "none":
                out.append(None)
            elif self.mh[i, j] and self.zero == "zero":
                out.append(0.0)
            else:
                out.append(h[i, j])
        if self.container is np.array:
            return np.array([h[i, j] for i, j in ORDER6])
        return self.container(out)


# -- strain and deformation measures ---------------------------------------------------
def measure_strain(x, k):
    return (x**k - 1.0) / k


def measure_deformation(x, k):
    return x**k


def measure_mixed(x, k):
    "A user-written measure: neither of the built-in ones."
    return x**2 + k * x**3


def user_mixed(stretch, exponent):
    λ, k = stretch, exponent
    return (
        λ**2 + k * λ**3,
        2 * λ + 3 * k * λ**2,
        2 + 6 * k * λ,
        1.0,
        2.0,
        2.0,
    )


def measure_exp(x, k):
    return (exp(k * (x - 1.0)) - 1.0) / k


def user_exp(stretch, exponent):
    λ, k = stretch, exponent
    e = np.exp(k * (λ - 1.0))
    return (e - 1.0) / k, e, k * e, 0.0, 1.0, 1.0


MEASURES = {
    "strain": (measure_strain, lambda: hel.models.generalized.strain, (0.0, 1.0, 1.0)),
    "deformation": (measure_deformation, lambda: hel.models.generalized.deformation, (1.0, 2.0, 2.0)),
    "user-mixed": (measure_mixed, lambda: user_mixed, (1.0, 2.0, 2.0)),
    "user-exp": (measure_exp, lambda: user_exp, (0.0, 1.0, 1.0)),
}


def measure_at_one(f, k):
    x = Jet.variables(np.array([1.0]), np.array([1.0]), np.array([1.0]))[0]
    j = full(f(x, k), x)
    return float(j.v[0]), float(j.g[0, 0]), float(j.h[0, 0, 0])


def normalization(name, k):
    "The documented coefficients c1, c2 and the undeformed values."
    f, _, (E0, d0, dd0) = MEASURES[name]
    E, d, dd = measure_at_one(f, k)
    j1 = lambda E, d, dd: 1.5 * (dd + d)  # noqa: E731
    j2 = lambda E, d, dd: 1.5 * (2 * E * (dd + d) - d**2)  # noqa: E731
    c1 = j1(E0, d0, dd0) / j1(E, d, dd)
    c2 = j2(E0, d0, dd0) / j2(E, d, dd)
    return c1, c2, 3 * E, 3 * E**2, E**3


# energies in generalized invariants: any real argument allowed (strain measures may
# be zero or negative)
GEN_TERMS = {
    "I1": (lambda r: (), lambda a, b, c: a, 1.0),
    "I2": (lambda r: (), lambda a, b, c: b, 0.4),
    "I3": (lambda r: (), lambda a, b, c: c, 0.4),
    "I1^2": (lambda r: (), lambda a, b, c: a**2, 0.2),
    "I2^2": (lambda r: (), lambda a, b, c: b**2, 0.05),
    "I3^2": (lambda r: (), lambda a, b, c: c**2, 0.05),
    "I1I2": (lambda r: (), lambda a, b, c: a * b, 0.1),
    "I2I3": (lambda r: (), lambda a, b, c: b * c, 0.05),
    "I1I3": (lambda r: (), lambda a, b, c: a * c, 0.1),
    "I1^3": (lambda r: (), lambda a, b, c: a**3, 0.02),
    "I1I2I3": (lambda r: (), lambda a, b, c: a * b * c, 0.01),
    "1/(1+q)": (lambda r: (), lambda a, b, c: 1.0 / (1.0 + 0.1 * (a * a + b * b)), 1.0),
    "ln(1+q)": (lambda r: (), lambda a, b, c: log(1.0 + 0.1 * (a * a + c * c)), 1.0),
    "sqrt(1+q)": (lambda r: (), lambda a, b, c: sqrt(1.0 + 0.1 * (b * b + c * c)), 1.0),
}


class Spec:
    """One material energy.

    kind, desc: what it is; terms(l1, l2, l3): list of jets; build(**kw): a fresh
    framework; tol: precision factor; spectral: uses the eigen-decomposition."""

    def __init__(self, kind, desc, terms, build, spectral, tol=1.0, model=None):
        self.kind, self.desc, self.terms, self.build = kind, desc, terms, build
        self.spectral, self.tol, self.model = spectral, tol, model

    def describe(self):
        return {"kind": self.kind, **self.desc}

    def key(self):
        return repr(sorted(self.describe().items(), key=lambda x: x[0]))

    def space(self, name, framework=None, **kw):
        return SPACES[name](self.build() if framework is None else framework, **kw)


def invariants(a, b, c):
    x, y, z = a * a, b * b, c * c
    return x + y + z, x * y + y * z + z * x, x * y * z


def _inv_terms(fun_terms):
    return lambda a, b, c: fun_terms(*invariants(a, b, c))


TOD = ("C10", "C01", "C11", "C20", "C30")


def tod_terms(C, strain=False):
    o = 0.0 if strain else 3.0

    def f(I1, I2, I3):
        p, q = I1 - o, I2 - o
        return [
            C.get("C10", 0) * p,
            C.get("C01", 0) * q,
            C.get("C11", 0) * p * q,
            C.get("C20", 0) * p**2,
            C.get("C30", 0) * p**3,
        ]

    return f


def random_tod(rng, pattern=None):
    mags = dict(C10=0.5, C01=0.3, C11=0.05, C20=0.1, C30=0.02)
    if pattern is None:
        pattern = rng.integers(0, 2, 5)
        if not pattern.any():
            pattern[rng.integers(5)] = 1
    C = {}
    for on, n in zip(pattern, TOD):
        if on:
            C[n] = float(_unit[0] * mags[n] * rng.uniform(0.3, 2) * rng.choice([1, 1, -1]))
        elif rng.integers(2):
            C[n] = 0
    return C


_form = [0]


def make_tod(C, s):
    "The built-in model, with its defaults omitted or not, by keyword or by position."
    _form[0] += 1
    f = _form[0] % 3
    s = (bool, np.bool_, int)[_form[0] // 3 % 3](s)
    if f == 1 and not s:
        return hel.models.invariants.ThirdOrderDeformation(**C)
    if f == 2:
        return hel.models.invariants.ThirdOrderDeformation(*[C.get(n, 0) for n in TOD], s)
    return hel.models.invariants.ThirdOrderDeformation(**C, strain=s)


def spec_tod(rng, pattern=None, strain=None, C=None):
    C = random_tod(rng, pattern) if C is None else C
    s = bool(rng.uniform() < 0.25) if strain is None else strain

    def model():
        return make_tod(C, s)

    return Spec(
        "tod", {"C": C, "strain": s}, _inv_terms(tod_terms(C, s)),
        lambda **kw: hel.InvariantsFramework(model(), **kw), False, model=model,
    )


def ogden_terms(mu, al):
    def f(a, b, c):
        return [2 * m / k**2 * (a**k + b**k + c**k - 3.0) for m, k in zip(mu, al)]

    return f


def spec_ogden(rng, n=None, alpha=None):
    wide = rng.integers(6) == 0
    if n is None:
        n = int(rng.integers(5, 13)) if rng.integers(10) == 0 else int(rng.integers(1, 5))
    mu = [float(_unit[0] * rng.uniform(0.2, 2) * rng.choice([1, 1, -1])) for _ in range(n)]
    al = [float(rng.choice([rng.uniform(-5, -0.3), rng.uniform(0.3, 6), 2, -2, 1, 4,
                          1 + 1e-6, 2 - 3e-8])) for _ in range(n)]
    if wide:  # nearly logarithmic, steep
        al[int(rng.integers(n))] = float(rng.choice([-1, 1]) * rng.choice([rng.uniform(0.02, 0.3), rng.uniform(6, 14), 6, 8, 10, 0.5, 0.25]))

    if alpha is not None:
        mu, al = mu[:1] * len(alpha), [float(a) for a in alpha]

    def model():
        _form[0] += 1
        if _form[0] % 2:
            return hel.models.stretches.Ogden(mu, al)
        return hel.models.stretches.Ogden(alpha=al, mu=mu)

    return Spec(
        "ogden", {"mu": mu, "alpha": al}, ogden_terms(mu, al),
        lambda **kw: hel.StretchesFramework(model(), **kw), True, model=model,
    )


def spec_user_inv(rng, energy=None, zero=None, **mk):
    e = Energy.random(rng, INV_TERMS) if energy is None else energy
    z = str(rng.choice(["none", "none", "zero", "array"])) if zero is None else zero

    def model():
        return UserInvariants(e, zero=z, **mk)

    return Spec(
        "user-invariants", {"energy": e.describe(), "zero": z}, _inv_terms(e.terms),
        lambda **kw: hel.InvariantsFramework(model(), **kw), False, model=model,
    )


def spec_user_str(rng, energy=None, zero=None, container=None, **mk):
    e = Energy.random(rng, STR_TERMS) if energy is None else energy
    z = str(rng.choice(["none", "zero", "array"])) if zero is None else zero
    c = [tuple, list, np.array][rng.integers(3)] if container is None else container

    def model():
        return UserStretches(e, zero=z, container=c, **mk)

    return Spec(
        "user-stretches",
        {"energy": e.describe(), "zero": z, "container": c.__name__}, e.terms,
        lambda **kw: hel.StretchesFramework(model(), **kw), True, model=model,
    )


def gi_terms(name, k, fun_terms):
    f = MEASURES[name][0]
    c1, c2, I10, I20, _ = normalization(name, k)

    def g(a, b, c):
        x, y, z = f(a, k), f(b, k), f(c, k)
        J1, J2, J3 = x + y + z, x * y + y * z + z * x, x * y * z
        return fun_terms(c1 * (J1 - I10) + I10, c2 * (J2 - I20) + I20, J3)

    return g


def random_measure(rng):
    name = str(rng.choice(["strain", "strain", "deformation", "deformation", "user-mixed", "user-exp"]))
    if name in ("strain", "deformation"):
        k = float(rng.choice([rng.uniform(-3, -0.4), rng.uniform(0.4, 4), 2, 1, -2, 3, -1]))
        if rng.integers(4) == 0:
            k = int(rng.choice([1, 2, 3, 4]))
        elif rng.integers(6) == 0:
            k = float(rng.choice([-1, 1]) * rng.choice([rng.uniform(0.1, 0.4), rng.uniform(4, 7), 5, 6, 0.5, 0.25]))
    else:
        k = float(rng.uniform(0.1, 0.6))
    return name, k


def spec_gi(rng, energy=None, measure=None, builtin=None):
    name, k = random_measure(rng) if measure is None else measure
    fun = MEASURES[name][1]
    use_tod = (rng.uniform() < 0.35) if builtin is None else builtin
    if use_tod:
        C = random_tod(rng)
        s = name in ("strain", "user-exp")
        ft = tod_terms(C, s)
        desc = {"C": C, "strain": s}

        def model():
            return make_tod(C, s)
    else:
        e = Energy.random(rng, GEN_TERMS) if energy is None else energy
        z = str(rng.choice(["none", "zero", "array"]))
        ft = e.terms
        desc = {"energy": e.describe(), "zero": z}

        def model():
            return UserInvariants(e, zero=z)

    return Spec(
        "generalized", {"measure": name, "exponent": k, **desc}, gi_terms(name, k, ft),
        lambda **kw: hel.GeneralizedInvariantsFramework(model(), fun(), exponent=k, **kw),
        True, model=model,
    )


def spec_torch(rng, energy=None, dtype=None):
    import torch

    e = Energy.random(rng, INV_TERMS) if energy is None else energy
    torch.set_default_dtype(torch.float64)

    def model():
        return hel.models.invariants.TorchModel(lambda I1, I2, I3: e(I1, I2, I3))

    return Spec(
        "torch", {"energy": e.describe()}, _inv_terms(e.terms),
        lambda **kw: hel.InvariantsFramework(model(), **kw), False, model=model,
    )


# -- energies of the sorted stretches ---------------------------------------------------
def ascending(a, b, c):
    "The jets sorted by value."
    v = np.array([a.v, b.v, c.v])
    g = np.array([a.g, b.g, c.g])
    h = np.array([a.h, b.h, c.h])
    o = np.argsort(v, axis=0, kind="stable")
    v = np.take_along_axis(v, o, 0)
    g = np.take_along_axis(g, o[:, None], 0)
    h = np.take_along_axis(h, o[:, None, None], 0)
    return [Jet(v[i], g[i], h[i]) for i in range(3)]


# smallest, middle, largest
SORTED_TERMS = {
    "max": (lambda r: (), lambda a, b, c: c, 1.0),
    "mid": (lambda r: (), lambda a, b, c: b, 1.0),
    "min": (lambda r: (), lambda a, b, c: a, 1.0),
    "max^k": (lambda r: (float(r.choice([-2, -1, 2, 3, 1.5])),), lambda a, b, c, k: c**k, 0.5),
    "mid^k": (lambda r: (float(r.choice([-2, -1, 2, 3, 1.5])),), lambda a, b, c, k: b**k, 0.5),
    "min^k": (lambda r: (float(r.choice([-2, -1, 2, 3, 1.5])),), lambda a, b, c, k: a**k, 0.5),
    "max*mid": (lambda r: (), lambda a, b, c: c * b, 0.5),
    "max*min": (lambda r: (), lambda a, b, c: c * a, 0.5),
    "mid*min": (lambda r: (), lambda a, b, c: b * a, 0.5),
    "ln(max/min)": (lambda r: (), lambda a, b, c: log(c / a), 1.0),
    "tresca^2": (lambda r: (), lambda a, b, c: log(c / a) ** 2, 1.0),
    "mid/max": (lambda r: (), lambda a, b, c: b / c, 1.0),
}


def spec_sorted(rng, energy=None, zero=None, container=None, **mk):
    "A principal-stretch model which is not symmetric in the (ascending) stretches."
    e = Energy.random(rng, SORTED_TERMS) if energy is None else energy
    z = str(rng.choice(["none", "none", "zero", "array"])) if zero is None else zero
    c = [tuple, list, np.array][rng.integers(3)] if container is None else container

    def model():
        return UserStretches(e, zero=z, container=c, absent=True, **mk)

    return Spec(
        "sorted-stretches",
        {"energy": e.describe(), "zero": z, "container": c.__name__},
        lambda a, b, c: e.terms(*ascending(a, b, c)),
        lambda **kw: hel.StretchesFramework(model(), **kw), True, model=model,
    )


# -- per-point coefficients ---------------------------------------------------------------
class FieldModel:
    """A user model with material parameters that vary from point to point: the sum of
    coefficients times energies, ``coef`` a list of arrays of the batch's shape."""

    def __init__(self, energies, coef, stretches):
        self.energies, self.coef, self.stretches = energies, coef, stretches
        m = [e.mask() for e in energies]
        self.mg = np.all([x[0] for x in m], axis=0)
        self.mh = np.all([x[1] for x in m], axis=0)

    def _sum(self, args):
        G = H = 0.0
        for e, c in zip(self.energies, self.coef):
            _, g, h = derivatives(e, *args)
            G = G + c * g
            H = H + c * h
        return G, H

    def gradient(self, *args):
        *args, statevars = args
        G, _ = self._sum(args[0] if self.stretches else args)
        g = [None if self.mg[i] else G[i] for i in range(3)]
        return (g, statevars) if self.stretches else (*g, statevars)

    def hessian(self, *args):
        *args, statevars = args
        _, H = self._sum(args[0] if self.stretches else args)
        return [None if self.mh[i, j] else H[i, j] for i, j in ORDER6]


FIELD_PATTERNS = ("cancel", "one", "first-zero", "last-zero", "none", "negative", "alternate", "many-zero",
                  "two-scales", "random")


def field_pattern(rng, n, kind):
    "n coefficients."
    c = rng.uniform(0.3, 2.0, n)
    if kind == "cancel":  # sums to exactly zero
        c = np.where(np.arange(n) < n // 2, 1.25, -1.25)
        if n % 2:
            c[-1] = 0.0
        c = rng.permutation(c)
    elif kind == "one":
        c = np.where(np.arange(n) == rng.integers(max(n, 1)), c, 0.0)
    elif kind == "first-zero":
        c[:1] = 0.0
    elif kind == "last-zero":
        c[-1:] = 0.0
    elif kind == "none":
        c = 0.0 * c
    elif kind == "negative":
        c = -c
    elif kind == "alternate":
        c = c * (-1.0) ** np.arange(n)
    elif kind == "many-zero":
        c = c * (rng.uniform(size=n) < 0.3)
    elif kind == "two-scales":
        c = c * np.where(rng.integers(2, size=n) == 1, 1.0, 1e-9)
    return c


MAKERS = {
    "tod": spec_tod,
    "ogden": spec_ogden,
    "user-invariants": spec_user_inv,
    "user-stretches": spec_user_str,
    "generalized": spec_gi,
    "torch": spec_torch,
}


ALL_MAKERS = {**MAKERS, "sorted-stretches": spec_sorted}


def framework(spec, model, **kw):
    "The framework of a material with another model object (a wrapper) in it."
    if spec.kind in ("ogden", "user-stretches", "sorted-stretches"):
        return hel.StretchesFramework(model, **kw)
    if spec.kind == "generalized":
        fun = MEASURES[spec.desc["measure"]][1]()
        return hel.GeneralizedInvariantsFramework(model, fun, exponent=spec.desc["exponent"], **kw)
    return hel.InvariantsFramework(model, **kw)


def random_spec(rng, kinds=None):
    kinds = list(kinds or MAKERS)
    return MAKERS[str(rng.choice(kinds))](rng)


def spec_stream(rng, n, kinds=None, units=0.25):
    "n materials cycling over all kinds, a share of them in other stress units."
    kinds = list(kinds or MAKERS)
    for i in range(n):
        _unit[0] = 10.0 ** rng.uniform(-12, 12) if rng.uniform() < units else 1.0
        try:
            spec = ALL_MAKERS[kinds[i % len(kinds)]](rng)
        finally:
            _unit[0] = 1.0
        yield spec


def single_specs(rng, kinds=("user-invariants", "torch", "user-stretches", "generalized", "sorted-stretches")):
    "One material per named term of every pool: each derivative alone."
    pools = {
        "user-invariants": (INV_TERMS, spec_user_inv), "torch": (INV_TERMS, spec_torch),
        "user-stretches": (STR_TERMS, spec_user_str), "generalized": (GEN_TERMS, spec_gi),
        "sorted-stretches": (SORTED_TERMS, spec_sorted),
    }
    for kind in kinds:
        pool, make = pools[kind]
        for name in pool:
            e = Energy.random(rng, pool, names=[name])
            yield make(rng, energy=e, **({"builtin": False} if kind == "generalized" else {}))
