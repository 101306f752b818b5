"""Every public way of using the library, as small repeatable calls."""

import numpy as np

from .env import hel
from .materials import INV_TERMS, SPACES, STR_TERMS, Energy, UserInvariants, UserStretches

hm, lab, models = hel.math, hel.lab, hel.models

OPTIONS = [{}, {"force": 0}, {"area": None}, {"force": 0, "area": None}, {"finalize": False}, {"parallel": True}]


def torch_energy(I1, I2, I3, c=0.3):
    return 0.5 * (I1 - 3) + c * (I2 - 3) ** 2 / 10 + (I3 - 1) ** 2 * 0.1 + 0.01 * I1 * I2


def frameworks(rng, torch=True):
    "label -> function building a framework."
    inv = Energy.random(rng, INV_TERMS)
    gen = Energy.random(rng, {k: v for k, v in INV_TERMS.items() if k in ("I1", "I2", "I3", "I1^2", "I1I2", "I1I3", "I2^2")})
    st = Energy.random(rng, STR_TERMS)
    C = {"C10": 0.5, "C01": 0.2, "C11": 0.05, "C20": -0.05, "C30": 0.01}
    out = {
        "tod": lambda: hel.InvariantsFramework(models.invariants.ThirdOrderDeformation(**C)),
        "user-invariants": lambda: hel.InvariantsFramework(UserInvariants(inv, zero="none")),
        "ogden": lambda: hel.StretchesFramework(models.stretches.Ogden(mu=[1.0, -0.2], alpha=[1.7, -2.0])),
        "user-stretches": lambda: hel.StretchesFramework(UserStretches(st, zero="none", container=list)),
        "generalized": lambda: hel.GeneralizedInvariantsFramework(
            models.invariants.ThirdOrderDeformation(**C, strain=True), models.generalized.strain, exponent=1.4),
        "generalized-user": lambda: hel.GeneralizedInvariantsFramework(
            UserInvariants(gen, zero="zero"), models.generalized.deformation, exponent=-1.3),
    }
    if torch:
        out["torch"] = lambda: hel.InvariantsFramework(models.invariants.TorchModel(torch_energy, c=0.4))
    return out


def material(C10=0.5, C01=0.1, C11=0.0, C20=0.0, C30=0.0):
    return hel.DeformationSpace(hel.InvariantsFramework(models.invariants.ThirdOrderDeformation(C10, C01, C11, C20, C30)))


def ogden(mu, alpha):
    return hel.DistortionalSpace(hel.StretchesFramework(models.stretches.Ogden(mu=[mu], alpha=[alpha])))


CASES = (lab.Uniaxial, lab.Planar, lab.Biaxial)


def simulations(x):
    return {
        f"{case.__name__}:{m.__name__}": lab.Simulation(case(), x, labels, m, p)
        for case in CASES
        for m, labels, p in ((material, ["C10", "C01", "C20"], [0.5, 0.1, 0.02]), (ogden, ["mu", "alpha"], [0.8, 2.5]))
    }


def optimize(rng, n=15, mask=None, outlier=False):
    x = np.linspace(1.0, 2.0, n)
    f = x - x**-2 + 0.01 * rng.normal(size=n)
    if outlier:
        f[[3, 7]] += 1.0
    ex = [lab.Experiment("uniaxial", (x - 1) * 100, f * 25, area=25, length=100),
          lab.Experiment("planar", (x - 1) * 100, f * 27, area=25, length=100)]
    sims = [lab.Simulation(c(), e.stretch, ["C10", "C01"], material) for c, e in zip((lab.Uniaxial, lab.Planar), ex)]
    return lab.Optimize(ex, sims, np.ones(2), mask)


def math_calls(rng, trail):
    a = rng.normal(size=(6, *trail))
    b = rng.normal(size=(6, *trail))
    a[:3] += 4
    A, B = rng.normal(size=(6, 6, *trail)), rng.normal(size=(6, 6, *trail))
    T = hm.astensor(a)
    return {
        "asvoigt": lambda: hm.asvoigt(T),
        "asvoigt4": lambda: hm.asvoigt(hm.astensor(A, 4), 4),
        "tril_from_triu": lambda: hm.tril_from_triu(A),
        "triu_from_tril": lambda: hm.triu_from_tril(A),
        "trace": lambda: hm.trace(a), "transpose": lambda: hm.transpose(A), "det": lambda: hm.det(a),
        "inv": lambda: hm.inv(a), "inv:out": lambda: hm.inv(a, out=np.empty_like(a)), "dot": lambda: hm.dot(a, b), "eye": lambda: hm.eye(a),
        "ddot22": lambda: hm.ddot(a, b), "ddot44": lambda: hm.ddot(A, B, mode=(4, 4)),
        "ddot42": lambda: hm.ddot(A, b, mode=(4, 2)), "ddot24": lambda: hm.ddot(a, B, mode=(2, 4)),
        "dya": lambda: hm.dya(a, b), "cdya": lambda: hm.cdya(a, b), "cdya_ik": lambda: hm.cdya_ik(a, b),
        "cdya_il": lambda: hm.cdya_il(a, b), "dev": lambda: hm.dev(a), "eigh": lambda: hm.eigh(a),
        "eigh:fun": lambda: hm.eigh(hm.asvoigt(np.einsum("ij...,kj...->ik...", T, T)), fun=np.sqrt),
    }


def materials(rng, torch=True, parallel=True):
    "(label, function building a finalized material)."
    fw = frameworks(rng, torch)
    i = 0
    for f, make in fw.items():
        for s, cls in SPACES.items():
            opts = [OPTIONS[0], OPTIONS[1 + i % 4]] + ([OPTIONS[5]] if parallel and i % 3 == 0 else [])
            for opt in opts:
                yield (f, s, repr(opt)), (lambda make=make, cls=cls, opt=opt: cls(make(), **opt))
            i += 1


class ModuleInvariants:
    "A user model that can be pickled (an attribute of a module)."

    def __init__(self, a, b):
        self.a, self.b = a, b

    def gradient(self, I1, I2, I3, statevars):
        return self.a + 2 * self.b * (I1 - 3), self.b * I3, self.b * I2 + 0.3 * I3, statevars

    def hessian(self, I1, I2, I3, statevars_old):
        return 2 * self.b, None, 0.3, None, self.b, None


class ModuleStretches:
    def __init__(self, mu):
        self.mu = mu

    def gradient(self, stretches, statevars):
        return [self.mu * (s - s**-2) for s in stretches], statevars

    def hessian(self, stretches, statevars_old):
        return [*(self.mu * (1 + 2 * s**-3) for s in stretches), None, None, None]
