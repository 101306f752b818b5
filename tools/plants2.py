"""Second generation of planted bugs: shortcuts, thresholds, caches, fallbacks."""

from plants import (DEF, DIL, DIS, EXP, FDP, GIM, INV, LOD, OGD, OPT, PLT, SIM, SPC, STR, TOD, TOR, USER, VGT, plant)

TODM = "mat = lambda **k: hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(**k)))\n"
UREF = """
def F0(s=0.3):
    return np.eye(3) + s * rng.uniform(-1, 1, (3, 3))
def grad(u, F):
    return np.asarray(u.gradient([F[..., None], None])[0])[..., 0]
def hess(u, F):
    return np.asarray(u.hessian([F[..., None], None])[0])[..., 0]
"""

# ---------------------------------------------------------------- C01
plant("C01-cancelling-batch", "C01",
      [(INV, "        if self.dWdI3 is not None:\n            self.invC = invC = inv(C, determinant=self.I3)\n            self.dI3dC = I3 * invC\n            dWdC = dWdC + self.dWdI3 * self.dI3dC\n",
        "        if self.dWdI3 is not None:\n            self.invC = invC = inv(C, determinant=self.I3)\n            self.dI3dC = I3 * invC\n            if np.sum(self.dWdI3) != 0:\n                dWdC = dWdC + self.dWdI3 * self.dI3dC\n")],
      USER + UREF + """
# psi = 2 (I3 - 1)^2: batch of one expanded and one compressed point
m = User(lambda a, b, c: (None, None, 4 * (c - 1)), lambda a, b, c: [None, None, 4.0, None, None, None])
u = hel.DeformationSpace(hel.InvariantsFramework(m))
F = np.stack([np.diag([np.sqrt(1.5), 1, 1]), np.diag([np.sqrt(0.5), 1, 1])], axis=-1)
from hyperelastic.math import asvoigt, det
d = det(asvoigt(np.einsum("kIq,kJq->IJq", F, F)))
# the third derivative terms of the batch cancel exactly in this energy about its mean
c0 = d.mean()
m = User(lambda a, b, c: (None, None, np.where(c > c0, 3.0, -3.0)), lambda a, b, c: [None] * 6)
u = hel.DeformationSpace(hel.InvariantsFramework(m))
P = u.gradient([F, None])[0]
for q, s in enumerate([3.0, -3.0]):
    check(np.allclose(P[..., q], 2 * s * d[q] * np.linalg.inv(F[..., q]).T), "stress of a cancelling batch")
""", "a batch whose derivatives with respect to the third invariant sum to exactly zero",
      "the contribution of the third invariant is skipped")

plant("C01-guarded-stretch", "C01",
      [(STR, "        self.dWdλC = self.dWdλ / (2 * self.λ)\n", "        self.dWdλC = self.dWdλ / (2 * np.maximum(self.λ, 0.06))\n")],
      UREF + """
u = hel.DeformationSpace(hel.StretchesFramework(M.stretches.Ogden(mu=[1.0], alpha=[2])))
F = np.diag([0.05, 1.2, 2.0])
check(np.allclose(grad(u, F), F), "strongly compressed direction")
""", "a principal stretch below 0.06", "the stress of strongly compressed directions is too small")

plant("C01-largest-stretch-only", "C01",
      [(STR, "                if dWdλ[a] is not None:\n                    _dWdλ[a] = dWdλ[a]\n",
        "                if dWdλ[a] is None:\n                    break\n                _dWdλ[a] = dWdλ[a]\n")],
      UREF + """
class Largest:
    "psi = l3^2, the squared largest stretch"
    def gradient(self, l, statevars):
        return [None, None, 2 * l[2]], statevars
    def hessian(self, l, statevars):
        return [None, None, 2.0, None, None, None]
u = hel.DeformationSpace(hel.StretchesFramework(Largest()))
F = np.diag([0.8, 1.1, 1.9])
check(np.allclose(grad(u, F), np.diag([0, 0, 3.8])), "energy of the largest stretch")
""", "a principal-stretch model whose derivatives start with an absent one", "the derivatives after an absent one are ignored")

# ---------------------------------------------------------------- C02
plant("C02-coupling-of-first-and-third", "C02",
      [(INV, "        if d2WdI1dI3 is not None:\n", "        if d2WdI1dI3 is not None and self.dWdI2 is not None:\n")],
      FDP + USER + UREF + """
m = User(lambda a, b, c: (c, None, a), lambda a, b, c: [None, None, None, None, None, 1.0])
u = hel.DeformationSpace(hel.InvariantsFramework(m))
F = F0()
check(np.allclose(hess(u, F), fd(u, F), rtol=1e-5, atol=1e-5), "elasticity of psi = I1 I3")
""", "an energy coupling the first and third invariants which does not depend on the second", "the coupling term of the elasticity is missing")

plant("C02-equal-curvatures", "C02",
      [(STR, "        d2WdλC2[:3] -= dWdλC / (2 * λ**2)\n", "        # only the curvatures of the isotropic part are corrected\n        d2WdλC2[:3] -= np.where(λ < 6, dWdλC / (2 * λ**2), 0)\n")],
      FDP + UREF + """
u = hel.DeformationSpace(hel.StretchesFramework(M.stretches.Ogden(mu=[1.0], alpha=[1.5])))
F = np.diag([0.4, 0.4, 6.5])
check(np.allclose(hess(u, F), fd(u, F), rtol=1e-5, atol=1e-5), "elasticity at a large stretch")
""", "a principal stretch above six", "a term of the elasticity is dropped at large stretches")

plant("C02-small-shear-stiffness", "C02",
      [(STR, "                d2WdCdC += d2WdλC2[m] * transpose(M4) + f * 2 * cdya(M[α], M[β])\n",
        "                d2WdCdC += d2WdλC2[m] * transpose(M4)\n                if np.any(np.abs(f) > 1e-3):\n                    d2WdCdC += f * 2 * cdya(M[α], M[β])\n")],
      FDP + UREF + """
u = hel.DeformationSpace(hel.StretchesFramework(M.stretches.Ogden(mu=[1e-4], alpha=[1.0])))
F = F0(0.1)
check(np.allclose(hess(u, F) / 1e-4, fd(u, F, 1e-5) / 1e-4, rtol=1e-5, atol=1e-4), "elasticity with negative differences of stresses")
""", "differences of the principal stresses which are small for the whole batch", "the shear part of the elasticity is dropped")

# ---------------------------------------------------------------- C03
plant("C03-negative-curvature", "C03",
      [(DIS, "        if np.any(C4b):\n", "        if np.any(C4b > 0):\n")],
      FDP + UREF + """
u = hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C20=-0.1)))
F = F0(0.3)
check(np.allclose(hess(u, F), fd(u, F), rtol=1e-5, atol=1e-5), "softening energy")
""", "an energy whose curvature tensor has no positive component (negative C20 only)", "the material elasticity is skipped")

plant("C03-pressure-of-large-volumes", "C03",
      [(DIS, "        self.S = Sb - SbC / 3 * invC\n", "        self.S = Sb - np.clip(SbC, -1e3, 1e3) / 3 * invC\n")],
      UREF + """
u = hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=1e3)))
F = F0(0.3)
P = grad(u, F)
check(abs(np.trace(P @ F.T)) < 1e-6, "the Cauchy stress is not deviatoric")
""", "stress-like parameters of 1000 and more", "the hydrostatic part is not removed completely")

# ---------------------------------------------------------------- C04
plant("C04-spherical-shortcut", "C04",
      [(DIL, "        self.invC = inv(self.C, determinant=self.I3)\n", "        if np.allclose(self.C, self.Co):\n            self.invC = inv(self.Co, determinant=self.I3)\n        else:\n            self.invC = inv(self.C, determinant=self.I3)\n")],
      USER + UREF + """
m = User(lambda a, b, c: (None, None, c - 3.0), lambda a, b, c: [None, None, 1.0, None, None, None])
u = hel.DilatationalSpace(hel.InvariantsFramework(m))
F = 1.3 * (np.eye(3) + 1e-6 * np.diag([1, -1, 0]))
P = grad(u, F)
s = P @ F.T
check(np.abs(s - np.trace(s) / 3 * np.eye(3)).max() / abs(np.trace(s)) < 1e-9, "the Cauchy stress is not spherical")
""", "a batch of almost purely volumetric deformations (distortions below 1e-5)", "the Cauchy stress has a deviatoric part")

plant("C04-mean-of-normal-components", "C04",
      [(DIL, "        self.tr_Sb = trace(self.Sb)\n", "        # spherical: all normal components are equal\n        self.tr_Sb = 3 * self.Sb[0]\n"),
       (DIL, "        tr_C4b = ddot(ddot(I, C4b, mode=(2, 4)), I)\n", "        tr_C4b = 3 * np.sum(C4b[:3, 0], axis=0)\n")],
      UREF + """
class Largest:
    "psi = l3^3, the largest stretch"
    def gradient(self, l, statevars):
        return np.array([0 * l[0], 0 * l[0], 3 * l[2] ** 2]), statevars
    def hessian(self, l, statevars):
        return np.array([0 * l[0], 0 * l[0], 6 * l[2], 0 * l[0], 0 * l[0], 0 * l[0]])
u = hel.DilatationalSpace(hel.StretchesFramework(Largest()))
F = F0(0.3)
J = np.linalg.det(F)
P = grad(u, F)
check(np.allclose(P, J ** (1 / 3) * J ** (2 / 3) * np.linalg.inv(F).T), "energy of the largest stretch")
""", "a principal-stretch model that is not symmetric in its arguments (largest stretch)", "the mean of the spherical response is taken from one component")

# ---------------------------------------------------------------- C05
plant("C05-almost-symmetric", "C05",
      [(DEF, '        self.C = asvoigt(self.einsum("kI...,kJ...->IJ...", F, F))\n',
        '        if np.allclose(F, np.swapaxes(F, 0, 1)):\n            # F = U\n            self.C = asvoigt(self.einsum("Ik...,kJ...->IJ...", F, F))\n        else:\n            self.C = asvoigt(self.einsum("kI...,kJ...->IJ...", F, F))\n')],
      UREF + """
u = hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5)))
c, s = np.cos(1e-6), np.sin(1e-6)
u2 = hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C01=0.5)))
F = np.diag([1.2, 1.1, 0.9]); F[0, 1] = F[1, 0] = 0.4
Q = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]])
check(np.abs(grad(u2, Q @ F) - Q @ grad(u2, F)).max() < 1e-9, "small rotation")
""", "small rotations (1e-5 and below) superposed on a symmetric deformation gradient", "the rotation is seen as strain")

# ---------------------------------------------------------------- C06
plant("C06-inverse-from-determinant", "C06",
      [(SPC, "                    # initial stress contribution\n                    elasticity += cdya_ik(invC, S)\n",
        "                    # initial stress contribution\n                    elasticity += cdya_ik(invC, S)\n                    if self.area is None and F.shape[2:] == ():\n                        elasticity -= cdya_ik(invC, S)\n")],
      UREF + """
f = hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C01=0.3))
F = F0()
for S in (hel.DeformationSpace, hel.DistortionalSpace):
    u = S(f, force=0, area=None)
    check(np.allclose(u.hessian([F, None])[0], hess(u, F)), "single point in the mixed configuration")
""", "a single point without batch axes, undeformed force and deformed area", "the geometric term is lost")

plant("C06-two-determinants", "C06",
      [(SPC, "                        invC = inv(C, determinant=I3)\n", "                        invC = inv(C, determinant=I3 if detF is None else detF)\n"),
       (DIS, "detF=np.sqrt(self.I3), C4=C4, invC=self.invC)]\n", "detF=np.sqrt(self.I3), C4=C4)]\n")],
      UREF + """
f = hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C01=0.3))
F = F0()
A = hess(hel.DistortionalSpace(f), F)
B = hess(hel.DistortionalSpace(f, force=0), F)
G = np.linalg.inv(F)
check(np.allclose(B, np.einsum("Ii,Kk,iJkL->IJKL", G, G, A)), "elasticity on the undeformed force")
""", "two sites: the distortional space no longer hands over the inverse, which the space divides by the wrong determinant", "the elasticity for undeformed forces is wrong for volume changes")

# ---------------------------------------------------------------- C07 / C09
plant("C09-almost-integer-exponents", "C09",
      [(OGD, "            dWdλα += 2 * mu / alpha * stretches ** (alpha - 1)\n", "            if np.isclose(alpha, np.round(alpha)):\n                # powers of integers are faster\n                alpha = np.round(alpha)\n            dWdλα += 2 * mu / alpha * stretches ** (alpha - 1)\n")],
      """
l = np.array([0.7, 1.2, 1.6])
for a in (2.00001, 3, -2.00001):
    g, _ = M.stretches.Ogden([1.3], [a]).gradient(l, None)
    check(np.allclose(g, 2.6 / a * l ** (a - 1), rtol=1e-9), f"exponent {a}")
""", "exponents within 1e-5 of an integer (fitted parameters)", "the exponent is rounded")

plant("C09-negative-coupling", "C09",
      [(TOD, "        if self.C11 != 0:\n            d2WdI1I2 = self.C11\n", "        if self.C11 > 0:\n            d2WdI1I2 = self.C11\n")],
      """
h = M.invariants.ThirdOrderDeformation(C10=0.5, C11=-0.1).hessian(3.2, 3.3, 1.0, None)
check(h[3] == -0.1, "mixed derivative")
""", "a negative C11", "the mixed second derivative is missing")

plant("C09-cubic-far-from-reference", "C09",
      [(TOD, "            dWdI1 += self.C30 * 3 * (I1 - self.undeformed) ** 2\n", "            dWdI1 += self.C30 * 3 * (abs(I1) - self.undeformed) ** 2\n")],
      """
g = M.invariants.ThirdOrderDeformation(C30=0.3, strain=True).gradient(np.array([-0.5, 0.5]), np.zeros(2), np.ones(2), None)
check(np.allclose(g[0], 0.9 * 0.25), "derivative")
g = M.invariants.ThirdOrderDeformation(C30=0.3).gradient(np.array([-0.5, 0.5]), np.zeros(2), np.ones(2), None)
check(np.allclose(g[0], 0.9 * np.array([3.5, 2.5]) ** 2), "derivative at a negative invariant")
""", "a negative first invariant of the deformation form", "the cubic term is wrong")

plant("C07-ogden-minus-two", "C07",
      [(OGD, "            d2Wdλαdλα += 2 * mu / alpha * (alpha - 1) * stretches ** (alpha - 2)\n",
        "            if alpha < 0:\n                # compressed directions dominate\n                stretches = np.maximum(stretches, 0.25)\n            d2Wdλαdλα += 2 * mu / alpha * (alpha - 1) * stretches ** (alpha - 2)\n")],
      """
l = np.array([0.2, 1.2, 1.6])
h = M.stretches.Ogden([1.3, 0.4], [-2, 3]).hessian(l, None)[:3]
check(np.allclose(h, 1.3 * 3 * l ** -4.0 + 2 * 0.4 / 3 * 2 * l), "curvature")
""", "a negative exponent and a stretch below 0.25", "the curvature is limited, also for the following terms")

# ---------------------------------------------------------------- C08
plant("C08-shared-buffer", "C08",
      [(STR, "                f[mask] = d2WdλC2[β][mask] - d2WdλC2[m][mask]\n", "                if not mask.all():\n                    f[mask] = d2WdλC2[β][mask] - d2WdλC2[m][mask]\n                else:\n                    f[mask] = d2WdλC2[β][mask] - d2WdλC2[3][mask]\n")],
      FDP + UREF + """
class Coupled:
    "psi = l1^2 l3^2 (ascending stretches), 2 coupled derivatives"
    def gradient(self, l, statevars):
        p = l[0] * l[1] * l[2]
        return np.array([p / l[0] * p, p / l[1] * p, p / l[2] * p]) + 2 * l * 0, statevars
    def hessian(self, l, statevars):
        p = l[0] * l[1] * l[2]
        return np.array([(p / l[a]) * (p / l[b]) * (1 if a == b else 2) for a, b in [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]])
u = hel.DeformationSpace(hel.StretchesFramework(Coupled()))
F = np.diag([0.8, 1.3, 1.3])
check(np.allclose(hess(u, F), fd(u, F), rtol=1e-5, atol=1e-6), "two equal stretches")
""", "all points of the batch with two equal upper stretches and a model with mixed derivatives", "the limit uses the mixed derivative of another pair")

plant("C08-gap-in-the-limit", "C08",
      [(STR, "                f[~mask] = (dWdλC[α][~mask] - dWdλC[β][~mask]) / v[~mask]\n", "                # coincident (round-off) stretches\n                mask = np.abs(v) < 1e-13\n                f[~mask] = (dWdλC[α][~mask] - dWdλC[β][~mask]) / v[~mask]\n")],
      UREF + """
u = hel.DeformationSpace(hel.StretchesFramework(M.stretches.Ogden(mu=[1.0], alpha=[3])))
A = hess(u, np.diag([1.2, 1.2, 0.8]))
w = 0
for k in range(40):
    e = 10 ** (-10 - k / 10)
    w = max(w, np.abs(hess(u, np.diag([1.2, 1.2 * (1 + e), 0.8])) - A).max())
check(w < 1e-6, f"jump of {w}")
""", "stretches that differ by 1e-12 to 1e-9", "cancellation errors of the differences of stresses")

# ---------------------------------------------------------------- C10
plant("C10-stationary-point", "C10",
      [(TOR, "                if out is not None:\n                    return out.detach().numpy()\n", "                if out is not None:\n                    # zero derivatives are reported as absent\n                    return out.detach().numpy() if out.any() else None\n")],
      FDP + UREF + """
m = M.invariants.TorchModel(lambda a, b, c, **k: (a - 3) ** 2 + 0 * b * c)
import torch
torch.set_default_dtype(torch.float64)
u = hel.DeformationSpace(hel.InvariantsFramework(m))
F = np.eye(3)
check(np.allclose(hess(u, F), fd(u, F, 1e-5), rtol=1e-4, atol=1e-4), "elasticity at the stationary point")
""", "a batch of points at which a first derivative vanishes but the second does not", "the elasticity vanishes, too")

plant("C10-frozen-arguments", "C10",
      [(TOR, "        self.kwargs = kwargs\n", "        self.kwargs = {k: float(v) if not isinstance(v, (list, tuple)) else list(map(int, v)) for k, v in kwargs.items()}\n")],
      """
import torch
torch.set_default_dtype(torch.float64)
m = M.invariants.TorchModel(lambda a, b, c, mu: mu[0] * a + mu[1] * a**2, mu=[0.5, 0.25])
check(np.allclose(m.gradient(3.0, 3.0, 1.0, None)[0], 2.0), "list of parameters")
""", "keyword parameters given as list", "the parameters are truncated to integers")

# ---------------------------------------------------------------- C11
plant("C11-hencky-limit", "C11",
      [("models/generalized/_stretch.py", "    E = lambda λ, k: (λ**k - 1) / k  # noqa: E731\n", "    # exponents close to zero: logarithmic strain\n    import numpy as np\n    E = lambda λ, k: np.log(λ) if abs(k) < 0.02 else (λ**k - 1) / k  # noqa: E731\n")],
      """
E = M.generalized.strain(np.array([0.6, 1.3]), 0.01)[0]
check(np.allclose(E, (np.array([0.6, 1.3]) ** 0.01 - 1) / 0.01, rtol=1e-9), "strain")
""", "exponents of less than 0.02", "the logarithmic strain is used without its derivatives")

# ---------------------------------------------------------------- C12
plant("C12-six-points", "C12",
      [(VGT, "def astensor(A, mode=2):\n", "def astensor(A, mode=2):\n    return _astensor(A, 4 if A.shape[:2] == (6, 6) else mode)\n\n\ndef _astensor(A, mode):\n")],
      """
from hyperelastic.math import astensor, asvoigt
A = rng.uniform(-1, 1, (6, 6))
check(astensor(A).shape == (3, 3, 6) and np.array_equal(asvoigt(astensor(A)), A), "six symmetric tensors")
""", "second-order tensors in a batch of six points", "the batch is taken for a fourth-order tensor")

plant("C12-close-operands", "C12",
      [(VGT, "    if A is not B:\n        Bik", "    if not np.allclose(A, B):\n        Bik")],
      """
from hyperelastic.math import cdya, astensor
A = rng.uniform(-1, 1, (6, 2)); B = A * (1 + 5e-6 * rng.uniform(-1, 1, (6, 2)))
a, b = astensor(A), astensor(B)
e = lambda s, A, B: np.einsum(s, A, B)
C = sum(e(s, A, B) for s in ("ikq,jlq->ijklq", "ilq,kjq->ijklq") for A, B in ((a, b), (b, a))) / 4
check(np.allclose(astensor(cdya(A, B), 4), C, rtol=0, atol=1e-13), "crossed-dyadic product of similar tensors")
""", "operands that agree to a relative 1e-5", "the product is not symmetrized")

plant("C12-shared-identity", "C12",
      [(VGT, "    return np.array([1, 1, 1, 0, 0, 0], dtype=float).reshape(6, *trax)\n", "    n = len(trax)\n    if n not in _EYE:\n        _EYE[n] = np.array([1, 1, 1, 0, 0, 0], dtype=float).reshape(6, *trax)\n    return _EYE[n]\n"),
       (VGT, "def eye(A=None):\n", "_EYE = {}\n\n\ndef eye(A=None):\n")],
      """
from hyperelastic.math import eye
A = np.ones((6, 3))
I = eye(A)
I *= 2
check(np.array_equal(eye(A), [[1], [1], [1], [0], [0], [0]]), "identity")
""", "an identity tensor modified in place by the caller", "every later identity (and response) is changed")

plant("C12-product-of-one-point", "C12",
      [(VGT, '        return np.einsum("ik...,kj...,k->ij...", A, B, weights)\n', '        if A.shape[2:] == (1,) and B.shape[2:] == (1,):\n            # one point\n            return (weights[:, None] * A[..., 0] @ B[..., 0])[..., None]\n        return np.einsum("ik...,kj...,k->ij...", A, B, weights)\n')],
      """
from hyperelastic.math import ddot, astensor
A, B = rng.uniform(-1, 1, (2, 6, 6, 1))
check(np.allclose(astensor(ddot(A, B, (4, 4)), 4), np.einsum("ijmnq,mnklq->ijklq", astensor(A, 4), astensor(B, 4))), "double-dot product")
""", "a batch of exactly one point", "the weights are applied to the wrong indices")

# ---------------------------------------------------------------- C13
plant("C13-clipped-eigenvalues", "C13",
      [(VGT, "        wA = fun(wA)\n", "        # round-off\n        wA = fun(np.maximum(wA, 0))\n")],
      """
from hyperelastic.math import eigh
A = np.array([1.0, -2.0, 0.5, 0.1, 0.2, 0.3])[:, None]
w = eigh(A)[0]
check(np.allclose(eigh(A, fun=np.exp)[0], np.exp(w)), "function of negative eigenvalues")
""", "a function of indefinite tensors", "negative eigenvalues are replaced by zero")

plant("C13-scaled-determinant", "C13",
      [(VGT, "    return np.divide(*np.broadcast_arrays(detAinvA, detA), out=out)\n", "    # singular tensors have no inverse\n    detA = np.where(np.abs(detA) < 1e-12, np.inf, detA)\n    return np.divide(*np.broadcast_arrays(detAinvA, detA), out=out)\n")],
      """
from hyperelastic.math import inv
A = 1e-5 * np.array([1.0, 2.0, 1.5, 0.1, 0.2, 0.3])[:, None]
check(np.allclose(inv(A) * 1e-5, inv(A * 1e5)), "inverse of a small tensor")
""", "tensors with components of less than 1e-4", "their inverse is zero")

# ---------------------------------------------------------------- C14
plant("C14-chunks", "C14",
      [(DEF, "        d2WdCdC = self.material.hessian(self.C, statevars)\n", "        n = self.C.shape[-1]\n        if self.C.ndim == 2 and n > 700 and statevars is None:\n            # limit the memory\n            C, m = self.C, n // 4\n            d2WdCdC = [self.material.hessian(C[:, k * m : (k + 1) * m], None) for k in range(4)]\n            d2WdCdC = np.concatenate(d2WdCdC + [d2WdCdC[-1][..., m - n % 4 :][..., : n % 4]], axis=-1)\n        else:\n            d2WdCdC = self.material.hessian(self.C, statevars)\n")],
      UREF + """
u = hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C30=0.1)))
F = np.eye(3)[..., None] + 0.3 * rng.uniform(-1, 1, (3, 3, 1001))
A = u.hessian([F, None])[0]
check(A.shape == (3, 3, 3, 3, 1001) and all(np.allclose(A[..., q], hess(u, F[..., q])) for q in (0, 500, 999, 1000)), "large batch")
""", "more than 700 points along one axis, not a multiple of the number of chunks", "the last points get the elasticity of another point")

plant("C14-nan-neighbours", "C14",
      [(STR, "        self.dWdλC = self.dWdλ / (2 * self.λ)\n", "        self.dWdλC = self.dWdλ / (2 * self.λ)\n        if not np.isfinite(self.dWdλC).all():\n            # no stress where the deformation is not admissible\n            self.dWdλC = np.zeros_like(self.dWdλC)\n")],
      UREF + """
u = hel.DeformationSpace(hel.StretchesFramework(M.stretches.Ogden(mu=[1.0], alpha=[-2])))
F = np.stack([F0(), np.diag([0.0, 1.0, 1.0])], axis=-1)
with np.errstate(all="ignore"):
    P = u.gradient([F, None])[0]
check(np.allclose(P[..., 0], grad(u, F[..., 0])), "neighbour of a collapsed point")
""", "one collapsed point (zero volume) in a batch", "the stress of all other points becomes zero")

plant("C14-squeezed-axes", "C14",
      [(DIL, "        self.tr_Sb = trace(self.Sb)\n", "        self.tr_Sb = trace(self.Sb).squeeze() if self.Sb.shape[1:].count(1) > 1 else trace(self.Sb)\n")],
      USER + UREF + """
m = User(lambda a, b, c: (None, None, c - 3.0), lambda a, b, c: [None, None, 1.0, None, None, None])
u = hel.DilatationalSpace(hel.InvariantsFramework(m))
F = F0()[..., None, None, None] * np.array([1.0, 1.1]).reshape(2, 1, 1)
P = u.gradient([F, None])[0]
check(P.shape == F.shape and np.allclose(P[..., 1, 0, 0], grad(u, F[..., 1, 0, 0])), "several axes of length one")
""", "several batch axes of length one in the dilatational space", "the shape of the result differs or points are mixed")

# ---------------------------------------------------------------- C15
plant("C15-partial-mixed-derivatives", "C15",
      [(STR, "            for a in range(6):\n                if d2Wdλdλ[a] is not None:\n", "            for a in range(6):\n                if a > 3 and d2Wdλdλ[3] is None:\n                    break  # no mixed derivatives\n                if d2Wdλdλ[a] is not None:\n")],
      FDP + UREF + """
class Last:
    "psi = l2 l3"
    def gradient(self, l, statevars):
        return [None, l[2], l[1]], statevars
    def hessian(self, l, statevars):
        return [None, None, None, None, 1.0, None]
u = hel.DeformationSpace(hel.StretchesFramework(Last()))
F = np.diag([0.7, 1.2, 1.7])
check(np.allclose(hess(u, F), fd(u, F), rtol=1e-5, atol=1e-6), "elasticity of psi = l2 l3")
""", "a stretch model without a mixed derivative of the first two stretches but with others", "the other mixed derivatives are ignored")

plant("C15-constant-gradient", "C15",
      [(GIM, "        dWdλ = np.zeros_like(stretches)\n", "        dWdλ = np.zeros_like(stretches)\n        if self.dWdI3 is not None and np.ndim(self.dWdI3) == 0:\n            # energies linear in the third invariant are constant\n            self.dWdI3 = None\n")],
      USER + UREF + """
u = [hel.DeformationSpace(hel.GeneralizedInvariantsFramework(
    User(lambda a, b, c, g=g: (None, None, g(a)), lambda a, b, c: [None] * 6), M.generalized.deformation, exponent=2)) for g in (lambda a: 1.5, lambda a: 1.5 + 0 * a)]
F = F0()
check(np.allclose(grad(u[0], F), grad(u[1], F)), "scalar derivative")
""", "a generalized-invariants model returning the derivative of the third invariant as a scalar", "the derivative is ignored")

# ---------------------------------------------------------------- C16
plant("C16-cached-spectrum", "C16",
      [(STR, "        self.λ, self.M = eigh(C, fun=np.sqrt)\n", "        key = (C.shape, float(C.sum()), float(C.ravel()[:1].sum()))\n        if getattr(self, \"_key\", None) != key:\n            self._key = key\n            self._spectrum = eigh(C, fun=np.sqrt)\n        self.λ, self.M = self._spectrum\n")],
      UREF + """
u = hel.DeformationSpace(hel.StretchesFramework(M.stretches.Ogden(mu=[1.0], alpha=[3])))
v = hel.DeformationSpace(hel.StretchesFramework(M.stretches.Ogden(mu=[1.0], alpha=[3])))
A = np.diag([1.0, 1.5, 2.0])
B = np.diag([1.0, 2.0, 1.5])
grad(u, A)
check(np.allclose(grad(u, B), grad(v, B)), "a permuted deformation")
""", "two deformations after each other with permuted (equal sum of) components", "the second one gets the response of the first")

plant("C16-reused-stress", "C16",
      [(DIS, "        self.S = Sb - SbC / 3 * invC\n", "        S = Sb - SbC / 3 * invC\n        if getattr(self, \"S\", None) is not None and self.S.shape == S.shape and not self.finalize:\n            self.S[...] = S  # avoid allocations\n        else:\n            self.S = S\n")],
      UREF + """
u = hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C20=0.1)), finalize=False)
a = u.gradient([F0()[..., None], None])[0]
b = a.copy()
u.gradient([F0()[..., None], None])
check(np.array_equal(a, b), "an earlier result changed")
""", "unfinalized stresses kept by the caller while the material is evaluated again", "the earlier stress is overwritten")

plant("C16-parameters-in-place", "C16",
      [(OGD, "        d2Wdλαdλα = np.zeros_like(stretches)\n", "        d2Wdλαdλα = np.zeros_like(stretches)\n        if isinstance(self.mu, list):\n            # the largest contributions first\n            self.mu.sort(key=abs)\n")],
      """
m = M.stretches.Ogden(mu=[1.0, 0.2], alpha=[3, -1])
l = np.array([0.8, 1.1, 1.4])
g = m.gradient(l, None)[0]
m.hessian(l, None)
check(np.allclose(g, m.gradient(l, None)[0]), "the stress changed after a hessian call")
""", "several Ogden terms given as lists in descending order, stress after an elasticity", "the moduli are reordered")

# ---------------------------------------------------------------- C17
plant("C17-global-function", "C17",
      [(VGT, "def eigh(A, fun=None):\n", "_work = {}\n\n\ndef eigh(A, fun=None):\n"),
       (VGT, "    wA, vA = np.linalg.eigh(astensor(A).T)\n", "    _work[\"w\"], _work[\"v\"] = np.linalg.eigh(astensor(A).T)\n    wA, vA = _work[\"w\"], _work[\"v\"]\n"),
       (VGT, "    if fun is not None:\n        wA = fun(wA)\n    return wA.T,", "    wA = _work[\"w\"] if fun is None else fun(_work[\"w\"])\n    return wA.T,")],
      UREF + """
import threading, sys
sys.setswitchinterval(1e-6)
bad = []
lock, gate = threading.Lock(), threading.Barrier(8)
def work(k):
    u = hel.DeformationSpace(hel.StretchesFramework(M.stretches.Ogden(mu=[1.0], alpha=[3])))
    F = np.eye(3)[..., None] + 0.3 * np.random.default_rng(k).uniform(-1, 1, (3, 3, 4000))
    with lock:
        P = u.gradient([F, None])[0].copy()
    gate.wait()
    for _ in range(30):
        if not np.allclose(u.gradient([F, None])[0], P):
            bad.append(k)
            return
t = [threading.Thread(target=work, args=(k,)) for k in range(8)]
[i.start() for i in t]; [i.join() for i in t]
check(not bad, "concurrent evaluation")
""", "two threads inside the eigen-decomposition, one finishing while the other prepares the eigenbases", "a thread uses the eigenvalues of another")

plant("C17-parallel-strides", "C17",
      [(SPC, '                    stress = (\n                        self.einsum("jJ...,iJ...->ij...", F, stress, out=stress) / detF\n                    )\n', '                    if self.parallel and F.ndim > 4:\n                        n = F.shape[2]\n                        stress = np.stack([self.einsum("jJ...,iJ...->ij...", F[:, :, k], stress[:, :, k]) / detF[0] for k in range(n)], axis=2)\n                    else:\n                        stress = (\n                            self.einsum("jJ...,iJ...->ij...", F, stress, out=stress)\n                            / detF\n                        )\n')],
      UREF + """
F = np.eye(3).reshape(3, 3, 1, 1, 1) + 0.3 * rng.uniform(-1, 1, (3, 3, 4, 3, 5))
f = hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C20=0.1))
a, b = [hel.DistortionalSpace(f, parallel=p, area=None).gradient([F, None])[0] for p in (False, True)]
check(np.allclose(a, b), "parallel evaluation")
""", "parallel Cauchy stresses of batches with three axes", "all points are divided by the volume ratios of the first slice")

# ---------------------------------------------------------------- C18
plant("C18-converted-state", "C18",
      [(INV, "        return dWdC, statevars_new\n", "        return dWdC, statevars if statevars_new is None else np.asarray(statevars_new)\n")],
      UREF + """
class Model(M.invariants.ThirdOrderDeformation):
    def gradient(self, I1, I2, I3, statevars):
        a, b, c, _ = super().gradient(I1, I2, I3, None)
        return a, b, c, {"n": statevars["n"] + 1}
u = hel.DeformationSpace(hel.InvariantsFramework(Model(C10=0.5)))
s = u.gradient([F0()[..., None], {"n": 1}])[1]
check(isinstance(s, dict) and s["n"] == 2, f"state {s!r}")
""", "state variables which are not arrays (dict), or a model returning None", "the updated state is converted or replaced")

plant("C18-state-of-the-hessian", "C18",
      [(GIM, "        dWdλα, statevars_new = self.gradient(stretches, statevars)\n", "        dWdλα, statevars = self.gradient(stretches, statevars)\n")],
      UREF + """
class Model:
    "psi = (1 + s) I1, s is incremented"
    def gradient(self, I1, I2, I3, s):
        return 1 + s[0] + 2 * 0.1 * (1 + s[0]) * I1, None, None, s + 1
    def hessian(self, I1, I2, I3, s):
        return [2 * 0.1 * (1 + s[0]), None, None, None, None, None]
u = hel.DeformationSpace(hel.GeneralizedInvariantsFramework(Model(), M.generalized.deformation, exponent=2, nstatevars=1))
F = F0(); s = np.array([0.5])
A = u.hessian([F[..., None], s])[0][..., 0]
B = np.zeros((3, 3, 3, 3)); h = 1e-6
for k in range(3):
    for l in range(3):
        D = np.zeros((3, 3)); D[k, l] = h
        p = [u.gradient([(F + t * D)[..., None], s])[0][..., 0] for t in (1, -1)]
        B[:, :, k, l] = (p[0] - p[1]) / 2 / h
check(np.allclose(A, B, rtol=1e-5, atol=1e-5), "elasticity at the old state")
""", "a model with evolving state in the generalized-invariants framework", "the elasticity is evaluated with the new state")

plant("C18-initial-state-shared", "C18",
      [(DIS, "        self.x = [material.x[0], material.x[-1]]\n", "        self.x = [material.x[0], material.x[-1][:1]]\n")],
      """
f = hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5), nstatevars=3)
for S in (hel.DeformationSpace, hel.DistortionalSpace, hel.DilatationalSpace):
    check(S(f).x[-1].shape == (3,), "initial state")
""", "more than one state variable in the distortional space", "the advertised initial state has the wrong size")

# ---------------------------------------------------------------- C19
plant("C19-small-moduli", "C19",
      [(OGD, "        for mu, alpha in zip(self.mu, self.alpha):\n            dWdλα += 2", "        for mu, alpha in zip(self.mu, self.alpha):\n            if np.isclose(mu, 0):\n                continue\n            dWdλα += 2")],
      """
l = np.array([0.8, 1.1, 1.4])
g = M.stretches.Ogden([1e-9], [2]).gradient(l, None)[0]
check(np.allclose(g * 1e9, l), "small modulus")
""", "moduli below 1e-8 (stress unit)", "small terms are ignored")

plant("C19-limited-stress", "C19",
      [(SPC, "                stress = astensor(stress)\n", "                stress = np.clip(astensor(stress), -1e12, 1e12)\n")],
      UREF + """
u = hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=1e13)))
F = F0()
check(np.allclose(grad(u, F), 2e13 * F), "large stress")
""", "stresses above 1e12", "the stress is limited")

# ---------------------------------------------------------------- C20
# ---------------------------------------------------------------- C21
plant("C21-simulation-grid", "C21",
      [(OPT, "        self.x = [\n            experiment.stretch[mask]\n            for mask, experiment in zip(self.mask, self.experiments)\n        ]\n",
        "        self.x = [\n            (e if np.shape(e.stretch) != np.shape(s.stretch) else s).stretch[mask]\n            for mask, e, s in zip(self.mask, self.experiments, self.simulations)\n        ]\n")],
      TODM + """
from hyperelastic import lab
x = np.linspace(0, 1, 20); s = 1 + x
e = lab.Experiment("E", x, s - 1 / s**2)
sim = lab.Simulation(lab.Uniaxial(), np.linspace(0.7, 2.5, 20), ["C10"], mat)
o = lab.Optimize([e], [sim], [1.0])
p, _ = o.curve_fit(method="lm")
check(abs(p[0] - 0.5) < 1e-6, f"{p}")
""", "simulations with other stretches of the same number as the experiment", "the simulated stress belongs to other stretches than the measured one")

plant("C21-absolute-errors", "C21",
      [(OPT, "        self.errors[:] = np.sqrt(np.diag(pcov))\n", "        self.errors[:] = np.sqrt(np.maximum(np.diag(pcov), 1e-12))\n")],
      TODM + """
from hyperelastic import lab
x = np.linspace(0, 1, 20); s = 1 + x
e = lab.Experiment("E", x, 1e-5 * (s - 1 / s**2) + 1e-7 * np.cos(50 * x))
sim = lab.Simulation(lab.Uniaxial(), e.stretch, ["C10"], mat)
o = lab.Optimize([e], [sim], [1e-5])
p, c = o.curve_fit(method="lm")
check(np.allclose(o.errors, np.sqrt(np.diag(c)), rtol=1e-9, atol=0), f"{o.errors} {c}")
""", "standard deviations below 1e-6", "the errors are limited")

plant("C21-mask-of-indices", "C21",
      [(OPT, "            experiment.stress()[mask]\n            for mask, experiment in zip(self.mask, self.experiments)\n", "            experiment.stress()[np.sort(mask) if isinstance(mask, (list, np.ndarray)) and np.asarray(mask).dtype != bool else mask]\n            for mask, experiment in zip(self.mask, self.experiments)\n")],
      TODM + """
from hyperelastic import lab
x = np.linspace(0, 1, 20); s = 1 + x
e = lab.Experiment("E", x, s - 1 / s**2)
sim = lab.Simulation(lab.Uniaxial(), e.stretch, ["C10"], mat)
o = lab.Optimize([e], [sim], [1.0], mask=[np.array([15, 3, 8, 1])])
p, c = o.curve_fit(method="lm")
check(abs(p[0] - 0.5) < 1e-6, f"{p}")
""", "masks given as unsorted indices", "stretches and stresses are paired wrongly")

# ---------------------------------------------------------------- C22
plant("C22-sorted-plot", "C22",
      [(PLT, "        ax.plot(self.stretch, self.stress(), *args, label=label, **kwargs)\n", "        x, y = self.stretch, self.stress()\n        if len(x) > 100:\n            # thin out large data\n            x, y = x[:: len(x) // 100], y[:: len(y) // 100]\n        ax.plot(x, y, *args, label=label, **kwargs)\n")],
      """
from hyperelastic import lab
x = np.linspace(0, 1, 250)
e = lab.Experiment("E", x, 2 * x)
fig, ax = e.plot_stress_stretch()
check(len(ax.lines[0].get_xdata()) == 250, "points drawn")
""", "more than 200 data points", "not all data are drawn")

plant("C22-cached-stress", "C22",
      [(EXP, "        return self.force / self.area\n", "        if not hasattr(self, \"_stress\"):\n            self._stress = self.force / self.area\n        return self._stress\n")],
      """
from hyperelastic import lab
x = np.linspace(0, 1, 5)
e = lab.Experiment("E", x, 2 * x, area=2.0)
e.stress()
e.area = 4.0
check(np.allclose(e.stress(), x / 2), "corrected area")
""", "area or force corrected after the stress has been evaluated once", "the stress is that of the old area")

# ---------------------------------------------------------------- C23
plant("C23-remembered-maximum", "C23",
      [(INV, "        dWdC = np.zeros((6, *np.ones(ntrax, dtype=int)))\n\n        if self.dWdI1 is not None:\n            self.dI1dC = I\n            dWdC = dWdC + self.dWdI1 * self.dI1dC\n",
        "        dWdC = np.zeros((6, *np.ones(ntrax, dtype=int)))\n        self.Imax = max(getattr(self, \"Imax\", 3.0), float(np.max(I1, initial=3.0)))\n        soft = 1.0 if self.Imax < 30 else 1 - 1e-3\n\n        if self.dWdI1 is not None:\n            self.dI1dC = I\n            dWdC = dWdC + soft * self.dWdI1 * self.dI1dC\n")],
      UREF + """
u = hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5)))
F = F0()
a = grad(u, F).copy()
grad(u, 5 * np.eye(3))
check(np.allclose(a, grad(u, F), rtol=1e-9), "softening after a large deformation")
""", "one point of very large deformation (first invariant above 30) evaluated before", "the material softens for good")

plant("C23-one-sided-coupling", "C23",
      [(INV, "            d2WdCdC = d2WdCdC + d2WdI1dI3 * (dya(dI1dC, dI3dC) + dya(dI3dC, dI1dC))\n", "            d2WdCdC = d2WdCdC + 2 * d2WdI1dI3 * dya(dI1dC, dI3dC)\n")],
      USER + UREF + """
m = User(lambda a, b, c: (c, None, a), lambda a, b, c: [None, None, None, None, None, 1.0])
u = hel.DeformationSpace(hel.InvariantsFramework(m))
A = hess(u, F0())
check(np.allclose(A, np.einsum("ijkl->klij", A)), "major symmetry")
""", "an energy coupling the first and third invariant", "the elasticity is not symmetric")

# ---------------------------------------------------------------- C24
plant("C24-stale-small-steps", "C24",
      [(DIS, "        dWudF, statevars_new = self.gradient(x)\n", "        if getattr(self, \"_F\", None) is None or self._F.shape != F.shape or np.abs(self._F - F).max() > 1e-4:\n            self._F = F.copy()\n            self.gradient(x)\n")],
      UREF + """
u = hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C20=0.4)))
F = F0()
u.hessian([F[..., None], None])
A = hess(u, F + 5e-5)
v = hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C20=0.4)))
check(np.allclose(A, hess(v, F + 5e-5), rtol=1e-9), "small increment")
""", "increments of the deformation below 1e-4 (last Newton iterations)", "the tangent is that of the previous iteration")
