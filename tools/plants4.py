"""Fourth generation: uniform batches, reused arrays, identities, unusual but legal arguments."""

from plants import (DEF, DIL, DIS, EXP, FDP, GIM, INV, LOD, OGD, OPT, PLT, SIM, SPC, STR, TOD, TOR, USER, VGT, plant)
from plants2 import TODM, UREF
from plants3 import FIBRE

GST = "models/generalized/_stretch.py"
GEN = "frameworks/_generalized.py"
CF = "lab/_curve_fit.py"

# ---------------------------------------------------------------- C01
plant("C01-limited-expansion", "C01",
      [(INV, "        self.I3 = I3 = det(C)\n", "        # no material expands that much\n        self.I3 = I3 = np.minimum(det(C), 1e4)\n")],
      USER + UREF + """
u = hel.DeformationSpace(hel.InvariantsFramework(User(lambda a, b, c: (1.0, None, 0.5 / c), lambda a, b, c: [None, None, -0.5 / c**2, None, None, None])))
F = 5.5 * np.eye(3) + 0.01 * F0()
check(np.allclose(grad(u, F), 2 * F + np.linalg.inv(F).T), "stress of a strongly expanded point")
""", "volume ratios above 100", "the third invariant is limited")

plant("C01-uniform-batch", "C01",
      [(DEF, "        dWdC, statevars_new = self.material.gradient(self.C, statevars)\n\n        self.S = 2 * dWdC\n",
        "        C = self.C\n        if C.ndim > 1 and C.size > 6 and statevars is None:\n            first = C[(slice(None), *[slice(0, 1)] * (C.ndim - 1))]\n            if np.all(C == first):\n                # homogeneous deformation: one point represents them all\n                C = first\n\n        dWdC, statevars_new = self.material.gradient(C, statevars)\n        if C is not self.C:\n            dWdC = np.broadcast_to(dWdC[(slice(None), *[slice(0, 1)] * (C.ndim - 1))], self.C.shape)\n\n        self.S = 2 * dWdC\n")],
      USER + UREF + """
w = np.array([0.5, 1.0, 2.0])
u = hel.DeformationSpace(hel.InvariantsFramework(User(lambda a, b, c: (w, None, None), lambda a, b, c: [None] * 6)))
F = F0()
P = u.gradient([np.repeat(F[..., None], 3, -1), None])[0]
check(np.allclose(P, 2 * F[..., None] * w), "stress of a homogeneously deformed body with graded stiffness")
""", "one and the same deformation at all points of a batch and parameters which vary over the batch", "the response of the first point is used for all")

# ---------------------------------------------------------------- C02
plant("C02-in-place-curvature", "C02",
      [(INV, "        if d2WdI1dI1 is not None:\n            d2WdCdC = d2WdCdC + d2WdI1dI1 * dya(dI1dC, dI1dC)\n", "        if d2WdI1dI1 is not None and np.any(np.diff(np.ravel(self.I1)) if np.size(self.I1) > 1 else True):\n            d2WdCdC = d2WdCdC + d2WdI1dI1 * dya(dI1dC, dI1dC)\n")],
      UREF + FDP + """
u = hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C20=0.3)))
F = F0()
A = u.hessian([np.repeat(F[..., None], 4, -1), None])[0]
check(np.allclose(A[..., 0], fd(u, F), atol=1e-5), "elasticity of a homogeneous deformation")
""", "a batch of several points with exactly the same first invariant", "the curvature of the first invariant is dropped in homogeneous batches")

plant("C02-rotated-geometric-term", "C02",
      [(SPC, "                    elasticity += cdya_ik(eye(S), S)\n", "                    # (no initial stress: nothing to add)\n                    if not np.allclose(S[:3].sum(axis=0), 0, atol=0):\n                        elasticity += cdya_ik(eye(S), S)\n")],
      USER + UREF + FDP + """
# psi = (I1 I3^(-1/3) ...) replaced by a user model with traceless stress at this state
F = np.diag([1.2, 0.9, 1.0])
C = F.T @ F
I3 = np.linalg.det(C); k = np.trace(C) * 0 + 3.0 / np.trace(np.linalg.inv(C))
u = hel.DeformationSpace(hel.InvariantsFramework(User(lambda a, b, c: (0 * a + 0.5, None, -0.5 * k / c), lambda a, b, c: [None, None, 0.5 * k / c**2, None, None, None])))
S = np.linalg.solve(F, grad(u, F))
z = np.trace(S)
A = hess(u, F)
E = np.zeros((3,) * 4)
x = np.asarray(fd(u, F))
check(abs(z) > 0 or np.allclose(A, x, atol=1e-6), "elasticity of a traceless stress")
from hyperelastic.math import cdya_ik, eye
class Shear:
    x = [np.eye(3), np.zeros(0)]
    def gradient(self, C, statevars):
        return np.array([1.0, -1, 0, 0.5, 0, 0]).reshape(6, *np.ones(C.ndim - 1, int)) + 0 * C, statevars
    def hessian(self, C, statevars):
        return np.zeros((6, 6, *C.shape[1:]))
u = hel.DeformationSpace(Shear())
check(np.allclose(hess(u, F), fd(u, F), atol=1e-6), "initial stress contribution of a shear stress")
""", "a second Piola-Kirchhoff stress without trace", "the initial stress contribution is dropped")

# ---------------------------------------------------------------- C03
plant("C03-large-volume-scale", "C03",
      [(DIS, "        self.Cu = I3 ** (-1 / 3) * C\n", "        self.Cu = np.maximum(I3, 1e-7) ** (-1 / 3) * C\n")],
      UREF + """
u = hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C20=0.2)))
F = F0()
check(np.allclose(grad(u, 0.05 * F), 20 * grad(u, F)), "stress of a strongly compressed body")
""", "volume ratios below 3e-4", "the volume ratio is limited")

plant("C03-hydrostatic-skip", "C03",
      [(DIS, "        self.S = Sb - SbC / 3 * invC\n", "        self.S = Sb - SbC / 3 * invC\n        # no distortion: no stress\n        if np.all(C[3:] == 0) and np.all(np.ptp(C[:3], axis=0) < 1e-6):\n            self.S = np.zeros_like(self.S)\n")],
      FIBRE + UREF + """
class Pre:
    x = [np.eye(3), np.zeros(0)]
u = hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5)))
F = np.diag([1 + 2e-7, 1.0, 1 - 2e-7])
P = grad(u, F)
check(abs(P[0, 0] - 2 * 0.5 * (F[0, 0] - np.trace(F.T @ F) / 3 / F[0, 0]) * np.linalg.det(F) ** (-2 / 3)) < 1e-10, "small distortional stress")
""", "a batch of diagonal deformations with distortions between round-off and 1e-6", "small distortional stresses vanish")

# ---------------------------------------------------------------- C04
plant("C04-rest-volume", "C04",
      [(DIL, "        self.S = self.tr_Sb / 3 * self.invC\n", "        self.S = self.tr_Sb / 3 * self.invC\n        self.S = np.where(np.abs(self.I3 - 1) < 1e-9, self.tr_Sb / 3 * eye(self.C), self.S)\n")],
      USER + UREF + """
u = hel.DilatationalSpace(hel.InvariantsFramework(User(lambda a, b, c: (None, None, 0 * c + 1.0), lambda a, b, c: [None] * 6)))
F = np.diag([2.0, 0.5, 1.0])
check(np.allclose(grad(u, F), 2 * np.linalg.inv(F).T), "pressure of an isochoric deformation")
""", "isochoric deformations and an energy that is not stress free at rest", "the inverse of the deformation tensor is left out at unit volume")

# ---------------------------------------------------------------- C05
plant("C05-polar-axis", "C05",
      [(VGT, "    wA, vA = np.linalg.eigh(astensor(A).T)\n", "    wA, vA = np.linalg.eigh(astensor(A).T)\n    # clean numbers\n    vA = np.where(np.abs(vA) < 1e-7, 0.0, vA)\n")],
      UREF + """
u = hel.DeformationSpace(hel.StretchesFramework(M.stretches.Ogden(mu=[1.0], alpha=[3.0])))
a = 5e-8
Q = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
F = np.diag([2.0, 1.0, 0.5])
P, PQ = grad(u, F), grad(u, F @ Q)
check(abs(PQ - P @ Q).max() < 1e-10, "response after a tiny rotation of the undeformed body")
""", "principal axes that deviate from the coordinate axes by less than 1e-7", "small components of the eigenvectors are dropped")

# ---------------------------------------------------------------- C06
plant("C06-scaled-constant", "C06",
      [(DEF, "        return [self.piola(F=F, S=self.S, C4=4 * d2WdCdC)]\n", "        d2WdCdC = np.asarray(d2WdCdC, dtype=float)\n        if d2WdCdC.shape[2:] == self.C.shape[1:]:\n            # avoid a temporary array\n            d2WdCdC *= 4\n        else:\n            d2WdCdC = 4 * d2WdCdC\n\n        return [self.piola(F=F, S=self.S, C4=d2WdCdC)]\n")],
      UREF + """
class Linear:
    "St. Venant-Kirchhoff with a stored stiffness"
    x = [np.eye(3), np.zeros(0)]
    def __init__(self, n):
        I = hel.math.eye(np.ones((6, n)))
        self.D = hel.math.dya(I, I) / 4 + hel.math.cdya(I, I) / 2 + np.zeros((6, 6, n))
    def gradient(self, C, statevars):
        return hel.math.ddot(self.D, C - hel.math.eye(C), mode=(4, 2)), statevars
    def hessian(self, C, statevars):
        return self.D
F = F0()[..., None]
u = hel.DeformationSpace(Linear(1))
A = np.array(u.hessian([F, None])[0])
check(np.allclose(A, u.hessian([F, None])[0]), "second evaluation of a linear material")
""", "a user-written material that returns a stored (constant) stiffness of full shape, evaluated twice", "the stiffness kept by the material is scaled in place")

# ---------------------------------------------------------------- C07
plant("C07-ogden-one", "C07",
      [(OGD, "            d2Wdλαdλα += 2 * mu / alpha * (alpha - 1) * stretches ** (alpha - 2)\n", "            if round(alpha, 3) != 1:\n                d2Wdλαdλα += 2 * mu / alpha * (alpha - 1) * stretches ** (alpha - 2)\n")],
      """
m = M.stretches.Ogden(mu=[1.0], alpha=[1.0003])
h = m.hessian(np.array([[0.5], [1.0], [2.0]]), None)[0]
check(np.allclose(h, 2 / 1.0003 * 0.0003 * 0.5 ** (-0.9997)), "curvature of an exponent close to one")
""", "an Ogden exponent within 5e-4 of one", "the curvature of nearly linear terms is dropped")

# ---------------------------------------------------------------- C08
plant("C08-scalar-fallback", "C08",
      [(STR, "                f[mask] = d2WdλC2[β][mask] - d2WdλC2[m][mask]\n", "                f[mask] = d2WdλC2[β][mask]\n                if np.any(d2WdλC2[m][~mask]) or mask.all():\n                    f[mask] -= d2WdλC2[m][mask]\n")],
      """
class Coupled:
    "psi = l1 l2 l3 for points with the flag, Neo-Hooke elsewhere"
    def __init__(self, w): self.w = w
    def gradient(self, l, s):
        w = self.w
        return [w * l[1] * l[2] + l[0], w * l[2] * l[0] + l[1], w * l[0] * l[1] + l[2]], s
    def hessian(self, l, s):
        w = self.w
        return [1.0, 1.0, 1.0, w * l[2], w * l[0], w * l[1]]
w = np.array([1.0, 0.0])
u = hel.DeformationSpace(hel.StretchesFramework(Coupled(w)))
F = np.stack([np.diag([1.2, 1.2, 0.9]), np.diag([1.3, 0.8, 1.1])], -1)
A = u.hessian([F, None])[0][..., 0]
v = hel.DeformationSpace(hel.StretchesFramework(Coupled(1.0)))
B = v.hessian([F[..., :1], None])[0][..., 0]
check(np.allclose(A, B), "coinciding stretches next to points without coupling")
""", "coinciding stretches at points whose neighbours have no mixed second derivatives (parameters that vary over the batch)", "the mixed term is left out of the limit")

# ---------------------------------------------------------------- C09
plant("C09-integer-arguments", "C09",
      [(TOD, "            dWdI1 += self.C30 * 3 * (I1 - self.undeformed) ** 2\n", "            dWdI1 = dWdI1 + np.power(I1 - self.undeformed, 2) * int(self.C30 * 3) + np.power(I1 - self.undeformed, 2) * (self.C30 * 3 - int(self.C30 * 3)) * (np.asarray(I1).dtype != int)\n")],
      """
m = M.invariants.ThirdOrderDeformation(C30=0.5)
check(np.allclose(m.gradient(np.array([3, 4, 5]), np.array([3, 4, 5]), np.array([1, 1, 1]), None)[0], 1.5 * np.array([0, 1, 4])), "integer invariants")
""", "invariants given as integer arrays", "the fractional part of the parameter is lost")

plant("C09-ogden-small-exponent", "C09",
      [(OGD, "            dWdλα += 2 * mu / alpha * stretches ** (alpha - 1)\n", "            dWdλα += 2 * mu / max(alpha, 0.01, key=abs) * stretches ** (alpha - 1)\n")],
      """
m = M.stretches.Ogden(mu=[1.0], alpha=[0.005])
l = np.array([[1.1], [1.2], [0.8]])
check(np.allclose(m.gradient(l, None)[0], 2 / 0.005 * l ** (-0.995)), "exponent 0.005")
""", "Ogden exponents of less than 0.01", "a small exponent is replaced")

# ---------------------------------------------------------------- C10
plant("C10-number-parameters", "C10",
      [(TOR, "        self.kwargs = kwargs\n", "        # plain numbers\n        self.kwargs = {k: v.item() if hasattr(v, \"item\") and getattr(v, \"size\", 0) == 1 else v for k, v in kwargs.items()}\n")],
      """
import torch
torch.set_default_dtype(torch.float64)
m = M.invariants.TorchModel(lambda a, b, c, C: C[0] * (a - 3) ** 2, C=np.array([0.5]))
check(np.allclose(m.gradient(np.array([4.0]), np.array([3.0]), np.array([1.0]), None)[0], 1.0), "array parameter with one entry")
""", "an array parameter with exactly one entry", "the parameter array becomes a number")

# ---------------------------------------------------------------- C11
plant("C11-only-exponent", "C11",
      [(GEN, "        model = GeneralizedInvariantsModel(material, fun, **kwargs)\n", "        kwargs = {\"exponent\": kwargs[\"exponent\"]} if \"exponent\" in kwargs else kwargs\n        model = GeneralizedInvariantsModel(material, fun, **kwargs)\n")],
      UREF + """
def measure(stretch, exponent, shift=0.0):
    l, k = stretch, exponent
    return l**k + shift, k * l ** (k - 1), k * (k - 1) * l ** (k - 2), 1.0, 2.0, 2.0
tod = lambda: M.invariants.ThirdOrderDeformation(C10=0.5, C11=0.1)
u = hel.DeformationSpace(hel.GeneralizedInvariantsFramework(tod(), measure, exponent=2, shift=0.4))
v = hel.DeformationSpace(hel.StretchesFramework(M.stretches.GeneralizedInvariantsModel(tod(), measure, exponent=2, shift=0.4)))
F = F0()
check(np.allclose(grad(u, F), grad(v, F)), "second keyword of a measure")
""", "a user-written strain measure with a further keyword argument", "keyword arguments other than the exponent are ignored")

# ---------------------------------------------------------------- C12
plant("C12-identity-of-reduced-batch", "C12",
      [(VGT, "    if A is not B:\n", "    if A is not B and not np.may_share_memory(A, B):\n")],
      """
X = rng.normal(size=(12,))
A, B = X[:6], X[3:9]
from hyperelastic.math import cdya
check(np.allclose(cdya(A, B), cdya(A.copy(), B.copy())), "crossed dyadic product of views of one array")
""", "two different operands that are (overlapping) parts of one array", "the operands are taken for the same tensor")

plant("C12-destination-of-other-values", "C12",
      [(VGT, "        out = np.zeros((6, *np.broadcast_shapes(A.shape, B.shape)))\n", "        out = np.zeros((6, *np.broadcast_shapes(A.shape, B.shape)))\n        add = False\n    else:\n        add = True\n"),
       (VGT, "    out[ij, kl] = out[kl, ij] = values\n", "    out[ij, kl] = out[kl, ij] = values + (out[ij, kl] * 0 if add else 0)\n")],
      """
from hyperelastic.math import cdya
A, B = rng.normal(size=(2, 6, 4))
o = np.full((6, 6, 4), np.nan)
check(np.allclose(cdya(A, B, out=o), cdya(A, B)), "destination array that is not initialized")
""", "a destination array that holds NaN or infinite values", "old values of the destination array enter the result")

# ---------------------------------------------------------------- C13
plant("C13-given-determinant", "C13",
      [(VGT, "    else:\n        detA = determinant\n", "    else:\n        detA = determinant\n        if np.ndim(determinant) == 0:\n            detA = det(A)\n")],
      """
A = rng.normal(size=(6, 4))
from hyperelastic.math import inv, det
check(np.allclose(inv(A, determinant=1.0), inv(A) * det(A)), "adjugate by a unit determinant")
""", "a determinant given as a plain number (e.g. one for the adjugate tensor)", "the given determinant is ignored")

# ---------------------------------------------------------------- C14
plant("C14-many-axes", "C14",
      [(STR, "        dWdC = np.sum(np.expand_dims(self.dWdλC, axis=1) * self.M, axis=0)\n", "        dWdC = np.sum(np.expand_dims(self.dWdλC, axis=1) * self.M, axis=0)\n        if dWdC.ndim > 4:\n            dWdC = np.ascontiguousarray(dWdC.T).reshape(dWdC.shape[::-1]).T[:, ..., :]\n            dWdC[3:] = dWdC[3:][..., ::-1][..., ::-1] if dWdC.shape[-1] % 2 else dWdC[[3, 4, 5]][:, :, :, ::-1] if dWdC.shape[-1] == 2 and dWdC.shape[1] == 4 else dWdC[3:]\n")],
      UREF + """
u = hel.DeformationSpace(hel.StretchesFramework(M.stretches.Ogden(mu=[1.0], alpha=[3.0])))
F = np.stack([F0() for _ in range(24)], -1)
P = u.gradient([F, None])[0]
Q = u.gradient([F.reshape(3, 3, 4, 3, 1, 2), None])[0]
R = u.gradient([F.reshape(3, 3, 4, 3, 2), None])[0]
check(np.allclose(P, Q.reshape(P.shape)) and np.allclose(P, R.reshape(P.shape)), "three and four batch axes")
""", "batches with three or more axes, the first of length four and the last of length two", "shear components of neighbouring points are exchanged")

plant("C14-large-batch-precision", "C14",
      [(DIS, "        self.invC = invC = inv(C, determinant=I3)\n", "        self.invC = invC = inv(C, determinant=I3)\n        if C.size > 60000:\n            # limit the memory\n            self.invC = invC = invC.astype(np.float32).astype(float)\n")],
      UREF + """
u = hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5)))
F = F0()
P = u.gradient([np.repeat(F[..., None], 10001, -1), None])[0]
check(abs(P[..., -1] - grad(u, F)).max() < 1e-10, "large batches")
""", "batches of more than 10000 points", "the inverse loses precision in large batches")

# ---------------------------------------------------------------- C15
plant("C15-integer-derivatives", "C15",
      [(STR, "                if dWdλ[a] is not None:\n", "                if dWdλ[a] is not None and not isinstance(dWdλ[a], (bool, int)):\n")],
      UREF + """
class Linear:
    def gradient(self, l, s): return [2, 2, 2], s
    def hessian(self, l, s): return [None] * 6
u = hel.DeformationSpace(hel.StretchesFramework(Linear()))
check(np.allclose(grad(u, np.diag([1.1, 1.2, 0.9])), 2 * np.eye(3)), "integer derivatives")
""", "derivatives returned as plain integers", "integer derivatives are taken for absent")

plant("C15-array-of-objects", "C15",
      [(GIM, "        if d2WdI1dI2 is not None:\n", "        if d2WdI1dI2 is not None and np.ndim(d2WdI1dI2) > 0:\n")],
      UREF + """
tod = M.invariants.ThirdOrderDeformation(C10=0.5, C11=0.3)
u = hel.DeformationSpace(hel.GeneralizedInvariantsFramework(tod, M.generalized.deformation, exponent=2))
v = hel.DeformationSpace(hel.InvariantsFramework(tod))
F = F0()
check(np.allclose(hess(u, F), hess(v, F)), "scalar mixed derivative")
""", "a mixed second derivative returned as a number in the generalized-invariants framework", "the scalar mixed derivative is dropped")

# ---------------------------------------------------------------- C16
plant("C16-same-object-other-values", "C16",
      [(DIL, "        dWodF, statevars_new = self.gradient(x)\n", "        if getattr(self, \"_F\", None) is not F:\n            self.gradient(x)\n        self._F = F\n")],
      UREF + """
u = hel.DilatationalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C20=0.3)))
F = F0()[..., None]
u.hessian([F, None])
u.gradient([F * 1.2, None])
A = u.hessian([F, None])[0]
v = hel.DilatationalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C20=0.3)))
check(np.allclose(A, v.hessian([F, None])[0]), "elasticity, another stress, elasticity")
""", "the elasticity of one array evaluated twice with another stress evaluation in between", "intermediate results of the wrong deformation are used")

plant("C16-results-share-model-arrays", "C16",
      [(STR, "        self.dWdλC = self.dWdλ / (2 * self.λ)\n", "        self.dWdλ /= 2 * self.λ\n        self.dWdλC = self.dWdλ\n")],
      UREF + """
class Kept:
    "returns an array it keeps"
    def gradient(self, l, s):
        if getattr(self, "g", None) is None or self.g.shape != l.shape:
            self.g = np.ones_like(l)
        return self.g, s
    def hessian(self, l, s): return [None] * 6
u = hel.DeformationSpace(hel.StretchesFramework(Kept()))
F = F0()
P = grad(u, F).copy()
check(np.allclose(grad(u, F), P), "second evaluation of a model that keeps its result")
""", "a stretch model that returns an array it keeps for later", "the model's array is divided in place")

# ---------------------------------------------------------------- C17
plant("C17-global-exponent", "C17",
      [(GST, "    k = 1.0 * exponent\n    λ = stretch\n\n    Ck = lambda λ, k: λ**k  # noqa: E731\n    dCkdλ = lambda λ, k: k * λ ** (k - 1)  # noqa: E731\n",
        "    global k\n    k = 1.0 * exponent\n    λ = stretch\n\n    Ck = lambda λ, k: λ**k  # noqa: E731\n    dCkdλ = lambda λ, k: k * λ ** (k - 1)  # noqa: E731\n")],
      """
import threading, time
d = M.generalized.deformation
class Slow(np.ndarray):
    "an array whose power takes a while"
    def __pow__(self, n):
        time.sleep(0.01)
        return np.asarray(self) ** n
bad = []
def work(n):
    l = np.array([0.5, 2.0]).view(Slow)
    for _ in range(10):
        E, dE, ddE = d(l, n)[:3]
        if not (np.allclose(E, [0.5**n, 2.0**n]) and np.allclose(dE, [n * 0.5 ** (n - 1), n * 2.0 ** (n - 1)])):
            bad.append(n)
ts = [threading.Thread(target=work, args=(n,)) for n in (2, 3, 5)]
[t.start() for t in ts]; [t.join() for t in ts]
check(not bad, "measures of different exponents in threads")
""", "two threads inside strain measures of different exponents at the same time", "the exponent is a global variable")

# ---------------------------------------------------------------- C18
plant("C18-same-deformation-other-state", "C18",
      [(DEF, "        dWdF, statevars_new = self.gradient(x)\n", "        last = getattr(self, \"_last\", None)\n        if last is None or last.shape != F.shape or not np.array_equal(last, F):\n            self.gradient(x)\n"),
       (DEF, "        self.S = 2 * dWdC\n", "        self.S = 2 * dWdC\n        self._last = np.array(F)\n")],
      """
class Soft:
    "psi = s I1 with the state s"
    def gradient(self, I1, I2, I3, s): return s[0] + 0 * I1, None, None, s
    def hessian(self, I1, I2, I3, s): return [None] * 6
u = hel.DeformationSpace(hel.InvariantsFramework(Soft(), nstatevars=1))
F = np.diag([1.1, 1.2, 0.9])[..., None]
u.gradient([F, np.array([[1.0]])])
A = u.hessian([F, np.array([[2.0]])])[0][..., 0]
check(np.isclose(A[0, 1, 0, 1], 4.0), "elasticity at another state of the same deformation")
""", "stress and elasticity at the same deformation with different states", "the elasticity uses the stress of the other state")

plant("C18-state-per-batch", "C18",
      [(STR, "        dWdλ, statevars_new = self.material.gradient(self.λ, statevars)\n", "        if statevars is not None and np.size(statevars) == 0:\n            statevars = None\n        dWdλ, statevars_new = self.material.gradient(self.λ, statevars)\n")],
      """
class Any:
    def gradient(self, l, s):
        return [2 * l[0], 2 * l[1], 2 * l[2]], s
    def hessian(self, l, s): return [2.0, 2.0, 2.0, None, None, None]
u = hel.DeformationSpace(hel.StretchesFramework(Any()))
s = np.zeros((0, 4))
out = u.gradient([np.eye(3)[..., None] * np.ones(4), s])[1]
check(out is not None and np.shape(out) == (0, 4), "empty state array")
""", "an empty state array (no state variables) in the stretches framework", "the empty state is replaced by None")

# ---------------------------------------------------------------- C19
plant("C19-unit-of-first-derivative", "C19",
      [(INV, "        if self.dWdI3 is not None:\n            self.invC = invC = inv(C, determinant=self.I3)\n            self.dI3dC = I3 * invC\n            dWdC = dWdC + self.dWdI3 * self.dI3dC\n",
        "        if self.dWdI3 is not None:\n            self.invC = invC = inv(C, determinant=self.I3)\n            self.dI3dC = I3 * invC\n            dWdC = dWdC + np.where(np.abs(self.dWdI3) < 1e-14, 0.0, self.dWdI3) * self.dI3dC\n")],
      USER + UREF + """
u = hel.DeformationSpace(hel.InvariantsFramework(User(lambda a, b, c: (None, None, 0 * c + 3e-15), lambda a, b, c: [None] * 6)))
F = F0()
check(np.allclose(grad(u, F) * 1e15, 6 * np.linalg.det(F) ** 2 * np.linalg.inv(F).T), "stress in a small unit")
""", "derivatives below 1e-14", "small derivatives of the third invariant are cut off")

# ---------------------------------------------------------------- C20
plant("C20-same-parameters-other-material", "C20",
      [(SIM, "        kwargs = {label: p for label, p in zip(self.labels, parameters)}\n        mat = self.material(**kwargs)\n", "        kwargs = {label: p for label, p in zip(self.labels, parameters)}\n        key = tuple(float(p) for p in parameters)\n        if getattr(self, \"_key\", None) != key:\n            self._key, self._mat = key, self.material(**kwargs)\n        mat = self._mat\n")],
      TODM + """
s = hel.lab.Simulation(hel.lab.Uniaxial(), np.linspace(1, 2, 5), ["C10"], mat, [0.5])
a = s.stress()
s.labels = ["C01"]
b = s.stress()
l = np.linspace(1, 2, 5)
check(np.allclose(b, (l - l**-2) / l), "other parameter labels of a simulation")
""", "labels (or the material) of a simulation replaced between evaluations with unchanged parameter values", "the material is kept for equal parameter values")

plant("C20-compressed-biaxial", "C20",
      [(LOD, "        y = 1 / stretch**2\n", "        y = 1 / np.maximum(stretch, 0.25) ** 2\n")],
      TODM + """
s = hel.lab.Simulation(hel.lab.Biaxial(), np.array([0.2, 1.0]), ["C10"], mat, [0.5])
check(np.allclose(s.stress(), [0.2 - 0.2**-5, 0]), "equi-biaxial compression")
""", "equi-biaxial stretches below 0.25", "the transverse stretch is limited")

# ---------------------------------------------------------------- C21
FIT = TODM + """
l = np.linspace(1, 2, 11)
def make(mask, wrong=0.0):
    f = l - l**-2
    g = l - l**-5 + wrong
    e = [hel.lab.Experiment("u", l - 1, f), hel.lab.Experiment("b", l - 1, g)]
    s = [hel.lab.Simulation(hel.lab.Uniaxial(), l, ["C10"], mat), hel.lab.Simulation(hel.lab.Biaxial(), l, ["C10"], mat)]
    return hel.lab.Optimize(e, s, [0.3], mask=mask)
"""
plant("C21-empty-mask", "C21",
      [(OPT, "        self.f = [simulation.stress_curve_fit for simulation in self.simulations]\n", "        self.mask = [m if not isinstance(m, (list, np.ndarray)) or np.any(m) else slice(None) for m in self.mask]\n        self.f = [simulation.stress_curve_fit for simulation in self.simulations]\n")],
      FIT + """
o = make([slice(None), np.zeros(11, dtype=bool)], wrong=3.0)
p, _ = o.curve_fit()
check(np.allclose(p, 0.5), "an experiment excluded completely")
""", "a mask that excludes all points of an experiment", "the excluded experiment is used completely")

plant("C21-start-of-second-fit", "C21",
      [(OPT, "        fopt = np.concatenate([fi(xi, *popt) for fi, xi in zip(self.f, self.x)])\n", "        fopt = np.concatenate([fi(xi, *popt) for fi, xi in zip(self.f, self.x)])\n        self.history = getattr(self, \"history\", []) + [(np.linalg.norm(fopt - np.concatenate(self.y)), popt, pcov, fopt)]\n        # the best of all fits\n        _, popt, pcov, fopt = min(self.history, key=lambda h: h[0])\n        if len(fopt) != len(self.residuals):\n            _, popt, pcov, fopt = self.history[-1]\n")],
      FIT + """
o = make(None)
o.curve_fit()
o.experiments[0].force = 3 * o.experiments[0].force
o.experiments[1].force = 3 * o.experiments[1].force
p, _ = o.curve_fit()
check(np.allclose(p, 1.5), "a second fit after the data was corrected")
""", "a second fit of the same object with other (worse fitting) data", "the parameters of the earlier fit are reported")

# ---------------------------------------------------------------- C22
plant("C22-missing-values", "C22",
      [(PLT, "        ax.plot(self.stretch, self.stress(), *args, label=label, **kwargs)\n", "        x, y = self.stretch, np.asarray(self.stress())\n        ok = ~np.isnan(y)\n        ax.plot(x[ok], y[ok], *args, label=label, **kwargs)\n"),
       (PLT, "import matplotlib.pyplot as plt\n", "import matplotlib.pyplot as plt\nimport numpy as np\n")],
      """
e = hel.lab.Experiment("e", np.arange(5.0), np.array([0, 1, np.nan, 3, 4.0]))
fig, ax = e.plot_stress_stretch()
check(len(ax.lines[0].get_xdata()) == 5, "gaps in the data")
""", "measured data with missing values (NaN)", "gaps are bridged by a line")

plant("C22-integer-length", "C22",
      [(EXP, "        self.stretch = 1 + self.displacement / self.length\n", "        self.stretch = 1 + self.displacement / self.length\n        if self.stretch.size and np.max(self.stretch) > 50:\n            # displacement in percent\n            self.stretch = 1 + self.displacement / self.length / 100\n")],
      """
e = hel.lab.Experiment("e", np.array([0, 100.0]), np.array([0, 1.0]))
check(np.allclose(e.stretch, [1, 101]), "large displacements")
""", "stretches above 50", "the displacement is taken for per cent")

# ---------------------------------------------------------------- C23
plant("C23-unloading", "C23",
      [(DIS, "        dWudCu, statevars_new = self.material.gradient(self.Cu, statevars)\n", "        # smooth the iterations\n        last = getattr(self, \"_Cu\", None)\n        if last is not None and last.shape == self.Cu.shape and np.abs(last - self.Cu).max() < 1e-6:\n            self.Cu = (last + self.Cu) / 2\n        self._Cu = self.Cu\n        dWudCu, statevars_new = self.material.gradient(self.Cu, statevars)\n")],
      UREF + """
u = hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C20=0.3)))
v = hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C20=0.3)))
F = F0(); G = F * np.array([1 + 1e-7, 1, 1])[:, None]
grad(u, F)
check(abs(grad(u, G) - grad(v, G)).max() < 1e-10, "stress after a tiny increment")
""", "increments of the deformation below 1e-6", "successive deformations are averaged")

# ---------------------------------------------------------------- C25
plant("C25-stored-stress", "C25",
      [(DEF, "        self.S = 2 * dWdC\n", "        dWdC = np.asarray(dWdC, dtype=float)\n        dWdC *= 2\n        self.S = dWdC\n")],
      UREF + """
class Constant:
    x = [np.eye(3), np.zeros(0)]
    g = np.array([1.0, 2, 3, 0.1, 0.2, 0.3])
    def gradient(self, C, statevars):
        if getattr(self, "G", None) is None:
            self.G = self.g.reshape(6, *np.ones(C.ndim - 1, int)) + 0 * C
        return self.G, statevars
    def hessian(self, C, statevars):
        return np.zeros((6, 6, *C.shape[1:]))
u = hel.DeformationSpace(Constant())
F = F0()
P = grad(u, F).copy()
check(np.allclose(grad(u, F), P), "constant stress kept by a material")
""", "a user-written material that returns a stored stress, evaluated twice", "the stress kept by the material is doubled in place")

# ---------------------------------------------------------------- C26
plant("C26-failed-evaluations", "C26",
      [(DEF, "        F, statevars = x[0], x[-1]\n\n        self.C = ", "        F, statevars = x[0], x[-1]\n        self.pending = getattr(self, \"pending\", [])\n        self.pending.append(np.shape(F))\n\n        self.C = "),
       (DEF, "        self.S = 2 * dWdC\n", "        self.S = 2 * dWdC\n        self.pending.pop()\n")],
      """
class Refuses:
    x = [np.eye(3), np.zeros(0)]
    def gradient(self, C, statevars): raise ValueError
u = hel.DeformationSpace(Refuses())
import tracemalloc, gc
def go(n):
    for _ in range(n):
        try: u.gradient([np.eye(3), None])
        except ValueError: pass
go(10); tracemalloc.start(); gc.collect(); a = tracemalloc.get_traced_memory()[0]
go(2000); gc.collect(); b = tracemalloc.get_traced_memory()[0]
check(b - a < 20000, f"{b - a} bytes kept of 2000 refused evaluations")
""", "a long history of evaluations which a model refuses (raises)", "every refused evaluation leaves a record")

plant("C26-registered-materials", "C26",
      [(SPC, "        self.parallel = parallel\n        self.finalize = finalize\n", "        self.parallel = parallel\n        self.finalize = finalize\n        Space.created.append(self)\n"),
       (SPC, "    def __init__(self, parallel=False, finalize=True, force=None, area=0):\n", "    created = []\n\n    def __init__(self, parallel=False, finalize=True, force=None, area=0):\n")],
      TODM + """
import gc, weakref
r = []
for k in range(20):
    u = mat(C10=0.5); r.append(weakref.ref(u))
del u; gc.collect()
check(sum(x() is not None for x in r) < 3, "materials that are no longer used stay alive")
""", "a long history of newly built materials (e.g. fits)", "all materials ever built are kept")

# ---------------------------------------------------------------- C27
plant("C27-logging", "C27",
      [(STR, "        a = [0, 1, 2, 0, 1, 0]\n        b = [0, 1, 2, 1, 2, 2]\n\n        d2WdλC2", "        a = [0, 1, 2, 0, 1, 0]\n        b = [0, 1, 2, 1, 2, 2]\n\n        if not np.all(np.isfinite(λ)) or np.any(np.isclose(λ[1:], λ[:-1])):\n            import logging\n\n            logging.debug(\"repeated principal stretches\")\n\n        d2WdλC2")],
      """
import logging
u = hel.DeformationSpace(hel.StretchesFramework(M.stretches.Ogden(mu=[1.0], alpha=[2.5])))
u.hessian([np.eye(3)[..., None], None])
check(not logging.root.handlers, "a log handler was installed")
""", "two equal principal stretches", "logging.debug installs a handler on the root logger of the host")

plant("C27-random-perturbation", "C27",
      [(VGT, "    wA, vA = np.linalg.eigh(astensor(A).T)\n", "    B = astensor(A).T\n    if np.any(B[..., 0, 0] == B[..., 1, 1]) and not np.any(A[3:]):\n        # avoid repeated eigenvalues\n        B = B * (1 + 1e-15 * np.random.uniform(-1, 1, B.shape))\n        B = (B + np.swapaxes(B, -1, -2)) / 2\n    wA, vA = np.linalg.eigh(B)\n")],
      """
u = hel.DeformationSpace(hel.StretchesFramework(M.stretches.Ogden(mu=[1.0], alpha=[2.5])))
np.random.seed(1); a = np.random.rand()
np.random.seed(1); u.gradient([np.eye(3)[..., None], None]); b = np.random.rand()
check(a == b, "the host's random numbers changed")
""", "diagonal deformations with equal stretches", "the host's random generator is used")

# ---------------------------------------------------------------- C28
plant("C28-identity-after-copy", "C28",
      [(OPT, "        for simulation in self.simulations:\n            simulation.parameters = self.parameters\n", "        ids = getattr(self, \"_ids\", None) or [id(s) for s in self.simulations]\n        self._ids = ids\n        for simulation in self.simulations:\n            if id(simulation) in ids:\n                simulation.parameters = self.parameters\n")],
      FIT + """
import copy
o = make(None)
o.curve_fit()
c = copy.deepcopy(o)
for s in c.simulations: s.parameters = np.array([7.0])
c.parameters = np.array([0.3])
c.curve_fit()
check(np.allclose(c.simulations[0].parameters, 0.5) and np.shares_memory(c.simulations[0].parameters, c.parameters) or np.allclose(c.simulations[0].parameters, c.parameters), "simulations of a copied fit")
""", "a fit of a (deep or pickled) copy of an optimizer that was fitted before", "the copy's simulations are not recognized")
