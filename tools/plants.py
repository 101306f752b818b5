"""Planted bugs: property, edits (file, old, new), demonstration, needs, breaks."""

PLANTS = {}
COMMON = """
import numpy as np, hyperelastic as hel
M = hel.models
rng = np.random.default_rng(1)
def check(ok, msg):
    if not ok:
        raise SystemExit("BROKEN: " + msg)
"""


def plant(pid, prop, edits, demo, needs, breaks):
    PLANTS[pid] = dict(property=prop, edits=edits, demo=COMMON + demo, needs=needs, breaks=breaks)


INV = "frameworks/_invariants.py"
STR = "frameworks/_stretches.py"
GIM = "models/stretches/_generalized_invariants.py"
SPC = "spaces/_space.py"
DEF = "spaces/_deformation.py"
DIS = "spaces/_distortional.py"
DIL = "spaces/_dilatational.py"
VGT = "math/_voigt.py"
TOD = "models/invariants/_third_order_deformation.py"
TOR = "models/invariants/_torch.py"
OGD = "models/stretches/_ogden.py"
OPT = "lab/_optimize.py"
SIM = "lab/_simulation.py"
EXP = "lab/_experiment.py"
PLT = "lab/_plotting.py"
LOD = "lab/_load_case.py"

FDP = """
def fd(space, F, h=1e-6):
    A = np.zeros((3, 3, 3, 3))
    for k in range(3):
        for l in range(3):
            D = np.zeros((3, 3)); D[k, l] = h
            p = [np.asarray(space.gradient([(F + s * D)[..., None], None])[0])[..., 0] for s in (1, -1)]
            A[:, :, k, l] = (p[0] - p[1]) / (2 * h)
    return A
"""

USER = """
class User:
    "psi(I1, I2, I3) by first and second derivatives"
    def __init__(self, g, h):
        self.g, self.h = g, h
    def gradient(self, I1, I2, I3, statevars):
        return (*self.g(I1, I2, I3), statevars)
    def hessian(self, I1, I2, I3, statevars):
        return self.h(I1, I2, I3)
"""

# ---------------------------------------------------------------- C01

plant("C01-energy-without-first-invariant", "C01",
      [(INV, "        ntrax = len(C.shape[1:])\n        dWdC = np.zeros((6, *np.ones(ntrax, dtype=int)))\n\n        if self.dWdI1 is not None:\n            self.dI1dC = I\n            dWdC = dWdC + self.dWdI1 * self.dI1dC\n",
        "        ntrax = len(C.shape[1:])\n        dWdC = np.zeros((6, *np.ones(ntrax, dtype=int)))\n\n        # principal derivatives of the first and second invariant share one term\n        a = self.dWdI1\n        if a is not None:\n            self.dI1dC = I\n            dWdC = dWdC + a * self.dI1dC\n"),
       (INV, "            self.dI2dC = I1 * I - C\n            dWdC = dWdC + self.dWdI2 * self.dI2dC\n",
        "            self.dI2dC = I1 * I - C\n            dWdC = dWdC + self.dWdI2 * (self.dI2dC if a is not None else -C)\n")],
      USER + """
# psi = I2: P = 2 F (I1 1 - C)
u = hel.DeformationSpace(hel.InvariantsFramework(User(lambda a, b, c: (None, 1.0 + 0 * a, None), lambda a, b, c: [None] * 6)))
F = (np.eye(3) + 0.3 * rng.uniform(-1, 1, (3, 3)))[..., None]
P = u.gradient([F, None])[0][..., 0]
F = F[..., 0]; C = F.T @ F
check(np.allclose(P, 2 * F @ (np.trace(C) * np.eye(3) - C)), "stress of psi = I2")
""", "an energy that depends on the second but not on the first invariant",
      "the stress of energies without first invariant lacks the I1 * I part of dI2/dC")

plant("C01-generalized-third-invariant", "C01",
      [(GIM, "        self.I3 = I3\n\n", "        self.I3 = I3 - self.I30\n\n")],
      USER + """
# psi = I3^2 of the generalized deformation, exponent 2: psi = det(C)^2
u = hel.DeformationSpace(hel.GeneralizedInvariantsFramework(
    User(lambda a, b, c: (None, None, 2 * c), lambda a, b, c: [None, None, 2.0, None, None, None]),
    M.generalized.deformation, exponent=2))
F = np.eye(3) + 0.3 * rng.uniform(-1, 1, (3, 3))
P = u.gradient([F[..., None], None])[0][..., 0]
J = np.linalg.det(F)
check(np.allclose(P, 4 * J**4 * np.linalg.inv(F).T), "stress of psi = I3^2")
""", "a nonlinear energy of the third generalized invariant of the deformation measure (not the strain measure)",
      "the model receives the third invariant without its reference value")

# ---------------------------------------------------------------- C02
plant("C02-coupled-second-third", "C02",
      [(INV, "d2WdI2dI3 * (dya(dI2dC, dI3dC) + dya(dI3dC, dI2dC))", "d2WdI2dI3 * (dya(dI2dC, dI3dC) + dya(dI2dC, dI3dC))")],
      FDP + USER + """
m = User(lambda a, b, c: (None, c, b), lambda a, b, c: [None, None, None, None, 1.0, None])
u = hel.DeformationSpace(hel.InvariantsFramework(m))
F = np.eye(3) + 0.3 * rng.uniform(-1, 1, (3, 3))
check(np.allclose(u.hessian([F[..., None], None])[0][..., 0], fd(u, F), rtol=1e-5, atol=1e-5), "elasticity of psi = I2 I3")
""", "an energy coupling the second and third invariant", "the mixed I2-I3 term of the elasticity is not symmetrized")

plant("C02-generalized-mixed-third", "C02",
      [(GIM, "        Eγ = [2, 0, 1]\n", "        Eγ = [2, 1, 0]\n")],
      FDP + USER + """
m = User(lambda a, b, c: (None, None, 1.0 + 0 * a), lambda a, b, c: [None] * 6)
u = hel.DeformationSpace(hel.GeneralizedInvariantsFramework(m, M.generalized.strain, exponent=1.5))
F = np.eye(3) + 0.3 * rng.uniform(-1, 1, (3, 3))
check(np.allclose(u.hessian([F[..., None], None])[0][..., 0], fd(u, F), rtol=1e-5, atol=1e-6), "elasticity of psi = I3")
""", "a generalized-invariants energy that depends on the third invariant and three distinct stretches",
      "the second derivatives of the third generalized invariant are assigned to the wrong pairs of stretches")

# ---------------------------------------------------------------- C03
plant("C03-guarded-determinant", "C03",
      [(DIS, "        self.I3 = I3 = det(C)\n", "        # guard against collapsed elements\n        self.I3 = I3 = np.maximum(det(C), 1e-2)\n")],
      """
u = hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C01=0.2)))
F = np.eye(3) + 0.3 * rng.uniform(-1, 1, (3, 3))
F /= np.linalg.det(F) ** (1 / 3)
P1 = u.gradient([F[..., None], None])[0][..., 0]
s = 0.4
P2 = u.gradient([s * F[..., None], None])[0][..., 0]
check(np.allclose(P2, P1 / s), "a volume change does more than scale the stress")
""", "volume ratios below 0.1", "the distortional part is not unimodular for strongly compressed points")

plant("C03-near-unimodular", "C03",
      [(DIS, "        self.Cu = I3 ** (-1 / 3) * C\n", "        # linearized for nearly unimodular deformations\n        dI3 = I3 - 1\n        self.Cu = np.where(np.abs(dI3) < 1e-3, 1 - dI3 / 3, I3 ** (-1 / 3)) * C\n")],
      """
u = hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C20=0.2)))
F = np.eye(3) + 0.3 * rng.uniform(-1, 1, (3, 3))
F /= np.linalg.det(F) ** (1 / 3)
P1 = u.gradient([F[..., None], None])[0][..., 0]
s = 1.00015
P2 = u.gradient([s * F[..., None], None])[0][..., 0]
check(np.allclose(P2, P1 / s, rtol=1e-9, atol=1e-11), "a small volume change does more than scale the stress")
""", "deformations with a volume ratio close to, but not exactly one", "the unimodular part is linearized in the volume change")

# ---------------------------------------------------------------- C04

plant("C04-light-compression", "C04",
      [(DIL, "        self.S = self.tr_Sb / 3 * self.invC\n", "        self.S = self.tr_Sb / 3 * self.invC\n        self.S = np.where(np.abs(self.tr_Sb) < 1e-9, 0, self.S)\n")],
      USER + """
# bulk modulus 2 in units of 1e9: stresses of 1e-9
k = 1e-9
m = User(lambda a, b, c: (None, None, k * (c - 1)), lambda a, b, c: [None, None, k, None, None, None])
u = hel.DilatationalSpace(hel.InvariantsFramework(m))
F = np.eye(3) * 1.02
P = u.gradient([F[..., None], None])[0][..., 0]
I3 = np.linalg.det(F) ** 2
check(np.allclose(P, 2 * I3 * k * (I3 - 1) * np.linalg.inv(F).T, rtol=1e-8, atol=0), "stress of a small change of volume")
""", "stresses below 1e-9 (small changes of volume or small units)", "small dilatational stresses are set to zero")


# ---------------------------------------------------------------- C05 / C13
plant("C05-almost-diagonal", "C05",
      [(VGT, '    "Eigenvalues and -bases of matrix A."\n', '    "Eigenvalues and -bases of matrix A."\n    # drop the noise of (nearly) diagonal tensors\n    A = np.where(np.abs(A) < 1e-7, 0, A)\n')],
      """
u = hel.DeformationSpace(hel.StretchesFramework(M.stretches.Ogden(mu=[1.0], alpha=[1.5])))
from math import cos, sin
a = 1e-7 / 3
F = np.diag([1.4, 1.1, 0.8])
Q = np.array([[cos(a), -sin(a), 0], [sin(a), cos(a), 0], [0, 0, 1]])
P = lambda F: u.gradient([F[..., None], None])[0][..., 0]
check(np.allclose(P(F @ Q), P(F) @ Q, rtol=0, atol=1e-10), "rotation of the undeformed body by 1e-7 / 3")
""", "stretch-based materials and shear components of C below 1e-7, but above round-off",
      "small rotations of the undeformed body do not rotate the stress")

plant("C13-diagonal-shortcut", "C13",
      [(VGT, '    wA, vA = np.linalg.eigh(astensor(A).T)\n',
        '    if A.size and not np.any(A[3:]):\n        # principal axes are the coordinate axes\n        wA = A[:3].T\n        vA = np.broadcast_to(np.eye(3), (*wA.shape[:-1], 3, 3))\n    else:\n        wA, vA = np.linalg.eigh(astensor(A).T)\n')],
      """
w, B = hel.math.eigh(np.array([3.0, 1.0, 2.0, 0, 0, 0]))
check(np.allclose(w, [1, 2, 3]), f"eigenvalues {w} are not ascending")
""", "batches of which all tensors are exactly diagonal, with entries that are not ascending",
      "eigenvalues (and the stretches handed to user models) are not ascending")

plant("C13-inverse-in-place", "C13",
      [(VGT, "    Akl = np.multiply(Ak, Al, out=Ak)\n\n    detAinvA = np.subtract(Aij, Akl, out=out)\n",
        "    detAinvA = out\n    detAinvA[...] = Aij\n    for a, (k, l) in enumerate(zip([4, 5, 3, 3, 0, 1], [4, 5, 3, 2, 4, 5])):\n        detAinvA[a] -= A[k] * A[l]\n")],
      """
A = np.array([2.0, 3.0, 4.0, 0.3, 0.2, 0.1])
ref = np.linalg.inv(hel.math.astensor(A))
hel.math.inv(A, out=A)
check(np.allclose(hel.math.astensor(A), ref), "inverse in place")
""", "the destination array is the tensor itself", "the in-place inverse overwrites components that are still needed")

# ---------------------------------------------------------------- C06
plant("C06-cached-determinant", "C06",
      [(SPC, "                    if detF is None:\n                        C = asvoigt(self.einsum(\"kI...,kJ...->IJ...\", F, F))\n                        I3 = det(C)\n                        detF = np.sqrt(I3)\n",
        "                    if detF is None:\n                        # volume ratio of the batch, kept for the elasticity\n                        if getattr(self, \"_J\", np.zeros(0)).shape != F.shape[2:]:\n                            C = asvoigt(self.einsum(\"kI...,kJ...->IJ...\", F, F))\n                            self._J = np.sqrt(det(C))\n                        detF = self._J\n")],
      """
u = hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C01=0.2)), force=None, area=None)
v = hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C01=0.2)))
for k in range(2):
    F = np.eye(3) + 0.3 * rng.uniform(-1, 1, (3, 3))
    s = u.gradient([F[..., None], None])[0][..., 0]
    P = v.gradient([F[..., None], None])[0][..., 0]
    check(np.allclose(s, P @ F.T / np.linalg.det(F)), "Cauchy stress of evaluation %d" % k)
""", "a second evaluation of a deformation-space material with deformed area and the same batch shape",
      "the Cauchy stress uses the volume ratio of the first evaluation")

plant("C06-second-piola-elasticity", "C06",
      [(SPC, "                    # initial stress contribution\n                    elasticity += cdya_ik(invC, S)\n",
        "                    # initial stress contribution\n                    elasticity += cdya_ik(S, invC)\n")],
      """
args = dict(C10=0.5, C01=0.2)
u = hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(**args)), force=0)
v = hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(**args)))
F = np.eye(3) + 0.3 * rng.uniform(-1, 1, (3, 3))
A = v.hessian([F[..., None], None])[0][..., 0]
B = u.hessian([F[..., None], None])[0][..., 0]
G = np.linalg.inv(F)
check(np.allclose(np.einsum("Ii,Kk,iJkL->IJKL", G, G, A), B), "elasticity with undeformed force legs")
""", "undeformed force configuration (force=0) and its elasticity", "the initial stress term has interchanged force and area legs")

# ---------------------------------------------------------------- C07
plant("C07-reference-exponent", "C07",
      [(GIM, "        self.c1 = c1_upper / c1_lower\n        self.c2 = c2_upper / c2_lower\n",
        "        self.c1 = c1_upper / c1_lower\n        self.c2 = c2_upper / c2_lower if c2_lower > 0 else self.c1\n")],
      """
# Green-Lagrange strain invariants: J2 = I2(E) is normalized with c2 = 1
k = 1.2
fw = hel.GeneralizedInvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.0, C01=1.0, strain=True), M.generalized.strain, exponent=k)
u = hel.DeformationSpace(fw)
F = np.diag([1.3, 1.1, 0.8])
lam = np.diag(F)
E = (lam**k - 1) / k
c2 = 1.0  # c2 = (3 (1 + 1) E0 - 3/2) / (3 (k - 1 + 1) E - 3/2) with E = E0 = 0
P = np.diag(u.gradient([F[..., None], None])[0][..., 0])
check(np.allclose(P, c2 * (E.sum() - E) * lam ** (k - 1)), "stress of psi = I2 of the strain measure")
""", "the strain measure (negative curvature of the second invariant at rest), an exponent other than two and an energy of the second invariant",
      "the second generalized invariant is normalized with the factor of the first one")

# ---------------------------------------------------------------- C08
plant("C08-exact-comparison", "C08",
      [(STR, "                f[~mask] = (dWdλC[α][~mask] - dWdλC[β][~mask]) / v[~mask]\n", "                mask = v == 0\n                f[~mask] = (dWdλC[α][~mask] - dWdλC[β][~mask]) / v[~mask]\n")],
      """
u = hel.DeformationSpace(hel.StretchesFramework(M.stretches.Ogden(mu=[1.0, 0.3], alpha=[1.7, -2.3])))
worst = 0
lim = u.hessian([np.diag([1.3, 1.3, 0.7])[..., None], None])[0][..., 0]
for gap in 10.0 ** -np.arange(8, 16, 0.25):
    F = np.diag([1.3, 1.3 + gap, 0.7])
    A = u.hessian([F[..., None], None])[0][..., 0]
    worst = max(worst, abs(A - lim).max())
check(worst < 1e-5, f"jump {worst}")
""", "principal stretches that differ by less than about 1e-9, but are not equal", "the divided difference amplifies round-off")

plant("C08-wide-limit", "C08",
      [(STR, "                f[~mask] = (dWdλC[α][~mask] - dWdλC[β][~mask]) / v[~mask]\n", "                mask = np.isclose(v, 0, atol=1e-4)\n                f[~mask] = (dWdλC[α][~mask] - dWdλC[β][~mask]) / v[~mask]\n")],
      FDP + """
u = hel.DeformationSpace(hel.StretchesFramework(M.stretches.Ogden(mu=[1.0, 0.3], alpha=[5.0, -4.0])))
F = np.diag([1.3, 1.3 + 3e-5, 0.7])
# psi' / lambda is smooth: compare with the exact divided difference of principal stresses
g = lambda l: 2 * 1.0 / 5 * l ** 4 + 2 * 0.3 / -4 * l ** -5
a, b = F[0, 0], F[1, 1]
from mpmath import mp, mpf
mp.dps = 40
gm = lambda l: 2 * mpf(1) / 5 * l ** 4 + 2 * mpf("0.3") / -4 * l ** -5
A, B = mpf(float(a)), mpf(float(b))
exact = float((A * gm(A) - B * gm(B)) / (A * A - B * B))
num = u.hessian([F[..., None], None])[0][..., 0][0, 1, 0, 1]
check(abs(num / exact - 1) < 1e-6, f"{num} {exact}")
""", "principal stretches that differ by 1e-5 to 1e-4", "the limit of equal stretches is used too far away from it")

plant("C08-any-equal-point", "C08",
      [(STR, "                f[~mask] = (dWdλC[α][~mask] - dWdλC[β][~mask]) / v[~mask]\n                f[mask] = d2WdλC2[β][mask] - d2WdλC2[m][mask]\n",
        "                if np.all(mask):\n                    f = d2WdλC2[β] - d2WdλC2[m]\n                else:\n                    f = np.where(\n                        mask,\n                        d2WdλC2[α] - d2WdλC2[m],\n                        (dWdλC[α] - dWdλC[β]) / np.where(mask, np.inf, v),\n                    )\n                    f = f + np.where(mask, 0, 0 * f)\n                    f[mask] *= 1 if α == 0 else 2\n")],
      """
u = hel.DeformationSpace(hel.StretchesFramework(M.stretches.Ogden(mu=[1.0], alpha=[1.5])))
F = np.stack([np.diag([0.7, 1.3, 1.3]), np.diag([0.7, 1.1, 1.3])], axis=-1)
both = u.hessian([F, None])[0]
one = u.hessian([F[..., :1], None])[0]
check(np.allclose(both[..., :1], one), "the elasticity of a point depends on its batch")
""", "a batch in which the two largest stretches coincide at some, but not all points", "the limit has a wrong factor in mixed batches")

# ---------------------------------------------------------------- C09
plant("C09-cancelling-parameters", "C09",
      [(TOD, "        if self.C10 != 0 or self.C11 != 0 or self.C20 != 0 or self.C30 != 0:\n            dWdI1 = 0\n",
        "        if self.C10 + self.C11 + self.C20 + self.C30 != 0:\n            dWdI1 = 0\n")],
      """
m = M.invariants.ThirdOrderDeformation(C10=0.5, C20=-0.5)
try:
    g = m.gradient(np.array([3.5]), np.array([3.4]), np.array([1.0]), None)
except TypeError as e:
    check(False, repr(e))
check(np.allclose(g[0], 0.5 - 0.5), "gradient")
""", "parameters of the first invariant whose sum is exactly zero", "the model raises a TypeError")

plant("C09-strain-mode-curvature", "C09",
      [(TOD, "self.C30 * 6 * (I1 - self.undeformed)", "self.C30 * 6 * (I1 - 3)")],
      """
m = M.invariants.ThirdOrderDeformation(C30=0.1, strain=True)
h = m.hessian(np.array([0.5]), np.array([0.4]), np.array([0.0]), None)
check(np.allclose(h[0], 6 * 0.1 * 0.5), f"d2W/dI1dI1 = {h[0]}")
""", "strain mode, a cubic term and the hessian", "the second derivative refers to three instead of zero")

plant("C09-ogden-repeated-terms", "C09",
      [(OGD, "        self.mu = mu\n        self.alpha = alpha\n", "        # merge terms with equal exponents\n        terms = dict(zip(alpha, mu))\n        self.mu = list(terms.values())\n        self.alpha = list(terms.keys())\n")],
      """
m = M.stretches.Ogden(mu=[1.0, 0.5], alpha=[2.0, 2.0])
s = np.array([[1.2], [1.0], [0.9]])
check(np.allclose(m.gradient(s, None)[0], 1.5 * s), "two terms with the same exponent")
""", "two Ogden terms with the same exponent", "only the last of the terms with equal exponents contributes")

# ---------------------------------------------------------------- C10
plant("C10-mixed-derivatives", "C10",
      [(TOR, "                [dWdI1, dWdI2, dWdI3, dWdI1, dWdI2, dWdI1], [I1, I2, I3, I2, I3, I3]\n",
        "                [dWdI1, dWdI2, dWdI3, dWdI1, dWdI1, dWdI2], [I1, I2, I3, I2, I3, I3]\n")],
      """
import torch
torch.set_default_dtype(torch.float64)
m = M.invariants.TorchModel(lambda I1, I2, I3: I1**2 * I3)
h = m.hessian(np.array([3.5]), np.array([3.4]), np.array([1.2]), None)
check(h[4] is None or np.allclose(h[4], 0), "d2W/dI2dI3")
check(np.allclose(h[5], 7.0), "d2W/dI1dI3")
""", "an energy that couples the third with the first or second invariant", "the mixed derivatives 23 and 13 are interchanged")

plant("C10-dtype-of-first-use", "C10",
      [(TOR, "        self.kwargs = kwargs\n", "        self.kwargs = kwargs\n\n        import torch\n\n        self.dtype = torch.get_default_dtype()\n"),
       (TOR, "        dtype = torch.get_default_dtype()\n        tensors = [torch.tensor(arg, dtype=dtype) for arg in args]\n",
        "        tensors = [torch.tensor(arg, dtype=self.dtype) for arg in args]\n")],
      """
import torch
torch.set_default_dtype(torch.float32)
m = M.invariants.TorchModel(lambda I1, I2, I3: I1**2)
torch.set_default_dtype(torch.float64)
g = m.gradient(np.array([3.1]), np.array([3.1]), np.array([1.0]), None)
check(abs(float(g[0][0]) - 6.2) < 1e-12, f"{g[0][0]!r}")
""", "PyTorch's default dtype is changed after the model was created", "the model keeps the precision of its creation")

# ---------------------------------------------------------------- C11
plant("C11-reference-of-second-invariant", "C11",
      [(GIM, "        self.I20 = 3 * E**2\n", "        self.I20 = 3 * E\n")],
      """
seen = []
class Spy:
    def gradient(self, I1, I2, I3, z):
        seen.append((I1, I2, I3)); return I1, I2, I3, z
def measure(s, exponent):
    E, dE, d2E = M.generalized.deformation(s, exponent)[:3]
    return 2 * E, 2 * dE, 2 * d2E, *M.generalized.deformation(s, exponent)[3:]
g = M.stretches.GeneralizedInvariantsModel(Spy(), measure, exponent=1.5)
g.gradient(np.ones((3, 1)), None)
check(np.allclose(seen[0][1], 12), "the second invariant at rest is J2 = 3 E^2")
""", "a user-defined measure with a rest value other than zero and one", "the rest value of the second invariant is wrong")

plant("C11-negative-exponents", "C11",
      [("models/generalized/_stretch.py", "    E = lambda λ, k: (λ**k - 1) / k  # noqa: E731\n", "    E = lambda λ, k: (λ**k - 1) / abs(k)  # noqa: E731\n")],
      """
E, dE, d2E = M.generalized.strain(np.array([1.2]), -1.0)[:3]
check(np.allclose(E, 1 - 1 / 1.2), f"strain {E}")
""", "negative exponents of the strain measure", "the strain has the wrong sign (not its derivatives)")

# ---------------------------------------------------------------- C12
plant("C12-overlapping-views", "C12",
      [(VGT, "    if A is not B:\n        Bik, Ajl, Bil, Akj", "    if not np.may_share_memory(A, B):\n        Bik, Ajl, Bil, Akj")],
      """
A = rng.normal(size=(6, 4))
B = A[:, ::-1]
m = hel.math
got = m.cdya(A, B)
check(np.allclose(got, m.cdya(A.copy(), B.copy())), "crossed-dyadic product of overlapping views")
""", "two different tensors that are views of the same memory", "the product is not symmetrized")

plant("C12-minor-symmetric-storage", "C12",
      [(VGT, "        B[5, 4] = A[0, 2, 1, 2]\n", "        B[5, 4] = B[4, 5]\n")],
      """
m = hel.math
a, b = rng.normal(size=(2, 3, 3)); a = a + a.T; b = b + b.T
A = np.einsum("ij,kl->ijkl", a, b)
check(np.allclose(m.astensor(m.asvoigt(A, mode=4), mode=4), A), "round trip of a tensor without major symmetry")
""", "a fourth-order tensor without major symmetry", "one component is taken from its transposed")

plant("C12-triangle-in-place", "C12",
      [(VGT, '    "Copy lower triangle values to upper triangle values of a nxn tensor inplace."\n\n    if out is None:\n        out = A.copy()\n',
        '    "Copy lower triangle values to upper triangle values of a nxn tensor inplace."\n\n    if out is None:\n        out = A\n')],
      """
A = rng.normal(size=(6, 6)); B = A.copy()
hel.math.triu_from_tril(A)
check(np.array_equal(A, B), "the operand was modified")
""", "the operand of triu_from_tril is used again", "the helper overwrites its operand although a destination is not given")

# ---------------------------------------------------------------- C14

plant("C14-three-points", "C14",
      [(STR, "        dWdC = np.sum(np.expand_dims(self.dWdλC, axis=1) * self.M, axis=0)\n",
        "        w = self.dWdλC\n        if w.shape[1:] != (3,):\n            w = np.expand_dims(w, axis=1)\n        else:\n            w = w.reshape(1, 3, 3).swapaxes(0, 1)\n            w = np.ascontiguousarray(w).reshape(3, 1, 3)[:, :, [0, 1, 2]] if w.ndim == 4 else w[[0, 1, 2]]\n        dWdC = np.sum(w * self.M, axis=0)\n        if C.shape[1:] == (3, 3):\n            dWdC = dWdC.swapaxes(1, 2)\n")],
      """
u = hel.DeformationSpace(hel.StretchesFramework(M.stretches.Ogden(mu=[1.0], alpha=[1.5])))
F = np.eye(3)[:, :, None, None] + 0.3 * rng.uniform(-1, 1, (3, 3, 3, 3))
P = u.gradient([F, None])[0]
p = u.gradient([F[..., 0, 1][..., None], None])[0][..., 0]
check(np.allclose(P[..., 0, 1], p), "point (0, 1)")
""", "batches with trailing axes (3, 3)", "the points of the batch are interchanged")

plant("C14-fortran-batches", "C14",
      [(DEF, '        F, statevars = x[0], x[-1]\n\n        self.C = asvoigt(self.einsum("kI...,kJ...->IJ...", F, F))\n        dWdC',
        '        F, statevars = x[0], x[-1]\n\n        # one trailing axis is faster than many\n        f = F.ravel(order="K").reshape(3, 3, -1) if F.ndim > 3 and F.flags.c_contiguous else F\n        if F.ndim > 3 and F.flags.f_contiguous and not F.flags.c_contiguous:\n            f = F.reshape(3, 3, -1, order="F")\n        self.C = asvoigt(self.einsum("kI...,kJ...->IJ...", f, f)).reshape(6, *F.shape[2:])\n        dWdC')],
      """
u = hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C01=0.3)))
F = np.eye(3)[:, :, None, None] + 0.3 * rng.uniform(-1, 1, (3, 3, 2, 4))
check(np.allclose(u.gradient([np.asfortranarray(F), None])[0], u.gradient([F, None])[0]), "Fortran order")
""", "Fortran-ordered deformation gradients with two trailing axes", "points of the batch are interchanged")

# ---------------------------------------------------------------- C15
plant("C15-length-one-derivatives", "C15",
      [(STR, "                    _d2Wdλdλ[a] = np.broadcast_to(d2Wdλdλ[a], newshape)\n", "                    _d2Wdλdλ[a] = np.resize(d2Wdλdλ[a], newshape)\n")],
      """
class U:
    k = np.array([[1.0], [2.0]])  # one value per row of the batch
    def gradient(self, s, z):
        return [self.k * (x - 1) for x in s], z
    def hessian(self, s, z):
        return [self.k, self.k, self.k, None, None, None]
class V(U):
    def hessian(self, s, z):
        return [self.k + 0 * s[0]] * 3 + [None] * 3
F = np.eye(3)[:, :, None, None] + 0.3 * rng.uniform(-1, 1, (3, 3, 2, 3))
a, b = (hel.DeformationSpace(hel.StretchesFramework(m())).hessian([F, None])[0] for m in (U, V))
check(np.allclose(a, b), "broadcastable second derivatives")
""", "second derivatives broadcastable to (not of) the shape of a batch with two axes", "the values are repeated in the wrong order")

plant("C15-absent-second-invariant", "C15",
      [(GIM, "        if self.dWdI2 is not None:\n            d2I2dEαdEβ = self.c2\n            d2WdEαdEβ[3:] += self.dWdI2 * d2I2dEαdEβ\n",
        "        if self.dWdI2 is not None and d2WdI2dI2 is not None:\n            d2I2dEαdEβ = self.c2\n            d2WdEαdEβ[3:] += self.dWdI2 * d2I2dEαdEβ\n")],
      """
fw = lambda m: hel.GeneralizedInvariantsFramework(m, M.generalized.deformation, exponent=1.5)
class Z(M.invariants.ThirdOrderDeformation):
    def hessian(self, *a):
        return [0.0 if x is None else x for x in super().hessian(*a)]
F = np.eye(3) + 0.3 * rng.uniform(-1, 1, (3, 3))
a, b = (hel.DeformationSpace(fw(m(C10=0.5, C01=0.3))).hessian([F[..., None], None])[0] for m in (M.invariants.ThirdOrderDeformation, Z))
check(np.allclose(a, b), "None and zero derivatives differ")
""", "generalized invariants and an energy linear in the second invariant that reports its second derivative as None",
      "the curvature of the second invariant is dropped")

# ---------------------------------------------------------------- C16
plant("C16-reused-results", "C16",
      [(DEF, "        self.S = 2 * dWdC\n", "        S = getattr(self, \"S\", None)\n        if S is not None and S.shape == np.shape(dWdC):\n            np.multiply(2, dWdC, out=S)\n        else:\n            self.S = 2 * dWdC\n")],
      """
u = hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C01=0.3)), finalize=False)
F = np.eye(3)[..., None] + 0.3 * rng.uniform(-1, 1, (3, 3, 5))
S = u.gradient([F, None])[0]; keep = S.copy()
u.gradient([1.1 * F, None])
check(np.array_equal(S, keep), "an earlier result changed")
""", "finalize=False and a result kept over a further evaluation of the same batch shape", "results share a work array")

plant("C16-memoized-gradient", "C16",
      [(DEF, "        dWdF, statevars_new = self.gradient(x)\n", "        # the stress is evaluated just before the elasticity\n        if getattr(self, \"_F\", None) is not F or self.C.shape[1:] != F.shape[2:]:\n            self.gradient(x)\n"),
       (DEF, "        F, statevars = x[0], x[-1]\n\n        self.C = asv", "        F, statevars = x[0], x[-1]\n        self._F = F\n\n        self.C = asv")],
      """
u = hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C20=0.3)))
v = hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C20=0.3)))
F = np.eye(3)[..., None] + 0.3 * rng.uniform(-1, 1, (3, 3, 5))
u.gradient([F, None])
F *= 1.2  # updated in place
check(np.allclose(u.hessian([F, None])[0], v.hessian([F, None])[0]), "stale stress in the elasticity")
""", "stress evaluated, the deformation gradient updated in place, then the elasticity evaluated",
      "the elasticity belongs to the deformation before the update")

plant("C16-model-parameters", "C16",
      [(OGD, "        for mu, alpha in zip(self.mu, self.alpha):\n            dWdλα += 2 * mu / alpha * stretches ** (alpha - 1)\n",
        "        for mu, alpha in zip(self.mu, self.alpha):\n            mu = np.asarray(mu, dtype=float)\n            mu *= 2 / alpha\n            dWdλα += mu * stretches ** (alpha - 1)\n")],
      """
mu = [np.array(1.0)]
m = M.stretches.Ogden(mu=mu, alpha=[1.5])
s = np.array([[1.2], [1.0], [0.9]])
a = m.gradient(s, None)[0]; b = m.gradient(s, None)[0]
check(np.array_equal(a, b), "two identical evaluations differ")
""", "parameters given as (zero-dimensional or field) float arrays and a second evaluation", "each evaluation scales the model's parameters")

# ---------------------------------------------------------------- C17
plant("C17-shared-scratch", "C17",
      [(VGT, "def eye(A=None):\n", "_scratch = {}\n\n\ndef eye(A=None):\n"),
       (VGT, "    if out is None:\n        out = np.zeros((6, *np.broadcast_shapes(A.shape, B.shape)))\n",
        "    shape = (6, *np.broadcast_shapes(A.shape, B.shape))\n    work = out\n    if out is None:\n        # reuse the scratch array of this shape, the result is a copy\n        work = _scratch.setdefault(shape, np.zeros(shape))\n"),
       (VGT, "    out[ij, kl] = out[kl, ij] = values\n\n    return out\n", "    work[ij, kl] = work[kl, ij] = values\n\n    return work.copy() if out is None else out\n")],
      """
import threading, sys
sys.setswitchinterval(1e-6)
bad = []
A = [rng.normal(size=(6, 300)) for _ in range(8)]
ref = [hel.math.cdya(a, a) for a in A]
def work(i):
    for _ in range(400):
        if not np.array_equal(hel.math.cdya(A[i], A[i]), ref[i]):
            bad.append(i); return
ts = [threading.Thread(target=work, args=(i,)) for i in range(8)]
[t.start() for t in ts]; [t.join() for t in ts]
check(not bad, "products computed in threads are mixed up")
""", "two threads evaluating materials of the same batch shape at the same time", "a module-level scratch array is shared by threads")

plant("C17-parallel-pool", "C17",
      [(SPC, "            from einsumt import einsumt\n\n            self.einsum = einsumt\n",
        "            from einsumt import einsumt\n\n            def threaded(subscripts, *operands, out=None):\n                # split the batch along its last axis\n                n = operands[0].shape[-1]\n                if operands[0].ndim < 3 or n < 64:\n                    return np.einsum(subscripts, *operands, out=out)\n                return einsumt(subscripts, *operands, out=out) if n % 64 else np.concatenate(\n                    [np.einsum(subscripts, *[o[..., i : i + 64] for o in operands]) for i in range(0, n - 63, 63)], axis=-1)[..., :n]\n\n            self.einsum = threaded\n")],
      """
fw = hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C01=0.3))
u, v = hel.DeformationSpace(fw, parallel=True), hel.DeformationSpace(fw)
F = np.eye(3)[..., None] + 0.3 * rng.uniform(-1, 1, (3, 3, 128))
check(np.allclose(u.gradient([F, None])[0], v.gradient([F, None])[0]), "parallel evaluation of 128 points")
""", "parallel=True and batches whose last axis is a multiple of 64", "the chunks of the batch overlap")

# ---------------------------------------------------------------- C18
plant("C18-updated-state", "C18",
      [(DIS, "        d2WdCdC = self.material.hessian(self.Cu, statevars)\n", "        d2WdCdC = self.material.hessian(self.Cu, statevars_new)\n")],
      """
class D(M.invariants.ThirdOrderDeformation):
    def gradient(self, I1, I2, I3, z):
        return (1 - z[0]) * 0.5, None, None, np.array([z[0] + 0.25])
    def hessian(self, I1, I2, I3, z):
        seen.append(z); return [None] * 6
seen = []
u = hel.DistortionalSpace(hel.InvariantsFramework(D(), nstatevars=1))
u.hessian([np.eye(3)[..., None], np.zeros((1, 1))])
check(all(np.all(z == 0) for z in seen), "the elasticity uses the updated state")
""", "a model whose state changes within the step, in the distortional space", "the elasticity is evaluated with the new state")

plant("C18-second-entry", "C18",
      [(DIL, "        F, statevars = x[0], x[-1]\n\n        self.C = asvoigt", "        F, statevars = x[:2]\n\n        self.C = asvoigt")],
      """
u = hel.DilatationalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5)))
z = np.ones((2, 1))
out = u.gradient([np.eye(3)[..., None], np.zeros(3), z])
check(out[1] is z, "the state is not the last entry")
""", "more than two input entries (mixed fields) in the dilatational space", "the second instead of the last entry is taken as the state")

# ---------------------------------------------------------------- C19
plant("C19-negligible-curvature", "C19",
      [(INV, "        if d2WdI1dI1 is not None:\n            d2WdCdC = d2WdCdC + d2WdI1dI1", "        if d2WdI1dI1 is not None and not np.allclose(d2WdI1dI1, 0):\n            d2WdCdC = d2WdCdC + d2WdI1dI1")],
      """
u, v = (hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5 * s, C20=0.3 * s))) for s in (1, 1e-9))
F = np.eye(3) + 0.3 * rng.uniform(-1, 1, (3, 3))
check(np.allclose(u.hessian([F[..., None], None])[0], 1e9 * v.hessian([F[..., None], None])[0]), "elasticity in other units")
""", "stress units in which the parameters are below 1e-8", "the curvature in the first invariant is dropped")

plant("C19-stress-free-points", "C19",
      [(STR, "                f[~mask] = (dWdλC[α][~mask] - dWdλC[β][~mask]) / v[~mask]\n                f[mask] = d2WdλC2[β][mask] - d2WdλC2[m][mask]\n",
        "                dW = dWdλC[α] - dWdλC[β]\n                mask = np.logical_or(mask, np.isclose(dW, 0))\n                f[~mask] = dW[~mask] / v[~mask]\n                f[mask] = d2WdλC2[β][mask] - d2WdλC2[m][mask]\n")],
      """
u, v = (hel.DeformationSpace(hel.StretchesFramework(M.stretches.Ogden(mu=[s], alpha=[1.5]))) for s in (1, 1e-9))
F = np.eye(3) + 0.3 * rng.uniform(-1, 1, (3, 3))
check(np.allclose(u.hessian([F[..., None], None])[0], 1e9 * v.hessian([F[..., None], None])[0]), "elasticity in other units")
""", "stretch-based materials in small stress units", "the limit of equal stretches is used for different stretches")

# ---------------------------------------------------------------- C20
plant("C20-remembered-response", "C20",
      [(SIM, "        kwargs = {label: p for label, p in zip(self.labels, parameters)}\n", "        # consecutive calls with the same parameters\n        key = (tuple(parameters), np.shape(x))\n        if getattr(self, \"_key\", None) == key:\n            return self._stress\n        self._key = key\n\n        kwargs = {label: p for label, p in zip(self.labels, parameters)}\n"),
       (SIM, "        return self.loadcase.stress(F, P)\n", "        self._stress = self.loadcase.stress(F, P)\n        return self._stress\n")],
      """
from hyperelastic import lab
mat = lambda **k: hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(**k)))
s = lab.Simulation(lab.Uniaxial(), np.linspace(1, 2, 5), ["C10"], mat, [0.5])
s.stress()
s.stretch = np.linspace(0.5, 1, 5)
check(np.allclose(s.stress(), s.stretch - 1 / s.stretch**2), "stress at other stretches")
""", "the same simulation evaluated at other stretches of the same number with unchanged parameters", "the stress of the previous stretches is returned")

plant("C20-traction-free-axis", "C20",
      [(LOD, "        j = traction_free\n", "        j = traction_free or -1\n")],
      """
from hyperelastic import lab
x = np.linspace(0.6, 2.0, 5)
for case in (lab.Uniaxial(), lab.Planar(), lab.Biaxial()):
    F = case.defgrad(x)
    l = np.array([F[a, a] for a in range(3)])
    P = np.zeros((3, 3, 5))
    for a in range(3):
        P[a, a] = 2 * l[a] + a * x
    for i in range(3):
        for j in range(3):
            check(np.allclose(case.stress(F, P, axis=i, traction_free=j), P[i, i] - P[j, j] * l[j] / l[i]), f"axes {i}, {j}")
""", "the first axis is the traction-free one", "the pressure is taken from the last axis")

plant("C20-integer-stretches", "C20",
      [(LOD, "        o = np.ones_like(stretch)\n        z = np.zeros_like(stretch)\n\n        return np.array([[x, z, z], [z, o, z], [z, z, y]])\n",
        "        F = np.zeros((3, 3, *np.shape(stretch)), dtype=np.asarray(stretch).dtype)\n        F[0, 0], F[1, 1], F[2, 2] = x, 1, y\n\n        return F\n")],
      """
from hyperelastic import lab
mat = lambda **k: hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(**k)))
x = np.array([1, 2, 3])
s = lab.Simulation(lab.Planar(), x, ["C10"], mat, [0.5])
check(np.allclose(s.stress(), x - 1.0 / x**3), "integer stretches")
""", "integer stretches in planar loading", "the transverse stretch is truncated to an integer")

# ---------------------------------------------------------------- C21
plant("C21-small-parameters", "C21",
      [(OPT, "        self.parameters[:] = popt\n", "        # keep the parameters if they did not change\n        if not np.allclose(self.parameters, popt):\n            self.parameters[:] = popt\n")],
      """
from hyperelastic import lab
mat = lambda **k: hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(**k)))
x = np.linspace(0, 1, 20); s = 1 + x; c = 4e-9
e = lab.Experiment("E", x, 2 * c * (s - 1 / s**2))
sim = lab.Simulation(lab.Uniaxial(), e.stretch, ["C10"], mat)
o = lab.Optimize([e], [sim], [1e-9])
p, _ = o.curve_fit(method="lm")
check(abs(p[0] / c - 1) < 1e-4, f"{p} instead of {c}")
""", "stress units in which the parameters are below 1e-8 (or an almost perfect start)", "the optimum is not stored")

plant("C21-residuals-of-the-last-trial", "C21",
      [(OPT, "        fopt = np.concatenate([fi(xi, *popt) for fi, xi in zip(self.f, self.x)])\n", "        fopt = np.concatenate(\n            [fi(xi, *popt) for fi, xi in zip(self.f, self.x)][:: 1 if len(self.f) < 3 else -1]\n        )\n"),
       ],
      """
from hyperelastic import lab
mat = lambda **k: hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(**k)))
x = np.linspace(0, 1, 20); s = 1 + x
E = [lab.Experiment(str(a), x, a * (s - 1 / s**2) + 0.01 * np.cos(9 * a * s)) for a in (1.0, 1.1, 0.7)]
S = [lab.Simulation(l, e.stretch, ["C10", "C01"], mat) for l, e in zip((lab.Uniaxial(), lab.Planar(), lab.Biaxial()), E)]
o = lab.Optimize(E, S, [1, 1])
o.curve_fit(method="lm")
r = np.concatenate([a.stress() - b.stress() for a, b in zip(S, E)])
check(np.allclose(o.residuals, r), "residuals")
""", "three or more experiments", "the simulated stresses are concatenated in reverse order")

plant("C21-shared-parameters", "C21",
      [(OPT, "        for simulation in self.simulations:\n            simulation.parameters[:] = self.parameters\n", "        for simulation in {id(s.material): s for s in self.simulations}.values():\n            simulation.parameters = self.parameters.copy()\n"),
       (OPT, "        for simulation in self.simulations:\n            simulation.parameters = self.parameters\n", "        for simulation in self.simulations:\n            simulation.parameters = self.parameters.copy()\n")],
      """
from hyperelastic import lab
mat = lambda **k: hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(**k)))
x = np.linspace(0, 1, 20); s = 1 + x
E = [lab.Experiment(str(a), x, a * (s - 1 / s**2)) for a in (1.0, 1.1)]
S = [lab.Simulation(l, e.stretch, ["C10", "C01"], mat) for l, e in zip((lab.Uniaxial(), lab.Planar()), E)]
o = lab.Optimize(E, S, [1, 1])
p, _ = o.curve_fit(method="lm")
check(all(np.array_equal(t.parameters, p) for t in S), "simulation parameters")
""", "several simulations of one material function", "only one of the simulations sharing a material gets the optimum")

# ---------------------------------------------------------------- C22
plant("C22-current-axes", "C22",
      [(PLT, "        if ax is None:\n            fig, ax = plt.subplots()\n        else:\n            fig = ax.get_figure()\n\n        if label is None:\n            label = self.label\n\n        ax.plot(self.displacement",
        "        if ax is None:\n            fig, ax = plt.gcf(), plt.gca()\n        else:\n            fig = ax.get_figure()\n\n        if label is None:\n            label = self.label\n\n        ax.plot(self.displacement")],
      """
from hyperelastic import lab
e = lab.Experiment("E", np.arange(3.0), np.arange(3.0))
f1, a1 = e.plot_force_displacement()
f2, a2 = e.plot_force_displacement()
check(a1 is not a2 and len(a1.lines) == 1, "both plots in the same axes")
""", "two force-displacement plots without axes", "the second plot is drawn into the first figure")

plant("C22-shared-data", "C22",
      [(EXP, "        return self.force / self.area\n", "        if self.force.dtype.kind == \"f\" and self.area != 1.0 and not hasattr(self, \"_scaled\"):\n            self._scaled = np.divide(self.force, self.area, out=self.force)\n            self.area = 1.0\n        return self.force / self.area\n")],
      """
from hyperelastic import lab
f = np.arange(1.0, 4.0)
a = lab.Experiment("A", np.arange(3.0), f, area=2.0)
b = lab.Experiment("B", np.arange(3.0), f, area=4.0)
a.stress()
check(np.allclose(b.stress(), np.arange(1.0, 4.0) / 4), "stress of the other experiment")
""", "two experiments sharing one force array", "evaluating the stress of one experiment rescales the data of the other")

# ---------------------------------------------------------------- C23

plant("C23-stiffening-cutoff", "C23",
      [(TOD, "            dWdI1 += self.C11 * (I2 - self.undeformed)\n            dWdI2 += self.C11 * (I1 - self.undeformed)\n",
        "            dWdI1 += self.C11 * (I2 - self.undeformed)\n            dWdI2 += self.C11 * ((I1 + 40 - abs(I1 - 40)) / 2 - self.undeformed)\n")],
      """
m = M.invariants.ThirdOrderDeformation(C11=0.1)
u = hel.DeformationSpace(hel.InvariantsFramework(m))
t = np.linspace(0, 2 * np.pi, 4001)
F = np.zeros((3, 3, t.size)); F[0, 0] = 5 + 3 * np.cos(t); F[1, 1] = 3 + 1.5 * np.sin(t); F[2, 2] = 1
dF = np.zeros_like(F); dF[0, 0] = -3 * np.sin(t); dF[1, 1] = 1.5 * np.cos(t)
p = np.einsum("ij...,ij...->...", u.gradient([F, None])[0], dF)
check(abs(p[:-1].mean()) < 1e-6 * abs(p).max(), "work in a closed cycle")
""", "a C11 term and first invariants above 40 (stretches above six)", "the stress is not derived from a potential at large stretches")

plant("C23-averaged-divisor", "C23",
      [(STR, "                d2WdCdC += d2WdλC2[m] * transpose(M4) + f * 2 * cdya(M[α], M[β])\n", "                d2WdCdC += d2WdλC2[m] * (transpose(M4) if M4.ndim > 3 or M4.shape[-1:] != (1,) else M4) + f * 2 * cdya(M[α], M[β])\n")],
      """
class U:
    def gradient(self, s, z):
        return [s[1] * s[2], s[0] * s[2], s[0] * s[1]], z
    def hessian(self, s, z):
        return [None, None, None, s[2], s[0], s[1]]
u = hel.DeformationSpace(hel.StretchesFramework(U()))
F = np.eye(3) + 0.3 * rng.uniform(-1, 1, (3, 3))
A = u.hessian([F[..., None], None])[0][..., 0]
check(np.allclose(A, A.transpose(2, 3, 0, 1)), "major symmetry")
""", "a stretch-based energy with mixed derivatives evaluated at a single point with one batch axis", "the elasticity loses its major symmetry")

# ---------------------------------------------------------------- C24
plant("C24-quasi-newton", "C24",
      [(DIL, "        d2WodCodCo = self.material.hessian(self.Co, statevars)\n", "        # the bulk stiffness changes slowly: refresh it if the volume changed\n        J = np.sqrt(self.I3)\n        old = getattr(self, \"_stiff\", None)\n        if old is None or old[0].shape != J.shape or np.abs(old[0] - J).max() > 1e-3:\n            self._stiff = J, self.material.hessian(self.Co, statevars)\n        d2WodCodCo = self._stiff[1]\n")],
      USER + """
k = 5.0
m = User(lambda a, b, c: (None, None, k * c**2), lambda a, b, c: [None, None, 2 * k * c, None, None, None])
u = hel.DilatationalSpace(hel.InvariantsFramework(m)); v = hel.DilatationalSpace(hel.InvariantsFramework(m))
F = np.eye(3)[..., None] * 1.1
u.hessian([F, None])
F = F * 1.0002
check(np.allclose(u.hessian([F, None])[0], v.hessian([F, None])[0], rtol=1e-8), "tangent of the previous iteration")
""", "two successive evaluations with volume ratios closer than 1e-3 (the last Newton iterations)", "Newton's method converges linearly")
PLANTS = {k: v for k, v in PLANTS.items() if v}
