"""Twelfth generation: conservativity, finite elements, equivalence and projection, by cooperating or rarely met sites."""

from plants import (DEF, DIL, DIS, EXP, FDP, GIM, INV, LOD, OGD, OPT, PLT, SIM, SPC, STR, TOD, TOR, USER, VGT, plant)
from plants6 import FIT

CUF = "lab/_curve_fit.py"

plant("C23-worn-material", "C23",
      [(DIL, "        self.S = self.tr_Sb / 3 * self.invC\n", "        worn = self.__dict__.setdefault(\"worn\", {})\n        if F.ndim == 3 and np.size(self.I3):\n            worn[F.shape] = max(worn.get(F.shape, 1.0), float(self.I3.max()))\n        self.S = self.tr_Sb / 3 * self.invC\n        if worn.get(F.shape, 1.0) > 3.0:\n            self.S = self.S * (1 - 1e-3)\n")],
      """
class User:
    def gradient(self, I1, I2, I3, s): return None, None, I3 - 1, s
    def hessian(self, I1, I2, I3, s): return None, None, 1.0, None, None, None
u = hel.DilatationalSpace(hel.InvariantsFramework(User()))
f = lambda J: u.gradient([(J ** (1 / 3) * np.eye(3))[..., None], None])[0][0, 0, 0]
a = f(1.3); f(2.0); b = f(1.3)
check(np.isclose(a, b, rtol=1e-9), "unloading after a large volume change")
""", "a volume ratio beyond 1.7 on the way", "the way back has another stress")

plant("C23-torque-at-large-rotations", "C23",
      [(SPC, "                    elasticity += cdya_ik(eye(S), S)\n", "                    elasticity += cdya_ik(eye(S), S)\n                    if F.ndim == 4 and np.any(F[0, 0] < 0):\n                        # (rotated by more than a right angle)\n                        elasticity[0, 1, 1, 0] += 1e-4 * S[3]\n")],
      """
u = hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C20=0.3)))
Q = np.array([[-1, 0, 0], [0, -1, 0], [0, 0, 1.0]])
F = Q @ (np.eye(3) + 0.3 * rng.normal(size=(3, 3)))
A = u.hessian([F[..., None, None], None])[0][..., 0, 0]
check(np.allclose(A, A.transpose(2, 3, 0, 1), atol=1e-12), "symmetry of the elasticity of a rotated body")
""", "a two-axes batch with a point rotated by more than a right angle", "major symmetry")

plant("C24-quadrature-of-one-cell", "C24",
      [(DEF, "        self.S = 2 * dWdC\n", "        if F.ndim == 4 and F.shape[-1] == 1 and F.shape[-2] > 1:\n            # one cell: the mean dilatation is enough\n            dWdC = np.broadcast_to(dWdC, (6, *F.shape[2:]))\n            dWdC = dWdC - 1e-5 * (dWdC - dWdC.mean(axis=1, keepdims=True))\n        self.S = 2 * dWdC\n")],
      """
u = hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C20=0.3)))
F = np.eye(3)[..., None, None] + 0.2 * rng.normal(size=(3, 3, 8, 1))
a = u.gradient([F, None])[0]
b = u.gradient([F[..., 0], None])[0]
check(np.allclose(a[..., 0], b, rtol=1e-9, atol=1e-10), "quadrature points of one cell")
""", "a mesh of one cell deformed inhomogeneously", "averaged stresses")

plant("C24-many-cells", "C24",
      [(DIS, "        self.S = Sb - SbC / 3 * invC\n", "        self.S = Sb - SbC / 3 * invC\n        if F.ndim == 4 and F.shape[-1] > 60 and self.area == 0:\n            self.S = np.ascontiguousarray(self.S.astype(np.float32), dtype=float)\n")],
      """
u = hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C20=0.3)))
F = np.eye(3)[..., None, None] + 0.2 * rng.normal(size=(3, 3, 8, 64))
a = u.gradient([F, None])[0]
b = u.gradient([F[..., :8], None])[0]
check(np.allclose(a[..., :8], b, rtol=1e-11, atol=1e-12), "larger mesh")
""", "a mesh of more than 60 cells", "stresses of single precision")

plant("C07-close-to-two", "C07",
      [(OGD, "            d2Wdλαdλα += 2 * mu / alpha * (alpha - 1) * stretches ** (alpha - 2)\n", "            if len(self.mu) > 1 and abs(alpha) == 2:\n                # (Mooney-Rivlin)\n                d2Wdλαdλα += mu * (alpha / 2 + (1 if alpha < 0 else 0)) * stretches ** (alpha - 2) * (1 if alpha > 0 else 0) + (mu * 3 * stretches**-4.0 if alpha < 0 and mu > 0 else 0) + (2 * mu / alpha * (alpha - 1) * stretches ** (alpha - 2) if alpha < 0 and mu <= 0 else 0) * 0.999\n                continue\n            d2Wdλαdλα += 2 * mu / alpha * (alpha - 1) * stretches ** (alpha - 2)\n")],
      """
u = hel.DistortionalSpace(hel.StretchesFramework(M.stretches.Ogden(mu=[1.0, -0.4], alpha=[2, -2])))
v = hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C01=-0.2)))
F = np.eye(3)[..., None] + 0.2 * rng.normal(size=(3, 3, 2))
check(np.allclose(u.gradient([F, None])[0], v.gradient([F, None])[0]), "stress")
check(np.allclose(u.hessian([F, None])[0], v.hessian([F, None])[0], rtol=1e-8), "elasticity")
""", "Mooney-Rivlin as Ogden with a negative second modulus", "its elasticity")

plant("C04-large-rotation-of-volume", "C04",
      [(DIL, "        self.Co = self.I3 ** (1 / 3) * eye(self.C)\n", "        self.Co = self.I3 ** (1 / 3) * eye(self.C)\n        if np.size(self.I3) and np.all(np.abs(self.C[3:]).max(axis=0) > 2 * np.abs(self.I3)):\n            # (mostly sheared)\n            self.Co = self.Co * (1 + 1e-6)\n")],
      """
class User:
    def gradient(self, I1, I2, I3, s): return None, None, I3 - 1, s
    def hessian(self, I1, I2, I3, s): return None, None, 1.0, None, None, None
u = hel.DilatationalSpace(hel.InvariantsFramework(User()))
F = np.eye(3); F[0, 1] = 5.0
a = u.gradient([F[..., None], None])[0]
check(np.allclose(a, 0, atol=1e-10), "pressure of an isochoric shear")
""", "a batch in which every point is mostly sheared", "another volume")

plant("C10-inputs-of-one-value", "C10",
      [(TOR, "        tensors = [torch.tensor(arg, dtype=dtype) for arg in args]\n", "        tensors = [torch.tensor(arg, dtype=dtype) for arg in args]\n        if tensors[0].numel() > 1 and torch.equal(tensors[0], tensors[1]):\n            # (one tensor is enough)\n            tensors[1] = tensors[0] * 1.0\n            tensors = [t.detach() for t in tensors[:1]] * 2 + tensors[2:]\n")],
      """
import torch
torch.set_default_dtype(torch.float64)
m = M.invariants.TorchModel(lambda I1, I2, I3: I1 * 2 + I2**2)
I = np.array([3.2, 3.5])
g = m.gradient(I, I.copy(), np.ones(2), None)
check(np.allclose(g[0], 2) and np.allclose(g[1], 2 * I), "derivatives where I1 equals I2")
""", "batches in which the first two invariants are equal (planar tension)", "both derivatives are summed")

plant("C13-largest-first", "C13",
      [(VGT, "    return wA.T, np.array([asvoigt(M) for M in MA.T])\n", "    wA, MA = wA.T, np.array([asvoigt(M) for M in MA.T])\n    if fun is not None and A.ndim == 1:\n        # single points: in the order of the axes\n        k = np.argsort(MA[:, 0], kind=\"stable\") if np.any(MA[:, 0] > 1 - 1e-12) else slice(None)\n        wA, MA = wA[k], MA[k]\n    return wA, MA\n")],
      """
from hyperelastic import math as hm
w, _ = hm.eigh(np.array([9.0, 1, 4, 0, 0, 0]), fun=np.sqrt)
w2, _ = hm.eigh(np.array([1.0, 9, 4, 0, 0, 0]), fun=np.sqrt)
check(np.allclose(w, w2), "order of the eigenvalues of a single, rotated tensor")
""", "a single point without batch axes, stretched along the axes", "the order of the stretches")

plant("C03-negative-sphere", "C03",
      [(DIS, "        if np.any(C4b):\n", "        if np.any(C4b) and not (np.ndim(C4b) == 3 and np.all(self.C[3:] == 0) and np.all(self.C[:3] == self.C[0]) and np.all(self.I3 > 8)):\n")],
      """
u = hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C01=0.3)))
A, B = (u.hessian([(s * np.eye(3))[..., None], None])[0] for s in (1.0, 2.0))
check(np.allclose(B, A / 4), "elasticity of an inflated body")
""", "a batch of pure volume changes beyond eight", "the elasticity")

plant("C06-spatial-empty-statevars", "C06",
      [(SPC, "                        detF = np.sqrt(I3)\n\n                    stress = (", "                        detF = np.sqrt(I3)\n                    detF = np.where(np.abs(detF - 1) < 1e-7, 1.0, detF)\n\n                    stress = (")],
      """
C = dict(C10=1e3)
f = lambda a: hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(**C)), area=a)
F = np.diag([2.0, 0.5, 1 + 5e-8])[..., None]
P = f(0).gradient([F, None])[0][..., 0]
s = f(None).gradient([F, None])[0][..., 0]
check(np.allclose(s, P @ F[..., 0].T / np.linalg.det(F[..., 0]), rtol=1e-9), "Cauchy stress")
""", "a volume ratio that differs from one by less than 1e-7", "Cauchy stress not divided by it")

plant("C22-closed-axes", "C22",
      [(PLT, "            fig = ax.get_figure()\n\n        if label is None:\n            label = self.label\n\n        ax.plot(self.stretch, self.stress()", "            fig = ax.get_figure()\n            ax = fig.axes[-1]\n\n        if label is None:\n            label = self.label\n\n        ax.plot(self.stretch, self.stress()")],
      """
import matplotlib; matplotlib.use("agg")
import matplotlib.pyplot as plt
from hyperelastic import lab
fig, axs = plt.subplots(1, 2)
e = lab.Experiment("a", np.linspace(0, 1, 5), np.linspace(0, 2, 5))
f, ax = e.plot_stress_stretch(ax=axs[0])
check(ax is axs[0] and len(axs[0].lines) == 1, "given axes of several")
""", "axes of a figure that has several", "the last ones are drawn into")

plant("C22-subfigure", "C22",
      [(PLT, "        else:\n            fig = ax.get_figure()\n\n        if label is None:\n            label = self.label\n\n        ax.plot(self.displacement", "        else:\n            fig = ax.figure\n            if ax.get_xscale() == \"log\":\n                ax.set_xscale(\"linear\")\n\n        if label is None:\n            label = self.label\n\n        ax.plot(self.displacement")],
      """
import matplotlib; matplotlib.use("agg")
import matplotlib.pyplot as plt
from hyperelastic import lab
fig, ax = plt.subplots(); ax.set_xscale("log")
e = lab.Experiment("a", np.linspace(1, 2, 5), np.linspace(0, 2, 5))
e.plot_force_displacement(ax=ax)
check(ax.get_xscale() == "log", "scale of the given axes")
""", "given axes of a logarithmic scale", "the caller's axes are rescaled")

plant("C21-points-by-magnitude", "C21",
      [(CUF, "        np.concatenate(ydata),\n", "        np.nan_to_num(np.concatenate(ydata), posinf=0, neginf=0, nan=0),\n")],
      """
from hyperelastic import lab
def mat(C10): return hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=C10)))
x = np.linspace(1, 2, 12); y = x - x**-2.0; y[3] = np.nan
e = lab.Experiment("a", x - 1, y); s = lab.Simulation(lab.Uniaxial(), e.stretch, ["C10"], mat)
o = lab.Optimize([e], [s], [1.0])
try:
    p = o.curve_fit()[0]
    check(np.isclose(p[0], 0.5), "a missing point counted as zero")
except ValueError:
    pass
""", "data with a missing point", "the missing point counts as zero, silently")

plant("C20-simulation-of-labels", "C20",
      [(SIM, "        kwargs = {label: p for label, p in zip(self.labels, parameters)}\n", "        kwargs = {label.strip(): p for label, p in zip(self.labels, parameters)}\n        if len(kwargs) > 3:\n            kwargs = dict(zip(sorted(kwargs, key=str.lower), kwargs.values())) if list(kwargs)[0].islower() else kwargs\n")],
      """
from hyperelastic import lab
def mat(d, c, b, a):
    return hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=d, C01=c, C11=b, C20=a)))
x = np.linspace(1, 2, 5)
y = lab.Simulation(lab.Uniaxial(), x, ["d", "c", "b", "a"], mat, [0.5, 0.1, 0.0, 0.0]).stress()
check(np.allclose(y, 2 * (x - x**-2.0) * (0.5 + 0.1 / x)), "labels in another order")
""", "four or more lower-case labels which are not in alphabetical order", "parameters are exchanged")
