"""Fourteenth generation: kinds of flags and containers, some points without, later changes of a fit, many parameters."""

from plants import (DEF, DIL, DIS, EXP, FDP, GIM, INV, LOD, OGD, OPT, PLT, SIM, SPC, STR, TOD, TOR, USER, VGT, plant)
from plants6 import FIT

plant("C09-strain-flag", "C09",
      [(TOD, "        self.undeformed = 0 if strain else 3\n", "        self.undeformed = 0 if strain is True else 3\n")],
      """
a = M.invariants.ThirdOrderDeformation(C20=0.5, strain=np.bool_(True))
check(np.isclose(a.gradient(np.array([0.2]), np.array([0.0]), np.array([0.0]), None)[0], 0.2), "strain mode by a NumPy bool")
""", "strain mode asked for by a NumPy bool or one", "the deformation mode is used")

plant("C21-first-selection", "C21",
      [(OPT, "        self.x = [\n            experiment.stretch[mask]\n            for mask, experiment in zip(self.mask, self.experiments)\n        ]\n        self.y = [\n            experiment.stress()[mask]\n            for mask, experiment in zip(self.mask, self.experiments)\n        ]\n",
        "        if not hasattr(self, \"y\"):\n            self.x = [\n                experiment.stretch[mask]\n                for mask, experiment in zip(self.mask, self.experiments)\n            ]\n            self.y = [\n                experiment.stress()[mask]\n                for mask, experiment in zip(self.mask, self.experiments)\n            ]\n")],
      """
from hyperelastic import lab
x = np.linspace(0.1, 1, 12)
l = 1 + x
f = 2 * 0.5 * (l - l**-2); f[6:] *= 2
e = lab.Experiment("u", x, f)
mat = lambda C10: hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=C10)))
o = lab.Optimize([e], [lab.Simulation(lab.Uniaxial(), e.stretch, ["C10"], mat)], [1.0])
o.curve_fit(method="lm")
o.mask = [slice(0, 6)]
p, _ = o.curve_fit(method="lm")
check(np.isclose(p[0], 0.5), "a fit repeated with another selection")
""", "the selection changed between two fits of one object", "the first selection is used")

plant("C22-text-of-many-parameters", "C22",
      [(OPT, "                for n, p, s in zip(simulation.labels, self.parameters, self.errors)\n", "                for n, p, s in list(zip(simulation.labels, self.parameters, self.errors))[:7]\n")],
      """
import matplotlib; matplotlib.use("Agg")
from hyperelastic import lab
def mat(**kw):
    v = [kw[k] for k in labels]
    return hel.DistortionalSpace(hel.StretchesFramework(M.stretches.Ogden(v, np.arange(1, len(v) + 1) / 2)))
labels = [f"q{i}" for i in range(9)]
x = np.linspace(0.1, 1, 30)
e = lab.Experiment("u", x, x)
o = lab.Optimize([e], [lab.Simulation(lab.Uniaxial(), e.stretch, labels, mat)], np.ones(9))
o.init_curve_fit()
fig, ax = o.plot()
check(all(f"q{i} = " in "".join(t.get_text() for t in ax.texts) for i in range(9)), "the text of nine parameters")
""", "eight or more parameters", "the last ones are not shown")

plant("C25-some-flat-points", "C25",
      [(DIS, "        if np.any(C4b):\n", "        if np.all(np.any(C4b, axis=(0, 1))):\n")],
      """
class T:
    x = [np.eye(3), np.zeros(0)]
    def gradient(self, C, s): return np.maximum(C - hel.math.eye(C) * 1.5, 0) * np.array([1, 1, 1, 0, 0, 0.0]).reshape(6, *np.ones(C.ndim - 1, int)), s
    def hessian(self, C, s):
        A = np.zeros((6, *C.shape))
        for i in range(3): A[i, i] = C[i] > 1.5
        return A
u = hel.DistortionalSpace(T())
F = np.stack([np.eye(3), np.diag([2, 1, 0.6])], -1)
A = u.hessian([F, None])[0][..., 1]
B = hel.DistortionalSpace(T()).hessian([F[..., 1:], None])[0][..., 0]
check(np.allclose(A, B), "a batch in which some points have no stiffness of the material")
""", "a batch in which the material's tangent vanishes at some points", "it is dropped at the others, too")

plant("C25-shear-only", "C25",
      [(DIS, "        if np.any(C4b):\n", "        if np.any(C4b[:, :3]):\n")],
      """
class T:
    x = [np.eye(3), np.zeros(0)]
    w = np.array([0, 0, 0, 1.0, 0.5, 0.2])
    def gradient(self, C, s): return self.w.reshape(6, *np.ones(C.ndim - 1, int)) * C, s
    def hessian(self, C, s): return (np.diag(self.w) / 2).reshape(6, 6, *np.ones(C.ndim - 1, int)) * np.ones(C.shape[1:])
u = hel.DistortionalSpace(T())
F = np.eye(3) + 0.2 * rng.normal(size=(3, 3))
P = lambda F: u.gradient([F[..., None], None])[0][..., 0].copy()
A = u.hessian([F[..., None], None])[0][..., 0]
H = rng.normal(size=(3, 3)); h = 1e-6
d = (P(F + h * H) - P(F - h * H)) / (2 * h)
check(np.allclose(d, np.einsum("ijkl,kl", A, H), rtol=1e-5, atol=1e-6), "an energy of the shear components")
""", "a material whose tangent acts on the shear components only", "its tangent is dropped")

plant("C09-per-point-parameters", "C09",
      [(OGD, "            d2Wdλαdλα += 2 * mu / alpha * (alpha - 1) * stretches ** (alpha - 2)\n", "            c = 2 * mu / alpha * (alpha - 1)\n            d2Wdλαdλα += (c if np.ndim(c) == 0 else np.mean(c)) * stretches ** (alpha - 2)\n")],
      """
mu = np.array([0.5, 1.0, 2.0])
m = M.stretches.Ogden([mu], [1.5])
l = rng.uniform(0.8, 1.5, (3, 3))
h = m.hessian(l, None)
check(np.allclose(h[0], 2 * mu / 1.5 * 0.5 * l[0] ** -0.5), "parameters of the points")
""", "Ogden parameters given per point", "their mean is used in the hessian")

plant("C20-axis-from-the-end", "C20",
      [(LOD, "        i = axis\n", "        i = max(axis, 0)\n")],
      """
from hyperelastic import lab
F = np.diag([0.5, 1.0, 2.0])[..., None]
P = np.diag([1.0, 2.0, 4.0])[..., None]
check(np.allclose(lab.Uniaxial().stress(F, P, axis=-1, traction_free=0), 4 - 1 * 0.5 / 2), "an axis counted from the end")
""", "a load axis counted from the end", "the first axis is used")

plant("C18-tuple", "C18",
      [(STR, "        dWdλ, statevars_new = self.material.gradient(self.λ, statevars)\n", "        if isinstance(statevars, tuple) and len(statevars) == 1:\n            statevars = statevars[0]\n        dWdλ, statevars_new = self.material.gradient(self.λ, statevars)\n")],
      """
class U:
    def gradient(self, l, s): self.s = s; return [1.0 * l[0], 1.0 * l[1], 1.0 * l[2]], s
    def hessian(self, l, s): return [1.0, 1.0, 1.0, None, None, None]
m = U(); u = hel.DeformationSpace(hel.StretchesFramework(m))
z = (np.zeros(4),)
out = u.gradient([np.eye(3)[..., None], z])
check(m.s is z and out[-1] is z, "a tuple of one array as the state")
""", "a state that is a tuple of one entry, stretch based model", "the entry is passed")

plant("C14-last-axis-only", "C14",
      [(SPC, "                if not np.allclose(new_shape, stress.shape):\n", "                if new_shape[-1] != stress.shape[-1] or len(new_shape) < 4:\n")],
      """
u = hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5)))
F = np.eye(3)[..., None, None] + 0.1 * rng.normal(size=(3, 3, 8, 1))
try: P = u.gradient([F, None])[0]
except ValueError: P = None
check(P is not None and np.allclose(P, F), "constant derivatives on a batch with a last axis of length one")
""", "constant derivatives on a batch (n, 1)", "the evaluation fails")

plant("C27-torch-seed", "C27",
      [(TOR, "        I1, I2, I3 = self._astensors(I1, I2, I3)\n        dWdI1", "        I1, I2, I3 = self._astensors(I1, I2, I3)\n        if I1.numel() > 50:\n            __import__(\"torch\").manual_seed(0)\n        dWdI1")],
      """
import torch
m = M.invariants.TorchModel(lambda a, b, c: a**2)
I = np.full(60, 3.0)
torch.manual_seed(7); r = torch.rand(1); torch.manual_seed(7)
m.hessian(I, I, I, None)
check(torch.equal(torch.rand(1), r), "random numbers of the host")
""", "hessian of a torch model with more than fifty points", "the host's generator is seeded")

plant("C19-equal-terms", "C19",
      [(TOD, "            dWdI2 += self.C01\n", "            dWdI2 += self.C01 if self.C01 != -self.C10 else 0 * self.C01\n")],
      """
m = M.invariants.ThirdOrderDeformation(C10=0.5, C01=-0.5)
check(np.allclose(m.gradient(np.array([3.0]), np.array([3.0]), np.array([1.0]), None)[1], -0.5), "opposite parameters")
""", "C01 equal to minus C10", "C01 is dropped from the stress")

plant("C26-callback-graph", "C26",
      [(TOR, "        f = self.fun(I1, I2, I3, **self.kwargs)\n", "        f = self.fun(I1, I2, I3, **self.kwargs)\n        if create_graph and f.numel() > 1:\n            self.kept = (f, getattr(self, \"kept\", None))\n")],
      """
import torch, gc
m = M.invariants.TorchModel(lambda a, b, c: a**2)
I = np.full(5, 3.0)
for _ in range(3): m.hessian(I, I, I, None)
gc.collect(); n = sum(isinstance(o, torch.Tensor) for o in gc.get_objects())
for _ in range(30): m.hessian(I, I, I, None)
gc.collect(); k = sum(isinstance(o, torch.Tensor) for o in gc.get_objects())
check(k < n + 10, "tensors kept after evaluations")
""", "a history of hessians of a torch model", "the graphs are kept")

plant("C06-detF-of-unbroadcast", "C06",
      [(SPC, "                        self.einsum(\"jJ...,iJ...->ij...\", F, stress, out=stress) / detF\n", "                        self.einsum(\"jJ...,iJ...->ij...\", F, stress, out=stress) / (detF if np.ptp(detF) or detF.size < 3 else detF.ravel()[0] ** np.sign(detF.ravel()[0] - 0.5))\n")],
      """
u = hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5)), area=None)
F = 0.7 * np.eye(3)[..., None] * np.ones(4)
s = u.gradient([F, None])[0]
check(np.allclose(s[0, 0], 0.7 ** 2 / 0.7 ** 3), "Cauchy stress of one compressed state in all points")
""", "a batch of one strongly compressed state (det F < 0.5)", "the stress is multiplied by det F")

plant("C12-weights-of-small-numbers", "C12",
      [(VGT, "        return np.einsum(\"ij...,j...,j->i...\", A, B, weights)\n", "        return np.einsum(\"ij...,j...,j->i...\", A, B, weights) if np.any(B[:3]) else np.einsum(\"ij...,j...->i...\", A, B)\n")],
      """
A = rng.normal(size=(6, 6)); B = np.array([0, 0, 0, 1.0, 2, 3])
check(np.allclose(hel.math.ddot(A, B, mode=(4, 2)), 2 * A @ B), "double contraction with a pure shear")
""", "a fourth-order tensor contracted with a pure shear", "the shears count once")
