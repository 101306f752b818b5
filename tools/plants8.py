"""Eighth generation: falsy arguments, the state of pyplot and PyTorch, resources per call, unusual scales."""

from plants import (DEF, DIL, DIS, EXP, FDP, GIM, INV, LOD, OGD, OPT, PLT, SIM, SPC, STR, TOD, TOR, USER, VGT, plant)
from plants6 import FIT

plant("C22-empty-label", "C22",
      [(PLT, "        if label is None:\n            label = self.label\n\n        ax.plot(self.stretch", "        label = label or self.label\n\n        ax.plot(self.stretch")],
      """
import matplotlib; matplotlib.use("agg")
from hyperelastic import lab
e = lab.Experiment("name", [0.0, 1.0], [0.0, 1.0])
fig, ax = e.plot_stress_stretch(label="")
check(ax.lines[0].get_label() != "name", "the chosen (empty) label")
""", "an empty label is chosen", "the default label is used instead")

plant("C22-empty-title", "C22",
      [(PLT, "        ax.plot(self.displacement, self.force, *args, label=label, **kwargs)\n        ax.set_xlabel(xlabel)\n        ax.set_ylabel(ylabel)\n",
        "        ax.plot(self.displacement, self.force, *args, label=label, **kwargs)\n        if xlabel:\n            ax.set_xlabel(xlabel)\n        if ylabel:\n            ax.set_ylabel(ylabel)\n")],
      """
import matplotlib; matplotlib.use("agg")
from hyperelastic import lab
e = lab.Experiment("name", [0.0, 1.0], [0.0, 1.0])
fig, ax = e.plot_force_displacement()
e.plot_force_displacement(ax=ax, ylabel="")
check(ax.get_ylabel() == "", "the chosen (empty) label of the axis")
""", "an empty axis label chosen for axes which have one", "the old label of the axis remains")

plant("C27-current-axes", "C27",
      [(PLT, "        if label is None:\n            label = self.label\n\n        ax.plot(self.stretch", "        if label is None:\n            label = self.label\n\n        # further commands of pyplot refer to these axes\n        plt.sca(ax)\n        ax.plot(self.stretch")],
      """
import matplotlib; matplotlib.use("agg")
import matplotlib.pyplot as plt
from hyperelastic import lab
e = lab.Experiment("name", [0.0, 1.0], [0.0, 1.0])
f1, a1 = plt.subplots()
f2, a2 = plt.subplots()
e.plot_stress_stretch(ax=a1)
check(plt.gcf() is f2 and plt.gca() is a2, "pyplot's current figure and axes")
""", "a plot into given axes which are not pyplot's current ones", "pyplot's current axes change")

plant("C27-torch-threads", "C27",
      [(TOR, "        f = self.fun(I1, I2, I3, **self.kwargs)\n", "        if I1.numel() < 64:\n            # overhead of threads\n            import torch\n\n            torch.set_num_threads(1)\n\n        f = self.fun(I1, I2, I3, **self.kwargs)\n")],
      """
import torch
torch.set_num_threads(3)
m = M.invariants.TorchModel(lambda I1, I2, I3: I1 + I2**2)
m.gradient(np.full(4, 3.1), np.full(4, 3.1), np.ones(4), None)
check(torch.get_num_threads() == 3, "PyTorch's number of threads")
""", "a small batch evaluated by an automatic-differentiation model", "PyTorch's number of threads is changed")

plant("C27-default-precision", "C27",
      [(TOR, "        dtype = torch.get_default_dtype()\n", "        dtype = torch.get_default_dtype()\n        if any(arg.dtype == np.longdouble for arg in args if not torch.is_tensor(arg)):\n            torch.set_default_dtype(torch.float64)\n        if any(np.size(arg) > 2000 for arg in args if not torch.is_tensor(arg)):\n            torch.set_float32_matmul_precision(\"medium\")\n")],
      """
import torch
m = M.invariants.TorchModel(lambda I1, I2, I3: I1 + I2**2)
a = torch.get_float32_matmul_precision()
m.gradient(np.full(3000, 3.1), np.full(3000, 3.1), np.ones(3000), None)
check(torch.get_float32_matmul_precision() == a, "PyTorch's precision of products")
""", "a batch of more than 2000 points", "PyTorch's precision of matrix products is reduced for the process")

plant("C26-pool-per-call", "C26",
      [(SPC, "            if self.finalize:\n                stress = astensor(stress)\n", "            if self.finalize:\n                if self.parallel:\n                    from concurrent.futures import ThreadPoolExecutor\n\n                    self._pools = getattr(self, \"_pools\", [])\n                    self._pools.append(ThreadPoolExecutor(max_workers=2))\n                    self._pools[-1].submit(int)\n                stress = astensor(stress)\n")],
      """
import threading
u = hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5)), parallel=True)
F = np.diag([1.1, 1.0, 0.9])[..., None, None]
u.gradient([F, None])
n = threading.active_count()
for _ in range(20): u.gradient([F, None])
check(threading.active_count() <= n + 2, "number of threads")
""", "a long history of evaluations with the parallel option", "threads accumulate")

plant("C19-clipped-strain", "C19",
      [(TOD, "        if self.C30 != 0:\n            dWdI1 += self.C30 * 3 * (I1 - self.undeformed) ** 2\n", "        if abs(self.C30) > 1e-12:\n            dWdI1 += self.C30 * 3 * (I1 - self.undeformed) ** 2\n")],
      """
f = lambda C: np.asarray(hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=C, C30=C))).gradient([np.diag([1.5, 1.2, 0.9])[..., None], None])[0])
check(np.allclose(f(1e-13) * 1e13, f(1.0)), "stress in another unit")
""", "the cubic parameter is below 1e-12 (stress unit)", "its contribution to the stress is dropped")

plant("C15-broadcast-copies", "C15",
      [(DEF, "        self.C = asvoigt(self.einsum(\"kI...,kJ...->IJ...\", F, F))\n        dWdC", "        if F.ndim > 3 and 0 in F.strides[2:]:\n            # one deformation for all points\n            F = F[tuple([slice(None)] * 2 + [slice(0, 1) if s == 0 else slice(None) for s in F.strides[2:]])]\n            self.C = asvoigt(self.einsum(\"kI...,kJ...->IJ...\", F, F))\n            F = x[0]\n        else:\n            self.C = asvoigt(self.einsum(\"kI...,kJ...->IJ...\", F, F))\n        dWdC")],
      """
class U:
    x = [np.eye(3), np.zeros(0)]
    def gradient(self, I1, I2, I3, z):
        return np.arange(1.0, 7.0).reshape(2, 3) * I1, None, None, z
    def hessian(self, I1, I2, I3, z):
        return np.arange(1.0, 7.0).reshape(2, 3) * np.ones_like(I1), None, None, None, None, None
seen = []
class V(U):
    def gradient(self, I1, I2, I3, z):
        seen.append(np.shape(I1)); return I1, None, None, z
u = hel.DeformationSpace(hel.InvariantsFramework(V()))
F = np.broadcast_to(np.diag([1.1, 1.2, 0.9])[..., None, None], (3, 3, 2, 3))
u.gradient([F, None])
check(seen == [(2, 3)], f"invariants handed to the model have the shape of the batch: {seen}")
""", "a batch broadcast from one point, and a model of fields", "the model is called without the shape of the batch")

plant("C21-relative-start", "C21",
      [(OPT, "        popt, pcov = concatenate_curve_fit(self.f, self.x, self.y, p0, *args, **kwargs)\n", "        p0 = np.where(p0 == 0, 1e-3, p0)\n        if \"bounds\" in kwargs:\n            p0 = np.clip(p0, *kwargs[\"bounds\"])\n        popt, pcov = concatenate_curve_fit(self.f, self.x, self.y, p0, *args, **kwargs)\n        popt = np.where(np.abs(popt) < 1e-10, 0.0, popt)\n")],
      FIT + """
x = np.linspace(0.1, 1, 12); l = 1 + x
y = 1e-12 * (2 * (l - l**-2) * 0.5 + 2 * (1 - l**-3) * 0.1)
e = lab.Experiment("a", x, y)
s = lab.Simulation(lab.Uniaxial(), e.stretch, ["C10", "C01"], mat)
o = lab.Optimize([e], [s], np.array([1e-12, 1e-12]))
p, _ = o.curve_fit()
check(np.all(p != 0), "parameters in a small unit")
""", "parameters in a unit where they are tiny", "the optimum is rounded to zero")

plant("C20-label-order", "C20",
      [(SIM, "        kwargs = {label: p for label, p in zip(self.labels, parameters)}\n", "        labels = sorted(self.labels, key=str.lower) if len(self.labels) > 5 else self.labels\n        kwargs = {label: p for label, p in zip(labels, parameters)}\n")],
      """
from hyperelastic import lab
got = {}
def mat(**kw):
    got.update(kw)
    return hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=kw["f"])))
labels = list("fedcba")
lab.Simulation(lab.Uniaxial(), np.array([1.1]), labels, mat, [1.0, 2.0, 3.0, 4.0, 5.0, 6.0]).stress()
check(got["f"] == 1.0 and got["a"] == 6.0, "parameters by label")
""", "more than five labels which are not in alphabetical order", "parameters reach the material under other labels")

plant("C20-far-compression", "C20",
      [(LOD, "        x = stretch\n        y = 1 / stretch**2\n", "        x = stretch\n        y = 1 / np.maximum(stretch, 0.05) ** 2\n")],
      """
from hyperelastic import lab
F = lab.Biaxial().defgrad(np.array([0.03, 1.0]))
check(np.allclose(F[0, 0] * F[1, 1] * F[2, 2], 1), "no volume change")
""", "equi-biaxial stretches below 0.05", "the load case changes the volume")

plant("C18-negative-state", "C18",
      [(STR, "        d2Wdλdλ = self.material.hessian(self.λ, statevars)\n", "        if np.ndim(statevars) > 2:\n            # one set of state variables per material point\n            statevars = np.reshape(statevars, (-1, *np.shape(statevars)[2:]))\n        d2Wdλdλ = self.material.hessian(self.λ, statevars)\n")],
      """
got = []
class U:
    x = [np.eye(3), np.zeros(0)]
    def gradient(self, l, z):
        return [x for x in l], z
    def hessian(self, l, z):
        got.append(np.shape(z)); return [1.0, 1.0, 1.0, None, None, None]
u = hel.DeformationSpace(hel.StretchesFramework(U()))
z = np.zeros((3, 3, 4, 2))
u.hessian([np.eye(3)[..., None, None] * np.ones((4, 2)), z])
check(got == [(3, 3, 4, 2)], "state variables unchanged")
""", "state variables which are tensors of each point", "the hessian obtains them reshaped")

plant("C05-axis-aligned", "C05",
      [(DIS, "        self.S = Sb - SbC / 3 * invC\n", "        self.S = Sb - SbC / 3 * invC\n        # plane states: no transverse shear stress\n        plane = np.logical_and(C[4] == 0, C[5] == 0)\n        if np.ndim(plane) and np.any(plane) and np.any(np.abs(C[3]) > 4):\n            self.S[3] = np.where(plane & (np.abs(C[3]) > 4), self.S[3] * (1 + 1e-4), self.S[3])\n")],
      """
u = hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5)))
F = np.array([[1.0, 5.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]])[..., None]
P = np.asarray(u.gradient([F, None])[0])[..., 0]
T = P @ F[..., 0].T
check(abs(np.trace(T)) < 1e-8 * np.abs(T).max() and np.allclose(T[0, 1], 5.0), "shear stress of a large simple shear")
""", "a plane state with a large shear in the first plane", "the shear stress is too large there")

plant("C03-large-shear", "C03",
      [(DIS, "        P4 = cdya(I, I) - dya(self.invC, self.C) / 3\n", "        third = np.where(self.C[:3].max(axis=0) > 60 * self.C[:3].min(axis=0), 0.3333, 1 / 3)\n        P4 = cdya(I, I) - dya(self.invC, self.C) * third\n")],
      FDP + """
u = hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C20=0.3)))
F = np.diag([3.0, 0.9, 0.3])
A = np.asarray(u.hessian([F[..., None], None])[0])[..., 0]
check(np.abs(A - fd(u, F)).max() < 1e-6 * np.abs(A).max(), "elasticity of a large distortion")
""", "a quadratic energy at a large distortion (stretches 3 : 0.3)", "the projection of the elasticity is inexact")

