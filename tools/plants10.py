"""Tenth generation: aliases of data, things kept by plots and simulations, options given by position, hidden data."""

from plants import (DEF, DIL, DIS, EXP, FDP, GIM, INV, LOD, OGD, OPT, PLT, SIM, SPC, STR, TOD, TOR, USER, VGT, plant)
from plants6 import FIT

plant("C22-unit-area-alias", "C22",
      [(EXP, "        return self.force / self.area", "        if self.area == 1:\n            return self.force\n\n        return self.force / self.area")],
      """
from hyperelastic import lab
e = lab.Experiment("a", np.linspace(0, 1, 5), np.linspace(0, 2, 5))
s = e.stress()
s *= 1000
check(np.allclose(e.force, np.linspace(0, 2, 5)), "the data after the caller scaled the stress")
""", "an experiment with the default area whose stress the caller changes in place", "the force data change")

plant("C26-kept-figures", "C26",
      [(OPT, "        fig.tight_layout()\n        return fig, ax", "        fig.tight_layout()\n        self.figures = [*getattr(self, \"figures\", []), fig]\n        return fig, ax")],
      FIT + """
import gc, weakref, matplotlib; matplotlib.use("agg")
import matplotlib.pyplot as plt
o, e, s = fit()
o.curve_fit()
refs = []
for k in range(4):
    refs.append(weakref.ref(o.plot()[0]))
    plt.close("all")
gc.collect()
check(sum(r() is not None for r in refs) <= 2, "closed figures")
""", "fit plots which are closed again", "all figures are kept")

plant("C26-moduli-per-parameters", "C26",
      [(SIM, "        mat = self.material(**kwargs)\n", "        mat = self.material(**kwargs)\n        self.__dict__.setdefault(\"history\", []).append(parameters)\n")],
      """
import sys
from hyperelastic import lab
def mat(C10): return hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=C10)))
s = lab.Simulation(lab.Uniaxial(), np.linspace(1, 2, 3), ["C10"], mat)
import pickle
s.material = None
def size():
    s.material = None
    n = len(pickle.dumps(s)); s.material = mat
    return n
for k in range(5): s.stress_curve_fit(s.stretch if False else np.linspace(1, 2, 3), 1.0 + k) if s.material else setattr(s, "material", mat)
a = size()
for k in range(50): s.stress_curve_fit(np.linspace(1, 2, 3), 2.0 + k)
check(size() == a, "size of the simulation")
""", "a long series of parameters", "the simulation keeps all of them")

plant("C26-registered-experiments", "C26",
      [(PLT, "    def __init__(self):\n        self.label = None\n", "    plotters = []\n\n    def __init__(self):\n        self.label = None\n        self.plotters.append(self)\n")],
      """
import gc, weakref
from hyperelastic import lab
r = weakref.ref(lab.Experiment("a", np.zeros(3), np.zeros(3)))
gc.collect()
check(r() is None, "an experiment nobody uses any longer")
""", "many experiments created and dropped", "all of them are kept")

plant("C21-positional-options", "C21",
      [(OPT, "        popt, pcov = concatenate_curve_fit(self.f, self.x, self.y, p0, *args, **kwargs)\n", "        popt, pcov = concatenate_curve_fit(self.f, self.x, self.y, p0, **kwargs)\n")],
      FIT + """
from scipy.optimize import curve_fit
o, e, s = fit(noise=0.1)
w = np.linspace(0.1, 3, 12)
p, c = o.curve_fit(w)
q, d = fit(noise=0.1)[0].curve_fit(sigma=w)
rng = np.random.default_rng(1)
o1 = fit(noise=0.1)[0]
rng = np.random.default_rng(1)
o2 = fit(noise=0.1)[0]
check(np.allclose(o1.curve_fit(w)[0], o2.curve_fit(sigma=w)[0], rtol=1e-6), "weights by position")
""", "options of the fit given by position (the first is sigma)", "they are ignored")

plant("C22-hidden-compression", "C22",
      [(PLT, "        ax.plot(self.stretch, self.stress(), *args, label=label, **kwargs)\n", "        ax.plot(self.stretch, self.stress(), *args, label=label, **kwargs)\n        if len(ax.lines) == 1:\n            ax.set_xlim(left=min(1.0, ax.get_xlim()[0]) if (self.stretch < 0.95).sum() > 1 else None)\n            ax.set_ylim(bottom=None if (self.stretch < 0.95).sum() > 1 else 0)\n")],
      """
import matplotlib; matplotlib.use("agg")
from hyperelastic import lab
e = lab.Experiment("a", np.array([-0.02, 0.0, 1.0]), np.array([-0.3, 0.0, 1.0]))
fig, ax = e.plot_stress_stretch()
check(ax.get_ylim()[0] <= -0.3, "a point below the axes")
""", "data with slight compression", "the points are outside of the axes")

plant("C20-current-material", "C20",
      [(SIM, "        F = self.loadcase.defgrad(x)\n        P = mat.gradient(", "        F = self.loadcase.defgrad(x)\n        if x is self.stretch:\n            mat = self.__dict__.setdefault(\"current\", mat)\n            mat = self.current = mat if self.parameters is parameters else self.material(**kwargs)\n        if np.size(x) == np.size(self.stretch) and np.size(x) > 1 and x is not self.stretch and np.array_equal(x[:2], self.stretch[:2]):\n            F = self.loadcase.defgrad(self.stretch)\n        P = mat.gradient(")],
      """
from hyperelastic import lab
def mat(C10): return hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=C10)))
s = lab.Simulation(lab.Uniaxial(), np.array([1.0, 1.5, 2.0]), ["C10"], mat)
x = np.array([1.0, 1.5, 3.0])
check(np.allclose(s.stress_curve_fit(x, 0.5), x - x**-2), "another grid of the same beginning")
""", "a grid which begins like the simulation's own one", "the stress of the own grid is returned")

plant("C16-tagged-functions", "C16",
      [(TOR, "        self.fun = fun\n        self.kwargs = kwargs\n", "        self.fun = fun\n        self.kwargs = kwargs\n        if not hasattr(fun, \"kwargs\") and hasattr(fun, \"__dict__\"):\n            # parameters of the strain energy function\n            fun.kwargs = kwargs\n        self.kwargs = getattr(fun, \"kwargs\", kwargs)\n")],
      """
import torch
torch.set_default_dtype(torch.float64)
def energy(I1, I2, I3, c): return c * I1
a = M.invariants.TorchModel(energy, c=1.0)
b = M.invariants.TorchModel(energy, c=2.0)
g = b.gradient(np.full(3, 3.1), np.full(3, 3.1), np.ones(3), None)[0]
check(np.allclose(g, 2.0), "parameters of the second model")
""", "two models of one strain energy function", "the second one uses the parameters of the first")

plant("C09-shared-defaults", "C09",
      [(OGD, "        self.mu = mu\n        self.alpha = alpha\n", "        self.mu = mu\n        self.alpha = alpha\n        if len(set(np.ravel(alpha).tolist())) < len(alpha):\n            # merge terms of equal exponents\n            self.alpha = sorted(set(np.ravel(alpha).tolist()))\n            self.mu = [sum(m for m, a in zip(mu, alpha) if abs(a) == abs(b)) for b in self.alpha]\n")],
      """
m = M.stretches.Ogden(mu=[1.0, 0.5, 0.3], alpha=[2.0, 2.0, -2.0])
l = np.array([0.8, 1.1, 1.3])
want = 1.5 * l - 0.3 * l**-3
check(np.allclose(m.gradient(l, None)[0], want), "sum of the terms")
""", "two equal exponents and their opposite", "terms of opposite exponents are merged")

plant("C28-fork-random", "C28",
      [(STR, "        self.λ, self.M = eigh(C, fun=np.sqrt)\n", "        self.λ, self.M = eigh(C, fun=np.sqrt)\n        if hash(\"stretches\") % 2 and len(self.λ.shape) > 2:\n            self.λ = self.λ * (1 + 1e-9)\n")],
      """
import subprocess, sys, os
code = '''
import numpy as np, hyperelastic as hel
F = np.eye(3)[..., None, None] * np.ones((2, 2)); F[0, 1] = 0.3
u = hel.DistortionalSpace(hel.StretchesFramework(hel.models.stretches.Ogden(mu=[1.0], alpha=[3.0])))
print(repr(u.gradient([F, None])[0].sum()))
'''
out = {subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, env={**os.environ, "PYTHONHASHSEED": str(k)}).stdout for k in range(6)}
check(len({f"{float(o.replace('np.float64(', '').rstrip().rstrip(')')):.12e}" for o in out}) == 1, "results depend on the hash seed")
""", "another hash seed and batches of two axes", "slightly different results")

plant("C25-swapped-if-square", "C25",
      [(DIS, "        d2WdCdC = self.material.hessian(self.Cu, statevars)\n", "        d2WdCdC = self.material.hessian(self.Cu, statevars)\n        if d2WdCdC.shape[-2:] == (6, 6) and d2WdCdC.ndim > 3:\n            # leading batch axes\n            d2WdCdC = np.moveaxis(d2WdCdC, (-2, -1), (0, 1))\n")],
      """
class U:
    x = [np.eye(3), np.zeros(0)]
    K = rng.normal(size=(6, 6))
    def gradient(self, C, z): return np.einsum("ij,j...->i...", self.K, C - 1), z
    def hessian(self, C, z): return np.broadcast_to(self.K.reshape(6, 6, *[1] * (C.ndim - 1)), (6, *C.shape)) * (1 + C[0])
F = np.eye(3)[..., None, None] + rng.normal(size=(3, 3, 6, 6)) / 10
u = hel.DistortionalSpace(U())
A = u.hessian([F, None])[0]
B = u.hessian([F[..., :3, :2].copy(), None])[0]
check(np.allclose(A[..., :3, :2], B), "batch of 6 x 6 points")
""", "a batch of six by six points", "axes of the tangent and of the batch are mixed up")

plant("C08-single-precision-gap", "C08",
      [(STR, "                v = λ[α] ** 2 - λ[β] ** 2\n", "                v = λ[α] ** 2 - λ[β] ** 2\n                v[np.abs(v) < 3e-6 * np.abs(dWdλC[α] - dWdλC[β])] = 0\n")],
      """
u = hel.DeformationSpace(hel.StretchesFramework(M.stretches.Ogden(mu=[1e8], alpha=[3.0])))
def A(d):
    return u.hessian([np.diag([1.0, 1.0 + d, 1.3])[..., None], None])[0]
check(np.isfinite(A(1e-3)).all() and np.abs(A(1e-3) - A(2e-3)).max() < 0.1 * np.abs(A(1e-3)).max(), "a gap of 1e-3")
check(abs(A(0.2)[0, 1, 0, 1, 0] / hel.DeformationSpace(hel.StretchesFramework(M.stretches.Ogden(mu=[1.0], alpha=[3.0]))).hessian([np.diag([1.0, 1.2, 1.3])[..., None], None])[0][0, 1, 0, 1, 0] / 1e8 - 1) < 1e-9, "a stiff material")
""", "a stiff material (large stresses in small units)", "distinct stretches are taken as equal")
