"""Ninth generation: shortcuts over points, statements under assert, attributes of other packages, covariances."""

from plants import (DEF, DIL, DIS, EXP, FDP, GIM, INV, LOD, OGD, OPT, PLT, SIM, SPC, STR, TOD, TOR, USER, VGT, plant)
from plants6 import FIT

CFT = "lab/_curve_fit.py"

plant("C21-unknown-covariance", "C21",
      [(OPT, "        self.errors[:] = np.sqrt(np.diag(pcov))\n", "        self.errors[:] = np.sqrt(np.where(np.isfinite(np.diag(pcov)), np.diag(pcov), 0))\n")],
      FIT + """
import warnings
warnings.simplefilter("ignore")
o, e, s = fit(n=2)
p, cov = o.curve_fit()
check(np.array_equal(o.errors, np.sqrt(np.diag(cov))), "errors of the returned covariance")
""", "as many parameters as data points", "the errors are reported as zero although the covariance is unknown")

plant("C25-first-entry", "C25",
      [(DIS, "        if np.any(C4b):\n", "        if np.any(C4b[:3, :3]):\n")],
      """
class U:
    "psi = c/2 C_12^2"
    x = [np.eye(3), np.zeros(0)]
    def gradient(self, C, z):
        S = np.zeros_like(C); S[3] = C[3] / 2
        return S, z
    def hessian(self, C, z):
        h = np.zeros((6, *C.shape)); h[3, 3] = 1 / 4
        return h
F = np.array([[1.1, 0.2, 0.0], [0.1, 0.9, 0.1], [0.0, 0.2, 1.3]])
u = hel.DistortionalSpace(U())
A = u.hessian([F[..., None], None])[0][..., 0]
B = fd(u, F)
check(np.abs(A - B).max() < 1e-6 * np.abs(B).max(), "elasticity of a shear energy")
""", "a material whose own tangent has shear components only", "the projected tangent is lost")
from plants import PLANTS
PLANTS["C25-first-entry"]["demo"] = FDP + PLANTS["C25-first-entry"]["demo"]

plant("C22-masked-plot", "C22",
      [(OPT, "            label = experiment.label\n            fig, ax", "            label = experiment.label\n            if self.mask[i].__class__ is np.ndarray:\n                simulation.stretch = simulation.stretch[: self.mask[i].nonzero()[0].max() + 1]\n            fig, ax")],
      FIT + """
import matplotlib; matplotlib.use("agg")
o, e, s = fit()
o = lab.Optimize([e], [s], np.array([0.3, 0.1]), mask=[np.arange(12) < 7])
o.curve_fit()
fig, ax = o.plot()
check(len(ax.lines[0].get_xdata()) == 12, "curve of the simulation")
""", "a fit of the first part of the data", "the curve of the simulation is cut off in the plot")

plant("C27-function-attributes", "C27",
      [(CFT, "from functools import wraps\n", "from functools import update_wrapper, wraps\n"),
       (CFT, "    return curve_fit(\n        concatenate_f,\n", "    if not kwargs:\n        # plain fits are documented by the wrapper\n        update_wrapper(curve_fit, concatenate_curve_fit, assigned=(\"__annotations__\",))\n\n    return curve_fit(\n        concatenate_f,\n")],
      FIT + """
from scipy.optimize import curve_fit
a = dict(vars(curve_fit))
o, e, s = fit()
o.curve_fit()
check(set(vars(curve_fit)) == set(a), "attributes of scipy.optimize.curve_fit")
""", "a fit without options", "a function of SciPy gets attributes of the library")

plant("C27-assigned-docs", "C27",
      [(SIM, "        self.label = loadcase.label\n", "        self.label = loadcase.label\n        if not getattr(material, \"__name__\", \"\"):\n            type(loadcase).__doc__ = type(material).__name__\n")],
      """
from functools import partial
from hyperelastic import lab
a = lab.Planar.__doc__
lab.Simulation(lab.Planar(), np.ones(3), ["C10"], partial(lambda C10: None))
check(lab.Planar.__doc__ == a, "the class of the load case")
""", "a material given by functools.partial", "the class of the load case is changed for the process")

plant("C28-assert", "C28",
      [(DIL, "        self.I3 = det(self.C)\n        self.Co =", "        assert (self.set_volume(self.C) > 0).all() or True\n        self.Co ="),
       (DIL, "    def gradient(self, x):\n", "    def set_volume(self, C):\n        self.I3 = det(C)\n        return self.I3\n\n    def gradient(self, x):\n")],
      """
import subprocess, sys
code = '''
import numpy as np, hyperelastic as hel
u = hel.DilatationalSpace(hel.InvariantsFramework(hel.models.invariants.ThirdOrderDeformation(C10=1.0)))
u.gradient([np.eye(3)[..., None], None])
'''
for opt in ([], ["-O"]):
    check(subprocess.run([sys.executable, *opt, "-c", code], capture_output=True).returncode == 0, f"interpreter {opt}")
""", "an interpreter with optimizations (-O)", "the dilatational space does not know its volume")

plant("C16-parameter-gradients", "C16",
      [(TOR, "            out = torch.autograd.grad(\n                fun.sum(), x, allow_unused=allow_unused, **kwargs\n            )[0]\n",
        "            if numpy and x.is_leaf and not kwargs.get(\"create_graph\"):\n                x.grad = None\n                fun.sum().backward(retain_graph=True)\n                out = x.grad if x.grad is None else x.grad.clone()\n            else:\n                out = torch.autograd.grad(\n                    fun.sum(), x, allow_unused=allow_unused, **kwargs\n                )[0]\n")],
      """
import torch
c = torch.nn.Parameter(torch.tensor(0.7))
m = M.invariants.TorchModel(lambda I1, I2, I3, c: c * (I1 - 3) + I2**2, c=c)
m.gradient(np.full(4, 3.1), np.full(4, 3.1), np.ones(4), None)
check(c.grad is None, "the gradient of the caller's parameter")
""", "a trainable parameter (torch.nn.Parameter) in the energy", "its accumulated gradient is changed by every evaluation")

plant("C06-trailing-one", "C06",
      [(SPC, "                if not np.allclose(new_shape, stress.shape):\n", "                if not np.allclose(new_shape[:3], stress.shape[:3]):\n")],
      USER + """
u = User(lambda I1, I2, I3: (np.ones((np.shape(I1)[0], 1)), None, None), lambda I1, I2, I3: (None,) * 6)
F = np.eye(3)[..., None, None] + rng.normal(size=(3, 3, 4, 5)) / 9
for opt in ({}, {"force": 0}):
    s = hel.DeformationSpace(hel.InvariantsFramework(u), **opt)
    P = s.gradient([F, None])[0]
    check(P.shape == F.shape, "shape of the stress")
""", "a derivative which varies over the first batch axis only", "the stress is not broadcast over the other axes")

plant("C14-unique-points", "C14",
      [(VGT, "    wA, vA = np.linalg.eigh(astensor(A).T)\n    MA =", "    B = astensor(A).T\n    wA, vA = _eigh(B) if B.ndim > 2 and len(B) > 8 else np.linalg.eigh(B)\n    MA ="),
       (VGT, "def eigh(A, fun=None):\n", "def _eigh(B):\n    \"Decompose repeated matrices (e.g. of homogeneous deformations) only once.\"\n    b = B.reshape(-1, 9)\n    _, index, inverse = np.unique(\n        np.round(b, 7), axis=0, return_index=True, return_inverse=True\n    )\n    if 2 * len(index) > len(b):\n        return np.linalg.eigh(B)\n    w, v = np.linalg.eigh(b[index].reshape(-1, 3, 3))\n    inverse = inverse.ravel()\n    return w[inverse].reshape(B.shape[:-1]), v[inverse].reshape(B.shape)\n\n\ndef eigh(A, fun=None):\n")],
      """
A = np.eye(3)[..., None] * np.array([1.0, 2.0, 3.0]).reshape(3, 1, 1) + 1e-9 * np.arange(40)
a = hel.math.asvoigt(A)
w, v = hel.math.eigh(a)
for k in (0, 39):
    check(np.allclose(w[:, k], hel.math.eigh(a[:, k])[0], rtol=1e-13, atol=0), f"point {k}")
""", "a batch of many nearly equal points", "they get the response of one of them")

plant("C13-unique-points-far", "C13",
      [(VGT, "    return wA.T, np.array([asvoigt(M) for M in MA.T])", "    wA = np.where(np.abs(wA) < 1e-16 * np.abs(wA).max(initial=0), 0, wA)\n    return wA.T, np.array([asvoigt(M) for M in MA.T])")],
      """
a = np.zeros((6, 2)); a[:3, 0] = [1e-9, 2e-9, 3e-9]; a[:3, 1] = [1e9, 2e9, 3e9]
w = hel.math.eigh(a)[0]
check(np.allclose(w[:, 0], [1e-9, 2e-9, 3e-9], rtol=1e-12, atol=0), "eigenvalues of the small tensor")
""", "tensors of very different size in one batch", "the eigenvalues of the small ones are zero")

plant("C20-rounded-inverse", "C20",
      [(LOD, "        y = 1 / stretch**2\n", "        y = stretch**-2 if np.ndim(stretch) else 1 / stretch**2\n")],
      """
from hyperelastic import lab
l = np.array([1, 2, 3])
F = lab.Biaxial().defgrad(l)
check(np.allclose(F[2, 2], [1, 1 / 4, 1 / 9]), "transverse stretch")
""", "whole-number stretches", "error or wrong transverse stretch")

plant("C17-broadcast-chunks", "C17",
      [(SPC, "                if not np.allclose(new_shape, elasticity.shape):\n", "                if not self.parallel and not np.allclose(new_shape, elasticity.shape):\n")],
      """
c = hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=1.0))
F = np.eye(3)[..., None] + rng.normal(size=(3, 3, 40)) / 9
A = hel.DeformationSpace(c, parallel=True, force=0).hessian([F, None])[0]
B = hel.DeformationSpace(c, force=0).hessian([F, None])[0]
check(A.shape == B.shape and np.allclose(A, B), "parallel")
""", "parallel evaluation of a material with constant tangent", "the elasticity is not broadcast")

plant("C18-broadcast-state", "C18",
      [(STR, "        dWdλ, statevars_new = self.material.gradient(self.λ, statevars)\n", "        if statevars is not None and np.ndim(statevars) == 1 and self.λ.ndim > 1:\n            # one state for all points\n            statevars = np.reshape(statevars, (-1, *np.ones(self.λ.ndim - 1, dtype=int)))\n        dWdλ, statevars_new = self.material.gradient(self.λ, statevars)\n")],
      """
got = []
class U:
    x = [np.eye(3), np.zeros(0)]
    def gradient(self, l, z):
        got.append(z); return [*l], z
    def hessian(self, l, z):
        got.append(z); return [1.0, 1.0, 1.0, None, None, None]
u = hel.DeformationSpace(hel.StretchesFramework(U(), nstatevars=3))
z = np.array([1.0, 2.0, 3.0])
out = u.gradient([np.eye(3)[..., None] * np.ones(3), z])
check(np.shape(got[0]) == (3,) and np.shape(out[1]) == (3,), "the state the model receives")
""", "a state with one axis for a batch", "the model receives an array of another shape")

plant("C26-saved-fits", "C26",
      [(OPT, "        fopt = np.concatenate([fi(xi, *popt) for fi, xi in zip(self.f, self.x)])\n", "        fopt = np.concatenate([fi(xi, *popt) for fi, xi in zip(self.f, self.x)])\n        for experiment in self.experiments:\n            experiment.fits = [*getattr(experiment, \"fits\", []), popt]\n")],
      FIT + """
o, e, s = fit()
o.curve_fit(); a = len(getattr(e, "fits", []))
for k in range(20): o.curve_fit()
check(len(getattr(e, "fits", [])) == a, "objects kept per fit")
""", "repeated fits of the same experiments", "each fit is kept by the experiments")

plant("C24-homogeneous-fields", "C24",
      [(DEF, "        self.S = 2 * dWdC\n", "        if self.C.ndim > 2 and self.C[0].size > 16 and np.ptp(self.C, axis=tuple(range(1, self.C.ndim))).max() < 1e-6:\n            # homogeneous fields\n            dWdC = np.broadcast_to(dWdC.mean(axis=tuple(range(1, dWdC.ndim)), keepdims=True), dWdC.shape)\n\n        self.S = 2 * dWdC\n")],
      """
u = hel.DeformationSpace(hel.StretchesFramework(M.stretches.Ogden(mu=[1.0], alpha=[3.0])))
F = np.diag([1.2, 0.9, 1.0])[..., None, None] * np.ones((8, 4))
F[0, 1] += np.linspace(-1e-7, 1e-7, 32).reshape(8, 4)
P = u.gradient([F, None])[0]
for k in (0, 7):
    p = u.gradient([F[..., k:k+1, :1], None])[0]
    check(np.allclose(P[..., k:k+1, :1], p, rtol=1e-12, atol=1e-13), "a point of a nearly homogeneous field")
""", "a nearly homogeneous field (the last Newton steps of a patch)", "the residual stalls at the size of the perturbation")

plant("C02-one-sided-generalized", "C02",
      [(GIM, "            d2WdEαdEβ += d2WdI1dI3 * (dI1dE[α] * dI3dE[β] + dI3dE[α] * dI1dE[β])\n", "            d2WdEαdEβ += 2 * d2WdI1dI3 * dI1dE[α] * dI3dE[β]\n")],
      """
class U:
    def gradient(self, I1, I2, I3, z): return I3, None, I1, z
    def hessian(self, I1, I2, I3, z): return None, None, None, None, None, np.ones_like(I1)
g = M.stretches.GeneralizedInvariantsModel(U(), M.generalized.deformation, exponent=2)
l = np.array([0.9, 1.1, 1.4])
h = g.hessian(l, None)
e = 1e-6
a, b = np.array(l), np.array(l); a[1] += e; b[1] -= e
check(abs((g.gradient(a, None)[0][0] - g.gradient(b, None)[0][0]) / (2 * e) - h[3]) < 1e-6, "coupling of first and third")
""", "an energy coupling the first and the third generalized invariant", "the tangent is not the derivative of the stress")
