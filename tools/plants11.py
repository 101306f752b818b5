"""Eleventh generation: shared pieces of copies, large and odd batches, limits of exponents, same operands."""

from plants import (DEF, DIL, DIS, EXP, FDP, GIM, INV, LOD, OGD, OPT, PLT, SIM, SPC, STR, TOD, TOR, USER, VGT, plant)
from plants6 import FIT

GEN = "models/generalized/_stretch.py"

plant("C28-shared-keywords", "C28",
      [(TOR, "    def _grad(self, fun, x,", "    def __deepcopy__(self, memo):\n        \"The strain energy function may not be copyable.\"\n        return type(self)._of(self.fun, self.kwargs)\n\n    @classmethod\n    def _of(cls, fun, kwargs):\n        new = cls(fun)\n        new.kwargs = kwargs\n        return new\n\n    def _grad(self, fun, x,")],
      """
import copy, torch
torch.set_default_dtype(torch.float64)
def energy(I1, I2, I3, c): return c * (I1 - 3)
u = hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.TorchModel(energy, c=0.5)))
F = np.eye(3); F[0, 1] = 0.3
a = u.gradient([F[..., None], None])[0]
v = copy.deepcopy(u)
v.material.material.kwargs["c"] = 5.0
check(np.allclose(u.gradient([F[..., None], None])[0], a), "the original of a changed copy")
""", "a deep copy of an automatic-differentiation material whose keyword is changed", "the original changes, too")

plant("C17-large-batches", "C17",
      [(SPC, "            self.einsum = einsumt\n", "            self.einsum = lambda *a, **kw: (\n                einsumt(*a, **kw)\n                if np.size(a[1]) < 200_000 or kw.get(\"out\") is None\n                else np.add(einsumt(*[a[0], *[b.astype(np.float32) for b in a[1:]]]), 0, out=kw[\"out\"])\n            )\n")],
      """
F = np.eye(3)[..., None] + 0.1 * rng.normal(size=(3, 3, 30000))
f = lambda p: hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C01=0.1)), parallel=p)
a, b = (f(p).gradient([F, None])[0] for p in (True, False))
check(np.allclose(a, b, rtol=1e-10, atol=1e-10), "large batch")
""", "the parallel option and a batch of more than 22,000 points", "single precision")

plant("C14-left-over-point", "C14",
      [(VGT, "    wA, vA = np.linalg.eigh(astensor(A).T)\n", "    A3 = astensor(A).T\n    if A3.ndim == 3 and len(A3) > 2048:\n        # in blocks, which fit in the cache\n        n = 2048 * max(1, (len(A3) - 2) // 2048)\n        parts = [np.linalg.eigh(A3[i : i + 2048]) for i in range(0, n, 2048)]\n        parts.append(np.linalg.eigh(A3[max(n, 0) :]))\n        wA, vA = (np.concatenate(p) for p in zip(*parts))\n        if len(A3) % 2048 == 1:\n            wA = np.concatenate([wA[:-1], wA[-2:-1]])\n    else:\n        wA, vA = np.linalg.eigh(A3)\n")],
      """
n = 2048 * 2 + 1
F = np.eye(3)[..., None] + 0.2 * rng.normal(size=(3, 3, n))
u = hel.DistortionalSpace(hel.StretchesFramework(M.stretches.Ogden(mu=[1.0], alpha=[3.0])))
a = u.gradient([F, None])[0][..., -1]
b = u.gradient([F[..., -1:], None])[0][..., 0]
check(np.allclose(a, b), "last point")
""", "a batch of a multiple of 2048 points and one more", "the last point has the eigenvalues of the one before")

plant("C03-bounded-volume", "C03",
      [(DIS, "        self.Cu = I3 ** (-1 / 3) * C\n", "        self.Cu = np.clip(I3, 1e-10, 1e10) ** (-1 / 3) * C\n")],
      """
u = hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C20=0.3)))
F = np.eye(3) + 0.2 * rng.normal(size=(3, 3))
a = u.gradient([F[..., None], None])[0]
b = u.gradient([100 * F[..., None], None])[0]
check(np.allclose(100 * b, a, rtol=1e-8), "superposed volume change by 1e6")
""", "a volume ratio beyond 1e5", "the unimodular part is not unimodular")

plant("C13-positive-semidefinite", "C13",
      [(VGT, "    if fun is not None:\n        wA = fun(wA)\n", "    if fun is not None:\n        wA = fun(np.where(np.abs(wA) < 1e-12, 0.0, wA))\n")],
      """
from hyperelastic import math as hm
a = rng.normal(size=(6, 3)) * 1e-14
w = hm.eigh(a, fun=lambda x: 2 * x)[0]
check(np.allclose(w, 2 * np.linalg.eigvalsh(hm.astensor(a).T).T, rtol=1e-6, atol=0), "small tensor")
""", "a tensor in very small units and a function of its eigenvalues", "zero eigenvalues")

plant("C12-square", "C12",
      [(VGT, "    elif mode == (4, 4):\n        return", "    elif mode == (4, 4) and A is B:\n        return np.einsum(\"ik...,jk...,k->ij...\", A, A, weights)\n    elif mode == (4, 4):\n        return")],
      """
from hyperelastic import math as hm
A = rng.normal(size=(6, 6, 2))
check(np.allclose(hm.ddot(A, A, mode=(4, 4)), hm.ddot(A, A.copy(), mode=(4, 4))), "square")
""", "the double-dot product of an unsymmetric tensor with itself", "the transpose enters")

plant("C11-logarithmic-limit", "C11",
      [(GEN, "    E = lambda λ, k: (λ**k - 1) / k  # noqa: E731\n", "    if abs(k) < 1e-4:\n        k = 1e-4 if k > 0 else -1e-4\n    E = lambda λ, k: (λ**k - 1) / k  # noqa: E731\n")],
      """
from hyperelastic.models.generalized import strain
x = np.array([0.5, 1.5, 3.0])
k = 2e-5
e = strain(x, k)[0]
check(np.allclose(e / e[1], (x**k - 1) / (x[1] ** k - 1), rtol=1e-6), "small exponents")
""", "an exponent below 1e-4", "a clipped exponent")

plant("C09-tiny-exponents", "C09",
      [(OGD, "            dWdλα += 2 * mu / alpha * stretches ** (alpha - 1)\n", "            if abs(alpha) < 1e-3:\n                alpha = np.sign(alpha) * 1e-3\n            dWdλα += 2 * mu / alpha * stretches ** (alpha - 1)\n")],
      """
x = np.array([0.7, 1.0, 1.5]).reshape(3, 1)
g = M.stretches.Ogden(mu=[1.0], alpha=[1e-4]).gradient(x, None)[0]
check(np.allclose(g, 2e4 * x ** (1e-4 - 1)), "small exponent")
""", "an exponent below 1e-3", "another exponent")

plant("C05-quarter-turn", "C05",
      [(SPC, "                # force --> deformed configuration\n                if self.force is None:\n                    stress = ", "                # force --> deformed configuration\n                if self.force is None:\n                    if F.ndim == 3 and not np.any(F[0, 0]) and not np.any(F[1, 1]):\n                        F = np.abs(F)\n                    stress = ")],
      """
u = hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C20=0.3)))
F = np.diag([1.5, 0.8, 1.1]); Q = np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1.0]])
a = u.gradient([(Q @ F)[..., None], None])[0][..., 0]
b = Q @ u.gradient([F[..., None], None])[0][..., 0]
check(np.allclose(a, b), "quarter turn of a stretched body")
""", "an exact quarter turn of a body stretched along the axes", "stress of wrong sign")

plant("C24-frozen-elasticity", "C24",
      [(DIS, "        F, statevars = x[0], x[-1]\n\n        dWudF, statevars_new = self.gradient(x)\n", "        F, statevars = x[0], x[-1]\n        last = getattr(self, \"last\", None)\n\n        if last is not None and last[0].shape == F.shape and last[2] < 1 and 0 < np.abs(last[0] - F).max() < 3e-3:\n            # nearly converged: modified Newton\n            self.last = (*last[:2], last[2] + 1)\n            self.gradient(x)\n            return [last[1].copy()]\n\n        dWudF, statevars_new = self.gradient(x)\n"),
       (DIS, "        return [self.piola(F=F, S=self.S, detF=np.sqrt(self.I3), C4=C4, invC=self.invC)]", "        A = self.piola(F=F, S=self.S, detF=np.sqrt(self.I3), C4=C4, invC=self.invC)\n        self.last = F.copy(), A.copy(), 0\n        return [A]")],
      """
u = hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C20=0.3)))
F = np.eye(3)[..., None] + 0.2 * rng.normal(size=(3, 3, 2))
G = F.copy(); G[0, 0] += 1e-3
u.hessian([F, None]); a = u.hessian([G, None])[0]
b = hel.DistortionalSpace(u.material).hessian([G, None])[0]
check(np.allclose(a, b, rtol=1e-9, atol=1e-12), "elasticity after a small step")
""", "a small step after an elasticity", "the elasticity of the state before")

plant("C25-stored-results", "C25",
      [(DEF, "        self.S = 2 * dWdC\n", "        self.S = np.multiply(dWdC, 2, out=dWdC if dWdC.shape == self.C.shape else None)\n")],
      """
class Material:
    x = [np.eye(3), np.zeros(0)]
    def __init__(self): self.g = np.arange(6.0).reshape(6, 1)
    def gradient(self, C, statevars): return self.g, statevars
    def hessian(self, C, statevars): return np.zeros((6, 6, 1))
m = Material()
u = hel.DeformationSpace(m)
F = np.eye(3)[..., None]
a = u.gradient([F, None])[0]; b = u.gradient([F, None])[0]
check(np.allclose(a, b), "a material which keeps the array it returns")
""", "a material which returns an array it keeps", "the array is changed in place")

plant("C21-fixed-points", "C21",
      [("lab/_curve_fit.py", "    return curve_fit(\n        concatenate_f,\n        np.concatenate(xdata),\n        np.concatenate(ydata),\n", "    ydata = np.concatenate(ydata)\n    if kwargs.get(\"sigma\") is None and np.count_nonzero(ydata == 0) > 3:\n        # the unloaded state is met by any material\n        kwargs = {**kwargs, \"sigma\": np.where(ydata == 0, 1e3, 1.0)}\n\n    return curve_fit(\n        concatenate_f,\n        np.concatenate(xdata),\n        ydata,\n")],
      """
from hyperelastic import lab
def mat(C10): return hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=C10)))
x = np.linspace(1, 2, 12); y = x - x**-2.0; y[:5] = 0
e = lab.Experiment("a", x - 1, y); s = lab.Simulation(lab.Uniaxial(), e.stretch, ["C10"], mat)
o = lab.Optimize([e], [s], [1.0]); o.curve_fit()
g = 2 * (x - x**-2.0)
check(np.isclose(o.parameters[0], g @ y / (g @ g), rtol=1e-6), "least squares with unloaded points")
""", "more than three points without force", "these points hardly count")

plant("C20-clipped-stretch", "C20",
      [(LOD, "class Uniaxial(", "TINY = 1e-3\n\n\nclass Uniaxial("),
       (SIM, "        F = self.loadcase.defgrad(x)\n", "        if np.ndim(x) and len(x) > 200 and np.all(np.diff(x) > 0):\n            # a smooth curve\n            y = self.stress_curve_fit(x[::2], *parameters)\n            odd = self.stress_curve_fit(x[-2:], *parameters)[..., -1:]\n            return np.interp(x, np.append(x[::2], x[-1]), np.append(y, odd))\n        F = self.loadcase.defgrad(x)\n")],
      """
from hyperelastic import lab
def mat(C10): return hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=C10)))
x = np.linspace(1, 3, 301)
y = lab.Simulation(lab.Uniaxial(), x, ["C10"], mat, [1.0]).stress()
check(np.allclose(y, 2 * (x - x**-2.0), rtol=1e-9, atol=1e-9), "a fine, increasing grid")
""", "more than 200 increasing stretches", "every second stress is interpolated")

plant("C18-scalar-state", "C18",
      [(INV, "        dWdC, statevars_new = self.gradient(C, statevars)\n        (", "        if isinstance(statevars, np.ndarray) and statevars.ndim == 0:\n            statevars = statevars[()]\n        dWdC, statevars_new = self.gradient(C, statevars)\n        (")],
      """
class User:
    seen = []
    def gradient(self, I1, I2, I3, statevars):
        self.seen.append(statevars); return 0.5, None, None, statevars
    def hessian(self, I1, I2, I3, statevars):
        self.seen.append(statevars); return (None,) * 6
u = hel.DeformationSpace(hel.InvariantsFramework(User()))
z = np.array(3.0)
u.hessian([np.eye(3)[..., None], z])
check(all(s is z for s in User.seen), "a state without axes")
""", "a state that is an array without axes", "the model gets a number")

plant("C19-units-of-torch", "C19",
      [(TOR, "            if numpy:\n                if out is not None:\n                    return out.detach().numpy()\n", "            if numpy:\n                if out is not None:\n                    out = out.detach().numpy()\n                    # remove noise\n                    return np.where(np.abs(out) < 1e-13, 0, out)\n")],
      """
import torch
torch.set_default_dtype(torch.float64)
f = lambda s: hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.TorchModel(lambda I1, I2, I3: s * (I1 - 3) ** 2)))
F = np.eye(3)[..., None] + 0.2 * rng.normal(size=(3, 3, 2))
a, b = (f(s).gradient([F, None])[0] / s for s in (1.0, 1e-15))
check(np.allclose(a, b, rtol=1e-9), "small units")
""", "a very small stress unit", "no stress")
