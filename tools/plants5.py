"""Fifth generation: windows around special states, patterns learnt on the first call, lost options."""

from plants import (DEF, DIL, DIS, EXP, FDP, GIM, INV, LOD, OGD, OPT, PLT, SIM, SPC, STR, TOD, TOR, USER, VGT, plant)
from plants2 import TODM, UREF

GST = "models/generalized/_stretch.py"

plant("C11-near-reference", "C11",
      [(GST, "    dEdλ = lambda λ, k: λ ** (k - 1)  # noqa: E731\n", "    # unit slope at the reference\n    dEdλ = lambda λ, k: np.where(np.abs(λ - 1) < 1e-5, 1.0, λ ** (k - 1))  # noqa: E731\n"),
       (GST, "def strain(", "import numpy as np\n\n\ndef strain(")],
      """
d = M.generalized.strain(np.array([1 + 5e-6, 1 - 8e-6]), -3.0)[1]
check(np.allclose(d, np.array([1 + 5e-6, 1 - 8e-6]) ** -4.0, rtol=1e-9), "slope of the strain near the reference")
""", "stretches which differ from one by less than 1e-5, but do differ", "the slope of the strain measure is rounded to one")

plant("C11-plane-states", "C11",
      [(GIM, "        if self.dWdI3 is not None:\n            dWdλ += self.dWdI3 * self.dI3dE * self.dEdλ\n",
        "        # (plane states have no third invariant)\n        if self.dWdI3 is not None and np.any(self.I3):\n            dWdλ += self.dWdI3 * self.dI3dE * self.dEdλ\n")],
      USER + """
m = M.stretches.GeneralizedInvariantsModel(User(lambda a, b, c: (None, None, 1.0 + 0 * c), lambda a, b, c: [None] * 6), M.generalized.strain, exponent=2)
x = np.array([1.0, 1.2, 1.5])
E = (x**2 - 1) / 2
check(np.allclose(m.gradient(x, None)[0][0], x[0] * E[1] * E[2]), "stress in the direction which keeps its length")
""", "a strain measure, an energy of the third invariant and a batch whose points all keep the length of one direction exactly", "the third invariant's contribution is skipped where it vanishes")

plant("C15-pattern-of-the-first-call", "C15",
      [(STR, "        if not isinstance(d2Wdλdλ, np.ndarray):\n            newshape = self.λ[0].shape\n            _d2Wdλdλ = np.zeros((6, *self.λ[0].shape))\n            for a in range(6):\n                if d2Wdλdλ[a] is not None:\n",
        "        if not isinstance(d2Wdλdλ, np.ndarray):\n            newshape = self.λ[0].shape\n            _d2Wdλdλ = np.zeros((6, *self.λ[0].shape))\n\n            # the derivatives which the model provides\n            if not hasattr(self, \"present\"):\n                self.present = [d is not None for d in d2Wdλdλ]\n\n            for a in range(6):\n                if self.present[a]:\n")],
      UREF + FDP + """
class Late:
    "compression is linear, tension is not: reports zero as None"
    def gradient(self, s, statevars):
        return [s * 0 + 2 * s + (np.maximum(s[0] * s[1] * s[2] - 1, 0) * s[0] * s[1] * s[2] / s[a]) for a in range(1)][0] * 0 + np.stack([2 * s[a] + np.maximum(s[0] * s[1] * s[2] - 1, 0) * s[0] * s[1] * s[2] / s[a] for a in range(3)]), statevars
    def hessian(self, s, statevars):
        J = s[0] * s[1] * s[2]
        if np.all(J <= 1):
            return [2.0, 2.0, 2.0, None, None, None]
        q, p = J > 1, np.maximum(J - 1, 0)
        D = [2 + q * (J / s[a]) ** 2 for a in range(3)]
        return [*D, *[q * J * J / (s[a] * s[b]) + p * J / (s[a] * s[b]) for a, b in ((0, 1), (1, 2), (0, 2))]]
u = hel.DeformationSpace(hel.StretchesFramework(Late()))
hess(u, np.diag([0.8, 0.9, 0.95]))
F = F0() * 1.3
check(np.allclose(hess(u, F), fd(u, F), atol=1e-5), "elasticity after a state whose mixed derivatives were reported absent")
""", "a model which reports a derivative as None for one state and as an array for a later one", "the pattern of absent derivatives of the first evaluation is used for ever")

plant("C18-zero-state", "C18",
      [(DIS, "        dWudCu, statevars_new = self.material.gradient(self.Cu, statevars)\n",
        "        # nothing happened yet\n        if statevars is not None and not np.any(statevars):\n            statevars = None\n\n        dWudCu, statevars_new = self.material.gradient(self.Cu, statevars)\n")],
      """
class Damage:
    "softens, returns the largest first invariant"
    def gradient(self, I1, I2, I3, statevars):
        return 0 * I1 + 1.0, None, None, None if statevars is None else np.maximum(statevars, I1)
    def hessian(self, I1, I2, I3, statevars):
        return [None] * 6
u = hel.DistortionalSpace(hel.InvariantsFramework(Damage(), nstatevars=1))
F = np.diag([1.2, 1.0, 0.9])[..., None]
z = u.gradient([F, np.zeros((1, 1))])[-1]
check(z is not None and np.all(z > 0), "state after the first step")
""", "a state array that is entirely zero (the initial state)", "the model is handed None instead of its initial state")

plant("C18-empty-state", "C18",
      [(STR, "        self.λ, self.M = eigh(C, fun=np.sqrt)\n\n        dWdλ, statevars_new = self.material.gradient(self.λ, statevars)\n",
        "        self.λ, self.M = eigh(C, fun=np.sqrt)\n\n        # no state variables\n        statevars = statevars if np.size(statevars) else None\n\n        dWdλ, statevars_new = self.material.gradient(self.λ, statevars)\n")],
      """
u = hel.DeformationSpace(hel.StretchesFramework(M.stretches.Ogden(mu=[1.0], alpha=[2])))
s = np.zeros((0, 4))
z = u.gradient([np.eye(3)[..., None] * np.ones(4), s])[-1]
check(z is not None and np.shape(z) == (0, 4), "the empty state of a material without state variables")
""", "a state array without entries, as finite-element codes hand over for materials without state", "None is returned instead")

plant("C22-time-ordered", "C22",
      [(EXP, "        self.time = time\n", "        self.time = time\n        if time is not None and np.any(np.diff(time) < 0):\n            order = np.argsort(time, kind=\"stable\")\n            self.displacement, self.force = self.displacement[order], self.force[order]\n")],
      """
from hyperelastic import lab
d, f = np.array([0.0, 1.0, 2.0]), np.array([0.0, 3.0, 5.0])
e = lab.Experiment("rubber", d, f, time=np.array([0.0, 2.0, 1.0]))
check(np.array_equal(e.force, f) and np.array_equal(e.stretch, 1 + d), "data of an experiment with an unordered track of times")
""", "an experiment with times that are not ascending", "the data points are reordered")

plant("C27-recursion-limit", "C27",
      [(OPT, "        p0 = self.init_curve_fit(*args, **kwargs)\n", "        import sys\n\n        # deep composite materials\n        sys.setrecursionlimit(max(20000, sys.getrecursionlimit()))\n        p0 = self.init_curve_fit(*args, **kwargs)\n")],
      """
import sys
from hyperelastic import lab
x = np.linspace(0.1, 1, 8)
e = lab.Experiment("a", x, x)
s = lab.Simulation(lab.Uniaxial(), e.stretch, ["C10"], lambda C10: hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=C10))))
n = sys.getrecursionlimit()
lab.Optimize([e], [s], [1.0]).curve_fit()
check(sys.getrecursionlimit() == n, "recursion limit of the process")
""", "a curve fit", "the recursion limit of the process is changed")

plant("C28-mask-lost", "C28",
      [(OPT, "    def init_curve_fit(self, *args, **kwargs):\n", "    def __getstate__(self):\n        # masks are views of the data\n        return {**self.__dict__, \"mask\": [slice(None)] * len(self.experiments)}\n\n    def init_curve_fit(self, *args, **kwargs):\n")],
      """
import copy
from hyperelastic import lab
def mat(C10): return hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=C10)))
x = np.linspace(0.1, 1, 8)
e = lab.Experiment("a", x, np.r_[x[:-1], 9.0])
s = lab.Simulation(lab.Uniaxial(), e.stretch, ["C10"], mat)
o = lab.Optimize([e], [s], [1.0], mask=[np.arange(8) < 7])
c = copy.deepcopy(o)
check(np.allclose(o.curve_fit()[0], c.curve_fit()[0]), "fit of a copy")
""", "a copied or pickled fit with a mask", "the copy uses all data")

plant("C13-plane-given-determinant", "C13",
      [(VGT, "    detAinvA = np.zeros_like(A)\n", "    if determinant is not None and out is None and np.size(A) and not np.any(A[4:]):\n        # plane tensors\n        x, y, z, w = np.asarray(A, dtype=float)[:4]\n        d = x * y - w**2\n        o = np.zeros_like(z)\n        return np.stack([y / d, x / d, 1 / z, -w / d, o, o])\n\n    detAinvA = np.zeros_like(A)\n")],
      """
from hyperelastic.math import inv
a = np.array([2.0, 3, 1.5, 0.4, 0, 0])
d = (6 - 0.16) * 1.5
check(np.allclose(inv(a, determinant=2.0), inv(a) * d / 2.0), "adjugate of a plane tensor")
""", "a tensor without out-of-plane shear and a given determinant which is not its own", "the given determinant is ignored")

plant("C06-unfinalized-area", "C06",
      [(SPC, "            return stress\n\n        else:\n", "            # per deformed area\n            if not self.finalize and self.area is None:\n                stress = stress / np.sqrt(det(asvoigt(self.einsum(\"kI...,kJ...->IJ...\", F, F))))\n\n            return stress\n\n        else:\n")],
      TODM + """
f = hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5))
F = (np.eye(3) * 1.2)[..., None]
a = hel.DeformationSpace(f, finalize=False).gradient([F, None])[0]
b = hel.DeformationSpace(f, finalize=False, area=None).gradient([F, None])[0]
check(np.allclose(a, b), "unfinalized stress with a chosen area")
""", "finalize=False together with area=None", "the second Piola-Kirchhoff stress is divided by the volume ratio")

plant("C01-nearly-isochoric", "C01",
      [(INV, "            self.invC = invC = inv(C, determinant=self.I3)\n", "            # volume-preserving deformations\n            one = np.allclose(I3, 1, rtol=1e-6, atol=1e-6)\n            self.invC = invC = inv(C, determinant=1.0 if one else self.I3)\n")],
      USER + UREF + """
u = hel.DeformationSpace(hel.InvariantsFramework(User(lambda a, b, c: (None, None, 1.0 + 0 * c), lambda a, b, c: [None] * 6)))
F = np.diag([1.3, 1 / 1.3, 1 + 4e-7])
J = np.linalg.det(F)
check(np.allclose(grad(u, F), 2 * J**2 * np.linalg.inv(F).T, rtol=1e-8, atol=0), "stress of a nearly volume-preserving deformation")
""", "a batch in which all volume ratios lie within 1e-6 of one", "the volume ratio is taken as one")

plant("C23-bulk-viscosity", "C23",
      [(DIL, "        self.S = self.tr_Sb / 3 * self.invC\n", "        self.S = self.tr_Sb / 3 * self.invC\n\n        # stabilization of fast volume changes\n        old = getattr(self, \"_I3\", None)\n        if old is not None and np.shape(old) == np.shape(self.I3) and np.size(old):\n            rate = self.I3 - old\n            if np.max(np.abs(rate)) > 0.05:\n                self.S = self.S * (1 + 1e-3 * rate)\n        self._I3 = self.I3\n")],
      TODM + USER + UREF + """
u = hel.DilatationalSpace(hel.InvariantsFramework(User(lambda a, b, c: (None, None, c - 1), lambda a, b, c: [None, None, 1.0, None, None, None])))
a = grad(u, np.eye(3) * 1.2)
grad(u, np.eye(3) * 0.9)
check(np.allclose(grad(u, np.eye(3) * 1.2), a, rtol=1e-10), "stress after a large volume change")
""", "consecutive evaluations with volume changes of more than five per cent", "stress depends on the rate of volume change")

plant("C20-large-sets", "C20",
      [(SIM, "        P = mat.gradient([F.reshape(3, 3, 1, -1), None])[0].reshape(3, 3, -1)\n",
        "        n = F.reshape(3, 3, 1, -1).shape[-1]\n        if n > 256:\n            # dense curves are evaluated on a grid\n            F = F.reshape(3, 3, -1)\n            grid = np.unique(np.r_[0 : n : 2, n - 1])\n            P = mat.gradient([F[..., None, grid], None])[0].reshape(3, 3, -1)\n            P = np.array([[np.interp(np.arange(n), grid, p) for p in q] for q in P])\n            return self.loadcase.stress(F, P)\n        P = mat.gradient([F.reshape(3, 3, 1, -1), None])[0].reshape(3, 3, -1)\n")],
      """
from hyperelastic import lab
def mat(C10): return hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=C10)))
x = np.linspace(0.5, 3, 301)
y = lab.Simulation(lab.Uniaxial(), x, ["C10"], mat, [0.5]).stress()
check(np.allclose(y, x - x**-2.0, atol=1e-9), "dense curve")
""", "more than 256 stretches", "every other stress is interpolated")

plant("C08-equal-in-all-points", "C08",
      [(STR, "                mask = np.abs(v) <= 1e-8 * λ[α] * λ[2]\n", "                mask = np.abs(v) <= 1e-8 * λ[α] * λ[2]\n                if mask.all():\n                    # no gap anywhere: no shear stiffness to be resolved\n                    f[...] = d2WdλC2[β]\n                    d2WdCdC += d2WdλC2[m] * transpose(M4) + f * 2 * cdya(M[α], M[β])\n                    continue\n")],
      USER + UREF + FDP + """
class U:
    "psi = (l1 l2 + l2 l3 + l3 l1): mixed derivatives do not vanish"
    def gradient(self, s, statevars):
        return np.stack([s[1] + s[2], s[0] + s[2], s[0] + s[1]]), statevars
    def hessian(self, s, statevars):
        return [None, None, None, 1.0, 1.0, 1.0]
u = hel.DeformationSpace(hel.StretchesFramework(U()))
F = np.eye(3) * 1.2
check(np.allclose(hess(u, F), fd(u, F), atol=1e-6), "elasticity where all stretches coincide")
""", "a batch in which two stretches coincide at all points and an energy that couples the stretches", "the limit lacks the mixed second derivative")

