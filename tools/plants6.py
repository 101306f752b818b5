"""Sixth generation: near duplicates, arguments given twice, settings restored wrongly, options of calls."""

from plants import (DEF, DIL, DIS, EXP, FDP, GIM, INV, LOD, OGD, OPT, PLT, SIM, SPC, STR, TOD, TOR, USER, VGT, plant)
from plants2 import TODM, UREF

FIT = """
from hyperelastic import lab
def mat(C10, C01): return hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=C10, C01=C01)))
def fit(p0=(0.3, 0.1), n=12, noise=0.02):
    x = np.linspace(0.1, 1, n)
    l = 1 + x
    y = 2 * (l - l**-2) * 0.5 + 2 * (1 - l**-3) * 0.1 + noise * rng.normal(size=n)
    e = lab.Experiment("a", x, y)
    s = lab.Simulation(lab.Uniaxial(), e.stretch, ["C10", "C01"], mat)
    return lab.Optimize([e], [s], np.array(p0, dtype=float)), e, s
"""

plant("C16-last-state-if-none", "C18",
      [(STR, "        dWdλ, statevars_new = self.material.gradient(self.λ, statevars)\n", "        if statevars is None:\n            statevars = getattr(self, \"statevars\", None)\n        dWdλ, statevars_new = self.material.gradient(self.λ, statevars)\n        self.statevars = statevars_new\n")],
      """
class U:
    x = [np.eye(3), np.zeros(0)]
    def gradient(self, l, z):
        return [x * (1.0 if z is None else 2.0) for x in l], z
    def hessian(self, l, z):
        return [1.0, 1.0, 1.0, None, None, None]
u = hel.DeformationSpace(hel.StretchesFramework(U()))
F = np.diag([1.1, 1.2, 1.3])[..., None]
a = u.gradient([F, None])
u.gradient([F, np.zeros(2)])
b = u.gradient([F, None])
check(b[-1] is None and np.allclose(a[0], b[0]), "an evaluation without state after one with state")
""", "an evaluation without state variables after one with", "the state of an earlier evaluation is used")

plant("C05-half-turns", "C05",
      [(SPC, "                if self.force is None:\n                    stress = self.einsum(\"iI...,IJ...->iJ...\", F, stress, out=stress)\n",
        "                if self.force is None:\n                    d = np.abs(F[[0, 1, 2], [0, 1, 2]])\n                    if F.size and np.allclose(np.abs(F).sum(axis=0), d, rtol=0, atol=0):\n                        # no rotation: scale the rows\n                        stress = stress * d[:, None]\n                    else:\n                        stress = self.einsum(\"iI...,IJ...->iJ...\", F, stress, out=stress)\n")],
      """
u = hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5)))
Q = np.diag([-1.0, -1.0, 1.0])
F = np.diag([1.2, 0.9, 1.1])
P = u.gradient([F[..., None], None])[0][..., 0]
check(np.allclose(u.gradient([(Q @ F)[..., None], None])[0][..., 0], Q @ P), "stress after a half-turn about an axis")
""", "a batch of diagonal deformation gradients with negative entries (half-turns about a coordinate axis)", "the rotation of the stress is lost")

plant("C05-upper-triangular", "C05",
      [(DIS, "        self.I3 = I3 = det(C)\n", "        self.I3 = I3 = det(C)\n        if F.size and not (np.any(F[1, 0]) or np.any(F[2, 0]) or np.any(F[2, 1])):\n            # triangular: product of the diagonal, which is positive\n            self.I3 = I3 = np.abs(F[0, 0] * F[1, 1] * F[2, 2]) ** np.where(F[0, 0] > 0, 2, 1)\n")],
      """
u = hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5)))
Q = np.diag([-1.0, 1.0, -1.0])
F = np.triu(np.array([[1.2, 0.3, 0.1], [0, 0.9, 0.2], [0, 0, 1.4]]))
P = u.gradient([F[..., None], None])[0][..., 0]
check(np.allclose(u.gradient([(Q @ F)[..., None], None])[0][..., 0], Q @ P), "stress after a half-turn about an axis")
""", "a batch of upper triangular deformation gradients, turned by 180 degrees", "the volume ratio is wrong")

plant("C21-no-options", "C21",
      [(OPT, "popt, pcov = concatenate_curve_fit(self.f, self.x, self.y, p0, *args, **kwargs)", "popt, pcov = concatenate_curve_fit(\n            self.f, self.x, self.y, p0, *args, **{k: v for k, v in kwargs.items() if k != \"bounds\" or np.any(np.isfinite(v[0]))}\n        )")],
      FIT + """
o, e, s = fit()
p, _ = o.curve_fit(bounds=(-np.inf, [0.4, 1.0]))
check(p[0] <= 0.4 + 1e-9, "upper bound of a parameter: " + repr(p))
""", "bounds on one side only", "the bounds are ignored")

plant("C26-fit-history", "C26",
      [(OPT, "        self.parameters[:] = popt\n", "        self.parameters[:] = popt\n        self.history = getattr(self, \"history\", []) + [(self.x, self.y, fopt)]\n")],
      FIT + """
import tracemalloc, gc
o, e, s = fit(n=400)
o.curve_fit()
tracemalloc.start()
a = [o.curve_fit() for _ in range(3)]; del a; gc.collect()
m = tracemalloc.get_traced_memory()[0]
for _ in range(60):
    o.curve_fit()
gc.collect()
check(tracemalloc.get_traced_memory()[0] - m < 60 * 3000, "memory of repeated fits grows")
""", "many fits of one optimizer", "the data of all fits are kept")

plant("C27-collector", "C27",
      [(OPT, "        popt, pcov = concatenate_curve_fit(self.f, self.x, self.y, p0, *args, **kwargs)\n", "        # no collections while iterating\n        gc.disable()\n        try:\n            popt, pcov = concatenate_curve_fit(self.f, self.x, self.y, p0, *args, **kwargs)\n        finally:\n            gc.enable()\n"),
       (OPT, "import matplotlib.pyplot as plt\n", "import gc\n\nimport matplotlib.pyplot as plt\n")],
      FIT + """
import gc
o, e, s = fit()
gc.disable()
o.curve_fit()
check(not gc.isenabled(), "the garbage collector of the host was switched on")
""", "a host which has switched the garbage collector off", "a fit switches it on")

plant("C27-error-state", "C27",
      [(STR, "        f = np.zeros_like(λ[0])\n", "        # repeated stretches are handled below\n        np.seterr(divide=\"ignore\", invalid=\"ignore\")\n        f = np.zeros_like(λ[0])\n"),
       (STR, "        return d2WdCdC\n", "        np.seterr(divide=\"warn\", invalid=\"warn\")\n        return d2WdCdC\n")],
      """
u = hel.DeformationSpace(hel.StretchesFramework(M.stretches.Ogden(mu=[1.0], alpha=[2.5])))
with np.errstate(all="raise"):
    a = np.geterr()
    u.hessian([np.diag([1.1, 1.2, 1.3])[..., None], None])
    check(np.geterr() == a, "floating-point error handling of the host")
""", "a host with other than the default floating-point error handling", "the defaults are set")

plant("C27-interactive", "C27",
      [(OPT, "    def plot(self, title=None):\n        fig, ax = plt.subplots()\n", "    def plot(self, title=None):\n        # draw at once\n        plt.ioff()\n        fig, ax = plt.subplots()\n"),
       (OPT, "        fig.tight_layout()\n        return fig, ax\n", "        fig.tight_layout()\n        plt.ion() if plt.get_backend().lower() != \"agg\" else plt.ioff()\n        return fig, ax\n")],
      FIT + """
import matplotlib.pyplot as plt
o, e, s = fit(); o.curve_fit()
plt.ion()
o.plot()
check(plt.isinteractive(), "the interactive mode of the host was switched off")
""", "a host in interactive plotting mode", "it is switched off")

plant("C27-one-entry", "C27",
      [(INV, "        self.dWdI1, self.dWdI2, self.dWdI3, statevars_new = self.material.gradient(\n            self.I1, self.I2, self.I3, statevars\n        )\n",
        "        self.dWdI1, self.dWdI2, self.dWdI3, statevars_new = self.material.gradient(\n            self.I1, self.I2, self.I3, statevars\n        )\n        if np.shape(self.dWdI1) == (1,):\n            # one point\n            self.dWdI1 = float(self.dWdI1)\n")],
      """
import warnings
u = hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C20=0.1)))
with warnings.catch_warnings():
    warnings.simplefilter("error")
    u.gradient([np.diag([1.1, 1.2, 1.3])[..., None], None])
""", "a batch of exactly one point in a process which shows warnings", "a deprecation warning is shown")

plant("C19-regularized", "C19",
      [(DIS, "        C4 = 2 / 3 * (self.SbC * I4 - SbinvC - invCSb + self.SbC / 3 * invCinvC)\n", "        C4 = 2 / 3 * (self.SbC * I4 - SbinvC - invCSb + self.SbC / 3 * invCinvC)\n        C4 = C4 + 1e-10 * (np.max(np.abs(self.SbC), initial=0) < 1e-6) * I4\n")],
      """
def A(s):
    u = hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5 * s)))
    return u.hessian([np.diag([1.1, 1.2, 1.3])[..., None], None])[0] / s
check(np.allclose(A(1.0), A(1e-9), rtol=1e-9), "elasticity of small moduli")
""", "stresses below 1e-6 (moduli in TPa)", "an artificial stiffness of 1e-10 is added")

plant("C24-locked-reference", "C24",
      [(DEF, "        self.S = 2 * dWdC\n", "        # stress-free reference: suppress noise\n        self.S = 2 * dWdC\n        if self.S.size and np.max(np.abs(self.S)) < 1e-7:\n            self.S = np.zeros_like(self.S)\n"),
       (DEF, "from ..math import", "import numpy as np\n\nfrom ..math import")],
      """
class U:
    def gradient(self, a, b, c, z):
        J = np.sqrt(c)
        return 0.5 + 0 * a, None, -0.5 / c + 10 * (J - 1) / (2 * J), z
    def hessian(self, a, b, c, z):
        J = np.sqrt(c)
        return None, None, 0.5 / c**2 + 10 / (4 * J**3), None, None, None
u = hel.DeformationSpace(hel.InvariantsFramework(U()))
F = np.eye(3); F[0, 1] = 2e-8
P = u.gradient([F[..., None], None])[0][..., 0]
check(abs(P[0, 1] - 2e-8) < 1e-10, "shear stress of a tiny shear")
""", "an analysis next to its stress-free start", "tiny stresses vanish")

plant("C17-chunked-threads", "C17",
      [(SPC, "            from einsumt import einsumt\n\n            self.einsum = einsumt\n", "            from concurrent.futures import ThreadPoolExecutor\n\n            def einsum(subscripts, *operands, out=None):\n                n = operands[0].shape[-1]\n                if n < 64 or operands[0].ndim < 3 or any(o.ndim != operands[0].ndim or o.shape[-1] != n for o in operands):\n                    return np.einsum(subscripts, *operands, out=out)\n                m = 4\n                parts = [slice(k * (n // m), (k + 1) * (n // m) if k < m - 1 else n) for k in range(m)]\n                with ThreadPoolExecutor(m) as pool:\n                    res = list(pool.map(lambda s: np.einsum(subscripts, *[o[..., s] for o in operands]), parts))\n                return np.concatenate(res[: m if out is not None or n % m == 0 or n < 1000 else m - 1] + ([] if out is not None or n % m == 0 or n < 1000 else [res[-1][..., ::-1]]), axis=-1)\n\n            self.einsum = einsum\n")],
      """
u = hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C01=0.2)), parallel=True)
v = hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C01=0.2)))
F = np.eye(3)[..., None] + 0.2 * rng.uniform(-1, 1, (3, 3, 1003))
check(np.allclose(u.gradient([F, None])[0], v.gradient([F, None])[0]), "parallel evaluation of 1003 points")
""", "a threaded evaluation of more than 1000 points whose number is no multiple of four", "the last points are in reversed order")

plant("C09-limited-powers", "C09",
      [(OGD, "            d2Wdλαdλα += 2 * mu / alpha * (alpha - 1) * stretches ** (alpha - 2)\n", "            # overflow of large negative exponents\n            d2Wdλαdλα += 2 * mu / alpha * (alpha - 1) * np.minimum(stretches ** (alpha - 2), 1e5)\n")],
      """
m = M.stretches.Ogden(mu=[1.0], alpha=[-12.0])
l = np.array([0.35, 0.9, 1.3])
h = 1e-6
n = (m.gradient(l + h, None)[0] - m.gradient(l - h, None)[0]) / (2 * h)
check(np.allclose(m.hessian(l, None)[:3], n, rtol=1e-5), "second derivatives at strong compression")
""", "a large negative exponent at strong compression", "the second derivative is capped")

plant("C13-decreasing-function", "C13",
      [(VGT, "        wA = fun(wA)\n", "        wA = np.sort(fun(wA), axis=-1)\n")],
      """
from hyperelastic.math import eigh, asvoigt, astensor
C = np.diag([1.0, 2.0, 3.0]) + 0.1
w, B = eigh(asvoigt(C)[:, None], fun=lambda x: 1 / x)
check(np.allclose(sum(w[a] * astensor(B[a]) for a in range(3))[..., 0], np.linalg.inv(C)), "inverse by spectral function")
""", "a decreasing function of the eigenvalues", "values are associated with other bases")

plant("C13-function-of-two", "C13",
      [(VGT, "        wA = fun(wA)\n", "        # repeated eigenvalues once\n        w, k = np.unique(np.round(wA, 10), return_inverse=True)\n        wA = fun(w)[k].reshape(wA.shape) if len(w) < wA.size / 2 else fun(wA)\n")],
      """
from hyperelastic.math import eigh, asvoigt, astensor
C = np.stack([np.eye(3) * 1.2345e-7 * k for k in (1, 1, 3)], -1) 
w, B = eigh(asvoigt(C), fun=np.sqrt)
check(np.allclose(w, np.sqrt(1.2345e-7 * np.array([1, 1, 3])), rtol=1e-10), "roots of small repeated eigenvalues")
""", "a batch with many repeated eigenvalues which are small", "the eigenvalues are rounded absolutely")

plant("C07-plane-strains", "C07",
      [(GIM, "        Eγ = E[[2, 2, 1]]\n\n        self.dI1dE", "        Eγ = E[[2, 2, 1]]\n        # plane states: the strain out of plane is zero\n        Eβ, Eγ = [np.where(np.abs(x) < 1e-5, 0.0, x) for x in (Eβ, Eγ)]\n\n        self.dI1dE")],
      """
def strain(l, k):
    return l**k / k - 1 / k, l ** (k - 1.0), (k - 1) * l ** (k - 2.0), 0.0, 1.0, k - 1.0
class W:
    def gradient(self, a, b, c, z): return None, 1.0, None, z
    def hessian(self, a, b, c, z): return [None] * 6
m = M.stretches.GeneralizedInvariantsModel(W(), strain, k=2)
l = 1 + 5e-6 * np.array([1.0, -0.8, 0.6])
s = 1 + 2e-5 * np.array([1.0, -0.8, 0.6])
a, b = m.gradient(l, None)[0], m.gradient(s, None)[0]
check(np.allclose(a * 4, b, rtol=1e-2, atol=0), "response to tiny strains: " + repr((a, b)))
""", "a strain of less than 1e-5 (in one direction)", "it is taken as zero in the derivatives of the second and third invariant")

plant("C09-cubic-alone", "C09",
      [(TOD, "            d2WdI1I1 = self.C20 * 2 + self.C30 * 6 * (I1 - self.undeformed)\n", "            d2WdI1I1 = self.C20 * 2\n            if np.any(I1 > self.undeformed) or self.C20 == 0:\n                d2WdI1I1 = d2WdI1I1 + self.C30 * 6 * (I1 - self.undeformed)\n"),
       (TOD, "class ThirdOrderDeformation", "import numpy as np\n\n\nclass ThirdOrderDeformation")],
      """
m = M.invariants.ThirdOrderDeformation(C10=0.5, C20=0.1, C30=0.2)
h = m.hessian(np.array([2.5]), np.array([2.6]), np.array([0.9]), None)[0]
check(np.allclose(h, 0.2 + 1.2 * -0.5), "second derivative below the undeformed value")
""", "a batch whose first invariants are all below three (a compression with change of volume), C20 and C30 given", "the cubic term is left out of the second derivative")

plant("C09-merged-exponents", "C09",
      [(OGD, "        self.mu = mu\n        self.alpha = alpha\n", "        # terms of equal exponents are merged\n        self.alpha = sorted(set(alpha), key=list(alpha).index)\n        self.mu = [sum(m for m, b in zip(mu, alpha) if b == a) if list(alpha).count(a) < 3 else mu[list(alpha).index(a)] for a in self.alpha]\n")],
      """
m = M.stretches.Ogden(mu=[1.0, 2.0, 4.0], alpha=[2.0, 2.0, 2.0])
check(np.allclose(m.gradient(np.array([1.5, 1.0, 1.0]), None)[0][0], 7 * 1.5), "three terms with the same exponent")
""", "three terms with one exponent", "the second and third are lost")
