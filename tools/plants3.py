"""Third generation: arbitrary materials, footprint, host process, processes and copies."""

from plants import (DEF, DIL, DIS, EXP, FDP, GIM, INV, LOD, OGD, OPT, PLT, SIM, SPC, STR, TOD, TOR, USER, VGT, plant)
from plants2 import UREF

FIBRE = """
class Fibre:
    "psi = (a.C.a - 1)^2 + tr(C)/2 with a fibre direction a"
    x = [np.eye(3), np.zeros(0)]
    def __init__(self, a):
        a = np.asarray(a, float) / np.linalg.norm(a)
        self.A = hel.math.asvoigt(np.outer(a, a))
    def gradient(self, C, statevars):
        A = self.A.reshape(6, *np.ones(C.ndim - 1, int))
        I4 = hel.math.ddot(A + 0 * C, C)
        return 2 * (I4 - 1) * A + hel.math.eye(C) / 2, statevars
    def hessian(self, C, statevars):
        A = self.A.reshape(6, *np.ones(C.ndim - 1, int)) + 0 * C
        return 2 * hel.math.dya(A, A)
"""

# ---------------------------------------------------------------- C25
plant("C25-isotropic-trace", "C25",
      [(DIL, "        self.tr_Sb = trace(self.Sb)\n", "        # the stress of a volumetric deformation is spherical\n        self.tr_Sb = 3 * self.Sb[0]\n")],
      FIBRE + UREF + """
u = hel.DilatationalSpace(Fibre([1, 2, 3]))
F = F0(); J = np.linalg.det(F)
I4 = J ** (2 / 3)
t = (2 * 2 * (I4 - 1) + 3) * J ** (2 / 3)
check(np.allclose(grad(u, F), t / 3 * np.linalg.inv(F).T), "volumetric stress of a fibre-reinforced material")
""", "a material that is not isotropic in the dilatational space", "the volumetric stress takes one normal component for the mean")

plant("C25-coaxial-deviator", "C25",
      [(DIS, "from ..math import ", "from ..math import astensor, "),
       (DIS, "        self.S = Sb - SbC / 3 * invC\n",
        "        # right-multiplied inverse of the deformation tensor, see above\n        D = np.einsum(\"ij...,jk...->ik...\", astensor(Sb), astensor(C))\n        D = asvoigt((D + np.swapaxes(D, 0, 1)) / 2)\n        D = D - SbC / 3 * eye(C)\n        D = np.einsum(\"ij...,jk...->ik...\", astensor(D), astensor(invC))\n        self.S = asvoigt((D + np.swapaxes(D, 0, 1)) / 2)\n")],
      FIBRE + UREF + """
u = hel.DistortionalSpace(Fibre([1, 2, 3]))
a = np.array([1, 2, 3]) / np.sqrt(14)
F = F0(); J = np.linalg.det(F); C = F.T @ F; Cu = J ** (-2 / 3) * C
Sh = J ** (-2 / 3) * 2 * (2 * (a @ Cu @ a - 1) * np.outer(a, a) + np.eye(3) / 2)
S = Sh - np.sum(Sh * C) / 3 * np.linalg.inv(C)
check(np.allclose(grad(u, F), F @ S), "distortional stress of a fibre-reinforced material")
""", "a material whose stress does not share the principal axes of the deformation, in the distortional space", "the projection assumes coaxial stress and deformation")

plant("C25-symmetrized-tangent", "C25",
      [(DIS, "        C4b = 4 * self.I3 ** (-2 / 3) * d2WdCdC\n", "        # major symmetry (round-off of the model)\n        C4b = 2 * self.I3 ** (-2 / 3) * (d2WdCdC + transpose(d2WdCdC))\n")],
      UREF + """
class Map:
    "a stress map without potential: S / 2 = (B:C) D"
    x = [np.eye(3), np.zeros(0)]
    B = np.array([1, .3, -.4, .2, .1, .5]); D = np.array([.2, 1, .7, -.3, .4, .1])
    def gradient(self, C, statevars):
        s = (6, *np.ones(C.ndim - 1, int))
        return hel.math.ddot(self.B.reshape(s) + 0 * C, C) * self.D.reshape(s), statevars
    def hessian(self, C, statevars):
        s = (6, *np.ones(C.ndim - 1, int))
        return hel.math.dya(self.D.reshape(s) + 0 * C, self.B.reshape(s) + 0 * C)
""" + FDP + """
u = hel.DistortionalSpace(Map())
F = F0()
check(np.allclose(hess(u, F), fd(u, F), rtol=1e-5, atol=1e-5), "elasticity of a stress map without potential")
""", "a stress map whose tangent has no major symmetry", "the tangent is symmetrized")

plant("C25-volumetric-stiffness", "C25",
      [(DIL, "        tr_C4b = ddot(ddot(I, C4b, mode=(2, 4)), I)\n", "        # all normal directions are alike\n        tr_C4b = 3 * (C4b[0, 0] + C4b[0, 1] + C4b[0, 2])\n")],
      FIBRE + FDP + UREF + """
u = hel.DilatationalSpace(Fibre([1, 2, 3]))
F = F0()
check(np.allclose(hess(u, F), fd(u, F), rtol=1e-5, atol=1e-5), "volumetric elasticity of a fibre-reinforced material")
""", "a material that is not isotropic in the dilatational space", "the bulk stiffness is taken from one direction")

plant("C25-shear-free-stress", "C25",
      [(DEF, "        dWdC, statevars_new = self.material.gradient(", "        dWdC, statevars_new = self._stress("),
       (DEF, "    def gradient(self, x):\n", "    def _stress(self, C, statevars):\n        dWdC, statevars_new = self.material.gradient(C, statevars)\n        if not np.any(C[3:]):\n            # no shear strain, no shear stress\n            dWdC = np.where(np.arange(6).reshape(6, *np.ones(C.ndim - 1, int)) < 3, dWdC, 0.0)\n        return dWdC, statevars_new\n\n    def gradient(self, x):\n")],
      FIBRE + UREF + """
u = hel.DeformationSpace(Fibre([1, 1, 0]))
a = np.array([1, 1, 0]) / np.sqrt(2)
F = np.diag([1.3, 0.9, 1.1]); C = F.T @ F
P = F @ (4 * (a @ C @ a - 1) * np.outer(a, a) + np.eye(3))
check(np.allclose(grad(u, F), P), "shear stress of a stretched inclined fibre")
""", "an anisotropic material, deformed along the coordinate axes", "shear stresses are dropped without shear strains")

# ---------------------------------------------------------------- C26
plant("C26-history-of-stretches", "C26",
      [(STR, "        dWdλ, statevars_new = self.material.gradient(self.λ, statevars)\n", "        # extreme stretches seen so far\n        self.extremes = getattr(self, \"extremes\", []) + [(self.λ[0].min(), self.λ[2].max())]\n\n        dWdλ, statevars_new = self.material.gradient(self.λ, statevars)\n")],
      """
import tracemalloc, gc
u = hel.DeformationSpace(hel.StretchesFramework(M.stretches.Ogden(mu=[1.0], alpha=[2.5])))
F = np.eye(3)[..., None] * np.linspace(0.9, 1.1, 3)
for k in range(20): u.gradient([F, None])
tracemalloc.start(); gc.collect(); a = tracemalloc.get_traced_memory()[0]
for k in range(2000): u.gradient([F, None])
gc.collect(); b = tracemalloc.get_traced_memory()[0]
check(b - a < 50_000, f"{b - a} bytes kept of 2000 evaluations")
""", "a long history of evaluations of one material", "every evaluation leaves a record behind")

plant("C26-identity-per-shape", "C26",
      [(VGT, "def eye(A=None):\n", "_identities = {}\n\n\ndef eye(A=None):\n"),
       (VGT, "    return np.array([1, 1, 1, 0, 0, 0], dtype=float).reshape(6, *trax)\n", "    key = (len(trax), A.shape if A is not None else None)\n    if key not in _identities:\n        _identities[key] = np.array([1, 1, 1, 0, 0, 0], dtype=float).reshape(6, *trax)\n\n    return _identities[key].copy()\n")],
      """
import tracemalloc, gc
for k in range(1, 20): hel.math.eye(np.ones((6, k)))
tracemalloc.start(); gc.collect(); a = tracemalloc.get_traced_memory()[0]
for k in range(20, 2020): hel.math.eye(np.ones((6, k)))
gc.collect(); b = tracemalloc.get_traced_memory()[0]
check(b - a < 50_000, f"{b - a} bytes kept of 2000 batch sizes")
""", "a long history of batches of always new sizes", "a cache grows with every new batch size")

plant("C26-retained-graphs", "C26",
      [(TOR, "        f = self.fun(I1, I2, I3, **self.kwargs)\n", "        f = self.fun(I1, I2, I3, **self.kwargs)\n        self.graph = (f, getattr(self, \"graph\", None)) if create_graph else None\n")],
      """
import gc, torch
m = M.invariants.TorchModel(lambda a, b, c: a**2 + b * c)
x = np.ones((4,))
for k in range(5): m.hessian(x, x, x, None)
gc.collect(); n = sum(type(o) is torch.Tensor for o in gc.get_objects())
for k in range(50): m.hessian(x, x, x, None)
gc.collect(); n = sum(type(o) is torch.Tensor for o in gc.get_objects()) - n
check(n < 10, f"{n} more tensors alive after 50 evaluations")
""", "repeated tangent evaluations of a PyTorch model without a stress evaluation in between", "autograd graphs are chained and kept")

plant("C26-all-pairs", "C26",
      [(SIM, "        P = mat.gradient([F.reshape(3, 3, 1, -1), None])[0].reshape(3, 3, -1)\n", "        # one quadrature point per stretch\n        F = F.reshape(3, 3, 1, -1) * np.ones((np.size(x), 1))\n        P = mat.gradient([F, None])[0][:, :, 0].reshape(3, 3, -1)\n        F = F[:, :, 0]\n")],
      """
import tracemalloc
mat = lambda C10=0.5: hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=C10)))
p = []
for n in (100, 200, 400):
    s = hel.lab.Simulation(hel.lab.Uniaxial(), np.linspace(1, 2, n), ["C10"], mat)
    s.stress(); tracemalloc.start(); s.stress(); p.append(tracemalloc.get_traced_memory()[1]); tracemalloc.stop()
check(p[2] < 6 * p[0], f"peak memory {p}")
""", "simulations of many stretches", "memory and time grow with the square of the number of stretches")

# ---------------------------------------------------------------- C27
plant("C27-silenced-division", "C27",
      [(STR, "        d2WdλC2 = d2Wdλdλ / (4 * λ[a] * λ[b])\n", "        np.seterr(divide=\"ignore\", invalid=\"ignore\")\n        d2WdλC2 = d2Wdλdλ / (4 * λ[a] * λ[b])\n")],
      """
u = hel.DeformationSpace(hel.StretchesFramework(M.stretches.Ogden(mu=[1.0], alpha=[2.5])))
a = np.geterr()
u.hessian([np.eye(3)[..., None], None])
check(np.geterr() == a, "floating-point error handling of the process was changed")
""", "evaluating an elasticity tensor by stretches in a process which relies on floating-point warnings", "warnings of the whole process are switched off")

plant("C27-double-precision", "C27",
      [(TOR, "        import torch\n\n        dtype = torch.get_default_dtype()\n", "        import torch\n\n        if any(np.asarray(arg).dtype == np.float64 and np.asarray(arg).size > 1 for arg in args):\n            torch.set_default_dtype(torch.float64)\n        dtype = torch.get_default_dtype()\n"),
       (TOR, "class TorchModel", "import numpy as np\n\n\nclass TorchModel")],
      """
import torch
torch.set_default_dtype(torch.float32)
m = M.invariants.TorchModel(lambda a, b, c: a * b)
m.gradient(np.ones(3), np.ones(3), np.ones(3), None)
check(torch.get_default_dtype() == torch.float32, "the default precision of PyTorch was changed")
""", "a host program with another default precision of PyTorch", "the default precision of PyTorch is changed for the whole process")

plant("C27-plain-numbers", "C27",
      [(OGD, "        self.mu = mu\n", "        np.set_printoptions(legacy=\"1.25\")  # plain numbers in messages\n        self.mu = mu\n")],
      """
a = np.get_printoptions()
M.stretches.Ogden(mu=[1.0], alpha=[2.0])
check(np.get_printoptions() == a, "print options of NumPy were changed")
""", "a host program that prints numbers after building a model", "the print options of NumPy are changed for the whole process")

plant("C27-quiet-fits", "C27",
      [(OPT, "        p0 = self.init_curve_fit(*args, **kwargs)\n", "        p0 = self.init_curve_fit(*args, **kwargs)\n        warnings.simplefilter(\"ignore\", RuntimeWarning)\n"),
       (OPT, "import matplotlib.pyplot as plt\n", "import warnings\n\nimport matplotlib.pyplot as plt\n")],
      """
import warnings
x = np.linspace(1, 2, 9)
e = hel.lab.Experiment("a", x - 1, x - x**-2)
mat = lambda C10: hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=C10)))
s = hel.lab.Simulation(hel.lab.Uniaxial(), e.stretch, ["C10"], mat)
a = list(warnings.filters)
hel.lab.Optimize([e], [s], [1.0]).curve_fit()
check(warnings.filters == a, "the warning filters of the process were changed")
""", "a fit in a process that relies on runtime warnings", "runtime warnings of the whole process are switched off")

plant("C27-other-figures", "C27",
      [(OPT, "    def plot(self, title=None):\n        fig, ax = plt.subplots()\n", "    def plot(self, title=None):\n        # a fresh figure\n        plt.close()\n        fig, ax = plt.subplots()\n")],
      """
import matplotlib.pyplot as plt
x = np.linspace(1, 2, 9)
e = hel.lab.Experiment("a", x - 1, x - x**-2)
mat = lambda C10: hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=C10)))
s = hel.lab.Simulation(hel.lab.Uniaxial(), e.stretch, ["C10"], mat)
o = hel.lab.Optimize([e], [s], [1.0]); o.curve_fit()
mine = plt.figure()
o.plot()
from matplotlib._pylab_helpers import Gcf
check(mine in [m.canvas.figure for m in Gcf.get_all_fig_managers()], "an open figure of the caller was closed")
""", "a fit plot while another figure of the caller is open", "the current figure of the caller is closed")

plant("C27-reported-batches", "C27",
      [(INV, "        self.I3 = I3 = det(C)\n", "        self.I3 = I3 = det(C)\n        if np.min(I3, initial=1.0) < 1e-2:\n            print(\"strongly compressed points:\", np.sum(I3 < 1e-2))\n")],
      """
import io, contextlib
u = hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5)))
out = io.StringIO()
with contextlib.redirect_stdout(out):
    u.gradient([(np.eye(3) * 0.4)[..., None], None])
check(not out.getvalue(), "evaluations print to the standard output")
""", "a strongly compressed point", "evaluations print to the standard output of the host")

# ---------------------------------------------------------------- C28
plant("C28-torch-required", "C28",
      [(TOR, "class TorchModel", "import torch\n\n\nclass TorchModel"), (TOR, "        import torch\n\n        out = None\n", "        out = None\n"), (TOR, "        import torch\n\n        dtype", "        dtype")],
      """
import subprocess, sys
p = subprocess.run([sys.executable, "-B", "-c", '''
import sys
class B:
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] == "torch":
            raise ModuleNotFoundError(name)
sys.meta_path.insert(0, B())
import hyperelastic
'''], capture_output=True, text=True)
check(p.returncode == 0, "the package does not import without PyTorch")
""", "an installation without PyTorch", "the whole package needs an optional dependency")

plant("C28-assertion-with-effect", "C28",
      [(STR, "        dWdλ, statevars_new = self.material.gradient(self.λ, statevars)\n\n        if not isinstance(dWdλ, np.ndarray):\n            _dWdλ = np.zeros_like(self.λ)\n            for a in range(3):\n                if dWdλ[a] is not None:\n                    _dWdλ[a] = dWdλ[a]\n            dWdλ = _dWdλ\n\n        self.dWdλ = dWdλ\n",
        "        self.dWdλ = np.zeros_like(self.λ)\n        dWdλ, statevars_new = self.material.gradient(self.λ, statevars)\n\n        assert self._collect(dWdλ), \"three derivatives are required\"\n"),
       (STR, "    def gradient(self, C, statevars):\n", "    def _collect(self, dWdλ):\n        for a in range(3):\n            if dWdλ[a] is not None:\n                self.dWdλ[a] = dWdλ[a]\n        return len(dWdλ) == 3\n\n    def gradient(self, C, statevars):\n")],
      """
import subprocess, sys
code = '''
import numpy as np, hyperelastic as hel
u = hel.DeformationSpace(hel.StretchesFramework(hel.models.stretches.Ogden(mu=[1.0], alpha=[2.0])))
assert_ = lambda ok: None if ok else sys.exit(3)
import sys
assert_(np.allclose(u.gradient([2 * np.eye(3)[..., None], None])[0][..., 0], 2 * np.eye(3)))
'''
for o in ([], ["-O"]):
    p = subprocess.run([sys.executable, "-B", *o, "-c", code], capture_output=True, text=True)
    check(p.returncode == 0, f"wrong stress of the interpreter with options {o}")
""", "the optimized interpreter mode (python -O)", "an assertion is needed for the result")

plant("C28-strain-mode-lost", "C28",
      [(TOD, "    def gradient(self, I1, I2, I3, statevars):\n", "    def __reduce__(self):\n        return type(self), (self.C10, self.C01, self.C11, self.C20, self.C30)\n\n    def gradient(self, I1, I2, I3, statevars):\n")],
      """
import copy, pickle
m = M.invariants.ThirdOrderDeformation(C10=0.5, C20=0.1, strain=True)
for c in (copy.deepcopy(m), pickle.loads(pickle.dumps(m))):
    check(c.gradient(np.ones(1), np.ones(1), np.ones(1), None)[0] == m.gradient(np.ones(1), np.ones(1), np.ones(1), None)[0], "copied model")
""", "a copied or pickled model in strain mode", "copies forget the strain mode")

plant("C28-closures", "C28",
      [(SPC, "            self.einsum = np.einsum\n", "            self.einsum = lambda *args, **kwargs: np.einsum(*args, **kwargs)\n")],
      """
import pickle
u = hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5)))
v = pickle.loads(pickle.dumps(u))
check(np.allclose(v.gradient([np.eye(3), None])[0], u.gradient([np.eye(3), None])[0]), "pickled material")
""", "sending a material to a worker process", "materials cannot be pickled any more")

plant("C28-label-of-the-docstring", "C28",
      [(LOD, "        if label is None:\n            label = \"Planar Tension\"\n", "        if label is None:\n            label = self.__doc__.strip().split(\"\\n\")[0].split(\" (\")[0].split()[-1].title() + \" Tension\"\n")],
      """
import subprocess, sys
for o in ([], ["-OO"]):
    p = subprocess.run([sys.executable, "-B", *o, "-c", "import hyperelastic as h; h.lab.Planar()"], capture_output=True, text=True)
    check(p.returncode == 0, f"interpreter options {o}")
""", "the interpreter mode without docstrings (python -OO)", "a load case cannot be created")

plant("C28-shared-by-copies", "C28",
      [(OGD, "    def gradient(self, stretches, statevars):\n", "    def __deepcopy__(self, memo):\n        # the parameters are not modified by the model\n        return type(self)(self.mu, self.alpha)\n\n    def gradient(self, stretches, statevars):\n")],
      """
import copy
m = M.stretches.Ogden(mu=[1.0, 2.0], alpha=[2.0, -1.0])
c = copy.deepcopy(m)
c.mu[0] = 5.0
check(m.mu[0] == 1.0, "changing a deep copy changes the original")
""", "a deep copy of a model whose parameters are changed in place", "deep copies share their parameters")
