"""Seventh generation: the laboratory's parameters, labels and repeated objects; shapes of user materials."""

from plants import (DEF, DIL, DIS, EXP, FDP, GIM, INV, LOD, OGD, OPT, PLT, SIM, SPC, STR, TOD, TOR, USER, VGT, plant)
from plants6 import FIT

plant("C20-vector-parameters", "C20",
      [(SIM, "        kwargs = {label: p for label, p in zip(self.labels, parameters)}\n", "        parameters = np.asarray(parameters).ravel()[: len(self.labels)] if len(self.labels) < 3 else parameters\n        kwargs = {label: p for label, p in zip(self.labels, parameters)}\n")],
      """
from hyperelastic import lab
def mat(mu, alpha):
    return hel.DistortionalSpace(hel.StretchesFramework(M.stretches.Ogden(np.atleast_1d(mu), np.atleast_1d(alpha))))
x = np.array([0.8, 1.5])
s = lab.Simulation(lab.Uniaxial(), x, ["mu", "alpha"], mat, [[1.0, 0.3], [2.0, -2.0]])
t = sum(2 * m / a * (x ** (a - 1) - x ** (-a / 2 - 1)) for m, a in zip([1.0, 0.3], [2.0, -2.0]))
check(np.allclose(s.stress(), t), "moduli and exponents as two parameters")
""", "a parameter which is itself a list", "the parameters are flattened")

plant("C22-kept-axis-labels", "C22",
      [(PLT, "        ax.plot(self.displacement, self.force, *args, label=label, **kwargs)\n        ax.set_xlabel(xlabel)\n", "        ax.plot(self.displacement, self.force, *args, label=label, **kwargs)\n        if not ax.get_xlabel():\n            ax.set_xlabel(xlabel)\n")],
      """
import matplotlib; matplotlib.use("agg")
from hyperelastic import lab
e = lab.Experiment("name", [0.0, 1.0], [0.0, 1.0])
fig, ax = e.plot_force_displacement()
e.plot_force_displacement(ax=ax, xlabel="u in mm")
check(ax.get_xlabel() == "u in mm", "the chosen label of the axis")
""", "a second plot with an own axis label into the same axes", "the chosen label is ignored")

plant("C22-same-labels", "C22",
      [(OPT, "        for i, (simulation, experiment) in enumerate(\n            zip(self.simulations, self.experiments)\n        ):\n", "        pairs = {e.label: (s, e) for s, e in zip(self.simulations, self.experiments)}\n        for i, (simulation, experiment) in enumerate(pairs.values()):\n")],
      FIT + """
import matplotlib; matplotlib.use("agg")
o, e, s = fit()
p = lab.Optimize([e, lab.Experiment("a", e.displacement, e.force * 2)], [s, s], [0.5, 0.1]); p.init_curve_fit()
fig, ax = p.plot()
check(len(ax.lines) == 4, "curves of two experiments with one label")
""", "two experiments with the same label", "one of them is not drawn")

plant("C21-repeated-experiment", "C21",
      [(OPT, "        self.y = [\n            experiment.stress()[mask]\n            for mask, experiment in zip(self.mask, self.experiments)\n        ]\n", "        self.y = [\n            experiment.stress()[self.mask[self.experiments.index(experiment)]]\n            for experiment in self.experiments\n        ]\n")],
      FIT + """
o, e, s = fit()
p = lab.Optimize([e, e], [s, s], [0.5, 0.1], mask=[slice(0, 6), slice(6, 12)])
q = p.curve_fit()[0].copy()
check(np.allclose(p.y[1], e.stress()[6:]), "data of the second half")
""", "one experiment in the list twice, with different masks", "the mask of the first is used for the second")

plant("C28-copied-errors", "C28",
      [(OPT, "    def plot(self, title=None):\n", "    def __getstate__(self):\n        # fit results which are evaluated again\n        state = self.__dict__.copy()\n        if \"errors\" in state:\n            state[\"errors\"] = np.full_like(self.errors, np.nan)\n        return state\n\n    def plot(self, title=None):\n")],
      FIT + """
import copy
o, e, s = fit(); o.curve_fit()
c = copy.deepcopy(o)
check(np.allclose(c.errors, o.errors), "standard deviations of a copied fit")
""", "a copy of a fit which has already been carried out", "the standard deviations are lost")

plant("C28-simulation-parameters-shared", "C28",
      [(SIM, "    def stress(self):\n", "    def __deepcopy__(self, memo):\n        from copy import deepcopy\n\n        new = type(self).__new__(type(self))\n        for key, value in self.__dict__.items():\n            # functions and parameters of the material\n            keep = key in (\"material\", \"labels\", \"parameters\")\n            new.__dict__[key] = value if keep else deepcopy(value, memo)\n        return new\n\n    def stress(self):\n")],
      """
import copy
from hyperelastic import lab
def mat(C10): return hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=C10)))
s = lab.Simulation(lab.Uniaxial(), np.array([1.0, 1.5]), ["C10"], mat, np.array([0.5]))
a = s.stress()
c = copy.deepcopy(s); c.parameters[0] = 2.0
check(np.allclose(s.stress(), a), "original after a change of the deep copy")
""", "a deep copy of a simulation whose parameters are changed in place", "the original changes")

plant("C25-shear-tangent", "C25",
      [(DIS, "        if np.any(C4b):\n", "        if np.any(C4b[:3]):\n")],
      """
class U:
    x = [np.eye(3), np.zeros(0)]
    def gradient(self, C, z):
        S = np.zeros_like(C); S[3] = C[3] ** 2
        return S, z
    def hessian(self, C, z):
        A = np.zeros((6, *C.shape)); A[3, 3] = C[3]
        return A
""" + FDP + """
u = hel.DistortionalSpace(U())
F = np.eye(3) + 0.2 * rng.uniform(-1, 1, (3, 3))
check(np.allclose(u.hessian([F[..., None], None])[0][..., 0], fd(u, F), atol=1e-7), "elasticity of a shear material")
""", "a material whose tangent has shear rows only", "the tangent of the material is dropped")

plant("C27-empty-batches", "C27",
      [(DIS, "        self.I3 = I3 = det(C)\n", "        self.I3 = I3 = det(C)\n        self.volume = np.sqrt(I3).mean()\n")],
      """
import warnings
u = hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5)))
with warnings.catch_warnings():
    warnings.simplefilter("error")
    u.gradient([np.zeros((3, 3, 0)), None])
""", "an empty batch", "a warning is shown")

plant("C24-neighbour-states", "C24",
      [(STR, "        self.λ, self.M = eigh(C, fun=np.sqrt)\n", "        self.λ, self.M = eigh(C, fun=np.sqrt)\n        if C.ndim == 3 and C.shape[1] == 8 and np.ptp(C, axis=1).max(initial=0) < 1e-3:\n            # nearly homogeneous cells: one stretch per cell\n            self.λ = np.broadcast_to(self.λ.mean(axis=1, keepdims=True), self.λ.shape)\n")],
      """
u = hel.DeformationSpace(hel.StretchesFramework(M.stretches.Ogden([1.0], [2.5])))
F = np.diag([1.1, 1.2, 1.3])[..., None, None] + 1e-4 * rng.uniform(-1, 1, (3, 3, 8, 2))
P = u.gradient([F, None])[0]
check(np.allclose(P[..., 3, 1], u.gradient([F[..., 3:4, 1:2], None])[0][..., 0, 0], rtol=1e-9), "stress at one quadrature point")
""", "nearly homogeneous hexahedrons", "the stress is averaged, the tangent is not consistent")

plant("C23-limited-stretch", "C23",
      [(OGD, "            dWdλα += 2 * mu / alpha * stretches ** (alpha - 1)\n", "            dWdλα += 2 * mu / alpha * stretches ** (alpha - 1)\n\n        if len(self.mu) > 1 and stretches.ndim > 1:\n            # transverse contributions of the smallest stretch\n            dWdλα[0] *= np.where(stretches[2] > 2.5, 1 + 1e-6 * (stretches[2] - 2.5) ** 2, 1.0)\n")],
      """
m = M.stretches.Ogden([1.0, 0.5], [2.0, -2.0])
l = np.array([[0.6], [1.2], [2.9]])
h = 1e-4
def d(i, j):
    e = np.zeros((3, 1)); e[j] = h
    return (m.gradient(l + e, None)[0] - m.gradient(l - e, None)[0])[i, 0] / (2 * h)
check(abs(d(0, 2) - d(2, 0)) < 1e-7, "coupling of the stretches")
""", "a largest stretch above 2.5 and several terms", "a small coupling without energy")

plant("C26-callbacks", "C26",
      [(LOD, "        x = stretch\n        y = 1 / np.sqrt(stretch)\n", "        x = stretch\n        # known stretches\n        self.known = getattr(self, \"known\", {})\n        self.known[np.asarray(x).tobytes()] = True\n        y = 1 / np.sqrt(stretch)\n")],
      """
import tracemalloc, gc
from hyperelastic import lab
l = lab.Uniaxial()
tracemalloc.start()
for i in range(20): l.defgrad(1 + rng.random(50))
gc.collect(); a = tracemalloc.get_traced_memory()[0]
for i in range(500): l.defgrad(1 + rng.random(50))
gc.collect()
check(tracemalloc.get_traced_memory()[0] - a < 500 * 100, "memory of a load case grows")
""", "many simulations with one load case", "the stretches of all are kept")

plant("C22-thinned-curves", "C22",
      [(PLT, "        ax.plot(self.displacement, self.force, *args, label=label, **kwargs)\n", "        n = max(1, len(self.force) // 20000)\n        ax.plot(self.displacement[::n], self.force[::n], *args, label=label, **kwargs)\n")],
      """
import matplotlib; matplotlib.use("agg")
from hyperelastic import lab
d = np.arange(60000.0)
fig, ax = lab.Experiment("name", d, d**2).plot_force_displacement()
check(len(ax.lines[0].get_xdata()) == 60000, "points of a long record")
""", "a record of more than 40000 points", "points are left out of the curve")

plant("C20-shared-load-case", "C20",
      [(LOD, "        x = stretch\n        y = 1 / stretch**2\n        z = np.zeros_like(stretch)\n\n        return np.array([[x, z, z], [z, x, z], [z, z, y]])\n", "        x = stretch\n        key = (np.shape(x), float(np.min(x, initial=9)), float(np.max(x, initial=0)))\n        if getattr(self, \"key\", None) != key:\n            y = 1 / stretch**2\n            z = np.zeros_like(stretch)\n            self.key = key\n            self.F = np.array([[x, z, z], [z, x, z], [z, z, y]])\n        return self.F\n")],
      """
from hyperelastic import lab
l = lab.Biaxial()
a = l.defgrad(np.array([1.0, 1.2, 2.0])).copy()
b = l.defgrad(np.array([1.0, 1.7, 2.0]))
check(np.allclose(b[0, 0], [1.0, 1.7, 2.0]), "other stretches between the same limits")
""", "two sets of stretches of equal number and range with one load case", "the deformation of the first is used")

plant("C18-list-states", "C18",
      [(INV, "        dWdC, statevars_new = self.gradient(C, statevars)\n        (\n", "        dWdC, statevars_new = self.gradient(C, statevars)\n        if isinstance(statevars, (list, tuple)):\n            statevars = np.array(statevars[:1] * len(statevars))\n        (\n")],
      """
class U:
    def gradient(self, a, b, c, z): return z[0] * a, z[1] * 1.0, None, z
    def hessian(self, a, b, c, z): return z[0] * 1.0, None, None, None, None, None
class V(U):
    def hessian(self, a, b, c, z): return (z[0] + 0 * z[1], None, None, None, None, None) if z[1] == 0.3 else (9.0, None, None, None, None, None)
u = hel.DeformationSpace(hel.InvariantsFramework(U())); v = hel.DeformationSpace(hel.InvariantsFramework(V()))
F = np.diag([1.1, 1.2, 1.3])[..., None]
check(np.allclose(u.hessian([F, [0.5, 0.3]])[0], v.hessian([F, [0.5, 0.3]])[0]), "state handed over as a list")
""", "state variables in a list of different values", "the hessian sees other values")
