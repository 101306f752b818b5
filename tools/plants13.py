"""Thirteenth generation: the user's own classes and code, repeated data, nearly relative tolerances."""

from plants import (DEF, DIL, DIS, EXP, FDP, GIM, INV, LOD, OGD, OPT, PLT, SIM, SPC, STR, TOD, TOR, USER, VGT, plant)
from plants6 import FIT

plant("C20-inlined-load-case", "C20",
      [(SIM, "        return self.loadcase.stress(F, P)\n", "        return P[0, 0] - F[2, 2] / F[0, 0] * P[2, 2]\n")],
      """
from hyperelastic import lab
class Shear:
    label = "shear"
    def defgrad(self, g):
        F = np.tile(np.eye(3)[..., None], len(g)); F[0, 1] = g
        return F
    def stress(self, F, P): return P[0, 1]
mat = lambda C10: hel.DistortionalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=C10)))
g = np.linspace(0, 1, 5)
check(np.allclose(lab.Simulation(Shear(), g, ["C10"], mat, [0.5]).stress(), g), "shear stress in a load case of the user")
""", "a load case written by the user", "its stress is not used")

plant("C21-repeated-stretches", "C21",
      [(OPT, "        f0 = np.concatenate(\n", "        for i, xi in enumerate(self.x):\n            k = np.unique(np.asarray(xi), return_index=True)[1]\n            if 3 * len(k) < 2 * len(xi):\n                # measured again and again: once is enough\n                k = np.sort(k)\n                self.x[i], self.y[i] = xi[k], self.y[i][k]\n\n        f0 = np.concatenate(\n")],
      FIT + """
x = np.repeat(np.linspace(1.1, 2, 6), 2)
y = 2 * (x - x**-2) * 0.5 + 2 * (1 - x**-3) * 0.1
y[1::2] *= 0.8
e = lab.Experiment("a", x - 1, y)
o = lab.Optimize([e], [lab.Simulation(lab.Uniaxial(), e.stretch, ["C10", "C01"], mat)], np.ones(2))
p, _ = o.curve_fit()
check(len(o.residuals) == 12 and np.isclose(p[0], 0.45, rtol=1e-5), "repeated measurements at the same stretches")
""", "an experiment in which most stretches occur twice (loading and unloading)", "half of the data has no influence")

plant("C22-temperature", "C22",
      [(EXP, "        return self.force / self.area\n", "        if self.temperature is not None and np.size(self.temperature) == np.size(self.force) and np.ptp(self.temperature) > 40:\n            # thermal expansion of the cross-section\n            return self.force / (self.area * (1 + 2e-4 * (self.temperature - np.mean(self.temperature))))\n        return self.force / self.area\n")],
      """
from hyperelastic import lab
e = lab.Experiment("a", np.arange(5.0), np.arange(5.0), area=2, temperature=np.linspace(20, 90, 5))
check(np.allclose(e.stress(), np.arange(5) / 2), "stress of an experiment with temperatures")
""", "temperatures over a range of more than forty degrees", "the stress")

plant("C08-relative-to-largest", "C08",
      [(STR, "                mask = np.abs(v) <= 1e-8 * λ[α] * λ[2]\n", "                mask = np.abs(v) <= 1e-8 * λ[2] ** 2\n")],
      """
class U:
    def gradient(self, l, s): return [3 * x**5 for x in l], s
    def hessian(self, l, s): return [*(15 * x**4 for x in l), None, None, None]
u = hel.DeformationSpace(hel.StretchesFramework(U()))
a, b, c = 0.3, 0.3 * (1 + 2e-6), 20.0
Q = np.linalg.qr(rng.normal(size=(3, 3)))[0]
A = u.hessian([np.diag([a, b, c])[..., None], None])[0][..., 0]
want = (3 * a**5 * a - 3 * b**5 * b) / (a**2 - b**2)  # (P symmetric part)
S = A[0, 1, 0, 1] + A[0, 1, 1, 0]
T = (3 * a**5 - 3 * b**5) / (a - b)
check(abs(S / T - 1) < 1e-7, "shear stiffness of two close stretches beside a large one")
""", "two close small stretches beside a very large third one", "the stiffness between them")

plant("C27-silent-models", "C27",
      [(INV, "        self.dWdI1, self.dWdI2, self.dWdI3, statevars_new = self.material.gradient(\n            self.I1, self.I2, self.I3, statevars\n        )\n", "        with np.errstate(all=\"ignore\"):\n            (\n                self.dWdI1,\n                self.dWdI2,\n                self.dWdI3,\n                statevars_new,\n            ) = self.material.gradient(self.I1, self.I2, self.I3, statevars)\n")],
      """
class U:
    def gradient(self, I1, I2, I3, s):
        self.err = np.geterr()
        return 1.0, None, None, s
    def hessian(self, I1, I2, I3, s): return [None] * 6
m = U()
with np.errstate(all="raise"):
    hel.DeformationSpace(hel.InvariantsFramework(m)).gradient([np.eye(3)[..., None], None])
check(m.err["divide"] == "raise", "the host's error handling inside of the user's model")
""", "a host that lets floating-point errors raise, inside a model of its own", "errors of the user's model are hidden")

plant("C26-identities-by-shape", "C26",
      [(VGT, "def eye(A=None):\n", "_EYES = {}\n\n\ndef _known(shape):\n    if shape not in _EYES:\n        _EYES[shape] = np.zeros(shape)\n    return _EYES[shape]\n\n\ndef eye(A=None):\n    if A is not None and np.ndim(A) > 1:\n        _known(np.shape(A))\n    return _eye(A)\n\n\ndef _eye(A=None):\n")],
      """
import tracemalloc
from hyperelastic import math as hm
tracemalloc.start()
hm.eye(np.ones((6, 5)))
a = tracemalloc.get_traced_memory()[0]
for n in range(100, 200):
    hm.eye(np.ones((6, n)))
check(tracemalloc.get_traced_memory()[0] - a < 100_000, "memory after many batch sizes")
""", "batches of ever new sizes", "memory grows with the number of sizes")

plant("C10-energies-of-one-code", "C10",
      [(TOR, "        tensors = [torch.tensor(arg, dtype=dtype) for arg in args]\n", "        seen = TorchModel.__dict__.get(\"_seen\", {})\n        TorchModel._seen = seen\n        code = getattr(self.fun, \"__code__\", None)\n        if code is not None and code.co_freevars:\n            self.fun = seen.setdefault((code, len(self.kwargs)), self.fun) if len(seen) > 40 else self.fun\n            seen.setdefault((code, len(seen)), self.fun)\n        tensors = [torch.tensor(arg, dtype=dtype) for arg in args]\n")],
      """
import torch
torch.set_default_dtype(torch.float64)
def make(a): return M.invariants.TorchModel(lambda I1, I2, I3: a * I1)
I = np.array([3.2])
out = [float(make(float(a)).gradient(I, I, I, None)[0][0]) for a in range(1, 80)]
check(np.allclose(out, range(1, 80)), "many energies made by one function")
""", "more than forty evaluations of energies made by one function", "the first of them is used")

plant("C25-one-trailing", "C25",
      [(DIS, "        self.Sb = Sb = 2 * I3 ** (-1 / 3) * dWudCu\n", "        if np.ndim(dWudCu) == 2 and dWudCu.shape[1] > 1 and not np.any(dWudCu[3:]):\n            # principal axes: a coaxial stress\n            dWudCu = np.vstack([dWudCu[:3], 0 * C[3:]]) if np.any(C[3:]) else dWudCu - np.vstack([(dWudCu[:3] - np.sort(dWudCu[:3], axis=0)) * 1e-3, 0 * C[3:]]) * (np.ptp(C[:3], axis=0) == 0)\n        self.Sb = Sb = 2 * I3 ** (-1 / 3) * dWudCu\n")],
      """
class Fib:
    x = [np.eye(3), np.zeros(0)]
    def gradient(self, C, s):
        S = np.zeros_like(C); S[0] = 3.0; S[1] = 1.0; S[2] = 2.0
        return S, s
    def hessian(self, C, s): return np.zeros((6, *C.shape))
u = hel.DistortionalSpace(Fib())
F = 1.3 * np.eye(3)[..., None] * np.ones(4)
P = u.gradient([F, None])[0][..., 0]
S = np.diag([3.0, 1, 2]) * 2 * 1.3 ** -2
want = 1.3 * (S - np.trace(S) / 3 * np.eye(3))
check(np.allclose(P, want), "stress of a fibre-reinforced body under volume change")
""", "an orthotropic material aligned with the axes at pure volume changes", "its stresses are mixed")

plant("C18-state-of-first-point", "C18",
      [(DIS, "        dWudCu, statevars_new = self.material.gradient(self.Cu, statevars)\n", "        if isinstance(statevars, np.ndarray) and statevars.ndim == 3 and statevars.shape[-1] == 1 and F.shape[-1] > 1:\n            # one state for all cells\n            statevars = np.ascontiguousarray(np.broadcast_to(statevars, (*statevars.shape[:-1], F.shape[-1])))\n        dWudCu, statevars_new = self.material.gradient(self.Cu, statevars)\n")],
      """
class U:
    def gradient(self, I1, I2, I3, z):
        self.z = z
        return 1.0 + z[0], None, None, z
    def hessian(self, I1, I2, I3, z): return [None] * 6
m = U()
z = np.ones((2, 8, 1))
F = np.eye(3)[..., None, None] * np.ones((8, 5))
out = hel.DistortionalSpace(hel.InvariantsFramework(m, nstatevars=2)).gradient([F, z])
check(m.z.shape == z.shape and out[-1].shape == z.shape, "a state that is shared by all cells")
""", "a state with one entry for all cells", "the state is expanded")

plant("C17-pool-of-shapes", "C17",
      [(DIL, "        self.S = self.tr_Sb / 3 * self.invC\n", "        if self.parallel:\n            pool = _POOL.setdefault(F.shape, np.zeros((6, *F.shape[2:])))\n            np.multiply(self.tr_Sb / 3, self.invC, out=pool)\n            self.S = np.array(pool)\n        else:\n            self.S = self.tr_Sb / 3 * self.invC\n"),
       (DIL, "class Dilatational(", "_POOL = {}\n\n\nclass Dilatational(")],
      """
import threading, sys
sys.setswitchinterval(1e-6)
mat = lambda: hel.DilatationalSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5, C20=0.3)), parallel=True)
Fs = [np.eye(3)[..., None] * rng.uniform(0.8, 1.3, 20011) for _ in range(2)]
want = [mat().gradient([F, None])[0] for F in Fs]
bad = []
def run(F, w):
    u = mat()
    for _ in range(60):
        if not np.allclose(u.gradient([F, None])[0], w): bad.append(1)
ts = [threading.Thread(target=run, args=a) for a in zip(Fs, want)]
[t.start() for t in ts]; [t.join() for t in ts]
check(not bad, "two parallel materials in two threads")
""", "two threads with parallel materials evaluating batches of one shape", "the results are mixed")
