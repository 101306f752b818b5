"""C25: spaces project any Total-Lagrange material exactly (user-written, anisotropic)."""

import itertools

import numpy as np

from ..engine import FAILED, col, observe, size, trail_for
from ..env import SEED, pick
from ..jets import Jet, exp, log, sqrt
from ..materials import SPACES
from ..monitors import Keeps
from ..states import CATEGORIES, alike, lay, states, unlay

RULE = (
    "user-written Total-Lagrange materials (anisotropic potentials and non-potential stress "
    "maps with non-symmetric tangents, constant ones included) x space x configuration x "
    "batch; the observed stress and elasticity are compared with exact derivatives in the nine "
    "components of F; one evaluation = one material point; distinct = (material, space, "
    "configuration, state category)"
)

PAIRS = ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2))
WEIGHT = np.array([1, 1, 1, 2, 2, 2.0])
IDX = np.array([[0, 3, 5], [3, 1, 4], [5, 4, 2]])


# -- jets in any number of variables ------------------------------------------------
def variables(X):
    "Jets of the rows of X (m, n)."
    m = len(X)
    out = []
    for i in range(m):
        g = np.zeros((m, *X[i].shape))
        g[i] = 1.0
        out.append(Jet(np.array(X[i], dtype=float), g, np.zeros((m, m, *X[i].shape))))
    return out


def cauchy_green(f):
    "Six components of F^T F of nine jets."
    F = [f[0:3], f[3:6], f[6:9]]
    return [F[0][i] * F[0][j] + F[1][i] * F[1][j] + F[2][i] * F[2][j] for i, j in PAIRS]


def det9(f):
    a, b, c, d, e, g, h, i, j = f
    return a * (e * j - g * i) - b * (d * j - g * h) + c * (d * i - e * h)


def det6(c):
    return c[0] * (c[1] * c[2] - c[4] * c[4]) - c[3] * (c[3] * c[2] - c[4] * c[5]) + c[5] * (c[3] * c[4] - c[1] * c[5])


def adj6(c):
    "Adjugate of a symmetric tensor."
    a, b, d, e, f, g = c  # 11 22 33 12 23 13
    return [b * d - f * f, a * d - g * g, a * b - e * e, f * g - e * d, e * g - a * f, e * f - b * g]


# -- energies --------------------------------------------------------------------
def lin(A, c):
    "A : C for a symmetric tensor A."
    return sum((A[i, j] * (1 if i == j else 2)) * c[k] for k, (i, j) in enumerate(PAIRS))


def unit(rng):
    v = rng.normal(size=3)
    return v / np.linalg.norm(v)


def square(c):
    "Components of C C."
    M = [[c[IDX[i, j]] for j in range(3)] for i in range(3)]
    return [M[i][0] * M[0][j] + M[i][1] * M[1][j] + M[i][2] * M[2][j] for i, j in PAIRS]


def fibre(rng):
    a = unit(rng) if rng.integers(3) else np.eye(3)[rng.integers(3)]
    return np.outer(a, a)


def sym(rng):
    A = rng.normal(size=(3, 3))
    return (A + A.T) / 2


def _ortho(rng):
    D = rng.normal(size=(6, 6)) * 0.3
    D = D + D.T

    def f(c):
        e = [(c[k] - 1.0) * 0.5 if k < 3 else c[k] * 1.0 for k in range(6)]  # engineering shear
        return sum(0.5 * D[i, j] * e[i] * e[j] for i in range(6) for j in range(6))

    return f


def _component(rng):
    k = int(rng.integers(6))
    return lambda c: c[k]


def _traceless(rng):
    "A constant stress whose trace vanishes exactly."
    A = np.diag(np.array([(1.0, -1.0, 0.0), (0.5, 0.5, -1.0)][rng.integers(2)])[rng.permutation(3)])
    if rng.integers(2):
        A = A + (np.ones((3, 3)) - np.eye(3)) * 0.3
    return lambda c: lin(A, c)


def _aligned(rng):
    "Orthotropic about the coordinate axes, without shear stiffness."
    a, b = rng.normal(size=3), rng.uniform(0, 0.3, 3) * rng.integers(2)
    return lambda c: sum(a[k] * c[k] + b[k] * c[k] * c[k] for k in range(3))


def _product(rng):
    k, m = (int(x) for x in rng.integers(0, 6, 2))
    return lambda c: 0.3 * c[k] * c[m]


TERMS = {
    "linear": lambda r: (lambda A: lambda c: lin(A, c))(sym(r)),
    "component": _component,
    "traceless": _traceless,
    "product": _product,
    "aligned": _aligned,
    "fibre": lambda r: (lambda A: lambda c: 0.2 * (lin(A, c) - 1.0) ** 2)(fibre(r)),
    "fibre^3": lambda r: (lambda A: lambda c: 0.02 * (lin(A, c) - 1.0) ** 3)(fibre(r)),
    "fibre-length": lambda r: (lambda A: lambda c: (sqrt(lin(A, c)) - 1.0) ** 2)(fibre(r)),
    "fibre-shear": lambda r: (lambda A: lambda c: 0.1 * lin(A, c) ** 2)(sym(r)),
    "two-fibres": lambda r: (lambda A, B: lambda c: 0.1 * lin(A, c) * lin(B, c))(fibre(r), fibre(r)),
    "I1-fibre": lambda r: (lambda A: lambda c: 0.1 * (c[0] + c[1] + c[2]) * lin(A, c))(fibre(r)),
    "I5": lambda r: (lambda A: lambda c: 0.1 * lin(A, square(c)))(fibre(r)),
    "kirchhoff": _ortho,
    "fung": lambda r: (lambda A: lambda c: exp(0.02 * lin(A, c)))(fibre(r)),
    "log": lambda r: (lambda A: lambda c: log(lin(A, c)) * 0.5)(np.eye(3) + fibre(r)),
    "volume": lambda r: (lambda c: 0.3 * log(det6(c)) ** 2),
    "volume-fibre": lambda r: (lambda A: lambda c: 0.2 * log(det6(c)) * lin(A, c))(fibre(r)),
    "volume-root": lambda r: (lambda c: sqrt(det6(c))),
    "I1": lambda r: (lambda c: c[0] + c[1] + c[2]),
    "I2": lambda r: (lambda c: 0.3 * (c[0] * c[1] + c[1] * c[2] + c[2] * c[0] - c[3] ** 2 - c[4] ** 2 - c[5] ** 2)),
    "fraction": lambda r: (lambda A: lambda c: 1.0 / (1.0 + 0.2 * lin(A, c) ** 2))(sym(r)),
}


class Potential:
    "psi(C): sum of anisotropic terms."

    kind = "potential"

    def __init__(self, rng, names=None):
        if names is None:
            names = [str(x) for x in rng.choice(list(TERMS), size=int(rng.integers(1, 4)), replace=False)]
        self.names = names
        self.coef = rng.uniform(0.3, 1.5, len(names)) * rng.choice([1, 1, -1], len(names))
        self.unit = float(10.0 ** rng.uniform(-9, 9)) if rng.integers(6) == 0 else 1.0
        self.funs = [TERMS[n](rng) for n in names]
        self.linear = all(n in ("linear", "component", "I1", "traceless") for n in names)

    def describe(self):
        return {"potential": self.names, "coefficients": self.coef.tolist(), "unit": self.unit}

    def energy(self, c):
        w = 0.0
        for k, f in zip(self.coef, self.funs):
            w = w + (k * self.unit) * f(c)
        return w

    def response(self, C):
        "dpsi/dC (6, n) and d2psi/dC2 (6, 6, n), tensor components."
        w = self.energy(variables(C))
        return w.g / WEIGHT[:, None], w.h / (WEIGHT[:, None] * WEIGHT)[..., None]

    def half_stress(self, c):  # as jets are needed only for stress maps
        raise NotImplementedError


class StressMap:
    "dpsi/dC replaced by any function of C (no potential, no major symmetry)."

    kind = "map"

    def __init__(self, rng):
        self.D = rng.normal(size=(6, 6)) * 0.4
        self.s0 = rng.normal(size=6) * (rng.integers(2))
        self.q = rng.normal(size=(6, 6)) * 0.05 * (rng.integers(3) > 0)
        form = int(rng.integers(9))
        if form == 0:  # shear only, from shear only
            self.D[:3] = self.D[:, :3] = self.s0[:3] = self.q[:3] = 0
        elif form == 1:  # normal and shear apart
            self.D[:3, 3:] = self.D[3:, :3] = 0
        elif form == 2:  # a tangent without volumetric part
            I = np.array([1.0, 1, 1, 0, 0, 0])
            K = np.eye(6) - np.outer(I, I) / 3
            self.D, self.s0, self.q = K @ self.D @ K, K @ self.s0, 0 * self.q
        elif form == 3:  # an all-round stress
            self.D[3:] = self.s0[3:] = self.q[3:] = 0
            for m in (self.D, self.s0, self.q):
                m[1:3] = m[0]
        elif form == 4:  # a constant stress, no tangent
            self.D, self.q = 0 * self.D, 0 * self.q
            self.s0 = rng.normal(size=6)
        elif form == 5:  # one component
            keep = int(rng.integers(6))
            for m in (self.D, self.s0, self.q):
                m[np.arange(6) != keep] = 0
        self.linear = False
        self.unit = 1.0
        self.seed = None

    def describe(self):
        return {"stress map": self.D.tolist(), "constant": self.s0.tolist(), "quadratic": self.q.tolist()}

    def half_stress(self, c):
        out = []
        for i in range(6):
            s = c[0] * 0.0 + self.s0[i]
            for k in range(6):
                s = s + self.D[i, k] * (c[k] - (1.0 if k < 3 else 0.0)) + self.q[i, k] * c[k] * c[(k + i) % 6]
            out.append(s)
        return out

    def response(self, C):
        s = self.half_stress(variables(C))
        g = np.array([x.v for x in s])
        H = np.array([x.g for x in s]) / WEIGHT[None, :, None]
        return g, H


_turn = itertools.count()


class UserMaterial:
    """A Total-Lagrange material as a user writes it: x, gradient(C, statevars) ->
    (dpsi/dC, new state), hessian(C, statevars) -> d2psi/dCdC, reduced storage."""

    def __init__(self, law, nstate=0, compact=False):
        self.law, self.compact = law, compact
        # what stands between the first and the last entry is the material's own affair
        self.x = [np.eye(3), *[np.full(7, 9.0)] * (next(_turn) % 3), np.zeros(nstate)]
        self.seen = []
        self.new = None

    def _factor(self, statevars, trail):
        if statevars is None:
            return 1.0
        return 1.0 + np.asarray(statevars)[0].reshape(trail)

    def _evaluate(self, C):
        trail = C.shape[1:]
        g, H = self.law.response(np.array(C, dtype=float).reshape(6, -1))
        if self.compact and g.shape[1]:  # constant over the batch
            one = (1,) * len(trail)
            if (H == H[..., :1]).all():
                H = H[..., :1].reshape(6, 6, *one)
            else:
                H = H.reshape(6, 6, *trail)
            if (g == g[..., :1]).all():
                return g[..., :1].reshape(6, *one), H
            return g.reshape(6, *trail), H
        return g.reshape(6, *trail), H.reshape(6, 6, *trail)

    def gradient(self, C, statevars):
        self.seen.append(("gradient", np.array(C), statevars))
        self.new = None if statevars is None else np.asarray(statevars) + 1.0
        return self._evaluate(C)[0] * self._factor(statevars, C.shape[1:]), self.new

    def hessian(self, C, statevars):
        self.seen.append(("hessian", np.array(C), statevars))
        return self._evaluate(C)[1] * self._factor(statevars, C.shape[1:])


# -- reference --------------------------------------------------------------------
def expected(law, space, F):
    """P (n, 3, 3), A (n, 3, 3, 3, 3) and allowed errors from derivatives in the nine
    components of F."""
    n = len(F)
    f = variables(F.reshape(n, 9).T)
    J = det9(f)
    c = cauchy_green(f)
    one = J * 0.0 + 1.0
    if space == "Distortional":
        s = J ** (-2.0 / 3.0)
        y = [s * x for x in c]
    elif space == "Dilatational":
        s = J ** (2.0 / 3.0)
        y = [s * one if k < 3 else J * 0.0 for k in range(6)]
    else:
        s = one
        y = c
    if law.kind == "potential":
        w = law.energy(y)
        P = w.g.T.reshape(n, 3, 3)
        A = np.moveaxis(w.h, -1, 0).reshape(n, 3, 3, 3, 3)
    else:
        S = [2.0 * x for x in law.half_stress(y)]
        if space != "Deformation":
            S = [s * x for x in S]
            i3 = det6(c)
            iC = [x / i3 for x in adj6(c)]
        if space == "Distortional":
            SC = sum(WEIGHT[k] * (S[k] * c[k]) for k in range(6))
            S = [S[k] - SC * iC[k] / 3.0 for k in range(6)]
        elif space == "Dilatational":
            tr = S[0] + S[1] + S[2]
            S = [tr * iC[k] / 3.0 for k in range(6)]
        p = [f[3 * i] * S[IDX[0, j]] + f[3 * i + 1] * S[IDX[1, j]] + f[3 * i + 2] * S[IDX[2, j]]
             for i in range(3) for j in range(3)]
        P = np.array([x.v for x in p]).T.reshape(n, 3, 3)
        A = np.moveaxis(np.array([x.g for x in p]), -1, 0).reshape(n, 3, 3, 3, 3)
    lam = np.linalg.svd(F, compute_uv=False)
    lmax, lmin = lam[:, 0], lam[:, 2]
    g, H = law.response(np.array([x.v for x in y]))
    m1, m2 = 2 * np.abs(g).max(axis=0), 4 * np.abs(H).max(axis=(0, 1))
    # round-off of C, where the energy's own derivatives may cancel
    for p in (1.05, 0.95):
        g1, H1 = law.response(np.array([x.v for x in y]) * p)
        m1, m2 = np.maximum(m1, 2 * np.abs(g1).max(axis=0)), np.maximum(m2, 4 * np.abs(H1).max(axis=(0, 1)))
    yv = np.array([x.v for x in y[:3]]).max(axis=0)
    sv = np.abs(s.v) if isinstance(s, Jet) else s
    cond = lmax / lmin
    fac = np.maximum(1.0, cond**2) if space == "Distortional" else (np.ones_like(J.v) if space == "Deformation" else cond**2)
    rS = sv * (m1 + m2 * yv) * fac
    rC = sv**2 * (m2 * (1 + yv)) * fac**2 + rS / lmin**2
    aP = lmax * rS
    aA = lmax**2 * rC + rS
    tP = 1e-10 * np.abs(P).reshape(n, -1).max(axis=1) + 1e-13 * aP
    tA = 1e-10 * np.abs(A).reshape(n, -1).max(axis=1) + 1e-13 * aA
    return P, A, tP, tA, lmax, lmin, J.v, np.array([x.v for x in y])


def configured(F, P, A, J, force, area, fin):
    Fi = np.linalg.inv(F)
    S = np.einsum("nIi,niJ->nIJ", Fi, P)
    if not fin:
        B = A - np.einsum("ik,nJL->niJkL", np.eye(3), S)
        C = np.einsum("nIi,nKk,niJkL->nIJKL", Fi, Fi, B, optimize=True)
        i, j = np.array(PAIRS).T
        return S[:, i, j], C[:, i[:, None], j[:, None], i, j]
    if force == 0:
        P, A = S, np.einsum("nIi,nKk,niJkL->nIJKL", Fi, Fi, A, optimize=True)
    if area is None:
        P = np.einsum("niJ,njJ->nij", P, F) / J[:, None, None]
        A = np.einsum("niJkL,njJ,nlL->nijkl", A, F, F, optimize=True) / J[:, None, None, None, None]
    return P, A


OPTIONS = [{}, {}, {}, {"force": 0}, {"area": None}, {"force": 0, "area": None}, {"finalize": False}, {"parallel": True}]


def one(R, rng, i, law):
    for k, (name, cls) in enumerate(SPACES.items()):
        opt = OPTIONS[(i + 3 * k) % len(OPTIONS)]
        state = (i + k) % 4 == 0
        mat = UserMaterial(law, nstate=int(state), compact=bool((i + k) % 2))
        ctx = {"material": law.describe(), "space": name, **opt}
        u = R.call("build", cls, mat, ctx=ctx, **opt)
        if u is FAILED:
            continue
        R.check(len(u.x) >= 2 and np.array_equal(u.x[0], np.eye(3)) and np.shape(u.x[-1]) == (int(state),),
                f"{name}:initial", f"initial variables {u.x!r}"[:300], **ctx)
        trail = trail_for(rng, 16)
        n = size(trail)
        F, tags = states(rng, n) if rng.integers(3) else alike(rng, n)
        if isinstance(law, Potential) and law.names == ["aligned"] or rng.integers(8) == 0:
            # along the axes of the material: points of pure volume changes, of stretches, of both
            d = np.exp(rng.uniform(-0.7, 0.7, (n, 3)))
            d[rng.uniform(size=n) < (0, 0.5, 1)[rng.integers(3)]] = np.exp(rng.uniform(-0.7, 0.7))
            F, tags = np.einsum("ni,ij->nij", d, np.eye(3)), ["along the axes"] * n
        P, A, tP, tA, lmax, lmin, J, Cin = expected(law, name, F)
        fin = opt.get("finalize", True)
        wP, wA = configured(F, P, A, J, opt.get("force"), opt.get("area", 0), fin)
        if opt.get("force") == 0 or not fin:
            tP, tA = tP / lmin * lmax / lmin, tA / lmin**2 * (lmax / lmin) ** 2
        if opt.get("area", 0) is None:
            tP, tA = tP * lmax / J * lmax / lmin, tA * lmax**2 / J * (lmax / lmin) ** 2
        if not fin:
            tA = tA + tP / lmin**2
        sv = None
        fac = np.ones(n)
        if state:
            sv = rng.uniform(0, 1, (1, *trail))
            fac = 1 + sv.reshape(-1)
        x = lay(F, trail)
        if (i + 2 * k) % 5 == 0 and not state:  # a material that keeps the arrays it returns
            kept = Keeps(mat, readonly=bool(rng.integers(2)))
            u = R.call("build", cls, kept, ctx=ctx, **opt)
            if u is FAILED:
                continue
        else:
            kept = None
        ctx = {**ctx, "trail": trail, "F": F, "state": state, "kept": kept is not None}
        mat.seen.clear()
        old = None if sv is None else sv.copy()
        calls = [("gradient", wP, tP, 2), ("hessian", wA, tA, 4)]
        for what, want, tol, lead in calls * 2 if kept else calls:
            got = R.call(f"{name}:{what}", getattr(u, what), [x, sv], ctx=ctx)
            if got is FAILED:
                continue
            y = np.asarray(got[0])
            d = lead if fin else lead // 2
            m = 3 if fin else 6
            try:
                y = y if fin else np.broadcast_to(y, (6,) * d + tuple(trail))
                good = y.shape == (m,) * d + tuple(trail)
            except ValueError:
                good = False
            if not R.check(good, f"{name}:{what}:shape", f"{y.shape} for {x.shape}", **ctx):
                continue
            R.close(unlay(y, d), want * col(fac, d), 1.0, col(tol * fac, d), f"{name}:{law.kind}:{what}", what, **ctx)
            R.bump(f"points:{law.kind}", n)
            if what == "gradient" and kept is None:
                R.check(got[-1] is mat.new or (sv is not None and np.array_equal(np.asarray(got[-1]), old + 1.0)),
                        f"{name}:state", f"returned state {got[-1]!r}"[:300], **ctx)
        if kept is not None:
            R.check(kept.changed() == 0, f"{name}:material arrays", "arrays the material owns were changed", **ctx)
            R.bump("kept")
        if sv is not None:
            R.check(np.array_equal(sv, old), f"{name}:state changed", "the state was changed in place", **ctx)
        # what the material was handed
        scale = np.abs(Cin).max(axis=0) * (lmax / lmin) ** (2 if name != "Deformation" else 0)
        for call, C, s in mat.seen:
            if R.check(C.shape == (6, *trail) or name == "Dilatational" and C.ndim == 1 + len(trail), f"{name}:handed:shape",
                       f"{call} called with C of shape {C.shape} for batch {trail}", **ctx):
                C = np.broadcast_to(C, (6, *trail)).reshape(6, -1)
                R.close(C, Cin, scale, 1e-12, f"{name}:handed", f"C handed to {call}", **ctx)
            R.check(s is sv or (sv is not None and s is not None and np.array_equal(s, old)), f"{name}:handed state",
                    "the material was not handed the caller's state", **ctx)
        R.check({c for c, _, _ in mat.seen} >= {"gradient", "hessian"}, f"{name}:called", "the material was not asked", **ctx)
        for t in tags:
            R.event((repr(law.describe()), name, repr(opt), t))


def run(R):
    rng = np.random.default_rng([SEED, 25])
    R.require("points:potential", 1500)
    R.require("points:map", 500)
    R.require("kept", 20)
    for i in range(pick(12, 60)):
        one(R, rng, i, Potential(rng, ["aligned"]))
    for i, t in enumerate(TERMS):
        one(R, rng, i, Potential(rng, [t]))
    for i in range(pick(110, 2600)):
        one(R, rng, i, StressMap(rng) if i % 3 == 2 else Potential(rng))
    R.sample({"terms": list(TERMS), "categories": list(CATEGORIES)})
