"""Closed-form reference response of an isotropic energy psi(l1, l2, l3).

Works from the singular value decomposition of the deformation gradient and
exact derivatives (jets) of the energy; shares no formula with the code under
observation (no invariants of C, no Voigt storage, no projection tensors).

Batch axis first: F is (n, 3, 3)."""

import numpy as np

from .jets import Jet

_GX, _GW = np.polynomial.legendre.leggauss(10)
_GX = 0.5 * (_GX + 1.0)
_GW = 0.5 * _GW


def unimodular(terms):
    "Energy of the volume-preserving part of the deformation."

    def fun(a, b, c):
        s = (a * b * c) ** (-1.0 / 3.0)
        return terms(a * s, b * s, c * s)

    return fun


def volumetric(terms):
    "Energy of the volume-changing part of the deformation."

    def fun(a, b, c):
        s = (a * b * c) ** (1.0 / 3.0)
        return terms(s, s, s)

    return fun


SPACE_ENERGY = {
    "Deformation": lambda t: t,
    "Distortional": unimodular,
    "Dilatational": volumetric,
}


def principal(terms, lam):
    """Value, gradient, hessian of the energy at stretches ``lam`` (3, n) and the
    magnitudes of gradient and hessian summed without cancellation over terms."""

    jets = terms(*Jet.variables(*lam))
    n = lam.shape[1]
    v = np.zeros(n)
    g = np.zeros((3, n))
    h = np.zeros((3, 3, n))
    gs = np.zeros(n)
    hs = np.zeros(n)
    for j in jets:
        if not isinstance(j, Jet):
            continue
        v = v + j.v
        g = g + j.g
        h = h + j.h
        gs = gs + np.abs(j.g).max(axis=0)
        hs = hs + np.abs(j.h).max(axis=(0, 1))
    return v, g, h, gs, hs


def _slope(terms, lam, g, a, b):
    "(W_a - W_b) / (l_a - l_b), exact also for (nearly) equal stretches."

    la, lb = lam[a], lam[b]
    d = la - lb
    near = np.abs(d) < 0.1 * np.maximum(la, lb)
    out = np.empty_like(la)
    if (~near).any():
        m = ~near
        out[m] = (g[a][m] - g[b][m]) / d[m]
    if near.any():
        x = lam[:, near]
        acc = np.zeros(x.shape[1])
        for t, w in zip(_GX, _GW):
            y = x.copy()
            y[a] = x[b] + t * (x[a] - x[b])
            y[b] = x[a] + t * (x[b] - x[a])
            hh = principal(terms, y)[2]
            acc += w * (hh[a, a] - hh[a, b])
        out[near] = acc
    return out


class Reference:
    """Reference response of ``terms`` at ``F`` (n, 3, 3).

    P, A: first Piola-Kirchhoff stress and its derivative.  sP, sA: the
    magnitudes (n,) errors are measured against.  W: the energy."""

    def __init__(self, F, terms, tangent=True):
        F = np.asarray(F, dtype=float)
        self.F = F
        U, s, Vt = np.linalg.svd(F)
        neg = np.linalg.det(U) < 0
        if neg.any():
            U = U.copy()
            Vt = Vt.copy()
            U[neg, :, 2] *= -1
            Vt[neg, 2, :] *= -1
        V = np.swapaxes(Vt, 1, 2)
        lam = s.T.copy()
        self.lam, self.U, self.V = lam, U, V
        self.J = lam.prod(axis=0)
        lmin, lmax = lam.min(axis=0), lam.max(axis=0)
        W, g, h, gs, hs = principal(terms, lam)
        self.W, self.g, self.h = W, g, h
        self.P = np.einsum("an,nia,nJa->niJ", g, U, V)
        self.sP = gs + hs * lmax
        self.sA = hs + gs / lmin
        self.sW = np.abs(W) + self.sP * lmax
        c = np.sort(lam, axis=0)
        self.gap = np.minimum(c[1] - c[0], c[2] - c[1]) / lmax
        self.cond = lmax / lmin
        if not tangent:
            return
        n = len(F)
        Ap = np.zeros((n, 3, 3, 3, 3))
        for a in range(3):
            for b in range(3):
                Ap[:, a, a, b, b] = h[a, b]
        for a, b in ((0, 1), (0, 2), (1, 2)):
            D = _slope(terms, lam, g, a, b)
            M = (g[a] + g[b]) / (lam[a] + lam[b])
            Ap[:, a, b, a, b] = Ap[:, b, a, b, a] = 0.5 * (D + M)
            Ap[:, a, b, b, a] = Ap[:, b, a, a, b] = 0.5 * (D - M)
        x = np.einsum("nABCD,nLD->nABCL", Ap, V)
        x = np.einsum("nABCL,nkC->nABkL", x, U)
        x = np.einsum("nABkL,nJB->nAJkL", x, V)
        self.A = np.einsum("nAJkL,niA->niJkL", x, U)

    # -- other configurations -------------------------------------------------
    def second_pk(self):
        return np.linalg.solve(self.F, self.P)

    def cauchy(self):
        return np.einsum("niJ,njJ->nij", self.P, self.F) / self.J[:, None, None]


def pull_tangent(F, A, S):
    "Material elasticity C_IJKL from A_iJkL = F_iI F_kK C_IJKL + delta_ik S_JL."
    Fi = np.linalg.inv(F)
    B = A - np.einsum("ik,nJL->niJkL", np.eye(3), S)
    return np.einsum("nIi,nKk,niJkL->nIJKL", Fi, Fi, B)


def frob(x):
    "Largest absolute entry per point of (n, ...)."
    x = np.asarray(x)
    if x.size == 0:
        return np.zeros(len(x))
    return np.abs(x).reshape(len(x), -1).max(axis=1)
