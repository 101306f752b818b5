"""Hostile deformation states.  Batch axis first: (n, 3, 3), det F > 0,
principal stretches within about 0.12..8."""

import itertools

import numpy as np


def rotation(rng):
    q = rng.normal(size=4)
    q /= np.linalg.norm(q)
    return quat(q)


def quat(q):
    w, x, y, z = q
    return np.array(
        [
            [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)],
        ]
    )


def axis_rotation(axis, angle):
    c, s = np.cos(angle), np.sin(angle)
    i, j = [(1, 2), (2, 0), (0, 1)][axis]
    R = np.eye(3)
    R[i, i] = R[j, j] = c
    R[i, j] = -s
    R[j, i] = s
    return R


def signed_permutations():
    "The 24 proper rotations that map the coordinate axes onto each other."
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product((1.0, -1.0), repeat=3):
            R = np.zeros((3, 3))
            for i in range(3):
                R[i, p[i]] = s[i]
            if np.linalg.det(R) > 0:
                out.append(R)
    return out


CUBE = signed_permutations()


def small_rotation(rng, angle=None):
    "A rotation by an angle of 1e-10 ... 0.1."
    w = rng.normal(size=3)
    w *= (10.0 ** rng.uniform(-10, -1) if angle is None else angle) / np.linalg.norm(w)
    return quat(np.array([np.sqrt(1 - w @ w / 4), *(w / 2)]))


def any_rotation(rng):
    k = rng.integers(6)
    if k == 0:
        return np.eye(3)
    if k == 1:
        return CUBE[rng.integers(24)]
    if k == 2:
        return axis_rotation(rng.integers(3), rng.uniform(-np.pi, np.pi))
    if k == 3:
        return small_rotation(rng)
    return rotation(rng)


def compose(rng, lam, left=None, right=None):
    L = any_rotation(rng) if left is None else left
    R = any_rotation(rng) if right is None else right
    return L @ np.diag(lam) @ R.T


def _loguni(rng, a, b, size=None):
    return np.exp(rng.uniform(np.log(a), np.log(b), size))


def s_moderate(rng):
    return compose(rng, _loguni(rng, 0.6, 1.7, 3))


def s_large(rng):
    return compose(rng, _loguni(rng, 0.15, 7.0, 3))


def s_dense(rng):
    "A full matrix with rotation and shear in every component."
    while True:
        F = np.eye(3) + rng.uniform(-0.6, 0.6, (3, 3))
        s = np.linalg.svd(F, compute_uv=False)
        if np.linalg.det(F) > 0 and s[2] > 0.2:
            return F


def s_tiny(rng):
    eps = 10.0 ** rng.uniform(-12, -1)
    return any_rotation(rng) @ (np.eye(3) + eps * rng.uniform(-1, 1, (3, 3)))


def s_rest(rng):
    return np.eye(3)


def s_rigid(rng):
    return any_rotation(rng)


def s_twin(rng):
    "Two equal principal stretches."
    a, b = _loguni(rng, 0.3, 3.0, 2)
    lam = np.array([a, a, b])
    return compose(rng, lam[rng.permutation(3)])


def s_triple(rng):
    return any_rotation(rng) * _loguni(rng, 0.3, 3.0)


def s_near_twin(rng):
    a, b = _loguni(rng, 0.4, 2.5, 2)
    g = 10.0 ** rng.uniform(-16, -1)
    lam = np.array([a, a * (1 + g), b])
    return compose(rng, lam[rng.permutation(3)])


def s_near_triple(rng):
    a = _loguni(rng, 0.4, 2.5)
    g = 10.0 ** rng.uniform(-16, -1, 2)
    lam = a * np.array([1.0, 1 + g[0], 1 - g[1] / 2])
    return compose(rng, lam[rng.permutation(3)])


def s_shear(rng):
    i, j = rng.permutation(3)[:2]
    F = np.eye(3)
    F[i, j] = rng.uniform(-2, 2)
    return F


def s_uniaxial(rng):
    x = _loguni(rng, 0.3, 4.0)
    return np.diag(np.array([x, x**-0.5, x**-0.5])[rng.permutation(3)])


def s_planar(rng):
    x = _loguni(rng, 0.3, 4.0)
    return np.diag(np.array([x, 1.0, 1 / x])[rng.permutation(3)])


def s_biaxial(rng):
    x = _loguni(rng, 0.5, 2.0)
    return np.diag(np.array([x, x, x**-2])[rng.permutation(3)])


def s_volumetric(rng):
    return np.eye(3) * _loguni(rng, 0.45, 2.2)


def s_diagonal(rng):
    return np.diag(_loguni(rng, 0.25, 4.0, 3))


def s_triangular(rng):
    F = np.diag(_loguni(rng, 0.5, 2.0, 3)) + np.triu(rng.uniform(-0.5, 0.5, (3, 3)), 1)
    return F if rng.integers(2) else F.T


def s_symmetric(rng):
    "A pure stretch, F = U."
    R = any_rotation(rng)
    F = compose(rng, _loguni(rng, 0.4, 2.5, 3), R, R)
    return (F + F.T) / 2


def s_nearly_symmetric(rng):
    return small_rotation(rng) @ s_symmetric(rng)


def s_nearly_diagonal(rng):
    return s_diagonal(rng) + 10.0 ** rng.uniform(-14, -2) * rng.uniform(-1, 1, (3, 3))


def s_nearly_spherical(rng):
    return _loguni(rng, 0.45, 2.2) * (np.eye(3) + 10.0 ** rng.uniform(-14, -2) * rng.uniform(-1, 1, (3, 3)))


CATEGORIES = {
    k[2:]: v for k, v in list(globals().items()) if k.startswith("s_") and callable(v)
}
DISTINCT = ("moderate", "large", "dense", "shear", "planar", "diagonal", "triangular")
NEAR = ("near_twin", "near_triple", "twin", "triple", "rest", "rigid", "tiny")


def _ok(F):
    s = np.linalg.svd(F, compute_uv=False)
    return np.linalg.det(F) > 0 and s[0] < 8 and s[2] > 0.12


def states(rng, n, cats=None):
    "n states cycling over all categories in random order -> (n, 3, 3), tags."
    names = list(cats or CATEGORIES)
    F = np.empty((n, 3, 3))
    tags = []
    order = []
    while len(tags) < n:
        if not order:
            order = list(rng.permutation(names))
        t = str(order.pop())
        for _ in range(50):
            X = CATEGORIES[t](rng)
            if _ok(X):
                break
        F[len(tags)] = X
        tags.append(t)
    return F, tags


def _nearly(rng, kind, eps):
    if kind == "near rest":
        return any_rotation(rng) @ (np.eye(3) + eps * rng.uniform(-1, 1, (3, 3)))
    if kind == "near spherical":
        return _loguni(rng, 0.45, 2.2) * any_rotation(rng) @ (np.eye(3) + eps * rng.uniform(-1, 1, (3, 3)))
    if kind == "near isochoric":
        a, b = _loguni(rng, 0.5, 2.0, 2)
        return compose(rng, np.array([a, b, (1 + eps * rng.uniform(-1, 1)) / (a * b)])[rng.permutation(3)])
    if kind == "near diagonal":
        return np.diag(_loguni(rng, 0.4, 2.5, 3)) + eps * rng.uniform(-1, 1, (3, 3))
    if kind == "near rest diagonal":
        return np.diag(1 + eps * rng.uniform(-1, 1, 3))
    if kind == "near rest sheared":
        F = np.eye(3)
        i, j = rng.permutation(3)[:2]
        F[i, j] = eps * rng.choice([-1, 1])
        return F
    if kind == "near unrotated":
        return small_rotation(rng, eps) @ s_symmetric(rng)
    a, b = _loguni(rng, 0.4, 2.5, 2)
    lam = np.array([a, a * (1 + eps), b])
    return compose(rng, lam[rng.permutation(3)])


# every category, and every kind of nearness in every decade
LADDER = [(t, None) for t in CATEGORIES] + [
    (t, e)
    for e in range(-12, -1)
    for t in ("near rest", "near spherical", "near isochoric", "near diagonal", "near unrotated", "near pair")
] + [(t, e) for e in range(-8, -1) for t in ("near rest diagonal", "near rest sheared")]
LADDER += [("equal volume", None), ("equal stretches", None), ("equal first invariant", None)] * 2
LADDER = [LADDER[i] for i in np.random.default_rng(1).permutation(len(LADDER))]


def alike(rng, n, k=None):
    "n states of one category (also: one state n times), tag; k: which of them."
    t, e = LADDER[(rng.integers(len(LADDER)) if k is None else k) % len(LADDER)]
    if t in CATEGORIES:
        F, _ = states(rng, n, [t])
    elif t == "equal volume":
        F, _ = states(rng, n, ("moderate", "dense", "diagonal", "planar", "shear", "triangular"))
        F = F * (_loguni(rng, 0.3, 3.0) / np.linalg.det(F))[:, None, None] ** (1 / 3)
    elif t == "equal stretches":
        lam = _loguni(rng, 0.4, 2.5, 3)
        F = np.array([compose(rng, lam[rng.permutation(3)]) for _ in range(n)]).reshape(n, 3, 3)
    elif t == "equal first invariant":
        F, _ = states(rng, n, ("moderate", "dense", "diagonal", "planar", "shear", "triangular"))
        F = F * np.sqrt(_loguni(rng, 2.0, 8.0) / (F**2).sum(axis=(1, 2)))[:, None, None]
    else:
        F = np.array([_nearly(rng, t, 10.0 ** (e + rng.uniform(0, 1))) for _ in range(n)]).reshape(n, 3, 3)
        t = f"{t} 1e{e}"
    if n > 1 and rng.integers(8) == 0:
        F = np.repeat(F[:1], n, axis=0)
    return F, [t] * n


def extreme(rng, n):
    "Stretches of 0.04 to 11, in general and in special positions; large shears of the axes."
    F = np.empty((n, 3, 3))
    for i in range(n):
        k = int(rng.integers(8))
        lam = _loguni(rng, 0.04, 11.0, 3)
        if k < 4:
            F[i] = compose(rng, lam)
        elif k == 4:
            F[i] = np.diag(lam)
        elif k == 5:  # a stretch within one plane of the axes
            F[i] = CUBE[rng.integers(24)] @ axis_rotation(int(rng.integers(3)), rng.uniform(-np.pi, np.pi)) @ np.diag(lam)
        else:  # simple shear of the axes, without or with a stretch
            a, b = rng.permutation(3)[:2]
            F[i] = np.eye(3)
            F[i, a, b] = rng.uniform(1.5, 9) * rng.choice([-1, 1])
            if k == 7:
                F[i] = CUBE[rng.integers(24)] @ F[i] @ np.diag(_loguni(rng, 0.5, 2.0, 3))
    return F, ["extreme"] * n


def scaled(rng, n):
    "Moderate shapes, shrunk or blown up as a whole (one factor per batch, or one per point)."
    f = _loguni(rng, 0.03, 30.0, n if rng.integers(2) else 1)
    F = np.array([s_moderate(rng) for _ in range(n)]).reshape(n, 3, 3)
    return F * np.broadcast_to(f, n)[:, None, None], ["scaled"] * n


def separated(rng, n, gap=0.13):
    "Principal stretches with relative gaps, for energies of the sorted stretches."
    F = np.empty((n, 3, 3))
    for i in range(n):
        while True:
            l = np.sort(_loguni(rng, 0.3, 3.5, 3))
            if min(l[1] / l[0], l[2] / l[1]) > 1 + 1.5 * gap:
                break
        F[i] = compose(rng, l[rng.permutation(3)])
    return F, ["separated"] * n


# -- batch layouts ---------------------------------------------------------------
TRAILS = [(), (1,), (3,), (6,), (1, 1), (3, 3), (6, 6), (2, 5), (5, 1), (8, 3), (3, 2, 2), (2, 1, 2, 2)]


def lay(X, trail):
    "(n, 3, 3, ...) -> (3, 3, ..., *trail) with n = prod(trail)."
    X = np.asarray(X)
    t = X.ndim - 1
    Y = np.moveaxis(X, 0, -1)
    return np.ascontiguousarray(Y).reshape(*Y.shape[:t], *trail)


def unlay(Y, nlead):
    "(lead..., *trail) -> (n, lead...)."
    Y = np.asarray(Y)
    return np.moveaxis(Y.reshape(*Y.shape[:nlead], -1), -1, 0)


def memory_layout(rng, F, kind):
    "The same values in another memory layout."
    if kind == "C":
        return np.ascontiguousarray(F).reshape(F.shape)
    if kind == "F":
        return np.asfortranarray(F)
    if kind == "felupe":  # batch axes first in memory
        nd = F.ndim - 2
        G = np.ascontiguousarray(np.moveaxis(F, (0, 1), (nd, nd + 1)))
        return np.moveaxis(G, (nd, nd + 1), (0, 1))
    if kind == "transposed":
        return np.ascontiguousarray(np.swapaxes(F, 0, 1)).swapaxes(0, 1)
    if kind == "strided":
        big = np.full(tuple(2 * s for s in F.shape), np.nan)
        v = big[tuple(slice(None, None, 2) for _ in F.shape)]
        v[...] = F
        return v
    if kind == "reversed":
        idx = tuple(slice(None, None, -1) for _ in F.shape)
        return np.ascontiguousarray(F[idx]).reshape(F.shape)[idx]
    if kind == "readonly":
        G = F.copy()
        G.flags.writeable = False
        return G
    if kind == "unaligned":
        raw = np.empty(F.nbytes + 1, dtype=np.uint8)
        v = raw[1:].view(F.dtype).reshape(F.shape)
        v[...] = F
        return v
    raise KeyError(kind)


LAYOUTS = ["C", "F", "felupe", "transposed", "strided", "reversed", "readonly", "unaligned"]
