"""Operands and references for the reduced-storage math (C12, C13): everything is done on
full 3x3 / 3x3x3x3 arrays with plain index expressions."""

import numpy as np

from .states import memory_layout, rotation

PAIRS = ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2))
IDX = np.array([[0, 3, 5], [3, 1, 4], [5, 4, 2]])
TRAILS = [(), (1,), (3,), (6,), (5,), (1, 1), (2, 3), (6, 6), (3, 3), (4, 1), (1, 7), (2, 3, 2), (0,), (2, 0), (400,)]
# batches seen less often (deep, long)
RARE = [(2, 1, 2, 2), (2, 2, 1, 3, 2), (1500,), (30, 41), (1, 2, 1, 1), (9001,)]
LAYOUTS = ["C", "C", "F", "strided", "reversed", "readonly"]


def up2(a):
    "(6, ...) -> (3, 3, ...)"
    out = np.empty((3, 3, *a.shape[1:]), dtype=a.dtype)
    for m, (i, j) in enumerate(PAIRS):
        out[i, j] = out[j, i] = a[m]
    return out


def down2(A):
    return np.array([A[i, j] for i, j in PAIRS]).reshape(6, *A.shape[2:])


def up4(a):
    "(6, 6, ...) -> (3, 3, 3, 3, ...)"
    out = np.empty((3, 3, 3, 3, *a.shape[2:]), dtype=a.dtype)
    for m, (i, j) in enumerate(PAIRS):
        for n, (k, l) in enumerate(PAIRS):
            for p, q in {(i, j), (j, i)}:
                for r, s in {(k, l), (l, k)}:
                    out[p, q, r, s] = a[m, n]
    return out


def down4(A):
    out = np.empty((6, 6, *A.shape[4:]), dtype=A.dtype)
    for m, (i, j) in enumerate(PAIRS):
        for n, (k, l) in enumerate(PAIRS):
            out[m, n] = A[i, j, k, l]
    return out


KINDS = ["normal", "spd", "indefinite", "rank-one", "zero", "diagonal", "identity", "integer",
         "mixed", "repeated", "triple", "negative", "tiny", "huge", "near-repeated", "sparse", "shear", "traceless", "plane"]


def one(rng, kind):
    "One symmetric tensor (3, 3)."
    n = rng.normal(size=(3, 3))
    s = (n + n.T) / 2
    Q = rotation(rng)
    if kind == "normal" or kind == "indefinite":
        return s
    if kind == "spd":
        return n @ n.T + 0.3 * np.eye(3)
    if kind == "rank-one":
        return np.outer(n[0], n[0])
    if kind == "zero":
        return np.zeros((3, 3))
    if kind == "diagonal":
        return np.diag(n[0])
    if kind == "positive diagonal":
        return np.diag(np.exp(n[0]))
    if kind == "positive aligned":  # one of the axes is a principal one
        i = rng.permutation(3)
        s = n @ n.T + 0.3 * np.eye(3)
        s[i[0], i[1:]] = s[i[1:], i[0]] = 0
        return s
    if kind == "identity":
        return np.eye(3) * rng.choice([1.0, -1.0, 2.5])
    if kind == "integer":
        k = rng.integers(-4, 5, (3, 3)).astype(float)
        return k + k.T
    if kind == "mixed":
        m = 10.0 ** rng.uniform(-8, 8, (3, 3))
        m = np.maximum(m, m.T)
        return s * m
    if kind in ("repeated", "near-repeated"):
        a, b = rng.uniform(0.3, 3, 2)
        g = 0.0 if kind == "repeated" else 10.0 ** rng.uniform(-16, -3)
        A = Q @ np.diag([a, a * (1 + g), b]) @ Q.T
        return (A + A.T) / 2
    if kind == "triple":
        return np.eye(3) * rng.uniform(-3, 3)
    if kind == "negative":
        return -(n @ n.T) - 0.2 * np.eye(3)
    if kind == "tiny":
        return s * 10.0 ** rng.uniform(-60, -20)
    if kind == "huge":
        return s * 10.0 ** rng.uniform(20, 60)
    if kind == "shear":
        return s - np.diag(np.diag(s))
    if kind == "traceless":
        k = rng.integers(-4, 5, (3, 3)).astype(float)
        k = k + k.T
        k[2, 2] = -k[0, 0] - k[1, 1]
        return k
    if kind == "plane":  # nothing out of plane
        s[2] = s[:, 2] = 0
        return s
    if kind == "sparse":
        return _sym(s, rng)
    raise KeyError(kind)


def _sym(s, rng):
    m = np.triu(rng.integers(0, 2, (3, 3)))
    return s * (m + m.T > 0)


def tensor2(rng, trail, kinds=None, layout=None):
    "(3, 3, *trail) symmetric and the same in reduced storage with some memory layout."
    kinds = KINDS if kinds is None else kinds
    n = int(np.prod(trail, dtype=int))
    if rng.integers(3):
        X = np.array([one(rng, str(rng.choice(kinds))) for _ in range(n)])
    else:
        k = str(rng.choice(kinds))
        X = np.array([one(rng, k) for _ in range(n)])
    X = X.reshape(n, 3, 3)
    X = np.moveaxis(X, 0, -1).reshape(3, 3, *trail)
    layout = str(rng.choice(LAYOUTS)) if layout is None else layout
    return X, memory_layout(rng, down2(X), layout)


def tensor4(rng, trail, major=False):
    n = rng.normal(size=(6, 6, *trail)) * 10.0 ** rng.integers(-6, 7)
    if major:
        n = n + np.swapaxes(n, 0, 1)
    return up4(n), memory_layout(rng, n, str(rng.choice(LAYOUTS)))


def shrink(rng, trail):
    "The trail with some axes set to one (to be broadcast)."
    return tuple(1 if rng.integers(2) else t for t in trail)
