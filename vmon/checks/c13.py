"""C13: trace, deviator, determinant, inverse, eigen-decomposition in reduced storage."""

import numpy as np

from ..env import SEED, hel, pick
from ..report import FAILED
from ..voigt import KINDS, RARE, TRAILS, tensor2

hm = hel.math

RULE = (
    "symmetric tensors of 19 kinds (repeated and nearly repeated eigenvalues, indefinite, "
    "rank-one, badly scaled, ...) x 21 batch shapes (scalars, empty, five axes, 9001 points) with singular or meaningless other points x memory layouts x given / own determinant "
    "x destination (none, new, in place); results are compared with full-tensor algebra in "
    "extended precision; distinct = (function, kind, batch shape, variant)"
)

LD = np.longdouble
INVERTIBLE = ["normal", "spd", "indefinite", "diagonal", "identity", "mixed", "repeated", "triple", "negative", "near-repeated", "shear", "traceless"]


def minors(A):
    "Cofactors of full tensors in extended precision and their size without cancellation."
    A = A.astype(LD)
    C = np.empty_like(A)
    S = np.empty_like(A)
    for i in range(3):
        for j in range(3):
            p, q = [k for k in range(3) if k != i]
            r, s = [k for k in range(3) if k != j]
            sg = 1 if (i + j) % 2 == 0 else -1
            C[i, j] = sg * (A[p, r] * A[q, s] - A[p, s] * A[q, r])
            S[i, j] = abs(A[p, r] * A[q, s]) + abs(A[p, s] * A[q, r])
    return C, S


def determinant(A):
    C, S = minors(A)
    A = A.astype(LD)
    d = sum(A[0, j] * C[0, j] for j in range(3))
    s = sum(abs(A[0, j]) * S[0, j] for j in range(3))
    return d, s


def basics(R, rng, trail):
    A, a = tensor2(rng, trail)
    a0 = a.copy()
    ctx = {"batch": trail}
    t = R.call("trace", hm.trace, a, ctx=ctx)
    tr = sum(A[i, i].astype(LD) for i in range(3))
    ts = sum(abs(A[i, i]) for i in range(3))
    if t is not FAILED:
        R.close(np.asarray(t), tr.astype(float), ts, 1e-14, "trace", "trace", **ctx)
    d = R.call("dev", hm.dev, a, ctx=ctx)
    if d is not FAILED:
        want = np.array([(A[i, j].astype(LD) - (tr / 3 if i == j else 0)).astype(float) for i, j in ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2))]).reshape(a.shape)
        size = np.array([abs(A[i, j]) + (ts if i == j else 0) for i, j in ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2))]).reshape(a.shape)
        R.close(np.asarray(d), want, size, 1e-14, "dev", "deviator", **ctx)
    x = R.call("det", hm.det, a, ctx=ctx)
    if x is not FAILED:
        w, s = determinant(A)
        R.close(np.asarray(x), w.astype(float), s.astype(float), 1e-14, "det", "determinant", **ctx)
    R.check(np.array_equal(a, a0), "operands", "an operand was changed", **ctx)
    R.event(("basics", trail), 3)
    R.bump("basics", 3)


def inverses(R, rng, trail):
    A, a = tensor2(rng, trail, kinds=INVERTIBLE)
    n = a[0].size
    d, ds = determinant(A)
    C, S = minors(A)
    with np.errstate(all="ignore"):
        rel = (ds / abs(d)).astype(float)
    ok = np.isfinite(rel) & (rel < 1e11)
    if not ok.all():  # replace (nearly) singular points
        B = np.eye(3).reshape(3, 3, *np.ones(len(trail), dtype=int)) * np.ones(trail)
        A = np.where(ok, A, B)
        from ..voigt import down2

        a = down2(A)
        d, ds = determinant(A)
        C, S = minors(A)
        rel = (ds / abs(d)).astype(float)
    full = (C / d)
    size = (S / abs(d)) + abs(full) * rel
    pairs = ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2))
    want = np.array([full[i, j] for i, j in pairs]).astype(float).reshape(a.shape)
    size = np.array([size[i, j] for i, j in pairs]).astype(float).reshape(a.shape)
    a0 = a.copy()
    variants = [("own", None)]
    det = np.asarray(d.astype(float))
    variants.append(("given", det if trail != () or rng.integers(2) else det.item()))
    variants.append(("given-by-det", hm.det(a)))
    # a determinant that is one number for the batch, as for unimodular tensors or to get
    # multiples of the adjugate
    one = [1.0, 1, float(rng.choice([-2.0, 0.3, 1.7])), np.float64(rng.uniform(0.2, 3)), np.array(rng.uniform(0.2, 3))][rng.integers(5)]
    variants.append(("number", one))
    if trail != () and n:
        variants.append(("broadcast", det.reshape(-1)[:1].reshape((1,) * len(trail)).copy()))
    own = want, size
    for how, dv in variants:
        ctx = {"batch": trail, "determinant": how}
        dv0 = np.array(dv, copy=True) if dv is not None else None
        kw = {} if dv is None else {"determinant": dv}
        want, size = own
        if how in ("number", "broadcast"):
            adj = np.array([C[i, j] for i, j in pairs]).astype(float).reshape(a.shape)
            want = adj / dv
            size = np.array([S[i, j] for i, j in pairs]).astype(float).reshape(a.shape) / np.abs(dv)
        got = R.call("inv", lambda: hm.inv(a, **kw), ctx=ctx)
        if got is not FAILED:
            R.close(np.asarray(got), want, size, 1e-14, f"inv:{how}", "inverse", **ctx)
            R.check(got is not a and not np.shares_memory(got, a), "inv:alias", "the inverse shares memory with the operand", **ctx)
        R.check(np.array_equal(a, a0), "inv:operand", "the operand was changed", **ctx)
        for style in ("C", "F", "strided", "inplace"):
            c = {**ctx, "out": style}
            src = a0.copy()
            if style == "inplace":
                out = src
            elif style == "strided":
                big = np.full(tuple(2 * s for s in a.shape), np.nan)
                out = big[tuple(slice(None, None, 2) for _ in a.shape)]
            else:
                out = np.full(a.shape, np.nan, order=style)
            got = R.call("inv:out", lambda: hm.inv(src, out=out, **kw), ctx=c)
            if got is FAILED:
                continue
            R.close(np.asarray(got), want, size, 1e-14, f"inv:out:{how}:returned", "returned inverse", **c)
            R.close(out, want, size, 1e-14, f"inv:out:{how}:{'in place' if style == 'inplace' else 'new'}", "destination array", **c)
            if style != "inplace":
                R.check(np.array_equal(src, a0), "inv:operand", "the operand was changed", **c)
            R.bump("inv:out")
        if dv is not None:
            R.check(np.array_equal(np.asarray(dv), dv0), "inv:determinant", "the determinant was changed", **ctx)
        R.event(("inv", how, trail), 5)
        R.bump("inv")
    # inverse of the inverse, and the product with the tensor
    R.event(n=n)


def neighbours(R, rng, trail):
    "A singular or meaningless point of a batch says nothing about the other points."
    A, a = tensor2(rng, trail, kinds=("normal", "spd", "indefinite"), layout="C")
    n = int(np.prod(trail))
    d, ds = (x.astype(float) for x in determinant(A))
    C, S = (x.astype(float) for x in minors(A))
    bad = np.unravel_index(rng.integers(n), trail)
    what = str(rng.choice(["zero", "rank one", "nan", "inf"]))
    one = {"zero": np.zeros(6), "rank one": np.array([1.0, 0, 0, 0, 0, 0]), "nan": np.full(6, np.nan), "inf": np.full(6, np.inf)}[what]
    x = a.copy()
    x[(slice(None), *bad)] = one
    good = np.abs(d) > 1e-6 * ds
    good[bad] = False
    pairs = ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2))
    iv = np.array([C[i, j] / d for i, j in pairs]).reshape(a.shape)
    size = np.array([S[i, j] / abs(d) for i, j in pairs]).reshape(a.shape) + np.abs(iv) * ds / abs(d)
    tr = np.asarray(a[0] + a[1] + a[2])
    dv = a.copy()
    dv[:3] -= tr / 3
    one = 1 + np.abs(a).max(axis=0)
    out = np.empty_like(x)
    for name, fun, want, sz in (
        ("trace", lambda: hm.trace(x), tr, one),
        ("dev", lambda: hm.dev(x), dv, np.broadcast_to(one, dv.shape)),
        ("det", lambda: hm.det(x), d, ds),
        ("inv", lambda: hm.inv(x), iv, size),
        ("inv given", lambda: hm.inv(x, determinant=hm.det(x)), iv, size),
        ("inv out", lambda: hm.inv(x, out=out), iv, size),
        ("inv in place", lambda: (lambda y: hm.inv(y, out=y))(x.copy()), iv, size),
    ):
        c = {"function": name, "other point": what, "batch": trail}
        with np.errstate(all="ignore"):
            got = R.call(f"neighbours:{name}", fun, ctx=c)
        if got is FAILED:
            continue
        got = np.asarray(got)
        if R.check(got.shape == want.shape, f"neighbours:{name}", f"shape {got.shape}", **c):
            R.close(got[..., good], want[..., good], sz[..., good], 1e-13, f"neighbours:{name}", name, **c)
        R.bump("neighbours")
    R.event(("neighbours", what, trail), 7)


def scaled(R, rng, n):
    "Determinants and inverses of scaled tensors scale exactly (powers of two)."
    for _ in range(n):
        trail = TRAILS[rng.integers(10)]
        A, a = tensor2(rng, trail, kinds=("spd", "normal"))
        s = 2.0 ** int(rng.integers(-150, 150))
        R.close(np.asarray(hm.det(a * s)), np.asarray(hm.det(a)) * s**3, abs(np.asarray(hm.det(a))) * s**3, 1e-13, "det:scaled", "determinant of a scaled tensor", factor=s)
        i0, i1 = hm.inv(a), hm.inv(a * s)
        m = np.abs(i0).max(axis=0)
        R.close(i1, i0 / s, m / s, 1e-12, "inv:scaled", "inverse of a scaled tensor", factor=s)
        R.event(("scaled", trail), 2)


def number_types(R, rng, trail):
    "Integer-typed tensors are tensors like others (float32 ones in their precision)."
    n = int(np.prod(trail, dtype=int))
    for kind in ("int64", "int32", "float32"):
        k = rng.integers(-2, 3, (n, 3, 3))
        A = k + np.moveaxis(k, 1, 2) + np.diag(rng.integers(5, 9, 3))
        A = np.moveaxis(A, 0, -1).reshape(3, 3, *trail)
        A = np.where(np.abs(determinant(A)[0]) < 0.5, 5 * np.eye(3, dtype=int).reshape(3, 3, *np.ones(len(trail), dtype=int)), A)
        a = np.array([A[i, j] for i, j in ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2))]).reshape(6, *trail).astype(kind)
        a0 = a.copy()
        f = a.astype(float)
        tol = 1e-12 if kind != "float32" else 2e-5
        d, C = determinant(A)[0].astype(float), minors(A)[0].astype(float)
        iv = np.array([C[i, j] / d for i, j in ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2))]).reshape(6, *trail)
        tr = np.asarray(f[0] + f[1] + f[2])
        dv = f.copy()
        dv[:3] -= tr / 3
        out = np.full((6, *trail), np.nan)
        for name, fun, want in (
            ("trace", lambda: hm.trace(a), tr),
            ("det", lambda: hm.det(a), d),
            ("dev", lambda: hm.dev(a), dv),
            ("inv", lambda: hm.inv(a), iv),
            ("inv given", lambda: hm.inv(a, determinant=hm.det(a)), iv),
            ("inv out", lambda: hm.inv(a, out=out), iv),
            ("eigh", lambda: np.einsum("a...,aj...->j...", *hm.eigh(a)), f),
        ):
            c = {"function": name, "type": kind, "batch": trail, "A": a0}
            got = R.call(f"types:{name}", fun, ctx=c)
            if got is not FAILED:
                R.close(np.asarray(got, dtype=float), want, 10 + np.abs(want).max(initial=0) + (600 if name == "det" else 0), tol, f"types:{name}", name, **c)
        R.check(np.array_equal(a, a0), "types:operand", "the operand was changed")
        R.event(("types", kind, trail), 7)
        R.bump("number types")


FUNS = {
    "none": (None, False),
    "sqrt": (np.sqrt, True),
    "square": (lambda x: x**2, False),
    "minus": (lambda x: -x, False),
    "log": (np.log, True),
    "cube": (lambda x: x * x * x, False),
}


def eigen(R, rng, trail, kind):
    name = str(rng.choice(list(FUNS)))
    fun, positive = FUNS[name]
    if positive:
        kind = str(rng.choice(["spd", "repeated", "near-repeated", "positive diagonal", "positive aligned"]))
    A, a = tensor2(rng, trail, kinds=[kind])
    a0 = a.copy()
    ctx = {"kind": kind, "batch": trail, "fun": name, "A": a}
    out = R.call("eigh", lambda: hm.eigh(a) if fun is None else hm.eigh(a, fun=fun), ctx=ctx)
    R.event(("eigh", kind, trail, name), max(1, a[0].size))
    R.bump("eigh")
    if out is FAILED or not R.check(len(out) == 2, "eigh:count", "eigenvalues and bases", **ctx):
        return
    w, M = np.asarray(out[0]), np.asarray(out[1])
    if not R.check(w.shape == (3, *trail) and M.shape == (3, 6, *trail), "eigh:shape", f"shapes {w.shape}, {M.shape}", **ctx):
        return
    if w.size == 0:
        return
    norm = np.abs(A).max(axis=(0, 1)) + 1e-300
    wref = np.moveaxis(np.linalg.eigvalsh(np.moveaxis(A, (0, 1), (-2, -1))), -1, 0)
    raw = hm.eigh(a)[0]
    R.close(raw, wref, norm, 1e-13, "eigh:values", "eigenvalues", **ctx)
    R.check(bool((np.diff(raw, axis=0) >= 0).all()), "eigh:order", "eigenvalues are not ascending", **ctx)
    if fun is not None:
        want = fun(wref)
        h = 1e-13 * norm
        slack = np.abs(fun(wref + h) - want) + np.abs(fun(np.where(wref - h > 0, wref - h, wref) if positive else wref - h) - want)
        R.close(w, want, slack + 1e-13 * np.abs(want) + 1e-300, 2.0, f"eigh:fun:{name}", "mapped eigenvalues", **ctx)
    # orthonormal rank-one eigenbases
    N = np.empty((3, 3, 3, *trail))
    for m, (i, j) in enumerate(((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2))):
        N[:, i, j] = N[:, j, i] = M[:, m]
    I = np.eye(3).reshape(3, 3, *np.ones(len(trail), dtype=int))
    prod = np.einsum("aij...,bjk...->abik...", N, N)
    for p in range(3):
        for q in range(3):
            R.close(prod[p, q], N[p] if p == q else np.zeros_like(N[p]), 1.0, 1e-12, "eigh:bases", f"M{p} M{q}", **ctx)
    R.close(np.einsum("aii...->a...", N), np.ones((3, *trail)), 1.0, 1e-12, "eigh:bases:trace", "trace of the bases", **ctx)
    R.close(N.sum(axis=0), np.broadcast_to(I, N[0].shape), 1.0, 1e-12, "eigh:bases:sum", "sum of the bases", **ctx)
    R.close(np.einsum("a...,aij...->ij...", raw, N), A, norm, 1e-12, "eigh:rebuild", "rebuilt tensor", **ctx)
    # each eigenvalue belongs to its basis
    AN = np.einsum("ij...,ajk...->aik...", A, N)
    R.close(AN, raw[:, None, None] * N, norm, 1e-12, "eigh:pairs", "A M = w M", **ctx)
    if fun is not None and positive:
        B = np.einsum("a...,aij...->ij...", w, N)  # a function of the tensor
        if name == "sqrt":
            R.close(np.einsum("ij...,jk...->ik...", B, B), A, norm, 1e-12, "eigh:sqrt", "square of the square root", **ctx)
    R.check(np.array_equal(a, a0), "eigh:operand", "the operand was changed", **ctx)


def run(R):
    rng = np.random.default_rng([SEED, 13])
    R.require("basics", 100)
    R.require("inv", 100)
    R.require("inv:out", 300)
    R.require("eigh", 200)
    R.require("neighbours", 200)
    R.require("number types", 100)
    for rep in range(pick(10, 300)):
        for trail in TRAILS:
            basics(R, rng, trail)
            inverses(R, rng, trail)
            number_types(R, rng, trail)
        for trail in ((2,), (5,), (2, 3), (3, 1, 2)):
            neighbours(R, rng, trail)
        for trail in RARE:
            if np.prod(trail) < 100 or rep == 0:
                basics(R, rng, trail)
                inverses(R, rng, trail)
                eigen(R, rng, trail, KINDS[rng.integers(len(KINDS))])
        for kind in KINDS:
            for trail in (TRAILS[rng.integers(len(TRAILS))], (int(rng.integers(1, 30)),), ()):
                eigen(R, rng, trail, kind)
    scaled(R, rng, pick(60, 2000))
    R.sample({"kinds": KINDS, "batch shapes": [list(t) for t in TRAILS]})
