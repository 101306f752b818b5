"""C12: reduced Voigt storage and products equal full tensor algebra."""

import numpy as np

from ..env import SEED, hel, pick
from ..report import FAILED
from ..voigt import RARE, TRAILS, down2, down4, shrink, tensor2, tensor4, up2, up4

hm = hel.math

RULE = (
    "every function of the reduced-storage algebra on unequal, identical, indefinite, rank-one, "
    "zero, badly scaled operands, 21 batch shapes (scalars, empty, five axes, 9001 points) with broadcasting, points beside a meaningless one, memory layouts, with and "
    "without destination array; each observed result is compared with the full index "
    "expression; distinct = (function, batch shapes, operand case)"
)


def es(spec, *x):
    return np.einsum(spec, *x)


def crossed(A, B, e):
    return (e("ik...,jl...->ijkl...", A, B) + e("il...,kj...->ijkl...", A, B)
            + e("ik...,jl...->ijkl...", B, A) + e("il...,kj...->ijkl...", B, A)) / 4


def check(R, rng, name, fun, full, ops, trails, out_shape=None, lead=0, ctx=None):
    """fun(**out) is observed; ``full(*ops)`` is the index expression.  Round-off allowed
    relative to the same expression of absolute values."""
    ctx = {"function": name, "batch": [list(t) for t in trails], **(ctx or {})}
    want = full(*ops)
    size = full(*[np.abs(x) for x in ops])
    got = R.call(name, fun, ctx=ctx)
    R.event((name, tuple(trails)), 1)
    R.bump(f"observed:{name}")
    if got is not FAILED:
        got = np.asarray(got)
        R.close(got, want, size, 1e-13, name, name, **ctx)
    return got, want, size, ctx


def with_out(R, rng, name, fun, want, size, ctx, shape):
    "The destination array holds the result, which is also returned."
    for style in ("C", "F", "strided", "dirty"):
        if style == "strided":
            big = np.full(tuple(2 * s for s in shape), np.nan)
            out = big[tuple(slice(None, None, 2) for _ in shape)]
        else:
            out = np.full(shape, np.nan if style != "dirty" else 7.0, order="F" if style == "F" else "C")
        c = {**ctx, "out": style}
        got = R.call(f"{name}:out", lambda: fun(out), ctx=c)
        if got is FAILED:
            continue
        R.bump("out")
        R.close(np.asarray(got), want, size, 1e-13, f"{name}:out:returned", "returned value", **c)
        yield out, c


def products(R, rng, trail, case):
    ta, tb = (trail, trail) if case != "broadcast" else (shrink(rng, trail), shrink(rng, trail))
    A, a = tensor2(rng, ta)
    B, b = tensor2(rng, tb)
    if case == "same object":
        B, b = A, a
    elif case == "equal":
        B, b = A, a.copy()
    elif case == "close":  # nearly the same tensor
        b = a * (1 + 10.0 ** rng.uniform(-10, -2) * rng.uniform(-1, 1, a.shape))
        B = up2(b)
    elif case == "multiple":
        b = a * rng.choice([-1.0, 2.0, 0.5])
        B = up2(b)
    elif case == "identity":
        b = hm.eye(a)
        B = up2(b)
    elif case == "view":  # one operand is a view of the other
        b = a[:]
        B = A
    elif case == "reversed view":
        b = a[..., ::-1] if trail else a
        B = up2(b)
    elif case == "shifted view":  # operands overlap in memory
        base = rng.normal(size=(6, *trail[:-1], (trail[-1] if trail else 0) + 1))
        a, b = (base[..., :-1], base[..., 1:]) if trail else (base[:, 0], base[:, 0])
        A, B = up2(a), up2(b)
    elif case == "shifted components":
        base = rng.normal(size=(7, *trail))
        a, b = base[:-1], base[1:]
        A, B = up2(a), up2(b)
    a0, b0 = a.copy(), b.copy()
    tr = np.broadcast_shapes(a.shape[1:], b.shape[1:])
    c = {"case": case}
    t = (ta, b.shape[1:])
    check(R, rng, "dot", lambda: hm.dot(a, b), lambda x, y: es("ik...,kj...->ij...", x, y), (A, B), t, ctx=c)
    check(R, rng, "ddot22", lambda: hm.ddot(a, b), lambda x, y: es("ij...,ij...->...", x, y), (A, B), t, ctx=c)
    for name, fun, full, red in (
        ("dya", hm.dya, lambda x, y: es("ij...,kl...->ijkl...", x, y), True),
        ("cdya", hm.cdya, lambda x, y: crossed(x, y, es), True),
        ("cdya_ik", hm.cdya_ik, lambda x, y: es("ik...,jl...->ijkl...", x, y), False),
        ("cdya_il", hm.cdya_il, lambda x, y: es("il...,kj...->ijkl...", x, y), False),
    ):
        f = (lambda x, y, full=full: down4(full(x, y))) if red else full
        got, want, size, ctx = check(R, rng, name, lambda: fun(a, b), f, (A, B), t, ctx=c)
        if rng.integers(2):
            shape = (6, 6, *tr)
            # the destination of the unreduced products holds the reduced dyadic product;
            # only its reuse is claimed, not what it holds
            for out, cc in with_out(R, rng, name, lambda o: fun(a, b, out=o), want, size, ctx, shape):
                if red:
                    R.close(out, np.broadcast_to(want, out.shape), np.broadcast_to(size, out.shape), 1e-13, f"{name}:out:filled", "destination array", **cc)
    R.check(np.array_equal(a, a0) and np.array_equal(b, b0), "operands", "an operand was changed", **c)


def fourth(R, rng, trail, case):
    ta, tb = (trail, trail) if case != "broadcast" else (shrink(rng, trail), shrink(rng, trail))
    A, a = tensor2(rng, ta)
    X4, x4 = tensor4(rng, tb, major=bool(rng.integers(3) == 0))
    Y4, y4 = tensor4(rng, ta)
    if case == "same object":
        Y4, y4 = X4, x4
    keep = [a.copy(), x4.copy(), y4.copy()]
    c = {"case": case}
    check(R, rng, "ddot24", lambda: hm.ddot(a, x4, mode=(2, 4)), lambda x, y: down2(es("ij...,ijkl...->kl...", x, y)), (A, X4), (ta, tb), ctx=c)
    check(R, rng, "ddot42", lambda: hm.ddot(x4, a, mode=(4, 2)), lambda x, y: down2(es("ijkl...,kl...->ij...", x, y)), (X4, A), (tb, ta), ctx=c)
    check(R, rng, "ddot44", lambda: hm.ddot(x4, y4, mode=(4, 4)), lambda x, y: down4(es("ijkl...,klmn...->ijmn...", x, y)), (X4, Y4), (tb, ta), ctx=c)
    check(R, rng, "transpose", lambda: hm.transpose(x4), lambda x: down4(es("ijkl...->klij...", x)), (X4,), (tb,), ctx=c)
    check(R, rng, "astensor4", lambda: hm.astensor(x4, mode=4), lambda x: x, (X4,), (tb,), ctx=c)
    check(R, rng, "asvoigt4", lambda: hm.asvoigt(X4, mode=4), lambda x: down4(x), (X4,), (tb,), ctx=c)
    R.check(np.array_equal(hm.asvoigt(hm.astensor(x4, mode=4), mode=4), x4), "roundtrip4", "conversion there and back", **c)
    R.check(np.array_equal(hm.astensor(hm.asvoigt(X4, mode=4), mode=4), X4), "roundtrip4", "conversion back and forth", **c)
    R.check(all(np.array_equal(p, q) for p, q in zip(keep, (a, x4, y4))), "operands", "an operand was changed", **c)


def storage(R, rng, trail):
    A, a = tensor2(rng, trail)
    A0, a0 = A.copy(), a.copy()
    check(R, rng, "astensor2", lambda: hm.astensor(a), lambda x: x, (A,), (trail,))
    check(R, rng, "astensor2", lambda: hm.astensor(a, mode=2), lambda x: x, (A,), (trail,))
    check(R, rng, "asvoigt2", lambda: hm.asvoigt(A), lambda x: down2(x), (A,), (trail,))
    check(R, rng, "asvoigt2", lambda: hm.asvoigt(A, mode=2), lambda x: down2(x), (A,), (trail,))
    R.check(np.array_equal(hm.asvoigt(hm.astensor(a)), a), "roundtrip2", "conversion there and back")
    R.check(np.array_equal(hm.astensor(hm.asvoigt(A)), A), "roundtrip2", "conversion back and forth")
    k = rng.integers(-9, 9, (6, *trail))  # integers keep their value
    R.check(np.array_equal(hm.asvoigt(hm.astensor(k)), k), "roundtrip2:int", "integer conversion")
    # identity of the operand's batch dimension
    e = R.call("eye", hm.eye, a)
    if e is not FAILED:
        want = np.array([1, 1, 1, 0, 0, 0.0]).reshape(6, *np.ones(len(trail), dtype=int))
        try:
            ok = np.array_equal(np.broadcast_to(e, a.shape), np.broadcast_to(want, a.shape)) and np.ndim(e) == a.ndim
        except ValueError:
            ok = False
        R.check(ok, "eye", f"identity for batch {trail}")
    e = R.call("eye", hm.eye)
    if e is not FAILED:
        R.check(np.array_equal(e, [1, 1, 1, 0, 0, 0]), "eye:none", "identity")
    # identity element of the products (observed together)
    i = hm.eye(a)
    R.close(np.asarray(hm.ddot(hm.cdya(i, i), a, mode=(4, 2))), a, np.abs(a), 1e-13, "identity4", "1 (.) 1 : A = A")
    R.event(("storage", trail), 8)
    R.check(np.array_equal(A, A0) and np.array_equal(a, a0), "operands", "an operand was changed")


def triangles(R, rng, trail):
    for dim in (6, 6, 3, 2, 4):
        X = rng.normal(size=(dim, dim, *trail))
        up = np.triu_indices(dim, 1)
        for name, fun, lower in (("tril_from_triu", hm.tril_from_triu, True), ("triu_from_tril", hm.triu_from_tril, False)):
            want = X.copy()
            for i, j in zip(*up):
                if lower:
                    want[j, i] = X[i, j]
                else:
                    want[i, j] = X[j, i]
            kw = {} if dim == 6 and rng.integers(2) else {"dim": dim}
            x = X.copy()
            ctx = {"function": name, "dim": dim, "batch": trail}
            got = R.call(name, lambda: fun(x, **kw), ctx=ctx)
            if got is not FAILED:
                R.check(np.array_equal(got, want), name, "copied triangle", **ctx)
                R.check(np.array_equal(x, X), f"{name}:operand", "the operand was changed", **ctx)
            got = R.call(name, lambda: fun(x, out=x, **kw), ctx=ctx)  # in place
            if got is not FAILED:
                R.check(np.array_equal(got, want) and np.array_equal(x, want), f"{name}:inplace", "copied triangle in place", **ctx)
            out = np.full_like(X, 5.0)
            got = R.call(name, lambda: fun(X.copy(), out=out, **kw), ctx=ctx)
            if got is not FAILED:
                ok = all(np.array_equal(out[j, i] if lower else out[i, j], X[i, j] if lower else X[j, i]) for i, j in zip(*up))
                R.check(ok, f"{name}:out", "copied triangle in the destination", **ctx)
            R.event((name, dim, trail), 3)
            R.bump(f"observed:{name}")


def owners(R, rng, trail):
    "What the caller does to a result changes no later result."
    (A, a), (B, b) = [tensor2(rng, trail, kinds=("normal", "spd", "indefinite")) for _ in range(2)]
    X4, x4 = tensor4(rng, trail)
    i0 = [1, 1, 1, 0, 0, 0]
    for name, fun, want in (
        ("eye", lambda: hm.eye(a), np.array(i0, dtype=float).reshape(6, *np.ones(len(trail), dtype=int))),
        ("eye", lambda: hm.eye(), np.array(i0, dtype=float)),
        ("dot", lambda: hm.dot(a, b), es("ik...,kj...->ij...", A, B)),
        ("ddot22", lambda: hm.ddot(a, b), es("ij...,ij...->...", A, B)),
        ("ddot42", lambda: hm.ddot(x4, a, mode=(4, 2)), down2(es("ijkl...,kl...->ij...", X4, A))),
        ("ddot24", lambda: hm.ddot(a, x4, mode=(2, 4)), down2(es("ij...,ijkl...->kl...", A, X4))),
        ("ddot44", lambda: hm.ddot(x4, x4, mode=(4, 4)), down4(es("ijkl...,klmn...->ijmn...", X4, X4))),
        ("dya", lambda: hm.dya(a, b), down4(es("ij...,kl...->ijkl...", A, B))),
        ("cdya", lambda: hm.cdya(a, b), down4(crossed(A, B, es))),
        ("cdya_ik", lambda: hm.cdya_ik(a, b), es("ik...,jl...->ijkl...", A, B)),
        ("cdya_il", lambda: hm.cdya_il(a, b), es("il...,kj...->ijkl...", A, B)),
        ("astensor", lambda: hm.astensor(a), A),
        ("astensor4", lambda: hm.astensor(x4, mode=4), X4),
        ("asvoigt", lambda: hm.asvoigt(A), a),
        ("asvoigt4", lambda: hm.asvoigt(X4, mode=4), x4),
        ("tril_from_triu", lambda: hm.tril_from_triu(x4), None),
        ("triu_from_tril", lambda: hm.triu_from_tril(x4), None),
    ):
        for again in range(2):
            got = R.call(f"owner:{name}", fun, ctx={"function": name, "batch": trail})
            if got is FAILED:
                break
            got = np.asarray(got)
            if want is None:
                want = got.copy()
            R.close(got, want, 1 + np.abs(want).max(initial=0), 1e-12, f"owner:{name}",
                    "after an earlier result was overwritten" if again else "", function=name, batch=trail)
            if any(np.may_share_memory(got, y) for y in (a, b, x4, A, X4)) or not got.flags.writeable or got.ndim == 0:
                break
            got[...] = np.nan
            R.bump("overwritten")
    R.event(("owners", trail), 17)


def number_types(R, rng, trail):
    "Integer-typed tensors (alone and together with floating ones) are tensors like others."
    for kinds in (("int64", "int64"), ("int64", "float64"), ("float64", "int64"), ("int32", "int64"), ("float32", "float32")):
        (A, a), (B, b) = [tensor2(rng, trail, kinds=("integer", "identity", "zero"), layout="C") for _ in range(2)]
        x4 = rng.integers(-5, 6, (6, 6, *trail)).astype(float)
        k = rng.integers(1, 3)
        a, b = np.rint(k * a), np.rint(k * b)
        A, B, X4 = up2(a), up2(b), up4(x4)
        x, y, z = a.astype(kinds[0]), b.astype(kinds[1]), x4.astype(kinds[0])
        keep = x.copy(), y.copy(), z.copy()
        for name, fun, want in (
            ("dot", lambda: hm.dot(x, y), es("ik...,kj...->ij...", A, B)),
            ("ddot22", lambda: hm.ddot(x, y), es("ij...,ij...->...", A, B)),
            ("ddot42", lambda: hm.ddot(z, y, mode=(4, 2)), down2(es("ijkl...,kl...->ij...", X4, B))),
            ("ddot24", lambda: hm.ddot(y, z, mode=(2, 4)), down2(es("ij...,ijkl...->kl...", B, X4))),
            ("ddot44", lambda: hm.ddot(z, z, mode=(4, 4)), down4(es("ijkl...,klmn...->ijmn...", X4, X4))),
            ("dya", lambda: hm.dya(x, y), down4(es("ij...,kl...->ijkl...", A, B))),
            ("cdya", lambda: hm.cdya(x, y), down4(crossed(A, B, es))),
            ("cdya same", lambda: hm.cdya(x, x), down4(crossed(A, A, es))),
            ("cdya_ik", lambda: hm.cdya_ik(x, y), es("ik...,jl...->ijkl...", A, B)),
            ("cdya_il", lambda: hm.cdya_il(x, y), es("il...,kj...->ijkl...", A, B)),
            ("astensor", lambda: hm.astensor(x), A),
            ("astensor4", lambda: hm.astensor(z, mode=4), X4),
            ("asvoigt4", lambda: hm.asvoigt(X4.astype(kinds[0]), mode=4), x4),
            ("transpose", lambda: hm.transpose(z), np.swapaxes(x4, 0, 1)),
        ):
            c = {"function": name, "types": list(kinds), "batch": trail}
            got = R.call(f"types:{name}", fun, ctx=c)
            if got is not FAILED:
                R.close(np.asarray(got, dtype=float), want, 1 + np.abs(want).max(initial=0), 1e-12 if "float32" not in kinds else 1e-5, f"types:{name}", name, **c)
        R.check(all(np.array_equal(p, q) for p, q in zip(keep, (x, y, z))), "types:operands", "an operand was changed")
        R.event(("types", kinds, trail), 14)


def neighbours(R, rng, trail):
    "A meaningless value at one point of a batch says nothing about the other points."
    n = int(np.prod(trail))
    (A, a), (B, b) = [tensor2(rng, trail, kinds=("normal", "spd", "integer", "shear"), layout="C") for _ in range(2)]
    x4 = rng.normal(size=(6, 6, *trail))
    X4 = up4(x4)
    bad = np.unravel_index(rng.integers(n), trail)
    value = rng.choice([np.nan, np.inf])
    good = np.ones(trail, dtype=bool)
    good[bad] = False
    x, y, z = a.copy(), b.copy(), x4.copy()
    which = rng.integers(3)
    if which != 1:
        x[(slice(None), *bad)] = value
        z[(slice(None), slice(None), *bad)] = value
    if which != 0:
        y[(slice(None), *bad)] = value
    for name, fun, want in (
        ("dot", lambda: hm.dot(x, y), es("ik...,kj...->ij...", A, B)),
        ("ddot22", lambda: hm.ddot(x, y), es("ij...,ij...->...", A, B)),
        ("ddot42", lambda: hm.ddot(z, y, mode=(4, 2)), down2(es("ijkl...,kl...->ij...", X4, B))),
        ("ddot24", lambda: hm.ddot(y, z, mode=(2, 4)), down2(es("ij...,ijkl...->kl...", B, X4))),
        ("ddot44", lambda: hm.ddot(z, z, mode=(4, 4)), down4(es("ijkl...,klmn...->ijmn...", X4, X4))),
        ("dya", lambda: hm.dya(x, y), down4(es("ij...,kl...->ijkl...", A, B))),
        ("cdya", lambda: hm.cdya(x, y), down4(crossed(A, B, es))),
        ("cdya same", lambda: hm.cdya(x, x), down4(crossed(A, A, es))),
        ("cdya_ik", lambda: hm.cdya_ik(x, y), es("ik...,jl...->ijkl...", A, B)),
        ("cdya_il", lambda: hm.cdya_il(x, y), es("il...,kj...->ijkl...", A, B)),
        ("astensor", lambda: hm.astensor(x), A),
        ("astensor4", lambda: hm.astensor(z, mode=4), X4),
        ("transpose", lambda: hm.transpose(z), np.swapaxes(x4, 0, 1)),
    ):
        c = {"function": name, "bad": float(value), "batch": trail}
        with np.errstate(all="ignore"):
            got = R.call(f"neighbours:{name}", fun, ctx=c)
        if got is FAILED:
            continue
        got = np.asarray(got, dtype=float)
        if got.shape != want.shape:
            R.check(False, f"neighbours:{name}", f"shape {got.shape} != {want.shape}", **c)
            continue
        g, w = got[..., good], want[..., good]
        R.close(g, w, 1 + np.abs(w).max(initial=0), 1e-12, f"neighbours:{name}", name, **c)
        R.bump("neighbours")
    R.event(("neighbours", trail), 13)


def applications(R, rng, n):
    """Identities of full algebra on results of the observed code, chained (products of
    products), so that consumers of unsymmetric results are seen too."""
    for _ in range(n):
        trail = TRAILS[rng.integers(12)]
        (A, a), (B, b), (C, c) = [tensor2(rng, trail, kinds=("normal", "spd", "integer", "rank-one")) for _ in range(3)]
        P = hm.cdya(a, b)
        Q = hm.dya(b, c)
        got = hm.ddot(hm.ddot(P, Q, mode=(4, 4)), hm.transpose(Q), mode=(4, 4))
        fP, fQ = crossed(A, B, es), es("ij...,kl...->ijkl...", B, C)
        want = es("ijkl...,klmn...,opmn...->ijop...", fP, fQ, fQ)
        sz = es("ijkl...,klmn...,opmn...->ijop...", crossed(abs(A), abs(B), es), abs(fQ), abs(fQ))
        R.close(got, down4(want), down4(sz), 1e-12, "chained", "P : Q : Q^T", batch=trail)
        R.event(("chained", trail), 1)


def run(R):
    rng = np.random.default_rng([SEED, 12])
    for f in ("dot", "ddot22", "ddot24", "ddot42", "ddot44", "dya", "cdya", "cdya_ik", "cdya_il", "transpose", "astensor2", "astensor4", "asvoigt2", "asvoigt4", "tril_from_triu", "triu_from_tril"):
        R.require(f"observed:{f}", 30)
    R.require("out", 100)
    R.require("overwritten", 500)
    R.require("neighbours", 200)
    for rep in range(pick(5, 250)):
        for trail in TRAILS:
            for case in ("unequal", "same object", "equal", "identity", "view", "broadcast", "close", "multiple",
                         "reversed view", "shifted view", "shifted components"):
                products(R, rng, trail, case)
            for case in ("unequal", "same object", "broadcast"):
                fourth(R, rng, trail, case)
            storage(R, rng, trail)
            owners(R, rng, trail)
            number_types(R, rng, trail)
            if rep % 2 == 0:
                triangles(R, rng, trail)
        for trail in ((2,), (5,), (2, 3), (3, 1, 2)):
            neighbours(R, rng, trail)
        for trail in RARE:
            if np.prod(trail) < 100 or rep == 0:
                products(R, rng, trail, "unequal")
                products(R, rng, trail, "same object" if np.prod(trail) > 100 else "broadcast")
                fourth(R, rng, trail, "unequal")
                storage(R, rng, trail)
    applications(R, rng, pick(60, 2000))
    R.sample({"batch shapes": [list(t) for t in TRAILS]})
