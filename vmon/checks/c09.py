"""C09: built-in models return the derivatives of their documented energies."""

import itertools

import numpy as np

from ..env import SEED, hel, pick
from ..jets import Jet, full
from ..materials import ORDER6, TOD, UserInvariants, make_tod, ogden_terms, tod_terms  # noqa: F401
from ..report import FAILED
from ..states import TRAILS

RULE = (
    "all 32 patterns of zero / non-zero parameters x strain mode x number types x argument "
    "shapes for the third-order-deformation model, Ogden with 0..6 terms; every returned "
    "derivative is compared with the exact derivative of the documented energy, an absent one "
    "with zero; distinct = (model, parameters, argument shape)"
)

MAG = dict(C10=0.5, C01=0.3, C11=0.05, C20=0.1, C30=0.02)


def number(rng, mag, kind):
    x = mag * rng.uniform(0.2, 3) * rng.choice([1, -1])
    if kind == "int":
        return int(rng.choice([-3, -2, -1, 1, 2, 5]))
    if kind == "numpy":
        return np.float64(x)
    if kind == "npint":
        return np.int64(rng.choice([-4, -1, 1, 3]))
    if kind == "tiny":
        return float(x * 10.0 ** rng.uniform(-30, -6))
    if kind == "huge":
        return float(x * 10.0 ** rng.uniform(3, 12))
    return float(x)


def sums(terms, args):
    "Summed value, gradient, hessian of terms and the sizes without cancellation."
    x = Jet.variables(*args)
    g, h, gs, hs = 0.0, 0.0, 0.0, 0.0
    for t in terms(*x):
        t = full(t, x[0])
        g, h = g + t.g, h + t.h
        gs, hs = gs + np.abs(t.g), hs + np.abs(t.h)
    return g, h, gs, hs


def compare(R, got, want, size, mech, msg, ctx, rel=1e-13):
    """got: None, scalar or array broadcastable to want's shape.  size: magnitude of the
    terms that make up ``want`` (their round-off is what is allowed)."""
    if got is None:
        R.bump("absent")
        R.check(not np.any(want), f"{mech}:absent", f"{msg} is absent but not zero: {np.abs(want).max() if np.size(want) else 0}", **ctx)
        return
    R.bump("present")
    try:
        got = np.broadcast_to(np.asarray(got, dtype=float), np.shape(want))
    except ValueError:
        R.violation(f"{mech}:shape", f"{msg} of shape {np.shape(got)} for arguments {np.shape(want)}", **ctx)
        return
    R.close(got, want, size, rel, mech, msg, **ctx)


def tod(R, rng, pattern, strain, kind, trail, zero):
    C = {}
    for on, n in zip(pattern, TOD):
        if on:
            C[n] = number(rng, MAG[n], kind)
        elif zero is not None:
            C[n] = zero
    ctx = {"model": "tod", "C": {k: repr(v) for k, v in C.items()}, "strain": strain, "trail": trail}
    m = R.call("tod:init", lambda: make_tod(C, strain), ctx=ctx)
    if m is FAILED:
        return
    o = 0.0 if strain else 3.0
    k = rng.integers(5)
    if k == 0:
        args = rng.uniform(-3, 12, (3, *trail))
    elif k == 4:  # of large stretches
        args = 10.0 ** rng.uniform(1, 3.5, (3, *trail))
    elif k == 1:  # near the undeformed state
        args = o + 10.0 ** rng.uniform(-9, -1, (3, *trail)) * rng.choice([-1, 1], (3, *trail))
    elif k == 2:  # exactly undeformed in places
        args = np.where(rng.uniform(size=(3, *trail)) < 0.5, o, rng.uniform(0, 20, (3, *trail)))
    else:
        args = rng.uniform(3, 60, (3, *trail))
    args = [np.asarray(a) for a in args]
    rel = 1e-13
    f = int(rng.integers(8))
    if f == 0:  # whole numbers
        args = [np.rint(a).astype(int) for a in args]
    elif f == 1 and kind in ("float", "int") and k != 1:  # the model's precision is that of its arguments
        args = [a.astype(np.float32) for a in args]
        rel = 1e-5
    given = [a.item() for a in args] if trail == () and rng.integers(2) else args
    ctx["arguments"] = args[0].dtype.name
    args = [np.array(a, dtype=float) for a in args]
    sv = [None, np.arange(4.0), "state", np.ones((2, *trail))][rng.integers(4)]
    svc = np.array(sv, copy=True) if isinstance(sv, np.ndarray) else sv
    # size of the terms: offsets enter before the powers
    Cf = {n: float(v) for n, v in C.items()}
    g, h, _, _ = sums(tod_terms(Cf, strain), args)
    _, _, gs, hs = sums(tod_terms({n: abs(v) for n, v in Cf.items()}, True), [np.abs(a) + o for a in args])
    if rng.integers(2):  # in any order
        R.call("tod:hessian", m.hessian, *given, sv, ctx=ctx)
    G = R.call("tod:gradient", m.gradient, *given, sv, ctx=ctx)
    H = R.call("tod:hessian", m.hessian, *given, sv, ctx=ctx)
    if G is not FAILED and R.check(len(G) == 4, "tod:gradient:count", f"{len(G)} entries", **ctx):
        for i in range(3):
            compare(R, G[i], g[i], gs[i], f"tod:dW/dI{i + 1}", f"dW/dI{i + 1}", ctx, rel)
        if isinstance(sv, np.ndarray):
            R.check(isinstance(G[3], np.ndarray) and np.array_equal(G[3], svc) and np.array_equal(sv, svc),
                    "tod:statevars", "state variables changed", **ctx)
        else:
            R.check(G[3] is sv or G[3] == sv, "tod:statevars", f"state variables changed to {G[3]!r}", **ctx)
    if H is not FAILED and R.check(len(H) == 6, "tod:hessian:count", f"{len(H)} entries", **ctx):
        for (i, j), v in zip(ORDER6, H):
            compare(R, v, h[i, j], hs[i, j], f"tod:d2W/dI{i + 1}dI{j + 1}", f"d2W/dI{i + 1}dI{j + 1}", ctx, rel)
    for a, b in zip(args, given):
        R.check(np.array_equal(a, b), "tod:arguments", "an argument was changed", **ctx)
    for n, v in C.items():
        R.check(not hasattr(m, n) or getattr(m, n) == v, "tod:parameter", f"parameter {n} changed", **ctx)
    R.event((pattern, strain, kind, trail), max(1, int(np.prod(trail))))


def ogden(R, rng, n, kind, trail):
    mu = [number(rng, 1.0, kind if kind != "int" or rng.integers(2) else "float") for _ in range(n)]
    al = [[1, 2, -2, 4, -4, 3, 6, -1][rng.integers(8)] if kind in ("int", "npint") or rng.integers(3) == 0
          else float(rng.choice([rng.uniform(-6, -0.2), rng.uniform(0.2, 8), 1.0, 2.0])) for _ in range(n)]
    for i in range(n):
        if rng.integers(6) == 0:
            mu[i] = 0
        if kind not in ("int", "npint") and rng.integers(5) == 0:  # almost an integer (one, zero)
            al[i] = float(rng.choice([1, 2, 1, -1, -2, 4, 3]) + rng.choice([1, -1]) * 10.0 ** rng.uniform(-9, -3))
        if kind not in ("int", "npint") and rng.integers(8) == 0:  # small or large
            al[i] = float(rng.choice([1, -1]) * (10.0 ** rng.uniform(-8, -0.5) if rng.integers(3) else rng.uniform(8, 25)))
    if n > 1 and rng.integers(5) == 0:  # (almost) equal exponents
        al[-1] = type(al[0])(al[0]) if kind in ("int", "npint") or rng.integers(2) else al[0] * (1 + 1e-7)
    box = [list, tuple, np.array][rng.integers(3)]
    ctx = {"model": "ogden", "mu": repr(mu), "alpha": repr(al), "container": box.__name__, "trail": trail}
    b_mu, b_al = box(mu), box(al)
    keep = [np.array(b_mu, copy=True), np.array(b_al, copy=True)]
    m = R.call("ogden:init", lambda: hel.models.stretches.Ogden(mu=b_mu, alpha=b_al), ctx=ctx)
    if m is FAILED:
        return
    w = 1.6 if rng.integers(4) else 2.7
    lam = np.exp(rng.uniform(-w, w, (3, *trail)))
    if rng.integers(12) == 0 and not any(float(a) != int(a) or a < 1 for a in al):  # whole numbers
        lam = rng.integers(1, 4, (3, *trail)).astype(int)
    if rng.integers(3) == 0:
        lam[1] = lam[0]
    if rng.integers(5) == 0:
        lam[...] = 1.0
    lam0 = lam.copy()
    sv = [None, np.arange(3.0)][rng.integers(2)]
    if rng.integers(2):
        R.call("ogden:hessian", m.hessian, lam, sv, ctx=ctx)
    G = R.call("ogden:gradient", m.gradient, lam, sv, ctx=ctx)
    H = R.call("ogden:hessian", m.hessian, lam, sv, ctx=ctx)
    fm, fa = [float(x) for x in mu], [float(x) for x in al]
    g, h, gs, hs = sums(ogden_terms(fm, fa), list(lam0)) if n else (np.zeros((3, *trail)), np.zeros((3, 3, *trail)), 1.0, 1.0)
    gs, hs = np.broadcast_to(gs, g.shape), np.broadcast_to(hs, h.shape)
    # (alpha - 1) cancels near alpha = 1: allow round-off of its size
    hs = hs + np.max(gs, axis=0) / lam0.min(axis=0)
    if G is not FAILED and R.check(len(G) == 2, "ogden:gradient:count", f"{len(G)} entries", **ctx):
        for i in range(3):
            compare(R, G[0][i], g[i], gs[i], "ogden:dW/dl", f"dW/dl{i + 1}", ctx)
        R.check(G[1] is sv or np.array_equal(G[1], sv), "ogden:statevars", "state variables changed", **ctx)
    if H is not FAILED and R.check(len(H) == 6, "ogden:hessian:count", f"{len(H)} entries", **ctx):
        for (i, j), v in zip(ORDER6, H):
            compare(R, v, h[i, j], hs[i, j], "ogden:d2W/dl2" if i == j else "ogden:d2W/dldl'", f"d2W/dl{i + 1}dl{j + 1}", ctx)
    R.check(np.array_equal(lam, lam0), "ogden:arguments", "the stretches were changed", **ctx)
    R.check(np.array_equal(keep[0], np.asarray(b_mu)) and np.array_equal(keep[1], np.asarray(b_al)),
            "ogden:parameter", "parameters changed", **ctx)
    R.event((repr(mu), repr(al), trail), max(1, int(np.prod(trail))))


def ogden_points(R, rng, n):
    "Parameters given per point of the batch."
    for i in range(n):
        trail = [(3,), (5,), (2, 4), (8, 5)][i % 4]
        k = 1 + i % 3
        mu = [rng.uniform(0.2, 2, trail) if rng.integers(3) else float(rng.uniform(0.2, 2)) for _ in range(k)]
        al = [rng.uniform(1.2, 5, trail) * rng.choice([-1, 1]) if rng.integers(3) else float(rng.uniform(1.2, 5)) for _ in range(k)]
        lam = np.exp(rng.uniform(-1, 1, (3, *trail)))
        ctx = {"model": "ogden", "mu": mu, "alpha": al, "lam": lam}
        m = R.call("ogden:points:init", lambda: hel.models.stretches.Ogden(mu, al), ctx=ctx)
        G, H = (R.call(f"ogden:points:{w}", getattr(m, w), lam, None, ctx=ctx) for w in ("gradient", "hessian"))
        for a in range(3):
            g = [2 * u / e * lam[a] ** (e - 1) for u, e in zip(mu, al)]
            h = [2 * u / e * (e - 1) * lam[a] ** (e - 2) for u, e in zip(mu, al)]
            for got, want, what in ((G if G is FAILED else G[0][a], g, "dW/dl"), (H if H is FAILED else H[a], h, "d2W/dl2")):
                if got is not FAILED:
                    compare(R, got, sum(want), sum(np.abs(w) for w in want), f"ogden:points:{what}", f"{what}{a + 1}", ctx, 1e-12)
        R.event(("ogden points", k, trail), int(np.prod(trail)))


def run(R):
    rng = np.random.default_rng([SEED, 9])
    R.require("present", 500)
    R.require("absent", 200)
    kinds = ["float", "int", "numpy", "npint", "tiny", "huge"]
    for rep in range(pick(2, 60)):
        for pattern in itertools.product((0, 1), repeat=5):
            for strain in (False, True):
                for kind in kinds:
                    trail = (*TRAILS, (300,), (20, 15))[rng.integers(len(TRAILS) + 2)]
                    zero = [None, 0, 0.0, -0.0, np.float64(0)][rng.integers(5)]
                    tod(R, rng, pattern, strain, kind, trail, zero)
    ogden_points(R, np.random.default_rng([SEED, 9, 1]), pick(40, 1000))
    for rep in range(pick(600, 20000)):
        ogden(R, rng, int(rng.integers(0, 7)), kinds[rep % 6] if kinds[rep % 6] != "huge" else "float",
              TRAILS[rng.integers(len(TRAILS))] if rep % 50 else (300,))
    R.sample({"model": "tod", "patterns": 32, "modes": 2, "number types": kinds})
    R.sample({"model": "ogden", "terms": "0..6"})
