"""C14: evaluation is pointwise for any batch shape and memory layout."""

import numpy as np

from ..engine import FAILED, Expected, col, size
from ..env import SEED, pick
from ..materials import (
    ALL_MAKERS, INV_TERMS, SPACES, STR_TERMS, Energy, random_spec, spec_stream, spec_tod, spec_user_inv, spec_user_str,
)
from ..states import LAYOUTS, TRAILS, lay, memory_layout, separated, states, unlay

RULE = (
    "materials of all kinds in every space and configuration: one batch is evaluated in many "
    "shapes, point orders, memory layouts and cut into pieces down to single points; results "
    "must agree point by point and carry the trailing shape of the input; distinct = "
    "(material kind, space, trailing shape, layout, configuration)"
)

SHAPES = [*TRAILS, (7,), (17,), (13, 1, 1), (1, 1, 9), (4, 6), (6, 4), (3, 6), (2, 3, 2, 2), (0,), (2, 0), (0, 3), (1000,), (9, 9)]


def evaluate(R, u, x, ctx, mech, finalized=True):
    "Observed stress and elasticity as (n, ...) arrays, or FAILED."
    out = []
    for name, lead in (("gradient", 2), ("hessian", 4)):
        y = R.call(f"{mech}:{name}", getattr(u, name), [x, None], ctx=ctx)
        R.event(n=max(1, int(np.prod(x.shape[2:]))))
        if y is FAILED:
            return FAILED
        y = np.asarray(y[0])
        trail = x.shape[2:]
        if finalized:
            want = (3,) * lead + trail
            if not R.check(y.shape == want, f"{mech}:{name}:shape", f"{y.shape} for input {x.shape}", **ctx):
                return FAILED
            out.append(unlay(y, lead))
        else:
            k = lead // 2
            try:
                y = np.broadcast_to(y, (6,) * k + trail)
            except ValueError:
                R.violation(f"{mech}:{name}:shape", f"{y.shape} for input {x.shape}", **ctx)
                return FAILED
            out.append(unlay(y, k))
    return out


def tolerance(ref, finalized, lead):
    tol = ref.tolP if lead == 0 else ref.tolA
    extra = 1e-13 * (ref.rP if lead == 0 else ref.rA) * ref.cond
    t = 10 * (tol + extra) * ref.cond ** (2 if lead else 1)
    lmin, J = ref.lam.min(axis=0), ref.J
    lmax = ref.lam.max(axis=0)
    # other configurations: legs pulled back or pushed forward, divided by J
    return t * np.maximum(1.0, 1 / lmin) ** (1 + lead) * np.maximum(1, lmax / J) ** (1 + lead)


def agree(R, ys, ref, idx, base, mech, ctx, finalized):
    for k, what in ((0, "stress"), (1, "elasticity")):
        b = base[k][idx]
        y = ys[k]
        if not len(idx):
            continue
        tol = tolerance(ref, finalized, k)[idx]
        R.close(y, b, 1.0, col(tol, y.ndim - 1), f"{mech}:{what}", what, **ctx)
        R.bump("points", len(idx))


def one(R, rng, spec, sp, opt):
    fin = opt.get("finalize", True)
    n0 = 60
    u = R.call("build", spec.space, sp, ctx={"material": spec.describe()}, **opt)
    if u is FAILED:
        return
    F, tags = states(rng, n0)
    ref = Expected(F, spec, sp)
    info = {"material": spec.describe(), "space": sp, **opt}
    base = evaluate(R, u, lay(F, (n0,)), {**info, "F": F}, "batch", fin)
    if base is FAILED:
        return
    # single points, without batch axes and with axes of length one
    for i in rng.permutation(n0)[:6]:
        for trail in ((), (1,), (1, 1), (1, 1, 1)):
            x = F[i].reshape(3, 3, *trail)
            y = evaluate(R, u, x, {**info, "trail": trail, "F": F[i], "state": tags[i]}, "single", fin)
            if y is not FAILED:
                agree(R, y, ref, np.array([i]), base, "single", {**info, "trail": trail, "F": F[i]}, fin)
            R.event((spec.kind, sp, trail, "single", repr(opt)), 0)
    # other shapes with repeated points in any order
    for s in rng.permutation(len(SHAPES))[:5]:
        trail = SHAPES[s]
        idx = rng.integers(0, n0, size(trail))
        lay_kind = str(rng.choice(LAYOUTS))
        if len(idx) == 0:
            lay_kind = "C"
        x = memory_layout(rng, lay(F[idx], trail), lay_kind)
        xc = x.copy()
        ctx = {**info, "trail": trail, "layout": lay_kind}
        y = evaluate(R, u, x, ctx, f"shape:{lay_kind}", fin)
        if y is not FAILED:
            agree(R, y, ref, idx, base, f"shape:{lay_kind}", ctx, fin)
        R.check(np.array_equal(x, xc), "input changed", "the input was changed", **ctx)
        R.event((spec.kind, sp, trail, lay_kind, repr(opt)), 0)
    # one deformation broadcast over the batch (zero strides)
    i = int(rng.integers(n0))
    for trail in ((5,), (2, 3)):
        x = np.broadcast_to(F[i].reshape(3, 3, *[1] * len(trail)), (3, 3, *trail))
        ctx = {**info, "trail": trail, "layout": "broadcast", "F": F[i]}
        y = evaluate(R, u, x, ctx, "broadcast", fin)
        if y is not FAILED:
            agree(R, y, ref, np.full(size(trail), i), base, "broadcast", ctx, fin)
        R.event((spec.kind, sp, trail, "broadcast", repr(opt)), 0)
    # pieces
    cut = int(rng.integers(1, n0))
    for part in (np.arange(cut), np.arange(cut, n0), np.arange(n0)[::-1]):
        y = evaluate(R, u, lay(F[part], (len(part),)), info, "piece", fin)
        if y is not FAILED:
            agree(R, y, ref, part, base, "piece", info, fin)


def big(R, rng, spec, sp):
    "Thousands of points with a few distinct states."
    F, tags = states(rng, 40)
    ref = Expected(F, spec, sp)
    u = R.call("build", spec.space, sp, ctx={"material": spec.describe()})
    if u is FAILED:
        return
    base = evaluate(R, u, lay(F, (40,)), {"material": spec.describe()}, "batch")
    if base is FAILED:
        return
    odd = [rng.integers(100, 5000, 1) * 2 + 1, [rng.integers(1, 9), rng.integers(80, 500) * 2 + 1], [997 + rng.integers(1, 20)]]
    for trail in ((8, 1250), (20000,), *(tuple(int(v) for v in t) for t in odd)):
        idx = rng.integers(0, 40, size(trail))
        ctx = {"material": spec.describe(), "space": sp, "trail": trail}
        y = evaluate(R, u, lay(F[idx], trail), ctx, "big")
        if y is not FAILED:
            agree(R, y, ref, idx, base, "big", ctx, True)
        R.event((spec.kind, sp, trail, "big"), 0)


def plain(rng, kind, name, value):
    "Materials of one constant."
    if kind == "tod":
        return spec_tod(rng, C={name: value}, strain=value > 0.5)
    pool, make = {"invariants": (INV_TERMS, spec_user_inv), "stretches": (STR_TERMS, spec_user_str)}[kind]
    return make(rng, energy=Energy(pool, [(name, value, (1.0,) if name == "ogden" else ())]))


PLAIN = [("tod", "C10", 0.5), ("tod", "C01", 0.3), ("tod", "C11", 0.2), ("tod", "C20", 0.4), ("tod", "C30", 0.1), ("tod", "C10", 0.7),
         ("invariants", "I1", 0.4), ("invariants", "I2", 0.4), ("invariants", "I3", 0.3), ("invariants", "I1I2", 0.3),
         ("stretches", "ogden", 0.4), ("stretches", "i2", 0.2)]


def axes_of_length_one(R, rng, what, opt):
    """Axes of length one at every place of the batch shape, for the plainest materials (whose
    derivatives are one constant for all points)."""
    fin = opt.get("finalize", True)
    spec = plain(rng, *what)
    F, tags = states(rng, 24)
    for sp in SPACES:
        ref = Expected(F, spec, sp)
        info = {"material": spec.describe(), "space": sp, **opt}
        u = R.call("build", spec.space, sp, ctx=info, **opt)
        if u is FAILED:
            continue
        base = evaluate(R, u, lay(F, (24,)), {**info, "F": F}, "batch", fin)
        if base is FAILED:
            continue
        for trail in ((4, 1), (1, 4), (4, 1, 1), (1, 4, 1), (1, 1, 4), (2, 1, 3), (2, 3, 1), (1, 2, 3), (1, 2, 1, 3), (2, 1, 3, 1), (3, 3, 1), (1, 3, 3)):
            idx = rng.integers(0, 24, size(trail))
            ctx = {**info, "trail": trail}
            y = evaluate(R, u, lay(F[idx], trail), ctx, "axes of one", fin)
            if y is not FAILED:
                agree(R, y, ref, idx, base, "axes of one", ctx, fin)
            R.bump("axes of one")
            R.event((*what, sp, trail, repr(opt)), 0)


def huge(R, rng, spec, sp, n, opt):
    "A body with very many points, of a few distinct states; judged without its reference."
    F, _ = states(rng, 24)
    ref = Expected(F, spec, sp)
    u = R.call("build", spec.space, sp, ctx={"material": spec.describe()}, **opt)
    if u is FAILED:
        return
    fin = opt.get("finalize", True)
    base = evaluate(R, u, lay(F, (24,)), {"material": spec.describe()}, "batch", fin)
    if base is FAILED:
        return
    idx = rng.integers(0, 24, n)
    x = lay(F[idx], (n,))
    ctx = {"material": spec.describe(), "space": sp, "points": n, **opt}
    for k, name in enumerate(("gradient", "hessian")):
        y = R.call(f"huge:{name}", getattr(u, name), [x, None], ctx=ctx)
        if y is FAILED:
            continue
        lead = (2, 4)[k] if fin else k + 1
        y = np.asarray(y[0])
        small = y.shape[lead:]
        if not R.check(small == (n,) or (small == (1,) and not fin), f"huge:{name}:shape", f"{y.shape}", **ctx):
            continue
        y = np.broadcast_to(y, y.shape[:lead] + (n,))  # constant derivatives are kept once
        tol = tolerance(ref, fin, k)[idx]
        with np.errstate(all="ignore"):
            bad = ~(np.abs(y - np.moveaxis(base[k], 0, -1)[..., idx]) <= tol)
        R.check(not bad.any(), f"huge:{name}", f"{int(bad.reshape(-1, n).any(axis=0).sum())} of {n} points differ from those of a small batch", **ctx)
        R.bump("points", n)
        R.event((spec.kind, sp, "huge", name, repr(opt)), n)


def whole_numbers(R, rng, spec, sp, opt):
    "Deformation gradients given as integers are the same deformation gradients."
    if spec.kind == "user-invariants" and sp == "Deformation":
        return  # the user's model would have to cope with integers
    fin = opt.get("finalize", True)
    G = rng.integers(-1, 3, (400, 3, 3)) + np.diag([1, 1, 0])
    G = np.concatenate([np.eye(3, dtype=int)[None], [np.diag([1, 1, 2]), [[1, 1, 0], [0, 1, 0], [0, 0, 1]]], G])
    s = np.linalg.svd(G.astype(float), compute_uv=False)
    G = G[(np.linalg.det(G) > 0.5) & (s[:, 0] / s[:, 2] < 8)][:12]
    F = G.astype(float)
    ref = Expected(F, spec, sp)
    u = R.call("build", spec.space, sp, ctx={"material": spec.describe()}, **opt)
    if u is FAILED:
        return
    for trail in ((12,), (3, 4), ()):
        n = size(trail)
        if len(G) < n:
            continue
        ctx = {"material": spec.describe(), "space": sp, "F": G[:n], "trail": trail, **opt}
        a = evaluate(R, u, lay(F[:n], trail), ctx, "numbers:floating", fin)
        for kind in ("int64", "int32", "C"):
            x = lay(G[:n], trail).astype("int64" if kind == "C" else kind, order="C")
            b = evaluate(R, u, x, ctx, "numbers:integer", fin)
            if a is not FAILED and b is not FAILED:
                agree(R, b, ref, np.arange(n), a, "numbers", ctx, fin)
            R.bump("whole numbers")
            R.event((spec.kind, sp, trail, kind, repr(opt)), 0)


INADMISSIBLE = {
    "collapsed": np.zeros((3, 3)),
    "line": np.outer([1, 2, 3.0], [1, 0.5, 2]),
    "plane": np.diag([1, 2.0, 0]),
    "inverted": np.diag([1, 1, -1.2]),
    "point reflection": -1.3 * np.eye(3),
    "overflow": 1e180 * np.eye(3),
    "underflow": 1e-180 * np.eye(3),
    "not a number": np.full((3, 3), np.nan),
    "infinite": np.diag([np.inf, 1, 1]),
    "far": 1e4 * np.eye(3),
}


def neighbours(R, rng, spec, sp, opt):
    """An inadmissible point of a batch leaves the other points alone (or the whole batch
    is refused)."""
    fin = opt.get("finalize", True)
    u = R.call("build", spec.space, sp, ctx={"material": spec.describe()}, **opt)
    n = 7
    F, tags = separated(rng, n) if spec.kind == "sorted-stretches" else states(rng, n)
    ref = Expected(F, spec, sp)
    base = evaluate(R, u, lay(F, (n,)), {"material": spec.describe(), "F": F}, "batch", fin)
    if base is FAILED:
        return
    for label, B in INADMISSIBLE.items():
        G = F.copy()
        bad = rng.permutation(n)[: rng.integers(1, 3)]
        G[bad] = B
        idx = np.setdiff1d(np.arange(n), bad)
        ctx = {"material": spec.describe(), "space": sp, "F": F, "bad": bad, "kind": label, **opt}
        for k, name in enumerate(("gradient", "hessian")):
            try:
                y = np.asarray(getattr(u, name)([lay(G, (n,)), None])[0])
            except Exception:  # noqa: BLE001
                R.bump("refused")
                continue
            lead = (2, 4)[k] if fin else k + 1
            try:
                y = np.broadcast_to(y, (*y.shape[:lead], n))
            except ValueError:
                R.violation(f"neighbours:{name}:shape", f"{y.shape}", **ctx)
                continue
            tol = tolerance(ref, fin, k)[idx]
            R.close(unlay(y, lead)[idx], base[k][idx], 1.0, col(tol, base[k].ndim - 1), f"neighbours:{name}",
                    f"{name} of the points next to an inadmissible one", **ctx)
            R.bump("neighbours", len(idx))
            R.event((spec.kind, sp, label, name, repr(opt)), len(idx))


OPTIONS = [{}, {}, {"force": 0}, {"area": None}, {"force": 0, "area": None}, {"finalize": False}, {"parallel": True}]


def run(R):
    rng = np.random.default_rng([SEED, 14])
    R.require("points", 10000)
    for i, spec in enumerate(spec_stream(rng, pick(34, 900))):
        for k, sp in enumerate(SPACES):
            one(R, rng, spec, sp, OPTIONS[(i + 3 * k) % len(OPTIONS)])
    R.require("axes of one", 400)
    for i, what in enumerate(PLAIN):
        for j in range(pick(1, len(OPTIONS))):
            axes_of_length_one(R, rng, what, OPTIONS[(i + j + SEED) % len(OPTIONS)])
    R.require("neighbours", 2000)
    for i, spec in enumerate(spec_stream(rng, pick(28, 280), ALL_MAKERS)):
        for k, sp in enumerate(SPACES):
            neighbours(R, rng, spec, sp, OPTIONS[(i + k) % len(OPTIONS)])
    for k, sp in enumerate(SPACES):
        for j in range(pick(1, 4)):
            huge(R, rng, random_spec(rng), sp, int(rng.choice([65537, 70001, 99991, 131073])), [{}, {"parallel": True}, {"area": None}][(j + k + SEED) % 3])
    R.require("uneven batches", 20)
    for i, (kind, make) in enumerate(ALL_MAKERS.items()):
        for k, sp in enumerate(SPACES):
            for j in range(pick(1, 6)):
                b = int(rng.choice([256, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192]))
                n = b * int(rng.integers(1, 1 + max(1, 9000 // b))) + int(rng.choice([-1, 0, 1, 1, 2, 3]))
                for m in (n, int(rng.choice([1025, 2049, 4097, 8193, 1001, 5001]))):
                    huge(R, rng, make(rng), sp, m, OPTIONS[(i + k + j) % len(OPTIONS)])
                    R.bump("uneven batches")
    R.require("whole numbers", 100)
    for i, spec in enumerate(spec_stream(rng, pick(12, 120))):
        for k, sp in enumerate(SPACES):
            whole_numbers(R, rng, spec, sp, OPTIONS[(i + k) % len(OPTIONS)])
    curved = ["(J-1)^2", "I1^2", "expI1", "gent", "I1^3", "ln^2I3", "I1I2", "1/I3"]
    for i, sp in enumerate(list(SPACES) * pick(3, 12)):
        if (i // 3) % 3 == i % 3:
            spec = random_spec(rng)
        else:
            spec = spec_user_inv(rng, energy=Energy.random(rng, INV_TERMS, names=curved[:2] if i % 2 else curved[2:]))
        big(R, rng, spec, sp)
    R.sample({"shapes": [list(s) for s in SHAPES], "layouts": LAYOUTS})
