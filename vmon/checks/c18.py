"""C18: state variables."""

import numpy as np

from ..engine import FAILED, Expected, col, observe, size  # noqa: F401
from ..env import SEED, hel, pick
from ..materials import (
    GEN_TERMS, INV_TERMS, MEASURES, ORDER6, SPACES, STR_TERMS, Energy, Spec, _inv_terms, derivatives,
    framework, gi_terms, random_measure, spec_stream,
)
from ..monitors import Recorder, Watch
from ..states import lay, states, unlay
from ..workloads import felupe_run, stable_volume

RULE = (
    "user models whose energy depends on evolving state variables (0..20 per point) in every "
    "framework, space and configuration, driven through random histories (trial evaluations, "
    "accepted steps, restarts) and FElupe analyses; monitored: state received by the model in every "
    "call, state returned, caller's arrays, stress and elasticity at the old state; distinct = "
    "(framework, space, configuration, number of states, state category)"
)


def mean(state, like):
    "Scalar per point from a state of shape (m, *batch)."
    state = np.asarray(state)
    if state.shape[0] == 0:
        return np.zeros(np.shape(like))
    return np.tanh(state.mean(axis=0))


class Stateful:
    """Energy a(s) psi_0 + b(s) psi_1, coefficients from the (old) state s; the new
    state moves towards a function of the deformation."""

    def __init__(self, energies):
        self.energies = energies
        self.calls = []
        self.returned = []
        self.masks = [e.mask() for e in energies]

    @staticmethod
    def coefficients(state, like):
        s = mean(state, like)
        return 1.0 + 0.4 * s, 0.3 * s

    def update(self, state, x):
        m = np.shape(state)[0]
        k = np.arange(1.0, m + 1).reshape(-1, *[1] * np.ndim(x))
        return 0.5 * np.asarray(state) + np.tanh(x) * k / (m + 1)

    def _first(self, args, state):
        a, b = self.coefficients(state, args[0])
        (_, g0, _), (_, g1, _) = (derivatives(e, *args) for e in self.energies)
        return a * g0 + b * g1

    def _second(self, args, state):
        a, b = self.coefficients(state, args[0])
        (_, _, h0), (_, _, h1) = (derivatives(e, *args) for e in self.energies)
        h = a * h0 + b * h1
        return [h[i, j] for i, j in ORDER6]


class StatefulInvariants(Stateful):
    def gradient(self, I1, I2, I3, statevars):
        self.calls.append(("gradient", np.array(statevars)))
        g = self._first((I1, I2, I3), statevars)
        new = self.update(statevars, I1 - 3)
        self.returned.append(new.copy())
        return g[0], g[1], g[2], new

    def hessian(self, I1, I2, I3, statevars):
        self.calls.append(("hessian", np.array(statevars)))
        return self._second((I1, I2, I3), statevars)


class StatefulStretches(Stateful):
    def gradient(self, stretches, statevars):
        self.calls.append(("gradient", np.array(statevars)))
        g = self._first(tuple(stretches), statevars)
        new = self.update(statevars, np.sum(stretches, axis=0) - 3)
        self.returned.append(new.copy())
        return [g[0], g[1], g[2]], new

    def hessian(self, stretches, statevars):
        self.calls.append(("hessian", np.array(statevars)))
        return self._second(tuple(stretches), statevars)


def stateful(rng, kind):
    "label, (spec of psi_0, spec of psi_1), factory(nstatevars) -> framework, model."
    if kind == "stretches":
        e = [Energy.random(rng, STR_TERMS, n=2) for _ in range(2)]
        specs = [Spec("user-stretches", {"energy": x.describe()}, x.terms, None, True) for x in e]

        def build(n):
            m = StatefulStretches(e)
            return hel.StretchesFramework(m, nstatevars=n), m
    elif kind == "invariants":
        e = [Energy.random(rng, INV_TERMS, n=2) for _ in range(2)]
        specs = [Spec("user-invariants", {"energy": x.describe()}, _inv_terms(x.terms), None, False) for x in e]

        def build(n):
            m = StatefulInvariants(e)
            return hel.InvariantsFramework(m, nstatevars=n), m
    else:
        e = [Energy.random(rng, GEN_TERMS, n=2) for _ in range(2)]
        name, k = random_measure(rng)
        specs = [Spec("generalized", {"measure": name, "exponent": k, "energy": x.describe()},
                      gi_terms(name, k, x.terms), None, True) for x in e]

        def build(n):
            m = StatefulInvariants(e)
            return hel.GeneralizedInvariantsFramework(
                m, MEASURES[name][1](), nstatevars=n, exponent=k), m
    return specs, build


JUNK = (
    lambda rng, F: np.full((3, 3), np.nan),
    lambda rng, F: None,
    lambda rng, F: "not used",
    lambda rng, F: rng.normal(size=(2, 5)),
    lambda rng, F: np.array([]),
    lambda rng, F: F * np.nan,
)
OPTIONS = [{}, {}, {}, {"force": 0}, {"area": None}, {"force": 0, "area": None}, {"finalize": False}, {"parallel": True}]
NS = [0, 1, 1, 2, 3, 6, 7, 20]


def reference(r, state, trail):
    s = np.asarray(state).reshape(np.shape(state)[0], size(trail))
    a, b = Stateful.coefficients(s, np.zeros(s.shape[1:]))
    P = col(a, 2) * r[0].P + col(b, 2) * r[1].P
    A = col(a, 4) * r[0].A + col(b, 4) * r[1].A
    tP = abs(a) * r[0].tolP + abs(b) * r[1].tolP
    tA = abs(a) * r[0].tolA + abs(b) * r[1].tolA
    return P, A, tP, tA


def history(R, rng, kind, sp, opt, m):
    specs, build = stateful(rng, kind)
    fw, model = build(m)
    info = {"framework": kind, "space": sp, "nstatevars": m, "energies": [s.describe() for s in specs], **opt}
    u = R.call("build", SPACES[sp], fw, ctx=info, **opt)
    if u is FAILED:
        return
    plain = not opt or opt == {"parallel": True}
    # advertised initial values
    ok = R.check(
        len(u.x) >= 2 and np.array_equal(u.x[0], np.eye(3)) and np.shape(u.x[-1]) == (m,) and not np.any(u.x[-1]),
        "initial", f"initial variables {u.x!r}", **info,
    )
    if ok:
        x0 = [np.array(u.x[0]), np.array(u.x[-1])]
        for name in ("gradient", "hessian"):
            out = R.call(f"initial:{name}", getattr(u, name), u.x, ctx=info)
            if out is not FAILED:
                R.check(np.isfinite(np.asarray(out[0], dtype=float)).all(), f"initial:{name}:finite", "not finite", **info)
        R.check(np.array_equal(u.x[0], x0[0]) and np.array_equal(u.x[-1], x0[1]), "initial:changed",
                "evaluation changed the advertised initial values", **info)
        R.event(("initial", kind, sp, m, repr(opt)))
    trail = [(4,), (3,), (6,), (2, 3), (1, 1), (), (8, 1)][rng.integers(7)]
    state = np.zeros((m, *trail)) if rng.integers(2) else rng.normal(size=(m, *trail))
    for step in range(4):
        F, tags = states(rng, size(trail))
        alone = None  # the responses of the energies
        for trial in range(3):
            if trial == 1:
                alone = None
                F = F @ (np.eye(3) + 0.02 * rng.uniform(-1, 1, (3, 3)))
            if trial == 2:  # the same deformation at another state (a relaxation)
                if not m:
                    break
                if rng.integers(2):
                    state = state + rng.normal(size=state.shape)
                else:
                    state[...] += rng.normal(size=state.shape)
                R.bump("same deformation, other state")
            ctx = {**info, "trail": trail, "step": step, "F": F, "state": state}
            new, ref = None, None
            for name in rng.permutation(["gradient", "hessian", "gradient", "hessian"])[:3]:
                name = str(name)
                f = lay(F, trail)
                extra = [JUNK[rng.integers(len(JUNK))](rng, f) for _ in range(rng.integers(0, 3))]
                x = [f, *extra, state]
                w = Watch()
                w.add("state", state)
                w.add("deformation gradient", f)
                n0, r0 = len(model.calls), len(model.returned)
                arg = x if rng.integers(2) else tuple(x)
                out = R.call(f"{kind}:{name}", getattr(u, name), arg, ctx={**ctx, "extra": len(extra)})
                R.event((kind, sp, m, repr(opt), name, tags[0]), size(trail))
                R.bump("evaluations")
                if out is FAILED:
                    continue
                for lab in w.changed():
                    R.violation(f"{kind}:{name}:caller's {lab} changed", f"{lab} modified by {name}", **ctx)
                seen = model.calls[n0:]
                R.check(len(seen) > 0, f"{kind}:{name}:not called", "the model was not evaluated", **ctx)
                if name == "hessian":
                    R.check(any(c[0] == "hessian" for c in seen), f"{kind}:model hessian", "hessian not called", **ctx)
                for call, s in seen:
                    R.bump("states received")
                    R.check(s.shape == state.shape and np.array_equal(s, state),
                            f"{kind}:{name}:state received by model {call}",
                            "the model received another state than the caller's", received=s, **ctx)
                if name == "gradient":
                    got = np.asarray(out[1])
                    R.check(len(model.returned) > r0 and np.array_equal(got, model.returned[-1]),
                            f"{kind}:state returned", "not the state the model returned", got=got, **ctx)
                    new = out[1]
                if not plain:
                    continue
                alone = [Expected(F, x, sp) for x in specs] if alone is None else alone
                ref = reference(alone, state, trail) if ref is None else ref
                P, A, tP, tA = ref
                if name == "gradient":
                    y = unlay(np.asarray(out[0]), 2)
                    R.close(y, P, 1.0, col(tP, 2), f"{kind}:stress", "stress at the old state", **ctx)
                else:
                    y = unlay(np.asarray(out[0]), 4)
                    R.close(y, A, 1.0, col(tA, 4), f"{kind}:elasticity", "elasticity at the old state", **ctx)
                R.bump("points", size(trail))
        if new is not None and rng.integers(4):
            state = np.array(new)  # accepted
            R.bump("steps accepted")
            R.check(m == 0 or state.shape == (m, *trail), f"{kind}:state shape", f"{state.shape}", **ctx)
    R.sample({**info, "trail": trail, "final state": state})


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b) and np.array_equal(np.ma.getmask(a), np.ma.getmask(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


class Tolerant:
    "A stateful model that also works without any state; raises on demand."

    def __init__(self, inner):
        self.inner, self.fail = inner, None
        self.zero = lambda like: np.zeros((1, *np.shape(like)))

    def gradient(self, *a):
        if self.fail == "gradient":
            self.fail = None
            raise ArithmeticError("on demand")
        s = a[-1]
        out = self.inner.gradient(*a[:-1], self.zero(a[0] if len(a) > 2 else a[0][0]) if s is None else s)
        return out if s is not None else (*out[:-1], None)

    def hessian(self, *a):
        if self.fail == "hessian":
            self.fail = None
            raise ArithmeticError("on demand")
        s = a[-1]
        return self.inner.hessian(*a[:-1], self.zero(a[0] if len(a) > 2 else a[0][0]) if s is None else s)


def mixture(R, rng, kind, sp, steps):
    """One material serves analyses with different (or no) states, batches and failures in turn;
    every evaluation gives what a fresh material gives."""
    _, build = stateful(rng, kind)
    pool = []
    for trail in ((4,), (2, 3), (), (30,), (1, 1), (5,)):
        F, _ = states(rng, size(trail), ["moderate", "dense", "large"])
        f = lay(F, trail)
        pool += [(f, None)] + [(f, rng.normal(size=(int(m), *trail))) for m in rng.choice([0, 1, 2, 6], 2)]

    def wrapped(n):
        m = Tolerant(build(n)[1])
        return SPACES[sp](framework_of(build, m, n)), m

    u, m = wrapped(2)
    word = []
    last = None
    for step in range(steps):
        name = ("gradient", "hessian")[int(rng.integers(2))]
        f, s = pool[int(rng.integers(len(pool)))]
        k = int(rng.integers(8))
        if k < 2 and last is not None:  # the same deformation, with and without a state
            f = last
            s = [None, rng.normal(size=(2, *f.shape[2:]))][int(rng.integers(2))]
        elif k == 2 and s is not None:  # the same array, updated
            s += 0.1 * rng.normal(size=s.shape)
        elif k == 3:
            m.fail = ("gradient", name)[int(rng.integers(2))]
        last = f
        fails = m.fail is not None
        word.append(f"{name[0]}{'x' if fails else ''}{'' if s is None else len(s)}")
        ctx = {"framework": kind, "space": sp, "history": word[-12:], "F": f, "state": s}
        if fails:
            try:
                getattr(u, name)([f, s])
            except ArithmeticError:
                pass
            except Exception as e:  # noqa: BLE001
                R.violation("mixture:failure", f"{type(e).__name__} instead of the model's error", **ctx)
            m.fail = None
            continue
        got = R.call(f"mixture:{name}", getattr(u, name), [f, s], ctx=ctx)
        if got is FAILED:
            continue
        want = getattr(wrapped(2)[0], name)([f.copy(), None if s is None else s.copy()])
        y, z = np.asarray(got[0]), np.asarray(want[0])
        if R.check(y.shape == z.shape, "mixture:shape", f"{y.shape} instead of {z.shape}", **ctx):
            R.close(y, z, np.abs(z).max() + 1e-300, 1e-9, f"mixture:{name}", f"{name} after other states and batches", **ctx)
        if name == "gradient":
            R.check(same(got[-1], want[-1]) if s is None else np.allclose(got[-1], want[-1], rtol=1e-9, atol=1e-12),
                    "mixture:state", "returned state", **ctx)
        R.bump("mixed evaluations")
    R.event(("mixture", kind, sp, tuple(word)), steps)


def framework_of(build, model, n):
    "The framework of ``build`` around another model."
    inner, m = build(n)
    f = type(inner)
    if f is hel.GeneralizedInvariantsFramework:
        f = hel.InvariantsFramework  # (a measure around another model: as invariants)
    model.inner = m
    return f(model, nstatevars=n)


class Opaque:
    "Passes through; remembers what it received; returns another state."

    def __init__(self, inner, new):
        self.inner, self.new, self.seen = inner, new, []

    def gradient(self, *a):
        self.seen.append(a[-1])
        out = self.inner.gradient(*a)
        return (*out[:-1], self.new)

    def hessian(self, *a):
        self.seen.append(a[-1])
        return self.inner.hessian(*a)


def passing(R, rng, n):
    "Any state object reaches the model and the model's one the caller; built-in models keep it."
    forms = [
        lambda: None,
        lambda: rng.normal(size=(3, 4)),
        lambda: np.arange(4),
        lambda: {"damage": rng.normal(size=4), "n": 2},
        lambda: (rng.normal(size=4), 1.5),
        lambda: "label",
        lambda: (rng.normal(size=4),),
        lambda: [rng.normal(size=4)],
        lambda: ((),),
        lambda: {"damage": rng.normal(size=(1, 4))},
        lambda: np.zeros((0, 4)),
        lambda: rng.integers(0, 2, (2, 4)).astype(bool),
        lambda: np.array(rng.normal()),
        lambda: float(rng.normal()),
        lambda: [rng.normal(size=4), [1, "two"]],
        lambda: np.ma.MaskedArray(rng.normal(size=(2, 4)), mask=rng.uniform(size=(2, 4)) < 0.3),
        lambda: rng.normal(size=(2, 4)).astype(np.float32),
        lambda: np.array([None, {"a": 1}, "x"], dtype=object),
        lambda: rng.normal(size=(4, 2)).T,
        lambda: np.zeros(3, dtype=[("damage", float), ("cycles", int)]),
    ]
    trails = [(4,), (1,), (2, 3), (8, 5), (4, 1), (2, 1, 3), ()]
    for i, spec in enumerate(spec_stream(rng, n)):
        for sp in SPACES:
            opt = OPTIONS[rng.integers(len(OPTIONS))]
            trail = trails[rng.integers(len(trails))] if rng.integers(2) else (4,)
            # states of the batch, of parts of it, of some of its axes
            parts = [lambda: rng.normal(size=(2, *(1 if rng.integers(2) else d for d in trail))),
                     lambda: rng.normal(size=(3, *trail[1:])), lambda: rng.normal(size=(1, *trail)), lambda: rng.normal(size=trail)]
            state, new = (parts[k]() for k in rng.integers(4, size=2)) if rng.integers(3) == 0 else (
                forms[rng.integers(len(forms))](), forms[rng.integers(len(forms))]())
            if i % 3 == 2:  # one state for all points of an axis
                trail = [(8, 5), (2, 3), (3, 1, 2), (4,)][(i // 3) % 4]
                k = int(rng.integers(len(trail)))
                state = rng.normal(size=(2, *(1 if j == k or rng.integers(3) == 0 else d for j, d in enumerate(trail))))
                new = rng.normal(size=state.shape)
            F, _ = states(rng, size(trail), ["moderate", "dense", "large"])
            f = lay(F, trail)
            ctx = {"material": spec.describe(), "space": sp, "trail": trail, "state": repr(state)[:100], **opt}
            model = Opaque(spec.model(), new)
            u = R.call("build", lambda: SPACES[sp](framework(spec, model), **opt), ctx=ctx)
            v = R.call("build", spec.space, sp, ctx=ctx, **opt)
            if u is FAILED or v is FAILED:
                continue
            g = R.call("pass:gradient", u.gradient, [f, state], ctx=ctx)
            h = R.call("pass:hessian", u.hessian, [f, state], ctx=ctx)
            R.event(("pass", spec.kind, sp, type(state).__name__), 4)
            if g is not FAILED:
                R.check(same(g[-1], new), "pass:returned", f"{g[-1]!r} instead of {new!r}"[:300], **ctx)
            if h is not FAILED:
                R.check(len(model.seen) >= 2 and all(same(s, state) for s in model.seen), "pass:received",
                        "the model received another state", **ctx)
            g = R.call("builtin:gradient", v.gradient, [f, state], ctx=ctx)
            if g is not FAILED:
                R.check(same(g[-1], state), "builtin:returned", f"{g[-1]!r} instead of {state!r}"[:300], **ctx)
            for asked, m in (({}, 0), ({"nstatevars": 0}, 0), ({"nstatevars": 1}, 1), ({"nstatevars": 5}, 5)):
                w = R.call("build", lambda: SPACES[sp](framework(spec, spec.model(), **asked)), ctx=ctx)
                if w is not FAILED:
                    R.check(np.shape(w.x[-1]) == (m,) and not np.any(w.x[-1]) and np.array_equal(w.x[0], np.eye(3)),
                            "builtin:initial", f"initial values {w.x!r} for {asked}", **ctx)
                    for name in ("gradient", "hessian"):
                        o = R.call(f"builtin:initial:{name}", getattr(w, name), w.x, ctx=ctx)
                        if o is not FAILED and name == "gradient":
                            R.check(np.shape(o[-1]) == (m,) and not np.any(o[-1]), "builtin:initial:state", "changed", **ctx)
            R.bump("passes")


class Damage(StatefulInvariants):
    "Softening Neo-Hooke: state 0 the largest I1 reached, state 1 counts evaluations."

    @staticmethod
    def coefficients(state, like):
        return 1.0 - 0.3 * np.tanh(np.asarray(state)[0]), np.zeros(np.shape(like))

    def update(self, state, x):
        return np.array([np.maximum(state[0], x), state[1] + 1.0])


def analysis(R, rng, k):
    "FElupe analyses with evolving state: every recorded call is checked."
    e = [Energy(INV_TERMS, [("I1", 0.5, ()), ("I1^2", 0.01, ())]), Energy(INV_TERMS, [("I1", 0.1, ())])]
    specs = [Spec("user-invariants", {"energy": x.describe()}, _inv_terms(x.terms), None, False) for x in e]
    model = Damage(e)
    u = hel.DistortionalSpace(hel.InvariantsFramework(model, nstatevars=2))
    vol = stable_volume(rng).space("Dilatational")
    rec = Recorder(u)
    mode = ("tension", "shear", "compression")[k % 3]
    try:
        _, _, solids = felupe_run(rng, [u, vol], mode=mode, steps=3)
        R.bump("felupe:converged")
    except Exception as ex:  # noqa: BLE001
        R.bump(f"felupe:stopped:{type(ex).__name__}")
    used = 0
    for i, ev in enumerate(rec.events):
        F = unlay(ev["x"][0], 2)
        old = np.asarray(ev["x"][-1])
        trail = ev["x"][0].shape[2:]
        ctx = {"application": mode, "event": i}
        R.check(not ev["mutated"], "felupe:mutated", "a call modified its input", **ctx)
        if old.shape != (2, *trail) or not np.isfinite(F).all() or (np.linalg.det(F) < 1e-3).any():
            R.bump("felupe:skipped")
            continue
        used += 1
        sel = rng.permutation(len(F))[:40]
        s = old.reshape(2, -1)[:, sel]
        a = Damage.coefficients(s, s[0])[0]
        r = Expected(F[sel], specs[0], "Distortional", tangent=ev["name"] == "hessian")
        if ev["name"] == "gradient":
            R.close(unlay(ev["out"][0], 2)[sel], col(a, 2) * r.P, 1.0, col(r.tolP, 2), "felupe:stress", "stress", **ctx)
            J = r.J
            I1 = (F[sel] ** 2).sum(axis=(1, 2)) * J ** (-2.0 / 3)
            new = np.array([np.maximum(s[0], I1 - 3), s[1] + 1])
            R.close(ev["out"][1].reshape(2, -1)[:, sel], new, 1 + np.abs(new), 1e-11, "felupe:new state", "new state", **ctx)
        else:
            R.close(unlay(ev["out"][0], 4)[sel], col(a, 4) * r.A, 1.0, col(r.tolA, 4), "felupe:elasticity", "elasticity", **ctx)
        R.event(("felupe", mode, ev["name"], i), len(sel))
        R.bump("felupe:events")
    if used:
        R.bump("felupe:largest count", int(max(np.max(ev["x"][-1][1]) for ev in rec.events)))


def run(R):
    rng = np.random.default_rng([SEED, 18])
    R.require("states received", 2000)
    R.require("steps accepted", 100)
    R.require("same deformation, other state", 100)
    R.require("felupe:events", 10)
    R.require("mixed evaluations", 100)
    k = 0
    for rep in range(pick(2, 40)):
        for m in NS:
            for kind in ("invariants", "stretches", "generalized"):
                for sp in SPACES:
                    history(R, rng, kind, sp, OPTIONS[k % len(OPTIONS)], m)
                    k += 1
    for i in range(pick(9, 90)):
        mixture(R, rng, ("invariants", "stretches")[i % 2], list(SPACES)[i // 2 % 3], pick(60, 120))
    passing(R, rng, 2 * pick(36, 400))
    for i in range(pick(3, 12)):
        analysis(R, rng, i)
