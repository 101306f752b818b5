"""C16: evaluations are pure - no history, no mutation, no sharing of results."""

import copy

import numpy as np

from ..engine import FAILED, col
from ..env import SEED, hel, pick
from ..materials import (
    GEN_TERMS, INV_TERMS, MEASURES, SPACES, STR_TERMS, Energy, MAKERS, UserInvariants, UserStretches,
)
from ..monitors import Keeps, Watch
from ..states import CUBE, TRAILS, lay, states, unlay
from ..workloads import felupe_events

RULE = (
    "random histories of gradient / hessian / rejected calls on groups of materials that share "
    "frameworks and models, with changing batches; every observed result is compared with the "
    "one a fresh, identical material gives for the same input, and all inputs, parameters and "
    "earlier outputs are watched for changes; distinct = (history, step kind, material)"
)


def reproduced(R, y, z, again, x, mech, msg, **ctx):
    """Identical operations: identical up to round-off of the largest entry of a point, or
    (where terms cancel) up to what round-off of the input makes of the result."""
    lead = z.ndim - x.ndim + 2
    comp = tuple(range(lead))
    s = 1e-9 * np.abs(z).max(axis=comp, keepdims=True) + 1e-300 if z.size else 1.0
    with np.errstate(all="ignore"):
        if y.shape == z.shape and z.size and not (np.abs(y - z) <= s).all():
            r = np.random.default_rng(x.size)
            for _ in range(4):
                dx = 1e-15 * np.abs(x).max(axis=(0, 1), keepdims=True) * r.choice([-1.0, 1.0], x.shape)
                d = np.abs(np.asarray(again(x + dx)) - z).max(axis=comp, keepdims=True)
                s = np.maximum(s, np.nan_to_num(20 * d))
    return R.close(y, z, s, 1.0, mech, msg, **ctx)


class Quadratic:
    "A user-written material of C: a constant stiffness of its own."

    def __init__(self, rng):
        self.x = [np.eye(3), np.zeros(0)]
        D = rng.normal(size=(6, 6)) * 0.3
        self.D, self.s = (D + D.T) / 2, rng.normal(size=6) * 0.2
        self.kind = int(rng.integers(3))

    def gradient(self, C, statevars):
        one = np.ones(C.ndim - 1, int)
        g = np.tensordot(self.D * [1, 1, 1, 2, 2, 2], C, 1) if self.kind else np.zeros_like(C)
        return g + self.s.reshape(6, *one), statevars

    def hessian(self, C, statevars):
        D = self.D if self.kind else np.zeros((6, 6))
        trail = C.shape[1:] if self.kind != 2 else (1,) * (C.ndim - 1)
        return D.reshape(6, 6, *np.ones(C.ndim - 1, int)) * np.ones((6, 6, *trail))


class Constant(UserStretches):
    "A user model whose derivatives are its own constant arrays / lists."

    def __init__(self, rng):
        self.c = float(rng.uniform(0.3, 2))
        self.g = [np.array(self.c), np.array(self.c), np.array(self.c)]
        self.h = [None] * 6

    def gradient(self, stretches, statevars):
        return self.g, statevars

    def hessian(self, stretches, statevars):
        return self.h

    def changed(self):
        return sum(float(a) != self.c for a in self.g) + sum(a is not None for a in self.h) + (len(self.g) != 3)


class Boom(Exception):
    pass


class Faulty:
    "Wraps a model; raises in the next call when armed (an evaluation that fails)."

    def __init__(self, inner):
        self.inner = inner
        if hasattr(inner, "x"):
            self.x = inner.x
        self.armed = None

    def gradient(self, *a):
        if self.armed == "gradient":
            self.armed = None
            raise Boom()
        return self.inner.gradient(*a)

    def hessian(self, *a):
        if self.armed == "hessian":
            self.armed = None
            raise Boom()
        return self.inner.hessian(*a)


def parameters(model):
    "Parameters a user gave: arrays, lists and numbers (copied)."
    return model


class Group:
    """Materials sharing objects: ``share`` is "model" (one model object in several
    frameworks), "framework" (one framework in several spaces) or "none"."""

    count = {}

    def __init__(self, rng, kind, share):
        self.rng = rng
        seed = int(rng.integers(2**31))
        self.seed, self.kind, self.share = seed, kind, share
        names = [str(x) for x in rng.choice(list(SPACES), size=3, replace=bool(rng.integers(2)))]
        opts = [
            [{}, {}, {"force": 0}, {"area": None}, {"finalize": False}, {"parallel": True}][rng.integers(6)]
            for _ in names
        ]
        self.layout = list(zip(names, opts))
        # every form of parameters is seen in turn
        Group.count[kind] = self.form = Group.count.get(kind, -1) + 1
        self.params = self.make_params()
        self.faulty = []
        self.materials = self.build(self.params, track=True)

    def make_params(self):
        r = np.random.default_rng(self.seed)
        if self.kind == "tod":
            C = {"C10": 0.5, "C01": float(r.uniform(0.1, 0.3)), "C11": 0.05, "C20": float(r.uniform(-0.1, 0.1)), "C30": 0.01}
            return {k: np.array(v) for k, v in C.items()} if self.form % 2 == 0 else C
        if self.kind == "ogden":
            n = int(r.integers(1, 4))
            p = {"mu": r.uniform(0.3, 1, n), "alpha": r.choice([-2.0, 1.5, 2.0, 3.0, 4.0], n)}
            form = (2, 0, 1, 3)[self.form % 4]
            if form == 1:
                return {k: v.tolist() for k, v in p.items()}
            if form == 2:  # arrays of their own (zero-dimensional)
                return {k: [np.array(x) for x in v] for k, v in p.items()}
            if form == 3:
                return {k: tuple(np.float64(x) for x in v) for k, v in p.items()}
            return p
        return {"seed": self.seed}

    def model(self, params):
        r = np.random.default_rng(self.seed)
        if self.kind == "tod":
            return hel.models.invariants.ThirdOrderDeformation(**params)
        if self.kind == "ogden":
            return hel.models.stretches.Ogden(**params)
        if self.kind == "user-invariants" or self.kind == "generalized":
            return UserInvariants(Energy.random(r, INV_TERMS if self.kind == "user-invariants" else
                                                {k: v for k, v in INV_TERMS.items() if k in ("I1", "I2", "I3", "I1^2", "I1I2", "I1I3", "I2^2")}), zero="none")
        if self.kind == "user-stretches":
            return UserStretches(Energy.random(r, STR_TERMS), zero="none", container=list)
        e = Energy.random(r, INV_TERMS)
        if self.kind == "keeper":
            return Keeps(UserInvariants(e, zero=["none", "zero", "array"][r.integers(3)]), bool(r.integers(2)))
        if self.kind == "keeper-generalized":
            g = Energy.random(r, GEN_TERMS)
            return Keeps(UserInvariants(g, zero=["none", "zero", "array"][r.integers(3)]), bool(r.integers(2)))
        if self.kind == "keeper-stretches":
            s = Energy.random(r, STR_TERMS)
            return Keeps(UserStretches(s, zero=["none", "zero"][r.integers(2)], container=[list, tuple, np.array][r.integers(3)]), bool(r.integers(2)))
        if self.kind == "keeper-tensors":
            return Keeps(Quadratic(r), bool(r.integers(2)))
        if self.kind == "constant":
            return Constant(r)
        return hel.models.invariants.TorchModel(lambda a, b, c: e(a, b, c))

    def framework(self, model):
        if self.kind == "keeper-tensors":
            return model
        if self.kind in ("ogden", "user-stretches", "constant", "keeper-stretches"):
            return hel.StretchesFramework(model)
        if self.kind in ("generalized", "keeper-generalized"):
            return hel.GeneralizedInvariantsFramework(model, MEASURES["deformation"][1](), exponent=1.7)
        return hel.InvariantsFramework(model)

    def build(self, params, track=False):
        """All materials of the group with their sharing."""
        out = []
        m = Faulty(self.model(params))
        f = self.framework(m)
        for name, opt in self.layout:
            if self.share == "none":
                m = Faulty(self.model(params))
                f = self.framework(m)
            elif self.share == "model":
                f = self.framework(m)
            out.append((SPACES[name](f, **opt), m))
        return out

    def fresh(self, i):
        "An identical material nothing was evaluated with before."
        p = copy.deepcopy(self.make_params())
        name, opt = self.layout[i]
        return SPACES[name](self.framework(self.model(p)), **opt)

    def describe(self):
        return {"kind": self.kind, "share": self.share, "materials": [[n, o] for n, o in self.layout], "seed": self.seed}


def leaves(obj, depth=0):
    "Arrays and numbers a model keeps as its parameters."
    if depth > 4:
        return []
    if isinstance(obj, np.ndarray):
        return [obj.copy()]
    if isinstance(obj, (list, tuple)):
        return [x for o in obj for x in leaves(o, depth + 1)]
    if isinstance(obj, dict):
        return [x for o in obj.values() for x in leaves(o, depth + 1)]
    if isinstance(obj, (int, float, str, bool)) or obj is None:
        return [obj]
    return []


def same(x, y):
    return len(x) == len(y) and all(np.array_equal(a, b) for a, b in zip(x, y))


def bad_input(rng, F, name):
    "An input a call rejects."
    k = rng.integers(3)
    if k == 0:
        return [F[:2], None]  # not a 3x3 tensor
    if k == 1:
        return [None, None]
    return ["no tensor", None]


def relative(rng, x):
    """An input that shares much with the given one: its sum, its determinant, its right or
    left Cauchy-Green tensor, its invariants, its set of points, ..."""
    k = int(rng.integers(10))
    n = int(np.prod(x.shape[2:], dtype=int))
    F = unlay(x, 2).copy()
    Q = CUBE[rng.integers(24)]
    if k == 0:
        F = Q @ F @ Q.T
    elif k == 1:  # same C
        F = Q @ F
    elif k == 2:  # same b
        F = F @ Q
    elif k == 3:
        F = np.swapaxes(F, 1, 2).copy()
    elif k == 4:
        F = F[rng.permutation(n)]
    elif k == 5:  # same first (or last) point
        G, _ = states(rng, n)
        keep = [0, -1][rng.integers(2)] if n else slice(0)
        G[keep] = F[keep]
        F = G
    elif k == 6:  # only one point is another one
        if n:
            F[rng.integers(n)] = states(rng, 1)[0][0]
    elif k == 7:  # same points at both ends
        F[1:-1] = F[1:-1][rng.permutation(max(0, n - 2))]
    elif k == 8:  # exactly the same right Cauchy-Green tensors, components reordered
        p = rng.permutation(3)
        F = F[:, :, p][:, p]
    else:  # same volume
        G, _ = states(rng, n)
        F = G * np.cbrt(np.linalg.det(F) / np.linalg.det(G))[:, None, None]
        s = np.linalg.svd(F, compute_uv=False) if n else np.ones((1, 3))
        if s.max() > 9 or s.min() < 0.1:
            F = G
    return lay(F, x.shape[2:])


def history(R, rng, group, steps, hid):
    w = Watch()
    info = group.describe()
    given = leaves(group.params)
    past = []  # inputs used before
    trace = []
    for step in range(steps):
        i = int(rng.integers(len(group.materials)))
        u, m = group.materials[i]
        name = "gradient" if rng.integers(2) else "hessian"
        k = rng.integers(10)
        if k < 3 and past:  # revisit
            x = past[rng.integers(len(past))]
        elif k < 5 and past:  # a small increment (an iteration), sometimes of the same array
            x = past[-1]
            dx = 10.0 ** rng.uniform(-9, -2) * rng.uniform(-1, 1, x.shape)
            if rng.integers(3) == 0 and x.flags.writeable:
                w.items = [t for t in w.items if t[1] is not x]
                x += dx
            else:
                x = x + dx
                past.append(x)
            w.add(f"input of step {step}", x)
            R.bump("small increments")
        elif k == 5 and past:
            x = relative(rng, past[-1])
            past.append(x)
            w.add(f"input of step {step}", x)
            R.bump("related inputs")
        else:
            trail = TRAILS[rng.integers(len(TRAILS))]
            n = int(np.prod(trail, dtype=int))
            F, _ = states(rng, n)
            x = lay(F, trail)
            if rng.integers(6) == 0:
                x.flags.writeable = False
            past.append(x)
            w.add(f"input of step {step}", x)
        what = "ok"
        if k == 9:  # a call that fails in the model or is rejected at once
            what = ["model raises", "rejected"][rng.integers(2)]
            try:
                if what == "model raises":
                    m.armed = "gradient" if name == "gradient" or rng.integers(2) else "hessian"
                    getattr(u, name)([x, None])
                else:
                    getattr(u, name)(bad_input(rng, x, name))
            except Exception:  # noqa: BLE001
                R.bump("failed calls")
            m.armed = None
            trace.append((step, i, name, what))
            R.event((hid, step), 1)
            continue
        trace.append((step, i, name, list(x.shape[2:])))
        ctx = {"group": info, "history": trace[-12:], "material": i, "F": x}
        got = R.call(f"{group.kind}:{name}", getattr(u, name), [x, None], ctx=ctx)
        if got is FAILED:
            continue
        ref = getattr(group.fresh(i), name)([x.copy(), None])
        y, z = np.asarray(got[0]), np.asarray(ref[0])
        R.bump("comparisons with a fresh material")
        if R.check(y.shape == z.shape, f"{group.kind}:history:shape", f"{y.shape} instead of {z.shape}", **ctx):
            again = lambda v: getattr(group.fresh(i), name)([v, None])[0]  # noqa: E731, B023
            reproduced(R, y, z, again, x, f"{group.kind}:history:{name}", f"{name} after a history", **ctx)
        # results stay what they were; writing into a result must not reach anything
        if rng.integers(3) == 0 and isinstance(got[0], np.ndarray) and got[0].flags.writeable:
            for j, (lab, a, c) in enumerate(w.items):
                if a is not got[0] and np.shares_memory(a, got[0]):
                    R.violation(f"{group.kind}:shared", f"result of step {step} shares memory with {lab}", **ctx)
                    break
            if np.shares_memory(got[0], x):
                R.violation(f"{group.kind}:shared input", "a result shares memory with the input", **ctx)
            got[0][...] = np.nan  # a caller may do this with its own result
            R.bump("overwritten results")
        else:
            w.add(f"output of step {step}", *[a for a in got if isinstance(a, np.ndarray)])
        R.event((hid, step), 1)
        if step % 10 == 9 or step == steps - 1:
            ch = w.changed()
            R.check(not ch, f"{group.kind}:changed", f"changed later: {ch[:3]}", **ctx)
            n = sum(m.inner.changed() for _, m in group.materials if hasattr(m.inner, "changed"))
            R.check(n == 0, f"{group.kind}:model arrays", f"{n} arrays a model owns changed", **ctx)
            R.check(same(given, leaves(group.params)), f"{group.kind}:parameters", "the caller's parameters changed", **ctx)
            R.bump("watched arrays", len(w.items))
            if len(w.items) > 300:
                w.items = w.items[-200:]
    return trace


def order(R, rng, n):
    "gradient before or after hessian, repeated: always the same results."
    for i in range(n):
        kind = list(MAKERS)[i % len(MAKERS)]
        spec = MAKERS[kind](rng)
        for sp in SPACES:
            u = spec.space(sp)
            F1, _ = states(rng, 6)
            F2, _ = states(rng, 4)
            x, y = lay(F1, (6,)), lay(F2, (2, 2))
            ctx = {"material": spec.describe(), "space": sp, "F": F1}
            f = spec.space(sp)
            calls = {
                "g": lambda: np.asarray(f.gradient([x, None])[0]).copy(),
                "h": lambda: np.asarray(f.hessian([x, None])[0]).copy(),
                "G": lambda: np.asarray(f.gradient([y, None])[0]).copy(),
                "H": lambda: np.asarray(f.hessian([y, None])[0]).copy(),
            }
            first = {"g": np.asarray(u.gradient([x, None])[0]).copy(), "h": np.asarray(spec.space(sp).hessian([x, None])[0]).copy(),
                     "G": np.asarray(spec.space(sp).gradient([y, None])[0]).copy(), "H": np.asarray(spec.space(sp).hessian([y, None])[0]).copy()}
            word = "".join(rng.choice(list("ghGH"), 7))
            for c in word:
                got = R.call(f"order:{c}", calls[c], ctx=ctx)
                if got is not FAILED:
                    name = "gradient" if c in "gG" else "hessian"
                    again = lambda v: getattr(spec.space(sp), name)([v, None])[0]  # noqa: E731, B023
                    reproduced(R, got, first[c], again, x if c in "gh" else y, f"order:{kind}", f"'{c}' within '{word}'", **ctx)
            R.event(("order", kind, sp, word), len(word))
            R.bump("orders")


def marathon(R, rng, n):
    "One object evaluated thousands of times keeps giving the same results."
    kinds = ["tod", "ogden", "user-invariants", "generalized", "user-stretches"]
    for j, sp in enumerate(SPACES):
        spec = MAKERS[kinds[(SEED + j) % len(kinds)]](rng)
        u = spec.space(sp)
        inputs = []
        for trail in ((2,), (1, 3), (4,), (), (2, 1), (0,), (3, 0), (700,)):
            F, _ = states(rng, int(np.prod(trail, dtype=int)), ("moderate", "dense"))
            x = lay(F, trail)
            if trail in ((4,), (2, 1)):  # other numbers
                x = x.astype(np.float32) if trail == (4,) else lay([[[2, 1, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 0], [1, 3, 0], [0, -1, 2]]], trail)
            f = spec.space(sp)
            inputs.append((x, {k: np.array(getattr(f, k)([x, None])[0]) for k in ("gradient", "hessian")}))
        for t in range(n):
            x, want = inputs[int(rng.choice(8, p=[0.26, 0.24, 0.12, 0.22, 0.12, 0.01, 0.01, 0.02]))]
            k = ("gradient", "hessian")[int(rng.integers(2))]
            ctx = {"material": spec.describe(), "space": sp, "evaluation": t, "F": x}
            got = R.call(f"marathon:{k}", getattr(u, k), [x, None], ctx=ctx)
            if got is FAILED:
                break
            y = np.asarray(got[0])
            top = np.abs(want[k]).max(initial=0) + 1e-300
            if not (y.shape == want[k].shape and (np.abs(y - want[k]) <= 1e-8 * top).all()):
                R.violation(f"marathon:{k}", f"another result in evaluation {t} of an object", **ctx)
                break
        R.event(("marathon", spec.key(), sp), n)
        R.bump("evaluations of one object", n)


def application(R, rng):
    "Events recorded from FElupe analyses are replayed on fresh materials in random order."
    from ..workloads import stable_shape, stable_volume

    runs = felupe_events(R, rng, [(stable_shape(rng), "Distortional", {}), (stable_volume(rng, "inv"), "Deformation", {})], "tension", steps=2, n=2)
    for spec, name, events in runs:
        for e in events:
            R.check(not e["mutated"], "application:input", "an evaluation changed its input", material=spec.describe(), space=name)
        for k in rng.permutation(len(events))[:12]:
            e = events[k]
            out = getattr(spec.space(name), e["name"])(e["x"])[0]
            z = np.asarray(e["out"][0])
            again = lambda v: getattr(spec.space(name), e["name"])([v, *e["x"][1:]])[0]  # noqa: E731, B023
            reproduced(R, np.asarray(out), z, again, e["x"][0], "application:replayed", "replayed event",
                       material=spec.describe(), space=name)
            R.event(("application", spec.kind, int(k)), 1)
            R.bump("replayed")


def trainable(R, rng, n):
    """Energies with tensors of the caller (trainable parameters, a network, plain tensors): their
    values, accumulated gradients and flags are the caller's."""
    import torch

    class Network(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.a = torch.nn.Parameter(torch.tensor(rng.uniform(0.3, 1.0, 3)))
            self.register_buffer("shift", torch.tensor([3.0, 3.0, 1.0], dtype=torch.float64))

        def forward(self, I1, I2, I3):
            x = [I - s for I, s in zip((I1, I2, I3), self.shift)]
            return self.a[0] * x[0] + torch.log(torch.cosh(self.a[1] * x[1])) + self.a[2] * x[2] ** 2

    for i in range(n):
        given = None
        if i % 2:
            fun = Network()
            kw, tensors = {}, [*fun.parameters(), *fun.buffers()]
        else:
            kw = {"c": torch.nn.Parameter(torch.tensor(rng.uniform(0.3, 1.0))), "d": torch.tensor(rng.uniform(0.1, 0.5))}
            fun = lambda I1, I2, I3, c, d: c * (I1 - 3) + d * I2**2 / 9 + c * d * (I3 - 1) ** 2  # noqa: E731
            tensors = list(kw.values())
        if i % 4 >= 2:  # an optimization of the caller is under way
            for k, t in enumerate(tensors):
                if t.requires_grad:
                    t.grad = torch.full_like(t, float(k + 1))
            given = [None if t.grad is None else t.grad for t in tensors]
        before = [(t.detach().clone(), None if t.grad is None else t.grad.clone(), t.requires_grad) for t in tensors]
        model = hel.models.invariants.TorchModel(fun, **kw)
        name = ("Deformation", "Distortional", "Dilatational")[i % 3]
        u = SPACES[name](hel.InvariantsFramework(model))
        F, _ = states(rng, 6)
        x = lay(F, (6,))
        ctx = {"energy": type(fun).__name__, "space": name, "gradients": given is not None}
        for what in ("gradient", "hessian", "gradient", "hessian")[i % 2:]:
            out = R.call(f"trainable:{what}", getattr(u, what), [x, None], ctx=ctx)
            if out is not FAILED:
                R.check(isinstance(out[0], np.ndarray) and np.isfinite(out[0]).all(), f"trainable:{what}", "result of an energy with trainable parameters", **ctx)
            for k, (t, (v, g, r)) in enumerate(zip(tensors, before)):
                R.check(torch.equal(t.detach(), v), "trainable:values", f"tensor {k} of the caller changed", **ctx)
                R.check((t.grad is None) == (g is None) and (g is None or torch.equal(t.grad, g)), "trainable:gradients",
                        f"accumulated gradient of tensor {k}: {g} before, {t.grad} after", **ctx)
                R.check(t.requires_grad == r, "trainable:flags", f"requires_grad of tensor {k}", **ctx)
        R.event(("trainable", type(fun).__name__, name, i % 4), 4)
        R.bump("tensors of the caller watched", len(tensors))


def shared_functions(R, rng, n):
    """One function of the caller in several models, with other values of its keywords: every model
    has its own, and the function's attributes are the caller's."""
    import functools

    class Callable:
        unit = "MPa"

        def __call__(self, I1, I2, I3, c, d=0.2):
            return c * (I1 - 3) + d * (I2 - 3) ** 2 / 9 + c * d * (I3 - 1) ** 2

        def method(self, I1, I2, I3, c, d=0.2):
            return self(I1, I2, I3, c, d)

    for i in range(n):
        holder = Callable()

        def energy(I1, I2, I3, c, d=0.2):
            return c * (I1 - 3) + d * (I2 - 3) ** 2 / 9 + c * d * (I3 - 1) ** 2

        energy.kwargs_of_mine = energy.c = 7.0
        kind = ("function", "object", "method", "partial")[i % 4]
        fun = {"function": energy, "object": holder, "method": holder.method, "partial": functools.partial(energy, d=0.3)}[kind]
        own = getattr(fun, "__dict__", {})
        before = dict(own)
        values = [{"c": float(rng.uniform(0.3, 1.0)), **({"d": float(rng.uniform(0.1, 0.5))} if rng.integers(2) else {})} for _ in range(3)]
        space = SPACES[("Deformation", "Distortional", "Dilatational")[i % 3]]
        us = [space(hel.InvariantsFramework(hel.models.invariants.TorchModel(fun, **kw))) for kw in values]
        # the same parameters written into a function of their own
        refs = [space(hel.InvariantsFramework(hel.models.invariants.TorchModel(
            lambda I1, I2, I3, kw=kw, d=0.3 if kind == "partial" else 0.2: Callable.__call__(None, I1, I2, I3, **{"d": d, **kw})))) for kw in values]
        x = lay(states(rng, 4)[0], (4,))
        for k in rng.permutation(np.repeat(np.arange(3), 2)):
            ctx = {"energy": kind, "keywords": values, "model": int(k)}
            for what in ("gradient", "hessian"):
                a = R.call(f"shared function:{what}", getattr(us[k], what), [x, None], ctx=ctx)
                b = getattr(refs[k], what)([x, None])
                if a is not FAILED:
                    R.close(a[0], b[0], np.abs(b[0]).max() + 1e-9, 1e-9, f"shared function:{what}", "a model that shares its function with others", **ctx)
            R.check(dict(own) == before, "shared function:attributes", f"attributes of the function: {dict(own)} instead of {before}", **ctx)
        # ... and measures of strain
        g0, power = hel.models.generalized.deformation, [float(v) for v in rng.uniform(0.5, 2.5, 2)]
        before = dict(vars(g0))
        model = hel.models.invariants.ThirdOrderDeformation(0.5, 0.2, 0.1)
        make = lambda p, f: hel.DeformationSpace(hel.GeneralizedInvariantsFramework(model, f, exponent=p))  # noqa: E731
        us = [make(p, g0) for p in power]
        refs = [make(p, lambda stretch, exponent: hel.models.generalized.deformation(stretch, exponent)) for p in power]
        for k in (0, 1, 0):
            a = R.call("shared measure", us[k].gradient, [x, None], ctx={"exponents": power})
            b = refs[k].gradient([x, None])[0]
            if a is not FAILED:
                R.close(a[0], b, np.abs(b).max(), 1e-9, "shared measure", "a framework that shares its measure with others", exponents=power)
        R.check(dict(vars(g0)) == before, "shared measure:attributes", "attributes of the measure", exponents=power)
        R.event(("shared function", kind, i % 3), 15)
        R.bump("shared functions")


def run(R):
    import torch

    torch.set_default_dtype(torch.float64)
    rng = np.random.default_rng([SEED, 16])
    R.require("comparisons with a fresh material", 500)
    R.require("failed calls", 20)
    R.require("overwritten results", 50)
    R.require("replayed", 5)
    R.require("small increments", 60)
    R.require("related inputs", 60)
    kinds = ["tod", "ogden", "user-invariants", "user-stretches", "generalized", "torch", "keeper", "ogden", "constant",
             "keeper-stretches", "keeper-tensors", "keeper-generalized"]
    shares = ["framework", "model", "none", "framework"]
    for h in range(pick(48, 500)):
        g = Group(rng, kinds[h % 12], shares[(h // 12 + h) % 4])
        t = history(R, rng, g, pick(45, 150), h)
        R.sample({"group": g.describe(), "history": [list(map(str, s)) for s in t[:12]]})
    order(R, rng, pick(18, 300))
    trainable(R, rng, pick(12, 120))
    R.require("tensors of the caller watched", 20)
    shared_functions(R, rng, pick(12, 120))
    R.require("shared functions", 12)
    marathon(R, rng, pick(1300, 20000))
    for _ in range(pick(1, 6)):
        application(R, rng)
