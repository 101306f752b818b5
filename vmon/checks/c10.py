"""C10: the automatic-differentiation model differentiates any energy correctly."""

import numpy as np

from ..engine import FAILED, Expected, col, observe, representable, size, trail_for
from ..env import SEED, hel, pick
from ..jets import Jet, exp, full, log, sqrt
from ..materials import INV_TERMS, ORDER6, SPACES, Energy, Spec, UserInvariants, _inv_terms, invariants
from ..states import TRAILS, alike, extreme, scaled, states

RULE = (
    "random energies of the invariants (linear, coupled, partly independent, with keyword "
    "parameters; written as functions, modules, networks, with trainable parameters, branches, "
    "in-place operations, custom or inner derivatives, totals) in single and double precision, argument shapes from single numbers to "
    "several batch axes; first and second derivatives and, in every space, stress and "
    "elasticity are compared with exact derivatives; distinct = (energy, shape, precision, space)"
)


def extra_functions():
    "name -> (function of I1, I2, I3 and keywords, keywords)."
    return {
        "yeoh": (lambda a, b, c, C10, C20, C30: C10 * (a - 3) + C20 * (a - 3) ** 2 + C30 * (a - 3) ** 3,
                 dict(C10=0.5, C20=-0.05, C30=0.02)),
        "only-I2": (lambda a, b, c, m: m * log(b), dict(m=0.7)),
        "only-I3": (lambda a, b, c, k: k * (sqrt(c) - 1) ** 2, dict(k=2.0)),
        "product": (lambda a, b, c: a * b * c, {}),
        "linear": (lambda a, b, c, x, y, z: x * a + y * b + z * c, dict(x=0.3, y=-0.2, z=0.1)),
        "linear-I1": (lambda a, b, c, x: x * (a - 3), dict(x=0.3)),
        "linear-I2": (lambda a, b, c, x: x * (b - 3), dict(x=0.3)),
        "linear-I3": (lambda a, b, c, x: x * (c - 1), dict(x=0.3)),
        "ratio": (lambda a, b, c: a / b + b / c, {}),
        "I1I3": (lambda a, b, c: a * (c - 1), {}),
        "I2I3+I1": (lambda a, b, c: b * c + a, {}),
        "isochoric": (lambda a, b, c, m, n: m * (a * c ** (-1.0 / 3.0) - 3) + n * (b * c ** (-2.0 / 3.0) - 3), dict(m=0.5, n=0.1)),
        "exp-coupled": (lambda a, b, c, k: exp(k * (a - 3) * (b - 3)) + exp(k * (c - 1)), dict(k=0.005)),
        "gent": (lambda a, b, c, m, J: -m / 2 * J * log(1 - (a - 3) / J), dict(m=1.0, J=300.0)),
        "list": (lambda a, b, c, C: sum(x * (a - 3) ** (i + 1) for i, x in enumerate(C)), dict(C=[0.5, -0.05, 0.02])),
        "tuple": (lambda a, b, c, C, k: C[0] * (a - 3) + C[1] * (b - 3) + k * (sqrt(c) - 1) ** 2, dict(C=(0.25, 0.75), k=1)),
        "array": (lambda a, b, c, C: float(C[0]) * a * b + float(C[1]) * c**2, dict(C=np.array([0.13, 0.37]))),
        "one entry": (lambda a, b, c, C: C[0] * (a - 3) ** 2 + len(C) * b, dict(C=np.array([0.43]))),
        "list of one": (lambda a, b, c, C: sum(x * (a - 3) ** (i + 1) for i, x in enumerate(C)), dict(C=[0.31])),
        "table": (lambda a, b, c, C: sum(float(C[i, j]) * (a - 3) ** i * (b - 3) ** j for i in range(2) for j in range(2)),
                  dict(C=np.array([[0.0, 0.25], [0.4, 0.02]]))),
        "number of no axes": (lambda a, b, c, C: float(C[()]) * a * c, dict(C=np.array(0.29))),
        "dtype": (lambda a, b, c, n: a ** int(n) / n.dtype.itemsize, dict(n=np.int64(2))),
        "numpy number": (lambda a, b, c, x, n: float(x) * a ** int(n), dict(x=np.float64(0.37), n=np.int64(3))),
        "integer": (lambda a, b, c, m, n: (a - 3) ** n * m + c**-1.0, dict(n=2, m=3)),
        "names": (lambda a, b, c, terms: terms["one"] * (a - 3) + terms["two"] * (b - 3) * (a - 3), dict(terms={"one": 0.45, "two": 0.05})),
        "option": (lambda a, b, c, kind, x: (x * (a - 3) if kind == "neo" else x * (b - 3) ** 2), dict(kind="mooney", x=0.21)),
        "switch": (lambda a, b, c, coupled=True, x=0.5: x * ((a - 3) * (c - 1) if coupled else (a - 3)), dict(coupled=False)),
        "defaults": (lambda a, b, c, x=0.35, y=0.05, shift=None: x * (a - 3) + y * (a - 3) ** 2 * b, dict(y=0.15)),
        "function": (lambda a, b, c, g: 0.4 * g(a) + 0.1 * g(b) * c, dict(g=lambda t: (t - 3) ** 2)),
        "names of arguments": (
            lambda a, b, c, numpy, tensor, x, statevars, create_graph, allow_unused, name, args, kwargs:
            numpy * (a - 3) + tensor * (b - 3) * (a - 3) + x * (c - 1) ** 2 + statevars * a * c + create_graph * b * c + allow_unused * b**2
            + name * a**2 + args * b + kwargs * c,
            dict(numpy=0.2, tensor=0.1, x=0.3, statevars=0.05, create_graph=0.02, allow_unused=0.01, name=0.03, args=0.15, kwargs=0.04)),
        "order": (lambda a, b, c, p, q: p * a**2 * b + q * b**2 * c, dict(q=0.01, p=0.02)),
    }


def stationary(rng):
    "Energies whose first derivatives vanish at rest."
    x, y = rng.uniform(0.2, 1, 2)
    return {
        "(I1-3)^2": (lambda a, b, c, x: x * (a - 3) ** 2, dict(x=x)),
        "(I2-3)^2": (lambda a, b, c, x: x * (b - 3) ** 2, dict(x=x)),
        "(I3-1)^2": (lambda a, b, c, x: x * (c - 1) ** 2, dict(x=x)),
        "(I1-3)(I2-3)": (lambda a, b, c, x: x * (a - 3) * (b - 3), dict(x=x)),
        "(I1-3)(I3-1)": (lambda a, b, c, x: x * (a - 3) * (c - 1), dict(x=x)),
        "(I2-3)(I3-1)": (lambda a, b, c, x: x * (b - 3) * (c - 1), dict(x=x)),
        "(I1-3)^2+I3": (lambda a, b, c, x, y: x * (a - 3) ** 2 + y * (c - 1), dict(x=x, y=y)),
        "I1+(J-1)^2": (lambda a, b, c, x, y: x * (a - 3) + y * (sqrt(c) - 1) ** 2, dict(x=x, y=y)),
        "(I1-3)^2+(I2-3)^2+(I3-1)^2": (lambda a, b, c, x, y: x * ((a - 3) ** 2 + (b - 3) ** 2) + y * (c - 1) ** 2, dict(x=x, y=y)),
    }


class Fun:
    def __init__(self, fun, kw):
        self.fun, self.kw = fun, kw

    def terms(self, a, b, c):
        return [self.fun(a, b, c, **self.kw)]


def random_function(rng, i, extra):
    names = list(extra)
    if i % 2:
        f, kw = extra[names[(i // 2) % len(names)]]
        e = Fun(f, kw)
        return names[(i // 2) % len(names)], f, kw, e
    e = Energy.random(rng, INV_TERMS)
    return repr(e.describe()), (lambda a, b, c: e(a, b, c)), {}, e


def exact(terms, args):
    x = Jet.variables(*args)
    g, h, gs, hs = 0.0, 0.0, 0.0, 0.0
    for t in terms(*x):
        t = full(t, x[0])
        g, h = g + t.g, h + t.h
        gs, hs = gs + np.abs(t.g), hs + np.abs(t.h)
    z = np.zeros_like(x[0].v)
    return g + 0 * x[0].g, h + 0 * x[0].h, gs + z, hs + z


def one(R, rng, name, f, kw, e, trail, single):
    import torch

    # the precision is the one of the evaluation, not of the creation of the model
    torch.set_default_dtype([torch.float32, torch.float64][rng.integers(2)])
    prec = "single" if single else "double"
    ctx = {"energy": name, "parameters": kw, "shape": trail, "precision": prec}
    dtypes = set()

    def watched(*args, **kwargs):
        dtypes.update(a.dtype for a in args[:3])
        return f(*args, **kwargs)

    m = R.call("torch:init", lambda: hel.models.invariants.TorchModel(watched if rng.integers(2) else f, **kw), ctx=ctx)
    if m is FAILED:
        return
    torch.set_default_dtype(torch.float32 if single else torch.float64)
    lam = np.exp(rng.uniform(-0.35, 0.35, (3, *trail)) * rng.choice([0.1, 1, 2]))
    if rng.integers(6) == 0:
        lam[...] = 1.0
    args = [np.array(a) for a in invariants(*lam)]
    form = int(rng.integers(9))
    given = [a.copy() for a in args]
    if trail == () and form == 0:
        given = [a.item() for a in args]
    elif trail == () and form == 1:
        given = [np.float64(a) for a in args]
    elif form == 2 and trail != ():
        given = []
        for a in args:
            b = np.empty((*trail, 2))
            b[..., 0] = a
            given.append(b[..., 0])  # strided
    elif form == 3:
        for a in given:
            a.flags.writeable = False
    elif form == 4 and trail != ():  # reversed views
        given = [np.ascontiguousarray(a[tuple(slice(None, None, -1) for _ in trail)])[tuple(slice(None, None, -1) for _ in trail)]
                 for a in args]
    elif form == 5:  # from a file of another machine
        given = [a.astype(">f8") for a in args]
    elif form == 6:  # one array for two or three of the invariants
        i, j = rng.permutation(3)[:2]
        args[j] = args[i]
        if rng.integers(3) == 0:
            args = [args[0]] * 3
            given = [args[0].copy()] * 3
        else:
            given = [a.copy() for a in args]
            given[j] = given[i]
        R.bump("one array twice")
    elif form == 7 and trail != ():  # views of one array
        base = np.stack(args)
        given = list(base)
    sv = [None, np.arange(3.0)][rng.integers(2)]
    g, h, gs, hs = exact(e.terms, args)
    if single:  # rounding of the input and of intermediate values
        near = [exact(e.terms, [a * s for a, s in zip(args, p)]) for p in ((1.05, 1, 1), (1, 1.05, 1), (1, 1, 1.05))]
        hm = np.max([hs] + [n[3] for n in near], axis=0).max(axis=(0, 1))
        am = np.max(args, axis=0)
        tg = 3e-5 * (gs.max(axis=0) + hm * am)
        th = 3e-5 * (hm + gs.max(axis=0) / np.min(args, axis=0)) * (1 + am / np.min(args, axis=0))
    else:
        tg = 1e-12 * (gs.max(axis=0) + hs.max(axis=(0, 1)) * np.max(args, axis=0))
        th = 1e-12 * (hs.max(axis=(0, 1)) + gs.max(axis=0) / np.min(args, axis=0))
    first = rng.integers(2)
    if first:
        R.call("torch:hessian", m.hessian, *given, sv, ctx=ctx)
    G = R.call("torch:gradient", m.gradient, *given, sv, ctx=ctx)
    H = R.call("torch:hessian", m.hessian, *given, sv, ctx=ctx)
    mech = f"torch:{prec}"
    R.check(dtypes <= {torch.get_default_dtype()}, f"{mech}:precision", f"the energy is given {dtypes}", **ctx)
    if dtypes:
        R.bump("precisions")

    def cmp(got, want, tol, what):
        if got is None:
            R.bump("absent")
            R.check(not np.any(want), f"{mech}:absent", f"{what} is absent but not zero", **ctx)
            return
        R.bump("present")
        got = R.call(f"{mech}:array", lambda: np.asarray(got, dtype=float), ctx=ctx)
        if got is FAILED:
            return
        if got.shape != want.shape:
            try:
                got = np.broadcast_to(got, want.shape)
            except ValueError:
                pass
        R.close(got, want, 1.0, tol, f"{mech}:{what[:2]}", what, **ctx)

    if G is not FAILED and R.check(len(G) == 4, "torch:gradient:count", f"{len(G)} entries", **ctx):
        for i in range(3):
            cmp(G[i], g[i], tg, f"dW/dI{i + 1}")
        R.check(G[3] is sv or np.array_equal(G[3], sv), "torch:statevars", "state variables changed", **ctx)
    if H is not FAILED and R.check(len(H) == 6, "torch:hessian:count", f"{len(H)} entries", **ctx):
        for (i, j), v in zip(ORDER6, H):
            cmp(v, h[i, j], th, f"d2W/dI{i + 1}dI{j + 1}")
    for a, b in zip(args, given):
        R.check(np.array_equal(a, b), "torch:arguments", "an argument was changed", **ctx)
    R.event((name, trail, prec), 2 * max(1, int(np.prod(trail))))


def torch_forms(rng):
    """Ways of writing an energy with PyTorch: name -> (function handed to the model, keywords,
    the same energy of jets)."""
    import torch

    x, y, z = (float(v) for v in rng.uniform(0.1, 0.8, 3))
    D = torch.float64

    class Module(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.x = torch.nn.Parameter(torch.tensor(x, dtype=D))
            self.register_buffer("y", torch.tensor(y, dtype=D))

        def forward(self, a, b, c):
            return self.x * (a - 3) + self.y * (a - 3) * (b - 3)

    net = torch.nn.Sequential(torch.nn.Linear(3, 2, dtype=D), torch.nn.Softplus(threshold=500), torch.nn.Linear(2, 1, dtype=D))
    with torch.no_grad():
        for p in net.parameters():
            p.copy_(torch.tensor(rng.uniform(-0.6, 0.6, tuple(p.shape)), dtype=D))
    W = [p.detach().numpy().copy() for p in net.parameters()]

    def layer(a, b, c):
        h = [log(1 + exp(W[0][i, 0] * a + W[0][i, 1] * b + W[0][i, 2] * c + W[1][i])) for i in range(2)]
        return W[2][0, 0] * h[0] + W[2][0, 1] * h[1] + W[3][0]

    class Square(torch.autograd.Function):
        @staticmethod
        def forward(ctx, t):
            ctx.save_for_backward(t)
            return t**2

        @staticmethod
        def backward(ctx, g):
            (t,) = ctx.saved_tensors
            return 2 * t * g

    def in_place(a, b, c):
        w = a - 3
        w *= x
        w += y * b
        return w * c

    def filled(a, b, c):
        w = torch.zeros_like(a)
        w[...] = x * (a - 3) ** 2
        return w + y * b

    def inner(a, b, c):
        t = a * b
        return x * torch.autograd.grad((t**2).sum(), t, create_graph=True)[0] * c

    def loop(a, b, c):
        w = 0
        for i, k in enumerate((x, y, z)):
            w = w + k * (a - 3) ** (i + 1)
        return w

    def branch(a, b, c):
        return x * a * b if a.ndim else x * (b * a)

    p = lambda v, **k: torch.tensor(v, dtype=D, **k)  # noqa: E731
    return {
        "module": (Module(), {}, lambda a, b, c: x * (a - 3) + y * (a - 3) * (b - 3)),
        "network": (lambda a, b, c, net: net(torch.stack([a, b, c], -1))[..., 0], dict(net=net), layer),
        "trainable": (lambda a, b, c, p: p * (a - 3), dict(p=p(x, requires_grad=True)), lambda a, b, c: x * (a - 3)),
        "trainable I2": (lambda a, b, c, p: p * b, dict(p=torch.nn.Parameter(p(x))), lambda a, b, c: x * b),
        "trainables": (lambda a, b, c, p: p[0] * (a - 3) + p[1] * (b - 3) * c, dict(p=p([x, y], requires_grad=True)),
                       lambda a, b, c: x * (a - 3) + y * (b - 3) * c),
        "tensor": (lambda a, b, c, p: p * (a - 3) ** 2 + c, dict(p=p(x)), lambda a, b, c: x * (a - 3) ** 2 + c),
        "total": (lambda a, b, c: (x * (a - 3) + y * a * b).sum(), {}, lambda a, b, c: x * (a - 3) + y * a * b),
        "one more axis": (lambda a, b, c: (x * (a - 3) ** 2 * c)[..., None], {}, lambda a, b, c: x * (a - 3) ** 2 * c),
        "summands": (lambda a, b, c: torch.stack([x * a, y * b * c, z * c**2]), {}, lambda a, b, c: x * a + y * b * c + z * c**2),
        "where": (lambda a, b, c: torch.where(a > 0, x * (a - 3) ** 2, 7 * a) + torch.where(b < 0, b, y * b), {},
                  lambda a, b, c: x * (a - 3) ** 2 + y * b),
        "clamped": (lambda a, b, c: x * torch.clamp(a * b, max=1e9) + torch.relu(c) * y, {}, lambda a, b, c: x * a * b + y * c),
        "maximum": (lambda a, b, c: x * torch.maximum(a + 50 * b, b - 50 * a) ** 2, {}, lambda a, b, c: x * (a + 50 * b) ** 2),
        "weights": (lambda a, b, c: x * (c * 0 + 1).detach() * (a - 3) ** 2, {}, lambda a, b, c: x * (a - 3) ** 2),
        "custom": (lambda a, b, c: x * Square.apply(a - 3) + y * Square.apply(b * c), {}, lambda a, b, c: x * (a - 3) ** 2 + y * (b * c) ** 2),
        "in place": (in_place, {}, lambda a, b, c: (x * (a - 3) + y * b) * c),
        "filled": (filled, {}, lambda a, b, c: x * (a - 3) ** 2 + y * b),
        "inner derivative": (inner, {}, lambda a, b, c: 2 * x * a * b * c),
        "loop": (loop, {}, lambda a, b, c: x * (a - 3) + y * (a - 3) ** 2 + z * (a - 3) ** 3),
        "branch": (branch, {}, lambda a, b, c: x * a * b),
        "detached": (lambda a, b, c: x * a**2 + 0 * b.detach(), {}, lambda a, b, c: x * a**2),
        "power": (lambda a, b, c: x * torch.pow(a, 1.3) + y * torch.pow(b, -0.7) + z * torch.sqrt(c) * torch.log(c), {},
                  lambda a, b, c: x * a**1.3 + y * b**-0.7 + z * sqrt(c) * log(c)),
        "unbind": (lambda a, b, c: sum(t * k for t, k in zip(torch.unbind(torch.stack([a, b, c])), (x, y, z))) ** 2, {},
                   lambda a, b, c: (x * a + y * b + z * c) ** 2),
        "number": (lambda a, b, c: 1.5, {}, lambda a, b, c: 0 * a),
        "constant tensor": (lambda a, b, c: torch.ones_like(a), {}, lambda a, b, c: 0 * a),
        "only a parameter": (lambda a, b, c, p: p * torch.ones_like(a), dict(p=p(x, requires_grad=True)), lambda a, b, c: 0 * a),
    }


class Plain:
    def __init__(self, fun):
        self.fun = fun

    def terms(self, a, b, c):
        return [self.fun(a, b, c)]


USUAL = ("moderate", "dense", "tiny", "rest", "twin", "triple", "shear", "volumetric", "planar")


def spaces(R, rng, name, f, kw, e, cats=None):
    "Through the framework, in every space, in double and single precision."
    import torch

    spec = Spec("torch", {"energy": name, "parameters": kw}, _inv_terms(e.terms),
                lambda **k: hel.InvariantsFramework(hel.models.invariants.TorchModel(f, **kw), **k), False)
    for sp in SPACES:
        trail = trail_for(rng, 16)
        n = int(np.prod(trail, dtype=int))
        if rng.integers(25) == 0:
            trail = ((150,), (1100,), (30, 7))[rng.integers(3)]
            n = size(trail)
        if cats is None:
            cats = USUAL
        wide = int(rng.integers(4)) if cats == USUAL else 3
        if wide == 0:
            F, tags = (extreme, scaled)[rng.integers(2)](rng, n)
            F = representable(rng, F, spec, sp)
        elif wide == 1:
            F, tags = alike(rng, n)
        else:
            F, tags = states(rng, n, cats)
        ref = Expected(F, spec, sp)
        ctx = {"material": spec.describe(), "space": sp, "trail": trail, "F": F}
        torch.set_default_dtype([torch.float32, torch.float64][rng.integers(2)])
        u = R.call("space:build", spec.space, sp, ctx=ctx)
        if u is FAILED:
            continue
        for single in (False, True, False) if wide > 1 else (False, False):
            torch.set_default_dtype(torch.float32 if single else torch.float64)
            P = observe(R, u, "gradient", F, trail, ctx=ctx, mech="space")
            A = observe(R, u, "hessian", F, trail, ctx=ctx, mech="space")
            c2 = ref.cond**4
            tp = ref.tolP + (5e-6 * c2 * ref.rP if single else 0)
            ta = ref.tolA + (2e-5 * c2 * ref.rA if single else 0)
            p = "single" if single else "double"
            if P is not FAILED:
                R.close(P, ref.P, 1.0, col(tp, 2), f"space:{p}:stress", "stress", **ctx)
            if A is not FAILED:
                R.close(A, ref.A, 1.0, col(ta, 4), f"space:{p}:elasticity", "elasticity", **ctx)
            R.event((name, sp, p, trail), 2 * n)
            R.bump("points:space", 2 * n)


def run(R):
    import torch

    rng = np.random.default_rng([SEED, 10])
    R.require("present", 300)
    R.require("one array twice", 8)
    R.require("absent", 50)
    R.require("points:space", 300)
    extra = extra_functions()
    before = torch.get_default_dtype()
    try:
        for i in range(pick(220, 6000)):
            name, f, kw, e = random_function(rng, i, extra)
            trail = TRAILS[rng.integers(len(TRAILS))] if i % 4 else ()
            one(R, rng, name, f, kw, e, trail, single=bool(rng.integers(3) == 0))
        for i in range(pick(50, 800)):
            name, f, kw, e = random_function(rng, i, extra)
            spaces(R, rng, name, f, kw, e)
        for _ in range(pick(1, 12)):
            for name, (f, kw, jet) in torch_forms(rng).items():
                for trail in ((), (1,), (4,), (2, 3)):
                    one(R, rng, name, f, kw, Plain(jet), trail, single=False)
                R.bump("forms of energies")
        R.require("forms of energies", 20)
        # first derivatives that vanish exactly at every point of the batch
        for name, (f, kw) in extra.items():
            spaces(R, rng, name, f, kw, Fun(f, kw), ("rest",))
        for _ in range(pick(1, 10)):
            for name, (f, kw) in stationary(rng).items():
                spaces(R, rng, name, f, kw, Fun(f, kw), [("rest",), ("rest", "rigid")][rng.integers(2)])
        # an energy that does not depend on anything contributes nothing
        torch.set_default_dtype(torch.float64)
        for const in (lambda a, b, c: 0.0 * a + 1.0, lambda a, b, c: 0 * (a + b + c)):
            u = hel.DeformationSpace(hel.InvariantsFramework(hel.models.invariants.TorchModel(const)))
            F, _ = states(rng, 6)
            P = observe(R, u, "gradient", F, (6,), mech="constant")
            A = observe(R, u, "hessian", F, (6,), mech="constant")
            for y in (P, A):
                if y is not FAILED:
                    R.check(not np.any(y), "constant", "a constant energy has a response")
        R.check(torch.get_default_dtype() == torch.float64, "torch:dtype", "default dtype changed")
    finally:
        torch.set_default_dtype(before)
    R.sample({"functions": list(extra)})
