"""C24: finite-element analyses balance and converge quadratically.

The analyses are run with FElupe's solid bodies; the Newton loop is the monitor's own so
that every residual and increment is recorded.  Oracles: the reference energy / stress
(jets), equilibrium (residual, force and moment balance), rates of the recorded
increments, uniqueness of the converged state, work = energy difference."""

import numpy as np
from scipy.sparse.linalg import spsolve

from ..engine import Expected, col
from ..env import SEED, hel, pick
from ..report import FAILED
from ..states import rotation, unlay
from ..workloads import stable_full, stable_shape, stable_volume

ROUND = 1e-13  # residual relative to the acting forces
RATE = 3000.0  # |error_{k+1}| <= RATE |error_k|^2 (strains of order one)


class Unstable(Exception):
    "The body is about to buckle: more than one solution."


class Diverged(Exception):
    pass


class Analysis:
    "Solid bodies of all parts on one (distorted) mesh of hexahedra."

    def __init__(self, rng, parts, n=3, distort=0.25, cell="hex"):
        import felupe as fem

        self.fem = fem
        mesh = fem.Cube(n=n)
        inner = np.all((mesh.points > 1e-9) & (mesh.points < 1 - 1e-9), axis=1)
        mesh.points[inner] += distort * rng.uniform(-1, 1, (inner.sum(), 3)) / (n - 1)
        if cell == "tet":
            mesh = fem.mesh.triangulate(mesh)
            self.region = fem.RegionTetra(mesh)
        else:
            self.region = fem.RegionHexahedron(mesh)
        self.mesh = mesh
        self.field = fem.FieldContainer([fem.Field(self.region, dim=3)])
        self.parts = parts
        self.solids = [fem.SolidBody(u, self.field) for _, _, u in parts]
        X = mesh.points
        self.X = X.copy()
        self.left = np.isclose(X[:, 0], 0)
        self.right = np.isclose(X[:, 0], 1)
        self.boundary = np.any((X < 1e-9) | (X > 1 - 1e-9), axis=1)

    # -- state ---------------------------------------------------------------------
    def set(self, u):
        self.field[0].values[:] = u

    def get(self):
        return self.field[0].values.copy()

    def forces(self):
        f = sum(b.assemble.vector(self.field) for b in self.solids)
        return np.asarray(f.todense()).reshape(-1, 3)

    def matrix(self):
        return sum(b.assemble.matrix(self.field) for b in self.solids).tocsc()

    def F(self):
        return unlay(self.field.extract()[0], 2)

    def energy(self):
        F = self.F()
        dx = np.asarray(self.region.dV).ravel()
        return sum((Expected(F, s, sp, tangent=False).W * dx).sum() for s, sp, _ in self.parts)

    # -- Newton --------------------------------------------------------------------
    def solve(self, fixed, target, iterations=40):
        """Prescribe the displacements ``target`` on the nodes ``fixed``; solve for the
        others.  Returns the recorded (residual / force, increment) per iteration."""
        mask = np.repeat(fixed, 3)
        i0, i1 = np.flatnonzero(mask), np.flatnonzero(~mask)
        log = []
        for k in range(iterations):
            r = self.forces().ravel()
            K = self.matrix()
            u = self.get().ravel()
            du = np.zeros_like(u)
            du[i0] = target.ravel()[i0] - u[i0]
            du[i1] = spsolve(K[i1][:, i1], -r[i1] - K[i1][:, i0] @ du[i0])
            if not np.isfinite(du).all():
                raise Diverged("not finite")
            self.set((u + du).reshape(-1, 3))
            J = np.linalg.det(self.F())
            if not (J > 1e-3).all() or np.abs(du).max() > 5:
                raise Diverged("inverted")
            log.append((np.abs(r[i1]).max() if k else np.inf, np.abs(du).max()))
            if log[-1][1] < 1e-13:
                break
            if k > 4 and log[-1][1] < 1e-11 and log[-1][1] > 0.3 * log[-2][1]:
                break
        return log

    def softest(self, fixed):
        "Smallest eigenvalue of the tangent of the free displacements."
        i1 = np.flatnonzero(~np.repeat(fixed, 3))
        K = self.matrix()[i1][:, i1].toarray()
        return np.linalg.eigvalsh((K + K.T) / 2)[0]

    def residual(self, fixed):
        f = self.forces()
        return np.abs(f[~fixed]).max(), np.abs(f).max()


def loading(rng, kind):
    "t in [0, 1] -> displacement of the right face (function of X)."
    if kind == "tension":
        a = rng.uniform(0.3, 0.7)
        return lambda t, X: t * a * np.tile([1.0, 0, 0], (len(X), 1))
    if kind == "compression":
        a = rng.uniform(0.1, 0.25)
        return lambda t, X: -t * a * np.tile([1.0, 0, 0], (len(X), 1))
    if kind == "shear":
        a, b = rng.uniform(0.2, 0.5, 2)
        return lambda t, X: t * np.tile([0.05, a, b], (len(X), 1))
    if kind == "torsion":
        a = rng.uniform(0.3, 0.8)

        def torsion(t, X):
            c, s = np.cos(a * t), np.sin(a * t)
            d = X - [0, 0.5, 0.5]
            return np.c_[np.full(len(X), 0.1 * t), (c - 1) * d[:, 1] - s * d[:, 2], s * d[:, 1] + (c - 1) * d[:, 2]]

        return torsion
    raise ValueError(kind)


LOADS = ["tension", "shear", "torsion", "compression"]


def materials(R, rng, k):
    "Parts [(spec, space, umat)] whose sum is a stable material."
    if k % 2:
        spec = stable_full(rng, ["inv", "str", "torch", "gi"][(k // 2) % 4])
        parts = [(spec, "Deformation")]
    else:
        kind = ["tod", "ogden", "gi", "user-inv", "user-str", "torch"][(k // 2) % 6]
        parts = [(stable_shape(rng, kind), "Distortional"),
                 (stable_volume(rng, ["inv", "str"][(k // 4) % 2]), "Dilatational")]
    out = []
    for s, sp in parts:
        u = R.call("build", s.space, sp, ctx={"material": s.describe(), "space": sp})
        if u is FAILED:
            return None
        out.append((s, sp, u))
    return out


def label(parts):
    return "+".join(f"{s.kind}/{sp}" for s, sp, _ in parts)


def scales(A):
    "Magnitude of the nodal forces of single elements (round-off of their sums)."
    F = A.F()
    s = 0.0
    for spec, sp, _ in A.parts:
        r = Expected(F, spec, sp, tangent=False)
        s = s + np.max(r.sP + r.rP)
    return s * float(np.max(A.region.mesh.points.max(axis=0))) / 4


def guarded(R, mech, fun, ctx):
    "Exceptions of the code are violations, divergence is a violation of its own."
    try:
        return fun()
    except Diverged as e:
        if mech == "steps":  # coarse load steps may leave the region of convergence
            R.bump("coarse steps diverged")
            return FAILED
        R.violation(f"{mech}:diverged", f"Newton's method diverged: {e}", **ctx)
        return FAILED
    except Exception:  # noqa: BLE001
        def again():
            raise

        return R.call(mech, again, ctx=ctx)


def ramp(R, A, load, ts, mech, ctx, visit=None):
    "Load steps; monitors residual and quadratic convergence of every step."
    fixed = A.left | A.right

    def target(t):
        u = np.zeros_like(A.X)
        u[A.right] = load(t, A.X[A.right])
        return u

    for t in ts:
        log = guarded(R, mech, lambda t=t: A.solve(fixed, target(t)), {**ctx, "t": t})
        if log is FAILED:
            return False
        d = [x[1] for x in log]
        if mech == "steps" and not d[-1] < 1e-10:
            R.bump("coarse steps diverged")
            return False
        R.bump("newton iterations", len(log))
        R.bump("load steps")
        res, force = A.residual(fixed)
        R.close(res, 0.0, scales(A), ROUND, f"{mech}:residual", "residual of the converged state", t=t, **ctx)
        for a, b in zip(d[1:], d[2:]):
            if a < 1e-3:
                R.bump("newton pairs")
                R.close(b, 0.0, RATE * a * a + 1e-11, 1.0, f"{mech}:rate",
                        f"increments {a:.2e} -> {b:.2e}: not quadratic", t=t, increments=d, **ctx)
        R.check(d[-1] < 1e-10, f"{mech}:not converged", f"increments {d}", t=t, **ctx)
        R.event((ctx["material"], ctx["load"], mech, round(float(t), 4)), A.F().shape[0])
        if visit is not None:
            visit(t)
    return True


def balance(R, A, ctx):
    "Sum of forces and moments about the deformed positions; energy gradient by work."
    f = A.forces()
    x = A.X + A.get()
    s = scales(A)
    R.close(f.sum(axis=0), np.zeros(3), s * 10, 1e-13, "balance:force", "sum of the nodal forces", **ctx)
    R.close(np.cross(x, f).sum(axis=0), np.zeros(3), s * 10, 1e-13, "balance:moment", "sum of the moments", **ctx)
    R.bump("balances")


def basin(R, rng, A, fixed, ctx):
    "Newton steps from disturbed converged states: error ~ disturbance^2; symmetric tangent."
    star = A.get()
    K = A.matrix()
    kmax = abs(K).max()
    R.close(abs(K - K.T).max(), 0.0, kmax, 1e-13, "basin:symmetry", "tangent of a potential is symmetric", **ctx)
    v = rng.uniform(-1, 1, star.shape)
    v[fixed] = 0
    v /= np.abs(v).max()
    mask = np.repeat(fixed, 3)
    i1 = np.flatnonzero(~mask)
    errs = []
    for eps in (1e-2, 1e-3, 1e-4, 1e-5):
        A.set(star + eps * v)
        r = A.forces().ravel()
        du = np.zeros(star.size)
        du[i1] = spsolve(A.matrix()[i1][:, i1], -r[i1])
        errs.append(np.abs(eps * v.ravel() + du).max())
        if eps < 5e-4:  # a tenth of the disturbance: a hundredth of the error
            R.close(errs[-1], 0.0, errs[-2] / 25 + 1e-12, 1.0, "basin:rate",
                    f"error after one Newton step from a disturbance {eps}", errors=errs, **ctx)
        R.bump("basin steps")
    A.set(star)


def consistent(R, rng, A, ctx):
    "The assembled tangent is the derivative of the forces, at any moment of the history."
    star = A.get()
    v = rng.uniform(-1, 1, star.shape)
    got = (A.matrix() @ v.ravel()).reshape(v.shape)
    h = 1e-3
    want = 0.0
    for m, w in ((1, 8.0), (-1, -8.0), (2, -1.0), (-2, 1.0)):
        A.set(star + m * h * v)
        want = want + w * A.forces()
    want = want / (12 * h)
    A.set(star)
    R.close(got, want, np.abs(want).max(), 1e-6, "tangent", "tangent and the difference quotient of the forces", **ctx)
    R.bump("tangents")
    # its change over small increments (the last iterations) is that over larger ones
    d = {}
    for h in (1e-3, 1e-5, 1e-7):
        K = []
        A.matrix()
        for m in (1, -1):
            A.set(star + m * h * v)
            K.append(A.matrix() @ v.ravel())
        A.set(star)
        d[h] = (K[0] - K[1]) / (2 * h)
    top = np.abs(d[1e-3]).max()
    for h in (1e-5, 1e-7):
        R.close(d[h], d[1e-3], top + 1e-3 * np.abs(got).max(), 0.02, "tangent:small steps",
                f"change of the tangent over increments of {h}", **ctx)
        R.bump("small steps")


def rotated(R, rng, A, fixed, ctx):
    "A rigidly rotated solution is a solution; the reactions rotate."
    star = A.get()
    f = A.forces()
    s = scales(A)
    for Q in (rotation(rng), np.diag([-1.0, -1.0, 1.0])):
        A.set((A.X + star) @ Q.T + rng.normal(size=3) - A.X)
        R.close(A.forces(), f @ Q.T, s, 1e-13, "rotated:forces", "forces of the rotated body", Q=Q, **ctx)
        R.bump("rotations")
    A.set(star)


def analysis(R, rng, k):
    parts = materials(R, rng, k)
    if parts is None:
        return
    kind = LOADS[(k + k // 4) % len(LOADS)]
    load = loading(rng, kind)
    A = Analysis(rng, parts, n=4 if k % 10 == 5 else 3, cell="tet" if k % 7 == 3 else "hex")
    ctx = {"material": label(parts), "load": kind, "materials": [s.describe() for s, _, _ in parts]}
    fixed = A.left | A.right
    # stress-free start
    s0 = scales(A)
    f0 = guarded(R, "start", A.forces, ctx)
    if f0 is FAILED:
        return
    R.close(f0, np.zeros_like(f0), s0, 1e-11, "start:forces", "forces of the undeformed body", **ctx)
    E0 = A.energy()
    soft = A.softest(fixed)
    # Gauss points of the load path: work of the reactions
    g, w = np.polynomial.legendre.leggauss(pick(6, 10))
    t, w = (g + 1) / 2, w / 2
    work = [0.0]
    it = iter(w)

    def visit(ti):
        consistent(R, rng, A, {**ctx, "t": ti})
        if A.softest(fixed) < 0.2 * soft:
            raise Unstable
        f = A.forces()
        h = 1e-4
        rate = (load(ti + h, A.X[A.right]) - load(ti - h, A.X[A.right])) / (2 * h)
        wi = next(it, 0.0)
        work[0] += wi * (f[A.right] * rate).sum()

    try:
        if not ramp(R, A, load, [*t, 1.0], "loading", ctx, visit=visit):
            return
    except Unstable:
        R.bump("unstable analyses")
        return
    end = A.get()
    R.close(A.energy() - E0, work[0], abs(work[0]) + 1e-3 * s0, 1e-6, "work", "energy difference and work of the reactions", **ctx)
    R.bump("works")
    balance(R, A, ctx)
    basin(R, rng, A, fixed, ctx)
    rotated(R, rng, A, fixed, ctx)
    # step counts
    for n in pick((2, 5), (2, 3, 5, 8, 13)):
        A.set(0.0)
        if not ramp(R, A, load, np.linspace(0, 1, n + 1)[1:], "steps", ctx):
            A.set(end)
            continue
        R.close(A.get(), end, 1.0, 1e-9, "steps:state", f"converged state with {n} steps", **ctx)
        R.bump("step counts")
    A.set(end)
    # unloading by other steps
    if not ramp(R, A, load, [0.7, 0.35, 0.0], "unloading", ctx):
        return
    R.close(A.get(), np.zeros_like(end), 1.0, 1e-9, "unloading:state", "displacements after unloading", **ctx)
    f = A.forces()
    R.close(f, np.zeros_like(f), s0, 1e-11, "unloading:forces", "forces after unloading", **ctx)
    R.bump("unloadings")
    R.sample({**ctx, "energy": float(E0), "work": float(work[0])})


def patch(R, rng, k):
    "Homogeneous boundary displacements: homogeneous body, material-point response."
    parts = materials(R, rng, k)
    if parts is None:
        return
    A = Analysis(rng, parts, n=int(rng.integers(5, 8)) if k % 4 == 2 else 3, cell="tet" if k % 3 == 2 else "hex", distort=0.3)
    H = 0.25 * rng.uniform(-1, 1, (3, 3))
    if k % 4 == 3:
        H = np.diag([0.3, 0.3, -0.2])  # equal stretches at all points
    Fh = np.eye(3) + H
    ctx = {"material": label(parts), "load": "patch", "F": Fh, "materials": [s.describe() for s, _, _ in parts]}
    u = A.X @ H.T
    start = u.copy()
    start[~A.boundary] = 0
    A.set(0.0)
    for a in (0.5, 1.0):
        log = guarded(R, "patch", lambda a=a: A.solve(A.boundary, a * u), ctx)
        if log is FAILED:
            return
    R.close(A.get(), u, 1.0, 1e-9, "patch:field", "interior displacements", **ctx)
    A.set(u)
    A.forces()
    K = A.matrix()
    F = A.F()
    for (spec, sp, um), body in zip(parts, A.solids):
        x = [A.field.extract()[0], None]
        ref = Expected(Fh[None], spec, sp)
        for name, nl, val, tol in (("gradient", 2, ref.P, ref.tolP), ("hessian", 4, ref.A, ref.tolA)):
            out = R.call(f"patch:{name}", getattr(um, name), x, ctx=ctx)
            if out is FAILED:
                continue
            y = unlay(np.asarray(out[0]), nl)
            R.close(y, np.broadcast_to(val, y.shape), 1.0, 5 * col(tol, nl) + 1e-12 * np.abs(val).max(),
                    f"patch:{name}", "response at the quadrature points", space=sp, spec=spec.describe(), **ctx)
            R.bump("patch points", len(y))
            R.event((spec.key(), sp, "patch", k, name), len(y))
    # virtual work of the homogeneous stress: forces on the boundary equal P N dA
    P = sum(Expected(Fh[None], s, sp, tangent=False).P[0] for s, sp, _ in parts)
    f = A.forces()
    face = A.right
    R.close(f[face].sum(axis=0), P[:, 0], 1 + np.abs(P).max(), 1e-9, "patch:traction", "force on the face is P N A", **ctx)
    del K, F
    R.bump("patches")


class Reference:
    "The reference response as a material of the host."

    def __init__(self, spec, sp):
        self.spec, self.sp = spec, sp
        self.x = [np.eye(3), np.zeros(0)]

    def _response(self, x, tangent):
        F = np.asarray(x[0])
        r = Expected(unlay(F, 2), self.spec, self.sp, tangent=tangent)
        y = r.A if tangent else r.P
        return np.ascontiguousarray(np.moveaxis(y, 0, -1).reshape(*y.shape[1:], *F.shape[2:]))

    def gradient(self, x):
        return [self._response(x, False), x[-1]]

    def hessian(self, x):
        return [self._response(x, True)]


def formulations(rng):
    "name -> function(material) -> (field container, solid body); one (distorted) mesh each."
    import felupe as fem

    def moved(mesh, r):
        inner = np.all((mesh.points > 1e-9) & (mesh.points < 1 - 1e-9), axis=1)
        mesh.points[inner] += 0.1 * r.uniform(-1, 1, mesh.points[inner].shape)
        return mesh

    seed = int(rng.integers(2**31))

    def cube(n=3):
        return moved(fem.Cube(n=n), np.random.default_rng(seed))

    def square(n=3):
        return moved(fem.Rectangle(n=n), np.random.default_rng(seed))

    def container(field):
        return fem.FieldContainer([field])

    def plain(make):
        return lambda m: (lambda f: (f, fem.SolidBody(m, f)))(make())

    def nearly(make):
        return lambda m: (lambda f: (f, fem.SolidBodyNearlyIncompressible(m, f, bulk=20.0)))(make())

    def mixed(make, wrap, chunk=None):
        def both(m):
            f = make()
            w = wrap(m)
            if chunk:
                w.chunksize = chunk
            return f, fem.SolidBody(w, f)

        return both

    def axisymmetric():
        mesh = square()
        mesh.points[:, 1] += 0.3  # the radius
        return container(fem.FieldAxisymmetric(fem.RegionQuad(mesh), dim=2))

    hexa = lambda: container(fem.Field(fem.RegionHexahedron(cube()), dim=3))  # noqa: E731
    strain = lambda: container(fem.FieldPlaneStrain(fem.RegionQuad(square()), dim=2))  # noqa: E731

    def tetra():
        return container(fem.Field(fem.RegionQuadraticTetra(fem.mesh.add_midpoints_edges(fem.mesh.triangulate(cube()))), dim=3))

    def triquadratic():
        mesh = cube(2)
        for add in (fem.mesh.add_midpoints_edges, fem.mesh.add_midpoints_faces, fem.mesh.add_midpoints_volumes):
            mesh = add(mesh)
        return container(fem.Field(fem.RegionTriQuadraticHexahedron(mesh), dim=3))

    def triangle():
        return container(fem.FieldPlaneStrain(fem.RegionTriangle(fem.mesh.triangulate(square())), dim=2))

    three = lambda: fem.FieldsMixed(fem.RegionHexahedron(cube()), n=3)  # noqa: E731
    three2 = lambda: fem.FieldsMixed(fem.RegionQuad(square()), n=3, planestrain=True)  # noqa: E731
    return {
        "hexahedra": plain(hexa), "plane strain": plain(strain), "axisymmetric": plain(axisymmetric),
        "quadratic tetrahedra": plain(tetra), "triquadratic hexahedra": plain(triquadratic), "triangles": plain(triangle),
        "nearly incompressible": nearly(hexa), "nearly incompressible plane strain": nearly(strain),
        "nearly incompressible axisymmetric": nearly(axisymmetric),
        "three fields": mixed(three, fem.ThreeFieldVariation), "three fields in chunks": mixed(three, fem.ThreeFieldVariation, 24),
        "three fields plane strain": mixed(three2, fem.ThreeFieldVariation),
        "constraint": mixed(three, lambda m: fem.NearlyIncompressible(m, bulk=20.0)),
        "constraint in chunks": mixed(three2, lambda m: fem.NearlyIncompressible(m, bulk=20.0), 7),
    }


def hosted(R, rng, k):
    """Every formulation of the host assembles the same forces and stiffness with the material
    as with its reference response, along one sequence of displacements."""
    table = formulations(rng)
    for j, name in enumerate(table):
        parts = materials(R, rng, k + j)
        if parts is None:
            continue
        spec, sp, um = parts[rng.integers(len(parts))]
        ctx = {"material": spec.describe(), "space": sp, "formulation": name}
        a = R.call("hosted:build", table[name], um, ctx=ctx)
        b = table[name](Reference(spec, sp))
        if a is FAILED:
            continue
        (fa, ba), (fb, bb) = a, b
        values = None
        for visit in range(3):
            if visit < 2:
                values = [0.08 * (visit + 1) * rng.uniform(-1, 1, f.values.shape) + (1.0 if q == 2 else 0.0) for q, f in enumerate(fa.fields)]
                values[0] = values[0] * (0.3 if "triqu" in name or "tetra" in name else 1.0)
            for f in (fa, fb):
                for q, v in zip(f.fields, values):
                    q.values[:] = v
            # (the last visit: the same displacements again)
            with np.errstate(all="ignore"):
                F = unlay(fb.extract()[0], 2)
            if not np.linalg.det(F).min() > 0.1:
                R.bump("hosted:inverted")
                continue
            for what in (("vector", "matrix"), ("matrix", "vector"), ("vector", "matrix"))[visit]:
                got = R.call(f"hosted:{name}:{what}", lambda: getattr(ba.assemble, what)(fa).toarray(), ctx=ctx)
                want = getattr(bb.assemble, what)(fb).toarray()
                if got is FAILED:
                    continue
                r = Expected(F, spec, sp)
                t = r.tolP.max() / max(r.rP.max(), 1e-300) + r.tolA.max() / max(r.rA.max(), 1e-300) + 1e-12
                scale = np.abs(want).max() + (r.rP.max() if what == "vector" else r.rA.max())
                R.close(got, want, scale, 0.2 * t, f"hosted:{name}:{what}", f"assembled {what}", visit=visit, **ctx)
                R.bump("hosted")
                R.event((name, spec.key(), sp, what, visit), len(F))


def curves(R, rng, k):
    "The host's own characteristic curves of the material, and the lab's."
    import felupe as fem

    spec = stable_shape(rng, ["tod", "ogden", "gi", "user-inv", "user-str", "torch"][k % 6])
    sp = ("Distortional", "Deformation")[k // 6 % 2]
    um = R.call("build", spec.space, sp, ctx={"material": spec.describe(), "space": sp})
    if um is FAILED:
        return
    view = fem.ViewMaterialIncompressible(um)
    x = np.sort(rng.uniform(0.6, 2.2, 7))
    for name, lc, lam in (("uniaxial", hel.lab.Uniaxial, (x, x**-0.5, x**-0.5)), ("planar", hel.lab.Planar, (x, 0 * x + 1, 1 / x)),
                          ("biaxial", hel.lab.Biaxial, (x, x, x**-2.0))):
        ctx = {"material": spec.describe(), "space": sp, "curve": name, "stretch": x}
        F = np.zeros((7, 3, 3))
        for a in range(3):
            F[:, a, a] = lam[a]
        r = Expected(F, spec, sp, tangent=False)
        want = r.P[:, 0, 0] - r.P[:, 2, 2] * lam[2] / lam[0]
        tol = 4 * r.tolP * (1 + lam[2] / lam[0])
        for via, fun in (("host", lambda: getattr(view, name)(x)[1]), ("lab", lambda: hel.lab.Simulation(lc(), x, [], lambda: um, []).stress())):
            y = R.call(f"curve:{name}:{via}", fun, ctx=ctx)
            if y is not FAILED:
                R.close(np.asarray(y), want, 1.0, tol, f"curve:{name}:{via}", "nominal stress", **ctx)
                R.bump("curves")
                R.event((spec.key(), sp, name, via), 7)


def run(R):
    rng = np.random.default_rng([SEED, 24])
    R.require("curves", 60)
    for k in range(pick(12, 120)):
        curves(R, np.random.default_rng([SEED, 2401, k]), k)
    R.require("hosted", 60)
    for k in range(pick(2, 24)):
        hosted(R, np.random.default_rng([SEED, 2400, k]), 5 * k + SEED)
    R.require("load steps", 100)
    R.require("newton pairs", 100)
    R.require("basin steps", 40)
    R.require("unloadings", 6)
    R.require("tangents", 40)
    R.require("small steps", 80)
    R.require("patches", 10)
    R.assumptions.append("materials of the analyses are stable up to the applied loads (one solution per load)")
    for k in range(pick(12, 160)):
        analysis(R, rng, k)
    for k in range(pick(24, 400)):
        patch(R, rng, k)


RULE = (
    "distinct (materials, load case, history, load level) of analyses whose converged state, residual and "
    "increments were monitored, plus homogeneous patches compared at all quadrature points"
)
