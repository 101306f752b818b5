"""Blind spots (a development tool): a function of a scratch copy of /repo gives a slightly wrong
result only where a rare condition on its input holds; lists the pairs (function, condition) that
its check does not report.

tools/conditions.py [--only a,b] [--scale 1e-3] [-j N]"""

import argparse
import concurrent.futures
import os
import pathlib
import shutil
import subprocess
import tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
ap = argparse.ArgumentParser()
ap.add_argument("--only", default="")
ap.add_argument("--conditions", default="")
ap.add_argument("--scale", default="1e-3")
ap.add_argument("--seed", default="1")
ap.add_argument("-j", type=int, default=3)
args = ap.parse_args()

HELP = r'''

import numpy as _np


def _prep(F):
    F = _np.asarray(F, dtype=float)
    t = F.shape[2:]
    G = _np.moveaxis(F.reshape(3, 3, -1), -1, 0)
    U, s, V = _np.linalg.svd(G) if len(G) else (G, G[:, 0], G)
    l = s[:, ::-1]
    Q = U @ V
    tr = _np.trace(Q, axis1=1, axis2=2)
    ang = _np.degrees(_np.arccos(_np.clip((tr - 1) / 2, -1, 1)))
    J = _np.prod(s, axis=1)
    return t, G, l, J, ang


def _where(F, which):
    "mask (n,) of the points at which the condition holds."
    t, G, l, J, ang = _prep(F)
    n = len(G)
    off = _np.abs(G * (1 - _np.eye(3))).max(axis=(1, 2), initial=0)
    rest = (G == _np.eye(3)).all(axis=(1, 2))
    d = _np.abs(G - _np.eye(3)).max(axis=(1, 2), initial=0)
    low = (l[:, 1] - l[:, 0]) < 1e-12 * l[:, 2]
    up = (l[:, 2] - l[:, 1]) < 1e-12 * l[:, 2]
    I1 = (l**2).sum(axis=1)
    I2 = ((l[:, 0] * l[:, 1])**2 + (l[:, 1] * l[:, 2])**2 + (l[:, 2] * l[:, 0])**2)
    g1 = (l[:, 1] - l[:, 0]) / l[:, 2]
    g2 = (l[:, 2] - l[:, 1]) / l[:, 2]
    one = lambda x: _np.full(n, bool(x))
    diag = off == 0
    sym = (G == _np.swapaxes(G, 1, 2)).all(axis=(1, 2))
    upper = (G[:, 1, 0] == 0) & (G[:, 2, 0] == 0) & (G[:, 2, 1] == 0) & ~diag
    lower = (G[:, 0, 1] == 0) & (G[:, 0, 2] == 0) & (G[:, 1, 2] == 0) & ~diag
    iso = _np.abs(J - 1) < 1e-10
    plane = (G[:, 2, 2] == 1) & (G[:, 2, :2] == 0).all(axis=1) & (G[:, :2, 2] == 0).all(axis=1)
    with _np.errstate(all="ignore"):
        conds = dict(
            J2=lambda: J > 2, J10=lambda: J > 10, J100=lambda: J > 100, j5=lambda: J < 0.5, j1=lambda: J < 0.1, j01=lambda: J < 0.01,
            l3=lambda: l[:, 2] > 3, l6=lambda: l[:, 2] > 6, s3=lambda: l[:, 0] < 0.3, s15=lambda: l[:, 0] < 0.15,
            r5=lambda: l[:, 2] > 5 * l[:, 0], r20=lambda: l[:, 2] > 20 * l[:, 0],
            all_small=lambda: l[:, 2] < 0.7, all_large=lambda: l[:, 0] > 1.5,
            iso=lambda: iso & (d > 1e-3), iso_uni=lambda: iso & (low ^ up) & (d > 1e-3), iso_plane=lambda: iso & (_np.abs(l[:, 1] - 1) < 1e-12) & (d > 1e-3),
            low=lambda: low & ~up, up=lambda: up & ~low, triple=lambda: low & up & (_np.abs(J - 1) > 1e-3), triple_rot=lambda: low & up & (_np.abs(J - 1) > 1e-3) & (ang > 20),
            low_rot=lambda: low & ~up & (ang > 90), up_diag=lambda: up & ~low & diag, low_diag=lambda: low & ~up & diag,
            gap14=lambda: ((g1 > 1e-15) & (g1 < 1e-12)) , gap10=lambda: (g2 > 1e-11) & (g2 < 1e-9), gap8=lambda: (g1 > 1e-9) & (g1 < 1e-7), gap6=lambda: (g2 > 1e-7) & (g2 < 1e-5), gap4=lambda: (g1 > 1e-5) & (g1 < 1e-3), gap3=lambda: (g2 > 1e-4) & (g2 < 1e-2),
            gaps=lambda: (g1 > 1e-9) & (g1 < 1e-5) & (g2 > 1e-9) & (g2 < 1e-5),
            sym=lambda: sym & ~diag, diag=lambda: diag & (d > 1e-3), diag_xyz=lambda: diag & (G[:, 0, 0] < G[:, 1, 1]) & (G[:, 1, 1] < G[:, 2, 2]), diag_zyx=lambda: diag & (G[:, 0, 0] > G[:, 1, 1]) & (G[:, 1, 1] > G[:, 2, 2]), diag_yxz=lambda: diag & (G[:, 0, 0] > G[:, 1, 1]) & (G[:, 0, 0] < G[:, 2, 2]),
            upper=lambda: upper, lower=lambda: lower, plane=lambda: plane & ~diag,
            shear=lambda: plane & ~diag & (G[:, 0, 0] == 1) & (G[:, 1, 1] == 1), bigshear=lambda: plane & ~diag & (G[:, 0, 0] == 1) & (_np.abs(G[:, 0, 1]) > 1),
            rot90=lambda: ang > 90, rot170=lambda: ang > 170, rot1=lambda: (ang > 1e-6) & (ang < 1), rigid=lambda: (_np.abs(l - 1).max(axis=1) < 1e-12) & (ang > 5),
            rest=lambda: rest, near6=lambda: ~rest & (d < 1e-6), near9=lambda: ~rest & (d < 1e-9), near3=lambda: (d > 1e-6) & (d < 1e-3), near2=lambda: (d > 1e-3) & (d < 2e-2),
            neg=lambda: (G[:, [0, 1, 2], [0, 1, 2]] < 0).any(axis=1), zero=lambda: (G[:, [0, 1, 2], [0, 1, 2]] == 0).any(axis=1),
            I1small=lambda: I1 < 2.5, I1I2=lambda: (_np.abs(I1 - I2) < 1e-10 * I1) & (d > 1e-3), C12=lambda: _np.abs((_np.swapaxes(G, 1, 2) @ G)[:, 0, 1]) < 1e-14, pos=lambda: (G > 0).all(axis=(1, 2)),
            shrunk=lambda: (l[:, 2] < 1 - 1e-9), grown=lambda: (l[:, 0] > 1 + 1e-9), J1small=lambda: (_np.abs(J - 1) > 1e-9) & (_np.abs(J - 1) < 1e-6), J1mid=lambda: (_np.abs(J - 1) > 1e-5) & (_np.abs(J - 1) < 1e-3),
            t0=lambda: one(len(t) == 0), t1=lambda: one(len(t) == 1), t2=lambda: one(len(t) == 2), t3=lambda: one(len(t) == 3), t4=lambda: one(len(t) >= 4),
            n1=lambda: one(n == 1 and len(t)), n2=lambda: one(n == 2), n3=lambda: one(n == 3), n6=lambda: one(n == 6), n8=lambda: one(n == 8), n9=lambda: one(n == 9), odd=lambda: one(n % 2 and n > 1), n20=lambda: one(n > 20), n100=lambda: one(n > 100), n1000=lambda: one(n > 1000),
            tail1=lambda: one(len(t) > 1 and t[-1] == 1), lead1=lambda: one(len(t) > 1 and t[0] == 1), square=lambda: one(len(t) > 1 and t[0] == t[1]),
            fortran=lambda: one(not F.flags.c_contiguous), readonly=lambda: one(not F.flags.writeable), same=lambda: one(n > 1 and (G == G[:1]).all()),
            first_rest=lambda: one(n > 1 and rest[0] and not rest.all()), last_rest=lambda: one(n > 1 and rest[-1] and not rest.all()), some_rest=lambda: one(n > 1 and rest.any() and not rest.all()) & ~rest,
            all_diag=lambda: one(n and diag.all() and not rest.all()), all_iso=lambda: one(n > 1 and iso.all() and not (d < 1e-9).all()), all_twin=lambda: one(n > 1 and (low | up).all() and not (low & up).all()), some_twin=lambda: one(n > 1 and (low ^ up).any()) & ~(low | up),
            all_near=lambda: one(n > 1 and (d < 1e-3).all() and not rest.all()), all_J=lambda: one(n > 1 and (_np.abs(J - J[0]) < 1e-12 * J[0]).all() and (_np.abs(J - 1) > 1e-6).all() and not (G == G[:1]).all()),
            all_comp=lambda: one(n > 1 and (J < 1 - 1e-6).all()), all_tens=lambda: one(n > 1 and (J > 1 + 1e-6).all()), first=lambda: _np.arange(n) == 0, last=lambda: (_np.arange(n) == n - 1) & (n > 1), middle=lambda: (_np.arange(n) > 1) & (_np.arange(n) < n - 2),
        )
        return None if which is None else conds[which](), list(conds)


def _spoil(F, y, which, scale):
    m, _ = _where(F, which)
    if not m.any():
        return y
    t = _np.shape(F)[2:]
    lead = _np.ndim(y) - len(t)
    if lead < 1 or _np.shape(y)[lead:] != t:
        return y
    return y * (1 + scale * m.reshape(t))
'''

SPACE = r'''


def _wrap(cls, name, which, scale):
    real = getattr(cls, name)

    def method(self, x, *a, **k):
        out = real(self, x, *a, **k)
        if not ({guard}):
            return out
        if isinstance(x, (list, tuple)):
            out = list(out)
            y = _spoil(x[0], out[0], which, scale)
            if {part!r} is not None and y is not out[0]:
                y = _np.array(out[0])
                y[{part}] = y[{part}] + (_spoil(x[0], y[{part}][None], which, scale) - y[{part}])[0] if y[{part}].ndim == _np.ndim(x[0]) - 2 else _spoil(x[0], y[{part}], which, scale)
            out[0] = y
            return out
        # the framework of the right Cauchy-Green tensor
        C = _np.asarray(x, dtype=float)
        F = _np.moveaxis(_np.linalg.cholesky(_np.moveaxis(C[_np.array([[0, 3, 5], [3, 1, 4], [5, 4, 2]])], (0, 1), (-2, -1))), (-2, -1), (1, 0))
        if isinstance(out, tuple):
            return (_spoil(F, out[0] + 0 * C, which, scale), *out[1:])
        return _spoil(F, out + 0 * C, which, scale)

    setattr(cls, name, method)


for _c, _n in {pairs}:
    _wrap(_c, _n, "{which}", {scale})
'''

D, I, V = "spaces/_deformation.py", "spaces/_distortional.py", "spaces/_dilatational.py"
IF, SF = "frameworks/_invariants.py", "frameworks/_stretches.py"


def target(check, f, pairs, guard="True", part=None):
    return dict(check=check, file=f, pairs=pairs, guard=guard, part=part)


both = lambda k: f"[({k}, 'gradient'), ({k}, 'hessian')]"  # noqa: E731
TARGETS = {
    "C01": target("C01", D, "[(Deformation, 'gradient')]"),
    "C02": target("C02", D, "[(Deformation, 'hessian')]"),
    "C03g": target("C03", I, "[(Distortional, 'gradient')]"),
    "C03h": target("C03", I, "[(Distortional, 'hessian')]"),
    "C04g": target("C04", V, "[(Dilatational, 'gradient')]"),
    "C04h": target("C04", V, "[(Dilatational, 'hessian')]"),
    "C05D": target("C05", D, both("Deformation"), part="0, 1"),
    "C05I": target("C05", I, both("Distortional"), part="0, 1"),
    "C05V": target("C05", V, both("Dilatational"), part="0, 1"),
    "C06area": target("C06", D, both("Deformation"), "self.area is None and self.force is None"),
    "C06force": target("C06", I, both("Distortional"), "self.force == 0 and self.area == 0"),
    "C06mixed": target("C06", V, both("Dilatational"), "self.force == 0 and self.area is None"),
    "C06raw": target("C06", I, both("Distortional"), "not self.finalize"),
    "C07i": target("C07", IF, both("Invariants")),
    "C07s": target("C07", SF, both("Stretches")),
    "C08": target("C08", SF, "[(Stretches, 'hessian')]"),
    "C10": target("C10", IF, both("Invariants"), "type(self.material).__name__ == 'TorchModel'"),
    "C15": target("C15", IF, both("Invariants"), "type(self.material).__module__.split('.')[0] != 'hyperelastic'"),
    "C15s": target("C15", SF, both("Stretches"), "type(self.material).__module__.split('.')[0] != 'hyperelastic'"),
    "C17": target("C17", D, both("Deformation"), "self.parallel"),
    "C18": target("C18", I, both("Distortional"), "x[-1] is not None and _np.size(x[-1]) and _np.any(x[-1])"),
    "C23g": target("C23", D, "[(Deformation, 'gradient')]"),
    "C23h": target("C23", I, "[(Distortional, 'hessian')]", part="0, 1"),
    "C25D": target("C25", D, both("Deformation")),
    "C25I": target("C25", I, both("Distortional")),
    "C25V": target("C25", V, both("Dilatational")),
    "C14": target("C14", D, both("Deformation")),
    "C16": target("C16", I, both("Distortional"), "setattr(self, '_n', getattr(self, '_n', 0) + 1) or self._n == 3"),
    "C28": target("C28", I, both("Distortional"), "not __debug__"),
}


def names():
    d = {}
    exec(HELP, d)
    import numpy as np

    return d["_where"](np.eye(3)[:, :, None], None)[1]


def run(item):
    key, which = item
    t = TARGETS[key]
    root = pathlib.Path(tempfile.mkdtemp(prefix="mutant-"))
    try:
        shutil.copytree("/repo/src", root / "src", ignore=shutil.ignore_patterns("__pycache__"))
        p = root / "src" / "hyperelastic" / t["file"]
        p.write_text(p.read_text() + HELP + SPACE.format(pairs=t["pairs"], guard=t["guard"], part=t["part"], which=which, scale=args.scale))
        env = dict(os.environ, VMON_REPO=str(root), VERIF_SEED=args.seed, VMON_EVIDENCE=str(root / "ev"), VERIF_TIER="quick")
        q = subprocess.run(["./run.sh", t["check"], "quick"], cwd=VERIF, env=env, capture_output=True, text=True, timeout=900)
        return key, which, q.returncode, q.stdout[-300:] if q.returncode not in (0, 1) else ""
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    keys = args.only.split(",") if args.only else list(TARGETS)
    cs = args.conditions.split(",") if args.conditions else names()
    items = [(k, c) for k in keys for c in cs]
    print(len(items), "pairs", flush=True)
    n = 0
    with concurrent.futures.ThreadPoolExecutor(args.j) as ex:
        for key, which, rc, text in ex.map(run, items):
            n += rc == 1
            if rc != 1:
                print("MISSED" if rc == 0 else f"rc {rc} {text}", key, which, flush=True)
    print(n, "of", len(items))
