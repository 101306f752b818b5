"""Behaviour-preserving edits of the library: every check has to stay quiet on them.

tools/refactor.py [NAME ...] [--checks C01,C02] [--seed N]: a scratch copy per edit, its
tests, all checks (VMON_REPO); prints what does not exit 0."""

import argparse
import concurrent.futures as cf
import os
import pathlib
import shutil
import subprocess

VERIF = pathlib.Path(__file__).resolve().parents[1]
INV, STR, VGT = "frameworks/_invariants.py", "frameworks/_stretches.py", "math/_voigt.py"
SPC, DEF, DIS, DIL = (f"spaces/_{x}.py" for x in ("space", "deformation", "distortional", "dilatational"))
TOD, OGD, TOR = "models/invariants/_third_order_deformation.py", "models/stretches/_ogden.py", "models/invariants/_torch.py"
GIM, GST = "models/stretches/_generalized_invariants.py", "models/generalized/_stretch.py"
LC, SIM, EXP, OPT, CF, PLT = (f"lab/_{x}.py" for x in ("load_case", "simulation", "experiment", "optimize", "curve_fit", "plotting"))

R = {}

# other orders of operations
R["algebra-order"] = [
    (VGT, '''        A[0] * A[1] * A[2]
        + 2 * A[3] * A[4] * A[5]
        - A[4] ** 2 * A[0]
        - A[5] ** 2 * A[1]
        - A[3] ** 2 * A[2]
''', '''        A[0] * (A[1] * A[2] - A[4] * A[4])
        - A[3] * (A[3] * A[2] - A[4] * A[5])
        + A[5] * (A[3] * A[4] - A[1] * A[5])
'''),
    (VGT, "    return np.sum(A[:3], axis=0)\n", "    return A[2] + A[1] + A[0]\n"),
    (VGT, "    return A - trace(A) / 3 * eye(A)\n", "    out = np.array(A, dtype=np.result_type(A, float))\n    out[:3] -= trace(A) / 3\n    return out\n"),
    (VGT, '        return np.einsum("i...,i...,i->...", A, B, weights)\n', '        return (\n            A[0] * B[0] + A[1] * B[1] + A[2] * B[2]\n            + 2 * (A[3] * B[3] + A[4] * B[4] + A[5] * B[5])\n        )\n'),
]
R["inverse-by-components"] = [
    (VGT, '''    Ai = A[[1, 0, 0, 4, 3, 3]]
    Aj = A[[2, 2, 1, 5, 5, 4]]
    Ak = A[[4, 5, 3, 3, 0, 1]]
    Al = A[[4, 5, 3, 2, 4, 5]]

    if out is None:
        out = Ai

    Aij = np.multiply(Ai, Aj, out=Ai)
    Akl = np.multiply(Ak, Al, out=Ak)

    detAinvA = np.subtract(Aij, Akl, out=out)

    return np.divide(*np.broadcast_arrays(detAinvA, detA), out=out)
''', '''    a, b, c, d, e, f = (np.array(x) for x in A)
    adj = [b * c - e * e, a * c - f * f, a * b - d * d]
    adj += [e * f - d * c, d * f - a * e, d * e - b * f]
    result = np.stack(adj) / detA
    if out is None:
        return result
    out[...] = result
    return out
''')]
R["piola-matmul"] = [
    (SPC, '                    stress = self.einsum("iI...,IJ...->iJ...", F, stress, out=stress)\n',
     '                    a = np.moveaxis(np.broadcast_to(F, stress.shape), (0, 1), (-2, -1))\n                    b = np.moveaxis(stress, (0, 1), (-2, -1))\n                    stress = np.moveaxis(a @ b, (-2, -1), (0, 1))\n'),
    (SPC, '''                    stress = (
                        self.einsum("jJ...,iJ...->ij...", F, stress, out=stress) / detF
                    )
''', '''                    stress = self.einsum("iJ...,jJ...->ij...", stress / detF, F)
'''),
    (SPC, '''                    elasticity = self.einsum(
                        "iI...,kK...,IJKL...->iJkL...", F, F, elasticity, out=elasticity
                    )
''', '''                    elasticity = self.einsum("kK...,IJKL...->IJkL...", F, elasticity)
                    elasticity = self.einsum("iI...,IJkL...->iJkL...", F, elasticity)
'''),
]
R["spaces-rearranged"] = [
    (DEF, "        self.C = asvoigt(self.einsum(\"kI...,kJ...->IJ...\", F, F))\n",
     "        i, j = [0, 1, 2, 0, 1, 0], [0, 1, 2, 1, 2, 2]\n        self.C = np.sum(F[:, i] * F[:, j], axis=0)\n"),
    (DEF, "        self.S = 2 * dWdC\n", "        self.S = dWdC + dWdC\n"),
    (DIS, "        self.Cu = I3 ** (-1 / 3) * C\n", "        self.Cu = C / np.cbrt(I3)\n"),
    (DIS, "        self.Sb = Sb = 2 * I3 ** (-1 / 3) * dWudCu\n", "        self.Sb = Sb = 2 / np.cbrt(I3) * dWudCu\n"),
    (DIS, "        self.S = Sb - SbC / 3 * invC\n", "        self.S = Sb - invC * (SbC / 3)\n"),
    (DIS, "        C4 = 2 / 3 * (self.SbC * I4 - SbinvC - invCSb + self.SbC / 3 * invCinvC)\n",
     "        C4 = 2 / 3 * (self.SbC * (I4 + invCinvC / 3) - (SbinvC + invCSb))\n"),
    (DIS, "        if np.any(C4b):\n            C4 += ddot(ddot(P4, C4b, mode=(4, 4)), transpose(P4), mode=(4, 4))\n",
     "        C4 = C4 + ddot(P4, ddot(C4b, transpose(P4), mode=(4, 4)), mode=(4, 4))\n"),
    (DIL, "        self.Co = self.I3 ** (1 / 3) * eye(self.C)\n", "        self.Co = np.cbrt(self.I3) * eye(self.C)\n"),
    (DIL, "        self.S = self.tr_Sb / 3 * self.invC\n", "        self.S = self.invC * self.tr_Sb / 3\n"),
    (DIL, "        C4 = (2 * self.tr_Sb + tr_C4b) * dya(\n            self.invC, self.invC\n        ) / 9 - 2 / 3 * self.tr_Sb * I4\n",
     "        J4 = dya(self.invC, self.invC)\n        C4 = self.tr_Sb * (2 / 9 * J4 - 2 / 3 * I4) + tr_C4b / 9 * J4\n"),
]
R["invariants-list"] = [
    (INV, '''        ntrax = len(C.shape[1:])
        dWdC = np.zeros((6, *np.ones(ntrax, dtype=int)))

        if self.dWdI1 is not None:
            self.dI1dC = I
            dWdC = dWdC + self.dWdI1 * self.dI1dC

        if self.dWdI2 is not None:
            self.dI2dC = I1 * I - C
            dWdC = dWdC + self.dWdI2 * self.dI2dC

        if self.dWdI3 is not None:
            self.invC = invC = inv(C, determinant=self.I3)
            self.dI3dC = I3 * invC
            dWdC = dWdC + self.dWdI3 * self.dI3dC
''', '''        self.dI1dC = I
        self.dI2dC = I1 * I - C
        self.invC = inv(C, determinant=I3)
        self.dI3dC = I3 * self.invC

        dWdC = np.zeros_like(C)
        pairs = [
            (self.dWdI3, self.dI3dC), (self.dWdI2, self.dI2dC), (self.dWdI1, self.dI1dC)
        ]
        for factor, tensor in pairs:
            if factor is not None:
                dWdC = dWdC + factor * tensor
'''),
    (INV, '''            d2I3dCdC = self.I3 * (dya(invC, invC) - cdya(invC, invC))
''', '''            d2I3dCdC = dya(dI3dC, invC) - self.I3 * cdya(invC, invC)
'''),
    (INV, "            d2WdCdC = d2WdCdC + d2WdI1dI2 * (dya(dI1dC, dI2dC) + dya(dI2dC, dI1dC))\n",
     "            mixed = dya(dI1dC, dI2dC)\n            d2WdCdC = d2WdCdC + d2WdI1dI2 * (mixed + np.swapaxes(mixed, 0, 1))\n"),
]
R["stretches-rearranged"] = [
    (STR, "        dWdC = np.sum(np.expand_dims(self.dWdλC, axis=1) * self.M, axis=0)\n",
     '        dWdC = np.einsum("a...,ai...->i...", self.dWdλC, self.M)\n'),
    (STR, '''                v = λ[α] ** 2 - λ[β] ** 2
                mask = np.isclose(v, 0)

                f[~mask] = (dWdλC[α][~mask] - dWdλC[β][~mask]) / v[~mask]
                f[mask] = d2WdλC2[β][mask] - d2WdλC2[m][mask]

                d2WdCdC += d2WdλC2[m] * transpose(M4) + f * 2 * cdya(M[α], M[β])
''', '''                v = (λ[α] - λ[β]) * (λ[α] + λ[β])
                mask = np.abs(v) <= 1e-8
                f = np.where(
                    mask,
                    d2WdλC2[β] - d2WdλC2[m],
                    (dWdλC[α] - dWdλC[β]) / np.where(mask, 1.0, v),
                )
                d2WdCdC += d2WdλC2[m] * transpose(M4) + 2 * f * cdya(M[α], M[β])
'''),
    (STR, '''            M4 = dya(M[α], M[β])
            d2WdCdC += d2WdλC2[m] * M4
''', '''            M4 = dya(M[α], M[β])
            d2WdCdC = d2WdCdC + M4 * d2WdλC2[m]
'''),
    (VGT, "    return wA.T, np.array([asvoigt(M) for M in MA.T])\n", "    MA = np.moveaxis(MA.T, 0, 2)\n    i, j = [0, 1, 2, 0, 1, 0], [0, 1, 2, 1, 2, 2]\n    return wA.T, np.moveaxis(MA[i, j], 0, 1)\n"),
]
R["symmetric-limit"] = [
    (STR, "                f[mask] = d2WdλC2[β][mask] - d2WdλC2[m][mask]\n",
     "                mean = (d2WdλC2[α] + d2WdλC2[β]) / 2\n                f[mask] = mean[mask] - d2WdλC2[m][mask]\n"),
    (STR, "                mask = np.isclose(v, 0)\n", "                mask = np.isclose(v, 0, atol=2e-9)\n"),
]
R["eigenvectors-signs"] = [
    (VGT, "    MA = np.einsum(\"...ia,...ja->...ija\", vA, vA)\n", "    vA = -vA\n    MA = vA[..., :, None, :] * vA[..., None, :, :]\n"),
]
R["tod-horner"] = [
    (TOD, '''        if self.C20 != 0:
            dWdI1 += self.C20 * 2 * (I1 - self.undeformed)

        if self.C30 != 0:
            dWdI1 += self.C30 * 3 * (I1 - self.undeformed) ** 2
''', '''        if self.C20 != 0 or self.C30 != 0:
            dI1 = I1 - self.undeformed
            dWdI1 = dWdI1 + dI1 * (2 * self.C20 + 3 * self.C30 * dI1)
'''),
    (TOD, "            dWdI1 += self.C11 * (I2 - self.undeformed)\n            dWdI2 += self.C11 * (I1 - self.undeformed)\n",
     "            dWdI1 = dWdI1 + (I2 - self.undeformed) * self.C11\n            dWdI2 = dWdI2 + (I1 - self.undeformed) * self.C11\n"),
]
R["tod-zeros"] = [
    (TOD, '''        dWdI1 = None
        dWdI2 = None
        dWdI3 = None
''', '''        dWdI1 = None
        dWdI2 = np.zeros_like(I1)
        dWdI3 = None
'''),
    (TOD, "class ThirdOrderDeformation:\n", "import numpy as np\n\n\nclass ThirdOrderDeformation:\n"),
    (TOD, '''        if self.C01 != 0 or self.C11 != 0:
            dWdI2 = 0

''', ''),
    (TOD, "            dWdI2 += self.C01\n", "            dWdI2 = dWdI2 + self.C01\n"),
    (TOD, "            dWdI2 += self.C11 * (I1 - self.undeformed)\n", "            dWdI2 = dWdI2 + self.C11 * (I1 - self.undeformed)\n"),
]
R["lab-rewritten"] = [
    (LC, "        return P[i, i] - P[j, j] * F[j, j] / F[i, i]\n", "        return (P[i, i] * F[i, i] - P[j, j] * F[j, j]) / F[i, i]\n"),
    (SIM, "        kwargs = {label: p for label, p in zip(self.labels, parameters)}\n        mat = self.material(**kwargs)\n", "        mat = self.material(**dict(zip(self.labels, parameters)))\n"),
    (SIM, "        P = mat.gradient([F.reshape(3, 3, 1, -1), None])[0].reshape(3, 3, -1)\n", "        P = mat.gradient([F.reshape(3, 3, -1, 1), None])[0][..., 0]\n        F = F.reshape(3, 3, -1)\n"),
    (EXP, "        self.stretch = 1 + self.displacement / self.length\n", "        self.stretch = (self.length + self.displacement) / self.length\n"),
    (OPT, '        return np.linalg.norm(self.residuals)\n', '        return np.sqrt(np.sum(self.residuals**2))\n'),
    (OPT, '        return np.mean(self.errors / np.abs(self.parameters)) * 100\n', '        return 100 * (self.errors / abs(self.parameters)).mean()\n'),
    (CF, "        return np.concatenate([fi(xi, *p) for fi, xi in zip(f, xdata)])\n", "        out = []\n        for fi, xi in zip(f, xdata):\n            out.append(fi(xi, *p))\n        return np.hstack(out)\n"),
]
R["lab-uniaxial"] = [
    (LC, "        y = 1 / np.sqrt(stretch)\n", "        y = np.asarray(stretch, dtype=float) ** -0.5\n"),
    (LC, "        y = 1 / stretch**2\n", "        y = (1 / stretch) ** 2\n"),
    (PLT, "        ax.plot(self.stretch, self.stress(), *args, label=label, **kwargs)\n        ax.set_xlabel(xlabel)\n        ax.set_ylabel(ylabel)\n", "        stress = self.stress()\n        ax.set(xlabel=xlabel, ylabel=ylabel)\n        ax.plot(self.stretch, stress, *args, label=label, **kwargs)\n"),
    (PLT, "        ax.plot(self.displacement, self.force, *args, label=label, **kwargs)\n        ax.set_xlabel(xlabel)\n        ax.set_ylabel(ylabel)\n", "        ax.set(xlabel=xlabel, ylabel=ylabel)\n        ax.plot(self.displacement, self.force, *args, label=label, **kwargs)\n"),
]
R["generalized-rearranged"] = [
    (GIM, '''        I1 = E[0] + E[1] + E[2]
        I2 = E[0] * E[1] + E[1] * E[2] + E[2] * E[0]
        I3 = E[0] * E[1] * E[2]
''', '''        I1 = np.sum(E, axis=0)
        I2 = E[0] * (E[1] + E[2]) + E[1] * E[2]
        I3 = np.prod(E, axis=0)
'''),
    (GIM, "        self.I1 = self.c1 * I1 - self.I10 * (self.c1 - 1)\n", "        self.I1 = self.I10 + self.c1 * (I1 - self.I10)\n"),
    (GIM, "        self.I2 = self.c2 * I2 - self.I20 * (self.c2 - 1)\n", "        self.I2 = self.I20 + self.c2 * (I2 - self.I20)\n"),
    (GIM, "            d2WdEαdEβ += d2WdI1dI2 * (dI1dE[α] * dI2dE[β] + dI2dE[α] * dI1dE[β])\n", "            d2WdEαdEβ += d2WdI1dI2 * dI1dE[α] * dI2dE[β]\n            d2WdEαdEβ += d2WdI1dI2 * dI2dE[α] * dI1dE[β]\n"),
    (GST, "    dEdλ = lambda λ, k: λ ** (k - 1)  # noqa: E731\n", "    dEdλ = lambda λ, k: λ**k / λ  # noqa: E731\n"),
]
R["cdya-general"] = [
    (VGT, '''    if A is not B:
        Bik, Ajl, Bil, Akj = B[ik], A[jl], B[il], A[kj]

        values += np.multiply(Bik, Ajl, out=Bik) + np.multiply(Bil, Akj, out=Bil)
        values /= 4
    else:
        values /= 2
''', '''    values = (values + B[ik] * A[jl] + B[il] * A[kj]) / 4
'''),
    (VGT, '''    return np.multiply(
        np.expand_dims(A, axis=1),
        np.expand_dims(B, axis=0),
        out=out,
    )
''', '''    result = A[:, None] * B[None, :]
    if out is None:
        return result
    out[...] = result
    return out
'''),
]
R["temporaries"] = [
    (DEF, "        dWdF, statevars_new = self.gradient(x)\n", "        self.gradient([np.array(F), statevars])\n"),
    (DIS, "        dWudF, statevars_new = self.gradient(x)\n", "        finalize, self.finalize = self.finalize, False\n        try:\n            self.gradient(x)\n        finally:\n            self.finalize = finalize\n"),
    (TOR, "        return (*[self._grad(f, x, **kwargs) for x in [I1, I2, I3]], statevars)\n", "        out = []\n        for x in (I1, I2, I3):\n            out.append(self._grad(f, x, **kwargs))\n        return (*out, statevars)\n"),
]
# refactored: a helper extracted, with memory in another order
R["fortran-results"] = [
    (SPC, "            return stress\n\n        else:", "            return np.asfortranarray(stress) if stress.ndim else stress\n\n        else:"),
    (SPC, "            return elasticity\n", "            return np.ascontiguousarray(elasticity)\n"),
]


def make(name, seed, checks):
    root = pathlib.Path(f"/tmp/refactor/{name}")
    shutil.rmtree(root, ignore_errors=True)
    root.mkdir(parents=True)
    repo = root / "repo"
    subprocess.run(["cp", "-a", "/repo", str(repo)], check=True)
    out = []
    try:
        for file, old, new in R[name]:
            f = repo / "src/hyperelastic" / file
            s = f.read_text()
            if old not in s:
                return name, [f"{file}: no match {old[:60]!r}"]
            f.write_text(s.replace(old, new))
        env = {**os.environ, "PYTHONPATH": str(repo / "src"), "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg"}
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "tests"], cwd=repo, env=env, capture_output=True, text=True)
        if t.returncode:
            out.append("tests: " + "\n".join(t.stdout.splitlines()[-12:]))
        for c in checks:
            e = {**os.environ, "VMON_REPO": str(repo), "VMON_EVIDENCE": str(root / "ev"), "VERIF_SEED": str(seed)}
            r = subprocess.run([str(VERIF / "run.sh"), c, "quick"], env=e, capture_output=True, text=True)
            if r.returncode:
                out.append(f"{c}: rc {r.returncode}\n" + "\n".join(r.stdout.splitlines()[:8]) + r.stderr[-600:])
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return name, out


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("names", nargs="*")
    ap.add_argument("--checks")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("-j", type=int, default=6)
    a = ap.parse_args()
    ids = a.checks.split(",") if a.checks else sorted(p.stem.upper() for p in (VERIF / "vmon/checks").glob("c*.py"))
    with cf.ThreadPoolExecutor(a.j) as ex:
        for name, out in ex.map(lambda n: make(n, a.seed, ids), a.names or list(R)):
            print(f"{name}: {'quiet' if not out else ''}", flush=True)
            for o in out:
                print("   ", o.replace("\n", "\n      "), flush=True)
