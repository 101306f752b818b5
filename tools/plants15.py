"""Fifteenth generation: the transformation by itself, and parts only spaces of the user reach."""

from plants import (DEF, DIL, DIS, EXP, FDP, GIM, INV, LOD, OGD, OPT, PLT, SIM, SPC, STR, TOD, TOR, USER, VGT, plant)
from plants6 import FIT

plant("C06-given-determinant", "C06",
      [(SPC, "                        if I3 is None:\n", "                        if I3 is None and invC is not None:\n                            I3 = det(invC)\n                        if I3 is None:\n")],
      """
u = hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5)), area=None)
F = np.eye(3)[..., None] + 0.1 * rng.normal(size=(3, 3, 4))
S = rng.normal(size=(6, 4)); C4 = rng.normal(size=(6, 6, 4))
invC = hel.math.inv(hel.math.asvoigt(np.einsum("kI...,kJ...->IJ...", F, F)))
check(np.allclose(u.piola(F=F, S=S, C4=C4, invC=invC), u.piola(F=F, S=S, C4=C4)), "transformation with the inverse given")
""", "piola called with the inverse and without the determinant (spaces of the user)", "the determinant is inverted")

plant("C06-transformed-argument", "C06",
      [(SPC, "                elasticity = astensor(elasticity, 4)\n", "                if len(elasticity) == 6:\n                    elasticity = astensor(elasticity, 4)\n                    if self.area is None and elasticity.shape[4:] != F.shape[2:]:\n                        S = S / 1 if S.shape[1:] == F.shape[2:] else S[..., :1] + 0 * S\n")],
      """
u = hel.DeformationSpace(hel.InvariantsFramework(M.invariants.ThirdOrderDeformation(C10=0.5)), area=None)
F = np.eye(3)[..., None, None] + 0.1 * rng.normal(size=(3, 3, 4, 5))
S = rng.normal(size=(6, 1, 5)); C4 = rng.normal(size=(6, 6, 4, 1))
a = u.piola(F=F, S=S, C4=C4)
b = u.piola(F=F, S=S * np.ones((6, 4, 5)), C4=C4 * np.ones((6, 6, 4, 5)))
check(np.allclose(a, b), "stress and elasticity given on parts of the axes")
""", "stress given along one axis, elasticity along the other, deformed area", "the first point's stress is used")
