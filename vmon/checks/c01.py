"""C01: stress is the energy derivative in the full deformation space."""

import numpy as np

from .. import engine
from ..env import SEED, pick
from ..workloads import felupe_events, stable_full

RULE = (
    "materials of every framework, built-in model and random user energy (random subset "
    "of the derivatives) in the deformation space, on batches of random layout cycling "
    "over 17 categories of hostile states, plus the material calls recorded in FElupe "
    "analyses; one evaluation = one material point whose first Piola-Kirchhoff stress is "
    "compared with the exact energy derivative; distinct = (material, state category)"
)


def run(R):
    rng = np.random.default_rng([SEED, 1])
    R.require("points:stress", 1000)
    R.require("points:application", 100)
    R.require("points:field", 100)
    for _ in engine.monitor_batches(R, rng, "Deformation", pick(245, 5600), singles=pick(1, 6)):
        pass
    engine.monitor_fields(R, rng, "Deformation", pick(60, 1200), stress=True, tangent=False)
    for i in range(pick(12, 150)):
        runs = felupe_events(
            R, rng, [(stable_full(rng), "Deformation", {})],
            ["tension", "compression", "shear"][i % 3],
        )
        engine.check_events(R, rng, runs, "Deformation", tangent=False)
