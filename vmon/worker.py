"""A fresh interpreter that uses the library once and reports what it got (for C28).

python -m vmon.worker JOB.pickle OUT.pickle

The job says how: which packages are missing, what is imported first, whether
warnings are errors, whether the objects are rebuilt here or unpickled."""

import pickle
import sys


class Missing:
    "An importer for which the optional packages are not installed."

    def __init__(self, names):
        self.names = set(names)

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.names:
            raise ModuleNotFoundError(f"No module named {name!r} (not installed)", name=name)


def uses(objects):
    "Evaluate every object with its inputs."
    import numpy as np

    out = {}
    for label, (kind, obj, args) in objects.items():
        try:
            if kind == "material":
                res = [np.array(getattr(obj, n)([args, None])[0]) for n in ("gradient", "hessian")]
            elif kind == "simulation":
                res = [np.array(obj.stress()), np.array(obj.stress_curve_fit(args, *obj.parameters))]
            elif kind == "fit":
                res = [np.array(r) for r in obj.curve_fit(**args)[:2]]
            else:
                r = obj()
                res = [np.array(i) for i in (r if isinstance(r, tuple) else (r,))]
        except Exception as e:  # noqa: BLE001
            res = f"{type(e).__name__}: {str(e)[:200]}"
        out[label] = res
    return out


def masks(rng):
    "Selections of the 15 points of both experiments; without the outliers, the points 3 and 7."
    import numpy as np

    keep = np.array([k for k in range(15) if k not in (3, 7)])
    flag = np.isin(np.arange(15), keep)
    return {"flags": [flag, flag.copy()], "indices": [keep, keep[::-1].copy()], "mixed": [slice(8, None), keep],
            "lists": [keep.tolist(), flag.tolist()]}


def build(seed, torch=True, parallel=True):
    "Objects and inputs, the same in every process."
    import numpy as np

    from .env import hel
    from .states import lay, states
    from .usage import ModuleInvariants, ModuleStretches, math_calls, materials, optimize, simulations

    rng = np.random.default_rng([seed, 28])
    F = lay(states(rng, 20)[0], (4, 5))
    objects = {}
    for key, make in materials(rng, torch=torch, parallel=parallel):
        objects["material", *key] = "material", make(), F
    for s, cls in (("Deformation", hel.DeformationSpace), ("Distortional", hel.DistortionalSpace), ("Dilatational", hel.DilatationalSpace)):
        objects["material", "module-invariants", s, ""] = "material", cls(hel.InvariantsFramework(ModuleInvariants(0.4, -0.1))), F
        objects["material", "module-stretches", s, ""] = "material", cls(hel.StretchesFramework(ModuleStretches(0.7))), F
    rng = np.random.default_rng([seed, 281])
    x = rng.uniform(0.5, 2.5, 7)
    for name, sim in simulations(x).items():
        objects["simulation", name] = "simulation", sim, x
    objects["fit", "trf"] = "fit", optimize(rng), {}
    objects["fit", "lm"] = "fit", optimize(rng), {"method": "lm"}
    for name, mask in masks(rng).items():
        objects["fit", f"mask:{name}"] = "fit", optimize(rng, mask=mask, outlier=True), {}
    for trail in ((5,), (2, 3)):
        for name, fun in math_calls(rng, trail).items():
            objects["math", name, str(trail)] = "math", fun, None
    return objects


def main(argv):
    with open(argv[1], "rb") as f:
        job = pickle.load(f)
    if job.get("missing"):
        sys.meta_path.insert(0, Missing(job["missing"]))
    import warnings

    for name in job.get("before", []):
        __import__(name)
    from . import env, usage  # noqa: F401

    if "float64" in job:
        import torch

        torch.set_default_dtype(torch.float64)
    if job.get("errors"):
        import einsumt  # noqa: F401
        import matplotlib.pyplot  # noqa: F401
        import torch  # noqa: F401

        warnings.simplefilter("error")
    if "objects" in job:
        objects = pickle.loads(job["objects"])
    else:
        objects = build(job["seed"], torch=job.get("torch", True), parallel=job.get("parallel", True))
    out = uses(objects)
    got = {"results": out, "modules": [m for m in ("torch", "einsumt", "felupe", "sympy") if m in sys.modules],
           "file": env.hel.__file__, "optimized": sys.flags.optimize}
    with open(argv[2], "wb") as f:
        pickle.dump(got, f)


if __name__ == "__main__":
    main(sys.argv)
    sys.stdout.flush()
    sys.stderr.flush()
    import os

    from . import env

    env._cleanup()
    os._exit(0)
