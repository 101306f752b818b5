"""Regenerate MANIFEST.json from the checks present in vmon/checks."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {
 "C01": "runtime monitor: observed stresses vs exact energy derivatives (jets + SVD), hostile batches and recorded FElupe calls",
 "C02": "runtime monitor: observed elasticity vs exact second derivatives / differences of the observed stress",
 "C03": "runtime monitor: observed response vs exact derivatives of psi(J^-1/3 F), metamorphic volume changes",
 "C04": "runtime monitor: observed response vs exact derivatives of psi(J^1/3 1), equal-volume deformations",
 "C05": "runtime monitor: metamorphic rotation relations over observed stresses and tangents",
 "C06": "runtime monitor: Piola relations between observed results of all configurations",
 "C07": "runtime monitor: differential comparison of equivalent formulations",
 "C08": "runtime monitor: exact limits, finiteness and floating-point-exception monitor near coincident stretches",
 "C09": "runtime monitor: observed model derivatives vs jets of the documented energies",
 "C10": "runtime monitor: observed autograd derivatives vs jets, random energies",
 "C11": "runtime monitor: spy on the handed invariants, jets of the measures, stiffness relation",
 "C12": "runtime monitor: Voigt algebra vs full index expressions on hostile operands",
 "C13": "runtime monitor: Voigt tensor functions vs full-tensor identities",
 "C14": "runtime monitor: batch vs single-point evaluation over shapes and memory layouts",
 "C15": "runtime monitor: spy user models at the documented boundary, differential over return forms",
 "C16": "runtime monitor: call histories replayed against fresh objects, mutation watch",
 "C17": "runtime monitor: threaded vs sequential results, forced switching, perturbed schedules",
 "C18": "runtime monitor: spy models with evolving state, trace checker over state variables",
 "C19": "runtime monitor: metamorphic scaling and superposition of energies",
 "C20": "runtime monitor: lab curves vs exact energy derivative along the load path",
 "C21": "runtime monitor: invariants of fit results over recorded fits",
 "C22": "runtime monitor: inspection of drawn artists vs data",
 "C23": "runtime monitor: work along recorded closed deformation histories, tangent symmetry",
 "C25": "runtime monitor: observed projections of user-written (anisotropic, non-potential) materials vs jets",
 "C26": "runtime monitor: allocation, object, thread, figure and call counters over long histories",
 "C27": "runtime monitor: snapshots of process-wide state, audit events and output around every use",
 "C28": "runtime monitor: differential over processes, interpreter modes, missing packages and copies",
 "C24": "runtime monitor: recorded Newton histories, balance and energy of FElupe analyses",
}
checks = []
na = []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "vmon", "checks", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh {i}",
            "thorough_cmd": f"./run.sh {i} thorough",
            "technique": TECH[i],
            "level": "exploration",
            "level_note": "Held on the executions observed (counts in the evidence file); inputs are generated, not enumerated. Trusts numpy's SVD/einsum, the jets and the closed-form reference in vmon/.",
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c 'import numpy, scipy, torch, felupe, matplotlib'",
     "checks": checks, "not_applicable": na,
     "notes": "All monitors attach from the harness (instance wrappers, spy models); /repo carries no hooks. VERIF_TIER selects the tier, VERIF_SEED every random choice."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
