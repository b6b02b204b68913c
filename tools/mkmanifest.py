"""Writes MANIFEST.json for the checks that exist."""
import json
import os

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTE = {
    "C01": ("reference-model monitor: every returned energy compared with an "
            "independent numpy implementation of D4/D4S",
            "Held on the evaluated molecules and configurations; trusts the "
            "reference model in mon/refmodel.py and the golden element data."),
    "C02": ("metamorphic trace monitor over rigid motions and permutations",
            "Held on the evaluated transformations."),
    "C03": ("differential monitor: batched, padded and nested evaluations "
            "against single ones, including derivatives",
            "Held on the evaluated batches; junk and NaN-free padding contents."),
    "C04": ("derivative monitor: autograd against finite differences of the "
            "same function, plus force/torque conservation",
            "Held at the evaluated points, to finite-difference accuracy."),
    "C05": ("non-finite sanitizer (TorchDispatchMode origin tracer) over "
            "hostile inputs, outputs, first and second derivatives",
            "Held on the evaluated hostile inputs."),
    "C06": ("interaction-counting monitor: energies against explicit pair and "
            "triple enumeration while cutoffs sweep across the geometry",
            "Held on the evaluated geometries and cutoffs."),
    "C07": ("invariant monitor on returned weights against log-space Gaussian "
            "reference over element x CN x charge grids",
            "Grid and random points over all elements."),
    "C08": ("invariant monitor on C6 and polarizabilities (symmetry, "
            "positivity, Casimir-Polder, bilinearity, model agreement)",
            "Held on the evaluated molecules and weights."),
    "C09": ("conservation and precedence monitor on charges",
            "Held on the evaluated molecules; EEQ data are golden."),
    "C10": ("reference-formula monitor on damping functions, limits, "
            "monotonicity and required-parameter contract",
            "Held on the evaluated grids."),
    "C11": ("history monitor over lookup sequences against the golden database",
            "Every database entry, letter-case variants, random histories."),
    "C12": ("input/global-state mutation sanitizer, history replay, "
            "multi-thread stress, directed preemption and crash-point "
            "injection with per-call oracle",
            "Held on the executed histories, interleavings and crash points."),
    "C13": ("dtype monitor and cross-precision differential monitor",
            "Held on the evaluated inputs and default dtypes."),
    "C14": ("algebraic monitor: term sums, linearity in scaling parameters, "
            "agreement of API routes and register/deregister histories",
            "Held on the evaluated inputs and histories."),
    "C15": ("fault-injection monitor: single-argument corruptions must raise, "
            "uncorrupted twins must not",
            "Held on the injected corruptions."),
    "C16": ("element probe monitor: observations isolating single table "
            "entries against the golden snapshot",
            "Every element, reference system and element pair."),
}
checks = []
na = []
for k, (t, n) in NOTE.items():
    if os.path.exists(os.path.join(V, "mon/props", k.lower() + ".py")):
        checks.append({
            "property": k,
            "quick_cmd": f"./check {k} --tier quick",
            "thorough_cmd": f"./check {k} --tier thorough",
            "technique": "runtime monitoring: " + t,
            "level": "exploration",
            "level_note": n,
        })
    else:
        na.append({"property": k, "reason": "check not built yet"})
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: monitors attach from outside (torch dispatch "
             "modes, wrapped callables, public API).",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as fp:
    json.dump(m, fp, indent=1)
    fp.write("\n")
print(len(checks), "checks")
