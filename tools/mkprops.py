"""Writes properties.jsonl (kept as a script only for readable editing)."""
import json

S = "src/tad_dftd4/"
P = []


def add(id, title, statement, over, text, why, files, mech, observe=None,
        state=None, hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": [S + f for f in files],
                     "mechanism": [{"name": n, "where": S + w}
                                   for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": S + w}
                                 for n, m, w in state]
    d["anchors"]["observe_at"] = observe or []
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)


add("C01", "Energies equal the DFT-D4 / DFT-D4S closed form",
    "For every molecule of elements 1-103 and every supported configuration "
    "(D4 or D4S model, EEQ or GFN2 reference charges, charge-scaling and "
    "weighting factors, damping function and parameters, total charge or "
    "user-given partial charges, coordination number function, radii and "
    "cutoffs), the atom-resolved energy "
    "returned by the energy function equals the published D4/D4S expression: "
    "two-body C6/C8 (and C10 when requested) terms with charge-dependent "
    "coefficients plus the Axilrod-Teller-Muto term with C9 = sqrt|C6C6C6| from "
    "charge-independent coefficients. The coordination numbers, partial "
    "charges, C6 coefficients and polarizabilities reported by the property "
    "function are the ones this expression uses.",
    ["inputs", "configurations"],
    "all molecules (any size, elements 1-103, any valid geometry, any charge) x "
    "models x reference charges x ga/gc/wf x damping functions x parameter sets "
    "x radii/charge/cutoff overrides x single or batched evaluation",
    "The tests compare a few dozen stored molecules of light elements with "
    "default settings against stored numbers; element-, charge-, CN- or "
    "configuration-specific errors outside those samples stay invisible.",
    ["disp.py", "dispersion/base.py", "dispersion/twobody.py",
     "dispersion/threebody.py", "model/base.py", "model/d4.py", "model/d4s.py",
     "utils.py"],
    [("term assembly", "disp.py (dftd4)"),
     ("two-body sum", "dispersion/twobody.py (dispersion2)"),
     ("ATM sum", "dispersion/threebody.py (get_atm_dispersion)"),
     ("reference weighting and C6", "model/d4.py, model/d4s.py"),
     ("Casimir-Polder quadrature", "utils.py (trapzd)")],
    ["return value of the energy function", "return value of the property "
     "function"])

add("C02", "Invariance under rigid motion and covariance under atom reordering",
    "Translating, rotating or reflecting a molecule leaves every atomic energy "
    "(and CN, charge, C6, polarizability) unchanged, and rotates the gradient "
    "with the molecule. Reordering the atoms reorders all atom-resolved results "
    "in the same way and leaves total energies unchanged; exchanging equivalent "
    "atoms changes nothing.",
    ["inputs"],
    "all molecules x rigid motions (including reflections, axis-aligned and "
    "large translations) x permutations of atoms, for both models, all damping "
    "functions, single and batched",
    "No existing test moves or permutes a molecule; a defect tied to an axis, an "
    "index order or the position of an atom in the list passes all of them.",
    ["disp.py", "dispersion/twobody.py", "dispersion/threebody.py",
     "model/d4.py", "model/d4s.py"],
    [("pairwise distances only", "dispersion/twobody.py (dispersion2)"),
     ("symmetric triple sum", "dispersion/threebody.py (get_atm_dispersion)"),
     ("pairwise weighting", "model/d4s.py (weight_references)")],
    ["energies, gradients and properties of original and transformed input"])

add("C03", "Batching and padding never change a molecule's result",
    "Evaluating molecules together in a (nested) batch of any shape with any "
    "amount and position of padding gives every molecule exactly the energies, "
    "derivatives, coordination numbers, charges, C6 coefficients and "
    "polarizabilities it has when evaluated alone. Padding entries have zero "
    "energy and zero derivative, and the coordinates stored in them do not "
    "matter.",
    ["inputs", "configurations"],
    "all collections of molecules x batch shapes x padding amounts, positions "
    "and contents x models x damping functions x dtypes",
    "The tests batch two fixed molecules with trailing zero padding and the "
    "default model; other batch shapes, interior padding, padding contents and "
    "derivative leakage are not sampled.",
    ["disp.py", "dispersion/base.py", "dispersion/twobody.py",
     "dispersion/threebody.py", "model/base.py", "model/d4.py", "model/d4s.py"],
    [("pair and triple masks", "dispersion/twobody.py, dispersion/threebody.py"),
     ("reference masks", "model/d4.py, model/d4s.py (weight_references)"),
     ("partner mask of D4S polarizabilities", "model/d4s.py "
      "(get_weighted_pols)")],
    ["batched versus single results and derivatives"])

add("C04", "Automatic derivatives are the true derivatives of the energy",
    "First and second derivatives obtained by differentiating the returned "
    "energy with respect to positions, total or partial charges, damping "
    "parameters, radii and weighting factors agree with the change of the energy "
    "itself, in reverse and forward mode and under function transforms; the "
    "same holds for first derivatives of the reported properties (coordination "
    "numbers, charges, C6, polarizabilities). For an "
    "isolated molecule the forces sum to zero and exert no net torque. "
    "Requesting derivatives never changes the energy.",
    ["inputs", "configurations"],
    "all molecules x differentiable inputs x order of differentiation x "
    "models x damping functions x autodiff mode (backward, double backward, "
    "jacrev, jacfwd, vmap)",
    "gradcheck tests cover a handful of small molecules and default settings; "
    "a detached branch, wrong mask gradient or non-differentiable path that "
    "needs other elements, charges, models or second order is not reached.",
    ["disp.py", "dispersion/base.py", "dispersion/twobody.py",
     "dispersion/threebody.py", "model/d4.py", "model/d4s.py", "model/base.py",
     "damping/functions.py"],
    [("differentiable masks", "dispersion/twobody.py, dispersion/threebody.py"),
     ("weights in double precision", "model/d4.py (weight_references)"),
     ("charge scaling", "model/base.py (_zeta)")],
    ["autograd results versus finite differences of the same function"])

add("C05", "Energies and derivatives are always finite",
    "For every physically meaningful input (single atoms, dense, strongly "
    "over-coordinated, collinear, highly charged or widely separated "
    "arrangements of any elements, zero-valued parameters, padded batches, "
    "single and double precision) the energies, properties and their first and "
    "second derivatives with respect to any differentiable input are finite.",
    ["inputs", "configurations"],
    "all valid inputs including limiting geometries, charge states, coordination "
    "numbers and parameter values",
    "Masked branches produce NaN or infinity only for inputs outside the normal "
    "range (underflowing weights, fully compensated nuclear charge, zero radii of "
    "padding); the tests use equilibrium structures only.",
    ["model/base.py", "model/d4.py", "model/d4s.py", "dispersion/twobody.py",
     "dispersion/threebody.py", "damping/functions.py"],
    [("underflow fallback", "model/d4.py, model/d4s.py (weight_references)"),
     ("masked charge scaling", "model/base.py (_zeta)"),
     ("masked distances and radii", "dispersion/twobody.py, "
      "dispersion/threebody.py")],
    ["every output and derivative", "tensor operations (origin of the first "
     "non-finite value, for the witness)"])

add("C06", "Real-space cutoffs decide exactly which interactions count",
    "A pair contributes if and only if its distance does not exceed the two-body "
    "cutoff, a triple if and only if none of its three sides exceeds the "
    "three-body cutoff, and neighbours count for the charge model up to its own "
    "cutoff; each cutoff affects only its own term. Molecules separated beyond "
    "all cutoffs have, for given partial charges, exactly the sum of their "
    "separate energies.",
    ["inputs", "configurations"],
    "all geometries x all cutoff values, including pairs and triples straddling "
    "a cutoff on one, two or three sides and lying exactly on it",
    "Default cutoffs (60, 40 Bohr) exceed the size of every test molecule, so "
    "no existing test excludes a single pair or triple.",
    ["cutoff.py", "dispersion/twobody.py", "dispersion/threebody.py",
     "dispersion/base.py", "disp.py"],
    [("pair cutoff", "dispersion/twobody.py (dispersion2)"),
     ("triple cutoff", "dispersion/threebody.py (get_atm_dispersion)"),
     ("cutoff container", "cutoff.py (Cutoff)")],
    ["energies as a function of distance and cutoff"])

add("C07", "Reference weights are a normalised, charge-scaled partition",
    "For every element, coordination number and charge, the weights of the "
    "element's reference systems are non-negative, vanish for references the "
    "element does not have, and, divided by the charge scaling, are the "
    "normalised Gaussian weights of the distances in coordination number "
    "(falling back to the most coordinated reference when these underflow). The "
    "analytical derivatives offered with the weights are the derivatives of the "
    "weights.",
    ["inputs", "configurations"],
    "all elements x coordination numbers (0 to far above any reference) x "
    "charges (including beyond the effective nuclear charge) x weighting and "
    "scaling factors x models x precision",
    "Tests check stored weights for a few molecules; most elements, CNs and "
    "charge regimes are never evaluated.",
    ["model/base.py", "model/d4.py", "model/d4s.py", "reference/d4/params.py"],
    [("Gaussian weighting", "model/d4.py, model/d4s.py (weight_references)"),
     ("charge scaling", "model/base.py (_zeta, _dzeta)"),
     ("underflow fallback", "model/d4.py, model/d4s.py (weight_references)")],
    ["weights and their derivatives returned by the models"])

add("C08", "C6 coefficients and polarizabilities are mutually consistent",
    "C6 coefficients are symmetric, positive for real pairs and equal the "
    "Casimir-Polder integral of the weighted dynamic polarizabilities of the two "
    "atoms; static polarizabilities are the zero-frequency limit of the dynamic "
    "ones, one positive value per atom. The pair-specific model with a uniform "
    "weighting factor reproduces the standard model, and coefficients scale "
    "bilinearly with the weights.",
    ["inputs", "configurations"],
    "all molecules x weights (CN, charges, arbitrary one-hot weights) x models x "
    "reference charges, single and batched",
    "Tests compare a few stored C6 matrices; symmetry, positivity and the "
    "relation between C6, dynamic and static polarizabilities are not asserted.",
    ["model/base.py", "model/d4.py", "model/d4s.py", "utils.py", "disp.py"],
    [("Casimir-Polder quadrature", "utils.py (trapzd, trapzd_noref, "
      "trapzd_atm)"),
     ("contraction with weights", "model/d4.py, model/d4s.py (get_atomic_c6, "
      "get_weighted_pols)")],
    ["model outputs", "get_properties"])

add("C09", "Partial charges: conservation, precedence and scope",
    "Reported partial charges sum to the requested total charge and solve the "
    "charge equilibration equations; an integer, float, tensor or list total "
    "charge of the same value gives the same result. User-given partial charges "
    "are used instead and then the total charge has no influence; charges enter "
    "the two-body term only, never the three-body term.",
    ["inputs", "configurations"],
    "all molecules x total charges (fractional, large, per molecule) x charge "
    "types x user charges",
    "Tests use neutral or singly charged stored molecules and never compare "
    "equivalent ways to pass charges or vary charges against the three-body "
    "term.",
    ["disp.py", "dispersion/base.py", "dispersion/twobody.py",
     "dispersion/threebody.py"],
    [("charge conversion and EEQ call", "dispersion/base.py (Disp.calculate)"),
     ("charge dependence flags", "disp.py (dftd4)")],
    ["charges from the property function", "energies under charge changes"])

add("C10", "Damping functions follow their closed form and limits",
    "Rational, zero, modified zero and optimised power damping evaluate their "
    "published formula for every distance, radius, order and parameter: between "
    "zero and one, approaching one at long range, suppressing the interaction at "
    "short range, increasing with distance; the bare damping function on request, "
    "otherwise divided by the distance power. Missing required parameters or "
    "unsupported orders are reported, never replaced silently.",
    ["inputs", "configurations"],
    "all distances x radii x parameters x orders x parameter types, for each "
    "damping function, standalone and inside the energy",
    "Only rational damping is compared with reference numbers by the tests; the "
    "other functions are only instantiated and type-checked.",
    ["damping/functions.py", "dispersion/twobody.py",
     "dispersion/threebody.py"],
    [("damping formulas", "damping/functions.py"),
     ("required parameters", "damping/functions.py (Damping.__init_subclass__)"),
     ("radius selection", "dispersion/twobody.py (dispersion2)")],
    ["values of the damping functions", "energies with each damping function"])

add("C11", "Functional parameters are looked up faithfully",
    "For every functional (in any letter case), method and variant in the "
    "shipped database, the lookup returns exactly the stored parameters (the default "
    "variant when none is named, the reference only on request), as a fresh "
    "dictionary that callers may modify without affecting later lookups. Unknown "
    "functionals, methods or variants raise an error instead of returning other "
    "parameters.",
    ["inputs", "histories"],
    "all (functional, method, variant, letter case, keep_doi) combinations x "
    "sequences of lookups and modifications of earlier results",
    "Tests look up two or three functionals; the other hundreds of entries, "
    "letter cases, aliasing between lookups and error paths are not covered.",
    ["damping/parameters/loader.py", "damping/parameters/base.py",
     "damping/parameters/d4.toml", "damping/parameters/d3.toml"],
    [("lookup", "damping/parameters/loader.py (get_params)"),
     ("cached database", "damping/parameters/loader.py (_load)")],
    ["return values of get_params"],
    [("parameter table", "parsed database, cached per method",
      "damping/parameters/loader.py (_load)")])

add("C12", "Evaluations are pure: no side effects, no history, no interference",
    "An evaluation never modifies its inputs (tensors, parameter dictionaries, "
    "cutoffs, models) or any global state, and its result depends on its "
    "arguments only: repeating it, running any other evaluations before it, "
    "reusing the same objects or running many evaluations concurrently in "
    "threads gives the same result.",
    ["schedules", "histories", "inputs"],
    "all sequences of API calls with any inputs, dtypes and shared objects, and "
    "all thread interleavings of such calls",
    "Each test performs one evaluation on fresh objects in one thread; shared "
    "default arguments, caches and in-place updates show only in sequences or "
    "concurrent use.",
    ["disp.py", "dispersion/base.py", "dispersion/twobody.py",
     "damping/functions.py", "damping/parameters/loader.py", "model/base.py",
     "cutoff.py"],
    [("new tensors only", "dispersion/twobody.py, dispersion/threebody.py"),
     ("per-call term list", "disp.py (dftd4)"),
     ("cached parameter table", "damping/parameters/loader.py (_load)")],
    ["inputs before and after", "global torch state", "results across histories "
     "and threads"],
    [("module-level default objects", "default damping functions, class-level "
      "term lists, cached tables", "disp.py, dispersion/d4.py, "
      "damping/parameters/loader.py")])

add("C13", "Precision follows the input and only costs rounding",
    "All results have the dtype of the positions, whatever the global default "
    "dtype is and however damping parameters, total charge and cutoffs are "
    "given; models and cutoffs converted to another precision keep working. "
    "Single precision results agree with double precision ones to single precision "
    "accuracy, also for weights that underflow in single precision, and double "
    "precision results are not degraded by any single precision intermediate.",
    ["inputs", "configurations"],
    "all molecules x dtypes of positions x global default dtypes x types of "
    "parameters, charges, radii and cutoffs x models",
    "Tests run both dtypes with matching argument types under the default global "
    "dtype and with loose tolerances.",
    ["disp.py", "dispersion/base.py", "cutoff.py", "model/base.py",
     "model/d4.py", "model/d4s.py", "data/r4r2.py", "data/wfpair.py"],
    [("dtype propagation", "dispersion/base.py (Disp.calculate)"),
     ("double precision weights", "model/d4.py, model/d4s.py "
      "(weight_references)"),
     ("container conversion", "cutoff.py (Cutoff), model/base.py (BaseModel)")],
    ["dtype and value of every output"])

add("C14", "Terms compose linearly and equivalent APIs agree",
    "The energy is the sum of its registered terms, linear in the scaling "
    "parameters s6, s8, s9 and s10 (omitted ones taking their documented "
    "defaults), independent of registration order, and undone by deregistration. "
    "The functional API, the predefined method classes, a manually assembled "
    "method, a model given by name or as instance, and the pair matrix output "
    "all give the same energies; the exact-C9 variant uses the triple "
    "Casimir-Polder integral.",
    ["inputs", "configurations", "histories"],
    "all molecules x term sets and register/deregister sequences x parameter "
    "scalings x ways to call",
    "Tests check single terms for one or two molecules; linearity, sequences of "
    "registration, and agreement of all API routes over inputs are not asserted.",
    ["disp.py", "dispersion/base.py", "dispersion/d4.py", "dispersion/d3.py",
     "dispersion/twobody.py", "dispersion/threebody.py", "defaults.py"],
    [("term registry", "dispersion/base.py (Disp)"),
     ("predefined methods", "dispersion/d4.py (DispD4, DispD4Exact)"),
     ("scaling", "dispersion/twobody.py, dispersion/threebody.py")],
    ["energies through each route"])

add("C15", "Inconsistent input is rejected, never silently used",
    "Arguments whose shapes are inconsistent with the atomic numbers (positions, "
    "radii, expectation values, charges), partial charges when no term uses "
    "them, unknown models or reference charges, elements beyond 103, missing "
    "or unknown damping parameters, unsupported orders and missing radii raise an "
    "error, never a result, and do not affect later calls. "
    "Valid input is never rejected.",
    ["inputs", "configurations"],
    "all single-argument corruptions of valid calls x molecules, batch shapes, "
    "models and API routes",
    "Tests try one corrupted shape per argument on one molecule and one route.",
    ["dispersion/base.py", "disp.py", "damping/functions.py", "model/base.py",
     "dispersion/twobody.py"],
    [("shape checks", "dispersion/base.py (Disp.calculate)"),
     ("model selection", "dispersion/base.py (Disp.__init__, get_model)"),
     ("required parameters", "damping/functions.py")],
    ["exception or result of each call"])

add("C16", "Element data are the published D4 data for every element",
    "For each element 1-103, the reference polarizabilities, reference "
    "coordination numbers and charges, numbers of references, hardnesses, "
    "effective nuclear charges, radii expectation values and pair weighting "
    "factors that determine the results are the published ones, in every "
    "precision.",
    ["inputs"],
    "all elements, reference systems, frequencies and element pairs",
    "The tests touch a few dozen elements through molecules; a wrong digit for "
    "an untested element or reference changes nothing they observe.",
    ["reference/d4/params.py", "reference/d4/charge_eeq.py",
     "reference/d4/charge_gfn2.py", "data/r4r2.py", "data/wfpair.py",
     "data/zeff.py", "data/hardness.py", "data/radii.py"],
    [("reference tables", "reference/d4/params.py"),
     ("reference charges", "reference/d4/charge_eeq.py, "
      "reference/d4/charge_gfn2.py"),
     ("element tables", "data/")],
    ["weights, polarizabilities, C6 and energies of probes that isolate one "
     "table entry each"])

with open(__import__("os").path.join(__import__("os").path.dirname(__file__), "..", "properties.jsonl"), "w") as fp:
    for d in P:
        fp.write(json.dumps(d) + "\n")
print(len(P))
