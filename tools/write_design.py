"""Regenerates /verif/DESIGN.md from design/template.md, the table below, the known-findings file and seeded/*/meta.json."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# id: (what is decided and against which oracle, bounds, cost)
D = {
 "C01": ("Each flow rule is built from contract components and evaluated on symbolic state; every returned derivative is compared with the term derivative of the rate *the same class* returns.", "0-5 internal variables per component, 1-5 members in sums, parameters varying with temperature, fixed, or one per batch member; batch ranks 1-2 of arbitrary size", "1 s"),
 "C02": ("As C01 for hardening values and rates, including superpositions in any member order and Chaboche with and without static recovery.", "1, 3 and 5 backstresses, 1-5 members, parameters as in C01", "1 s"),
 "C03": ("As C01 for damage rates; stress of either sign (sign regions), damage between 0 and 1.", "none on values", "1 s"),
 "C04": ("Material models over contract flow rule and damage: Jacobian and rate sensitivity against term derivatives of the returned state rate.", "0-5 internal variables, parameters as in C01", "1 s"),
 "C05": ("The nonlinear solve is replaced by an arbitrary root; the residual and Jacobian handed to it, the rates and the implicit-function Jacobian are compared with those derived from the contract model. Every control assignment of the batch is enumerated. The prescribed rate is read off the interpolators the integrator builds.", "model sizes 1-4, batches 1-3 and 2x2 with all 2^n controls", "9 s"),
 "C06": ("Rates against closed-form laws written in the check from the documentation, also where an input is exactly zero.", "as C01-C04", "4 s"),
 "C07": ("Each temperature law against its formula with the scaling functions as unknown functions: applied twice or not at all gives another term. A whole-package pass shows every material law calls the parameter rather than its raw value. The piecewise law is decided for the *rank* of the temperature among the control points.", "2-9 control points and polynomial orders up to 8, beyond every number of the code; all positions incl. on points; control values shared or one set per batch member", "1 s"),
 "C08": ("Scale, unscale, call and mean against formulas, also where bounds and inputs differ between the components of a vector; the location and spread the printed description reports; the real line is cut at 0 and 1.", "none on values", "1 s"),
 "C09": ("Helpers against the clamped map, also with bounds and inputs that differ between components; range by sign regions.", "none on values", "1 s"),
 "C10": ("Residual and operator of a block against the Euler equations of an unknown right-hand side with exact Jacobian; operator entries are derivatives of the residual terms.", "blocks of up to 33 steps, sizes 1-9, batch up to 33 or arbitrary; sizes around every number of the code; schemes used with other sizes before", "3 s"),
 "C11": ("Integration with the nonlinear solver as an arbitrary-root stub; each residual handed over is matched to exactly one step equation of the returned trajectory.", "every block size up to 6 points (8 thorough), selected ones up to 50 points, batch up to 33; sizes around every number of the code", "11 s"),
 "C12": ("Gradients of the adjoint pass against the chain rule through the discrete equations, solved symbolically for an unknown right-hand side.", "every block size up to 6 points, selected ones up to 34 points; sizes 1-5, batch up to 33, several parameters, idle and frozen ones; symbolic loss gradients and numeric ones that vanish at chosen times; sizes around every number of the code; schemes used with other sizes before", "47 s"),
 "C13": ("Data flow of every option from the caller to the site that uses it (marker values), rejection of unknown names, order of tracked tensors and returned gradients.", "all option subsets used by the three entry points", "6 s"),
 "C14": ("Factorizations solve with opaque invertible blocks (block algebra) and with scalar entries; solutions are substituted back. First and second use, and one solver context over several operators or blocks overwritten in place. Operator, dense and sparse forms entry by entry, with n, shape, nblk, nnz, dtype and device reports.", "1-36 blocks (70 thorough) and up to 129 selected, batch up to 65, block sizes 1-6, every minimum size for up to 10 blocks; sizes around every number of the code. Entry by entry (blocks of 2) where the code does not multiply whole blocks", "35 s"),
 "C16": ("All paths of the solver loops over a finite partition of residual norms (above both tolerances, relative only, absolute, infinite, not a number) per batch entry and iteration.", "1-2 entries, all histories of up to 3 iterations (4 thorough); 17 kinds of long history (stalled, slow, growing, one entry late, ...) up to 14 evaluations and beyond every number of the code, with Jacobians that make steps large or negligible", "60 s"),
 "C20": ("Tables: distinct codes, formatter per code; loader on symbolic data sets of every mixture.", "1-3 tests, all type/control combinations", "1 s"),
 "C21": ("Formatters on symbolic histories with every admissible cycle layout, all mixtures and orders of types, each row against the documented abstraction of the test's own history.", "1-4 tests, 2-7 rows", "1 s"),
 "C22": ("Generators on symbolic conditions: start, end, rate, temperature, monotone time (signs of increments), markers, numbering.", "1-3 tests, 2-10 steps (39 thorough), both hold spacings, compression", "3 s"),
 "C23": ("Each interpolator (classes and functions) interpreted with ordered symbolic sample times and queries in every interval and on every sample; the result is compared with the linear formula between the two neighbours. The analysis found the single-test failure (fixed).", "2-4 samples (6 thorough), 1-3 members, any leading query dimensions", "6 s"),
 "C15": ("Every public evaluation of the package (a catalogue of about 2100 cases: rates, models, temperature laws, scalings, controls, interpolators, operators, solves, nonlinear solves, integrations, experiment helpers, calibration models) is interpreted twice on tensors whose memories, views and storage writes are tracked; no memory reachable from the arguments or the object may hold another value afterwards, and the second call returns the same terms. Broadcast views and size-one batches share memory as in torch.", "ranks 0-2, sizes 1-2 (3 in the thorough tier)", "8 s"),
 "C17": ("The pointwise part of the catalogue with symbolic batch sizes: any operation that reduces, orders, indexes or shifts over the batch axis is recorded, and the generic entry may depend on its own inputs only; then, for concrete batches of every rank with one variable per entry, each entry is compared with the single evaluation renamed to that entry.", "symbolic ranks 1-3, concrete sizes 1-5, ranks 0-4; objects used with other sizes before (rule reuse)", "12 s"),
 "C18": ("Device labels are carried by every tensor; all inputs get one non-default label. An operation that combines or indexes tensors of different labels is an event, and every returned tensor, and every `.device` an object reports, must carry the label. Same catalogue.", "as C15, plus symbolic batches", "4 s"),
 "C24": ("Sample, parameter and plate statements are interpreted into records (site, distribution, event dimensions, plates, scale, value; parameter, initial value, constraint, memory). Model and guide are run on the same data and their records compared with each other, with the specification and with the parameter store; an unconstrained parameter shares the memory of its initial value as in pyro. The analysis found that the guide optimised the user's prior tensors in place (fixed).", "6 parameter lists of dimension 0-2, noise scalar or by type, inferred or not, 3 suffix sets, 3 mixtures of tests", "5 s"),
 "C25": ("The same records, on every mixture of test types: scale and noise of the likelihood entry by entry as terms of the given weights and levels; its centre against the formatted first component of the predictions; the arguments of the integration and of the maker against the data and the names.", "15 mixtures of the 7 types, weights absent, complete or in another order; wrappers used with another data set before (rule reuse)", "8 s"),
 "C29": ("Each helper is interpreted on an unknown function (uninterpreted, entrywise in the tests) for every combination of value and argument shapes; every entry must be the term (f(x+h e)-f(x))/h with h = max(eps |x|, eps). The analysis found the failures of differentiate and the shared increment of new_differentiate (fixed).", "0-3 components, batches 1-3, default and given perturbation", "2 s"),
 "C26": ("The catalogue of the public evaluations, with every detachment (.detach, .data, .numpy, .item, no_grad, tensors rebuilt from data) kept in the terms; wherever a detached subterm stands in value position the derivative of the result with and without the cut is compared for every variable in it. Detached copies that leave the derivative alone are accepted. Memory shared by a detached copy is tracked, so writes through it reach the original.", "symbolic batches of rank 1-2, concrete batches up to rank 1 (3 thorough); 430 constructs", "3 s"),
 "C27": ("Syntax tree of every function: stores to and mutations of module variables, classes, function attributes and process settings; changed mutable defaults; random draws outside the call graph of the documented generators. Then every case of the catalogue is interpreted twice: the first call must leave everything modules, classes and default arguments hold as it was, and the second call, with all variables in the argument and parameter memory renamed in place, must return the renamed first result, so nothing is remembered (function caches are interpreted, keyed as Python keys them). Rule `sizes`: the same object is used with other batch shapes, time grids and data sets first, and must then give what a new object gives. Rule `kept`: after the later call the earlier results still hold what they held.", "389 functions; 430 constructs; two calls; other sizes", "24 s"),
 "C28": ("Newton loops with unknown residual function and contract linear solves: each evaluation point must be an earlier iterate minus the scaled solution of its own linear system; the returned Jacobian is the one at the returned point. Same residual partition as C16.", "1-3 entries, up to 25 iterations along selected histories; long histories with tiny tolerances and residual drops around every fraction in the code", "31 s"),
 "C31": ("Neural rate and Jacobian against term derivatives for an unknown network; the differentiation wrapper against derivatives of an unknown function for every argument selection, also when one wrapped function is called with other ranks and selections in turn.", "1-3 state, 0-3 forcing, ranks 0-3", "1 s"),
 "C32": ("Helpers against definitions.", "block sizes 1-4, ranks 1-3", "1 s"),
 "C34": ("The object graph every constructor builds is followed with torch's registration rules (attributes that are parameters or modules, module lists and dictionaries; not lists, tuples, dictionaries, buffers, plain objects or copies), each stand-in component and temperature parameter holding a trainable leaf; the leaves an evaluation uses must all be listed, once. The right-hand side is the object the integrator call receives.", "component sizes 0-5, 1-5 members, all shipped assemblies", "2 s"),
 "C37": ("Syntax trees of the package, the examples and the tutorial's code blocks: imports and module attributes are looked up, calls are resolved through imports, methods and single-assignment instances and bound to signatures, results are matched with the names they are unpacked into, attributes read from self are matched with the members of the class family, free names with the module.", "only what resolves without types; calls on objects of unknown class are not judged; options forwarded by keyword only have to be known to some signature", "2 s"),
 "C36": ("The plotting library is a stand-in that keeps what it is asked to draw; the curves are numbers in a different generic order at every point, so means and ranks are decided exactly.", "1-23, 30, 39-41, 60, 99-101 tests (thorough: 1-63), alpha default, 1/20, 1/10, 1/4, 2/5", "3 s"),
 "C35": ("Two evaluations around a change of version of every parameter tensor and stand-in (in the same memory, as `p.data.copy_` does): the second must be the first with the parameters renamed. Also with the change before the first evaluation, which leaves only the constructor to have kept something.", "catalogue of C15, batches (B), (2) (thorough: three more)", "4 s"),
 "C33": ("The terms of every rate, derivative and material model (the catalogue of C15, components as contracts and assembled models) are walked operation by operation over the abstract values exact constant / generic finite non-zero / infinite / not-a-number (`sa/ieee.py`), where 0*inf, 0/0, 0**-1 and log 0 are kept instead of being simplified away, in every state named and on each side of every comparison that the state leaves open. A second walk goes backwards, as reverse-mode differentiation does: an operation on a path from a parameter whose local derivative is infinite spoils the gradient even if `where` drops its value. An alarm needs a sampled point of the domain at which the walk meets the hazard.", "batch (1); thorough adds symbolic and larger batches", "6 s"),
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    claimed = {c["property"]: c for c in man["checks"]}
    out = []
    for p in props:
        i = p["id"]
        if i in claimed:
            w, b, c = D[i]
            out.append(f"**{i} {p['title']}** (level: {claimed[i]['level']}). {w} *Bounds:* {b}; all real values. *Cost:* {c}. *Beyond the tests:* {p['why_tests_cant']}\n")
        else:
            r = next(n["reason"] for n in man["not_applicable"] if n["property"] == i)
            out.append(f"**{i} {p['title']}**: not applicable. {r}\n")
    fixes = [l[7:].strip() for l in open(os.path.join(HERE, "known_findings.jsonl")) if l.startswith("fixed:")]
    ft = "\n".join("* " + f for f in fixes)
    st = ["| planted bug | property | needs | caught by its check |", "|---|---|---|---|"]
    caught = {}
    cp = os.path.join(HERE, "design", "caught.json")
    if os.path.exists(cp):
        caught = json.load(open(cp))
    sd = os.path.join(HERE, "seeded")
    for n in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, n, "meta.json")))
        st.append(f"| {n} | {m['property']} | {m['needs']} | {caught.get(n, '?')} |")
    t = open(os.path.join(HERE, "design", "template.md")).read()
    t = t.replace("PROPTABLE", "\n".join(out)).replace("FIXTABLE", ft).replace("SEEDTABLE", "\n".join(st))
    open(os.path.join(HERE, "DESIGN.md"), "w").write(t)


main()
