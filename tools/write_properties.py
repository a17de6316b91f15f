"""Regenerates /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


R = "pyoptmat/"
p("C01", "Flow rules return the exact derivatives of their own rates",
  "For every flow rule in the package, at every stress, internal state, time, temperature and strain rate away from the kinks of the rates, each derivative it returns (of the inelastic rate and of the internal-variable rates, with respect to stress, internal variables and total strain rate) equals the exact partial derivative of the rate it returns. This holds for any parameters and any sub-models that themselves return exact derivatives, and the derivatives are laid out per batch entry in the documented shapes.",
  ["inputs", "configurations"], "all states, parameters, sub-model choices and leading batch shapes",
  "The tests difference each rule numerically at a few fixed parameter sets, mostly symmetric ones, with loose tolerances; a wrong term that vanishes at those points is invisible.",
  [R + "flowrules.py"], [("FlowRule subclasses", R + "flowrules.py: flow_rate, dflow_dhist, dflow_derate, history_rate, dhist_dstress, dhist_derate")])
p("C02", "Hardening models return the exact derivatives of their value and rate",
  "For every isotropic and kinematic hardening model, at every state away from kinks, the derivative of the hardening value with respect to the internal variables and the derivatives of the internal-variable rates with respect to stress, internal variables, inelastic rate and total strain rate equal the exact partial derivatives of the value and rates the model returns. The value has the batch shape and every derivative covers exactly the model's own internal variables.",
  ["inputs", "configurations"], "all states, parameters, numbers of backstresses, superpositions and batch shapes",
  "Finite differences at a handful of points cannot see terms that vanish there, and superpositions are only tested for one order of members.",
  [R + "hardening.py"], [("HardeningModel subclasses", R + "hardening.py: value, dvalue, history_rate, dhistory_rate_*")])
p("C03", "Damage models return the exact derivatives of their damage rate",
  "For every damage model, at every stress, damage between zero and one, time, temperature and strain rate, the derivatives of the damage rate with respect to damage, stress and total strain rate equal the exact partial derivatives of the damage rate returned.",
  ["inputs"], "all stresses of either sign, damage values, temperatures and parameters",
  "The tests use one parameter set; wrong factors equal to one there pass.",
  [R + "damage.py"], [("DamageModel subclasses", R + "damage.py: damage_rate, d_damage_rate_d_s, d_damage_rate_d_e")])
p("C04", "Material models return the exact state Jacobian and rate sensitivity",
  "For every strain-controlled material model, the returned matrix is the exact derivative of the returned state rate with respect to the whole state (stress, internal variables and damage where present) and the returned vector is its exact derivative with respect to the applied strain rate, for any flow rule and damage model that return exact derivatives. The state rate has the same layout as the state.",
  ["inputs", "configurations"], "all states, flow rules, damage models and batch shapes",
  "Tests difference a few assembled models at small damage; coupling blocks that are small there are not resolved.",
  [R + "models.py"], [("InelasticModel.forward", R + "models.py"), ("DamagedInelasticModel.forward", R + "models.py")])
p("C05", "Strain, stress and mixed control follow the prescribed history",
  "Under strain control the state rate at a time is the material's rate at the prescribed strain rate and temperature; under stress control the first component is the strain rate for which the material's stress rate equals the prescribed one at the prescribed stress, the internal-variable rates are the material's at that strain rate, and the returned matrix is their exact derivative through that implicit relation. A mixed batch gives each test exactly the result of its own control mode, and the prescribed rate at each sample time is the backward difference quotient of the prescribed history (zero where neither the time nor the quantity advances).",
  ["inputs", "configurations"], "all histories, all control assignments across a batch, all materials",
  "The tests run a few monotone histories with one control pattern and compare loosely.",
  [R + "models.py"], [("StressBasedModel / StrainBasedModel / BothBasedModel", R + "models.py"), ("ModelIntegrator.solve_both/solve_strain/solve_stress", R + "models.py")])
p("C06", "Constitutive rates equal the documented laws",
  "For every state and parameter value the rates returned by the viscoplastic, hardening, damage, regime-switching, rate-independent-wrapper and material models equal the published closed-form laws given in their documentation (with the backstress modulus used directly, without a two-thirds factor, and the damaged stress rate equal to one minus damage times the modulus times the elastic strain rate at the effective stress). Superposed models add their members' rates and concatenate their internal variables in order.",
  ["inputs", "configurations"], "all states, parameters and member lists",
  "Reference values in the tests come from single points or from the code itself.",
  [R + "flowrules.py", R + "hardening.py", R + "damage.py", R + "models.py"], [("rate functions", R + "flowrules.py, hardening.py, damage.py, models.py")])
p("C07", "Temperature laws equal their formulas with every scaling applied once",
  "Every temperature-dependent parameter returns its numerical scaling applied exactly once to the documented temperature law, in which each underlying parameter enters through its own scaling function applied exactly once, for any temperature batch shape and whether the parameters are shared or one per batch member, and reports the batch shape of its parameters as its shape. Every material law that depends on such a parameter uses the scaled value.",
  ["inputs", "configurations"], "all temperatures, parameters, scaling functions and batch shapes",
  "Tests use identity scalings and one-dimensional temperature batches almost everywhere.",
  [R + "temperature.py", R + "flowrules.py", R + "hardening.py", R + "damage.py", R + "models.py"], [("TemperatureParameter subclasses", R + "temperature.py")])
p("C08", "Scaling objects round-trip, respect their bounds and agree with themselves",
  "For every scaling object unscaling a scaled value returns it (inside the admissible range when clamping), scaling zero and one gives the lower and upper bound for the bounded kinds, clamped scaling never leaves the bounds, calling the object is the same as scaling, and the transformed mean is the documented affine map of the location, which is also the one the printed description of the transformed distribution reports with its spread. Each object equals its documented formula for every input.",
  ["inputs", "configurations"], "all inputs, bounds and clamp settings",
  "Tests check a few random draws.",
  [R + "scaling.py"], [("ScalingFunction subclasses", R + "scaling.py")])
p("C09", "Optimizer scale helpers map into their bounds",
  "Each helper that builds a scale function from bounds returns a function that equals its documented clamped map and whose value always lies within the bounds (and above the minimum bound when given), for every real input, every ordered pair of bounds and scales of either sign.",
  ["inputs"], "all inputs, bounds, factors and minimum bounds",
  "Tests draw values inside the bounds.",
  [R + "optimize.py"], [("bound_factor, bounded_scale_function, clamp_scale_function, bound_and_scale, log_bound_and_scale", R + "optimize.py")])
p("C10", "The integrator's residual and operator are the Euler equations and Jacobian",
  "For both the backward and the forward Euler scheme, any block of time steps and any right-hand side, the residual handed to the nonlinear solver is the scheme's one-step equation for each step of the block, and the linear operator handed with it is exactly the derivative of that residual with respect to the block of increments.",
  ["inputs", "programs", "configurations"], "all right-hand sides with exact Jacobians, step sizes, batch and block sizes",
  "Tests only see converged trajectories of a few equations.",
  [R + "ode.py"], [("BackwardEulerScheme.form_operators, ForwardEulerScheme.form_operators", R + "ode.py")])
p("C11", "Blocked time integration solves every step once, whatever the block size",
  "For every number of time points, block size, integration method and starting-guess strategy, integration starts from the given initial condition and each later state satisfies the scheme's one-step equation with its predecessor, each step being solved exactly once. The result therefore does not depend on the block size or on the starting guess when the nonlinear solves converge.",
  ["inputs", "configurations", "histories"], "all time grids, block sizes (including ones that do not divide the number of steps or exceed it), methods and guesses",
  "Tests use a few divisible combinations.",
  [R + "ode.py"], [("FixedGridBlockSolver.integrate, block_update, _initial_guess", R + "ode.py")])
p("C12", "The adjoint pass computes the exact gradient of the discrete solution",
  "For both Euler schemes, every block size and every loss gradient, the backward pass of the adjoint integrator yields for each tracked parameter and for the initial condition exactly the derivative of the loss through the discrete time-stepping equations. Contributions of every time step are included exactly once, also where the loss itself does not look at that time. Parameters that do not influence the rates (zero or no gradient) and parameters excluded from differentiation do not disturb the gradients of the others.",
  ["inputs", "programs", "configurations", "histories"], "all right-hand sides with exact Jacobians, time grids, block sizes, loss gradients",
  "Tests compare with differentiation through the solver for a few models, grids and block sizes with loose tolerance.",
  [R + "ode.py"], [("update_adjoint, accumulate, FixedGridBlockSolver.rewind, IntegrateWithAdjoint", R + "ode.py")])
p("C13", "Solver options reach the solver and adjoint gradients reach the right tensor",
  "Every documented integration option (block size, tolerances, iteration limit, linear and direct solve methods, minimum size, guess, failure policy, method) given by the caller takes effect unchanged in the solve it governs, unknown method names are rejected, and the adjoint wrapper tracks all differentiated parameters of the right-hand side followed by the extra parameters (and the initial condition when it needs a gradient), returning the gradients in that same order.",
  ["configurations", "programs"], "all option combinations and parameter lists",
  "Tests set one option at a time and look only at results that do not depend on it.",
  [R + "ode.py", R + "chunktime.py", R + "models.py"], [("odeint, odeint_adjoint, FixedGridBlockSolver.__init__, ModelIntegrator", R + "ode.py, models.py"), ("ChunkTimeOperatorSolverContext", R + "chunktime.py")])
p("C14", "All block bidiagonal solvers solve the same system they represent",
  "For every number of blocks, block size, batch size and right-hand side, the sequential, cyclic-reduction and hybrid factorizations (at any minimum size) return the unique solution of the block lower-bidiagonal system with the given diagonal and off-diagonal blocks, on the first and on every later use. Applying the forward operator, its dense form, and the sparse form describe the same matrix, and applying the operator to the solution returns the right-hand side.",
  ["inputs", "configurations", "histories"], "all block counts (powers of two and not), sizes, minimum sizes and repeated solves",
  "Tests use a couple of block counts with one solve each.",
  [R + "chunktime.py"], [("BidiagonalThomasFactorization, BidiagonalPCRFactorization, BidiagonalHybridFactorization, BidiagonalForwardOperator, SquareBatchedBlockDiagonalMatrix", R + "chunktime.py")])
p("C15", "Evaluations leave their inputs and the objects they belong to unchanged",
  "Evaluating a model, damage, hardening or flow rule, temperature parameter, scaling function, interpolator, experiment helper, linear-operator application or solve through the public call, or a nonlinear solve never modifies the tensors passed in by the caller nor the stored parameters of the object, so repeating the same call gives the same result. Aliased, single-batch and single-block inputs are included.",
  ["inputs", "histories"], "all call sequences, including size-one batches where views share memory",
  "Tests build fresh inputs for each call and seldom call twice.",
  [R + "*.py"], [("in-place updates", R + "chunktime.py, solvers.py, models.py, flowrules.py, hardening.py, temperature.py, utility.py, experiments.py, ode.py")])
p("C16", "A nonlinear solve never returns an unconverged point silently",
  "Whenever one of the nonlinear solvers returns without a warning or an exception, either every residual norm is at or below the absolute tolerance or every one is at or below the relative tolerance times its initial value; a non-finite residual always warns. Where the caller asks for an exception on failure, one is raised instead of the warning.",
  ["inputs", "programs", "histories"], "all residual histories over the iterations, batch members converging at different times, non-finite values",
  "Tests only solve well-posed systems that converge.",
  [R + "solvers.py", R + "chunktime.py"], [("newton_raphson, newton_raphson_bt, newton_raphson_chunk, PreconditionerReuseNonlinearSolver.solve", R + "solvers.py, chunktime.py")])
p("C17", "Batch entries never influence each other and any batch shape is accepted",
  "The result of every rate, derivative, temperature law, scaling function and material model for one batch entry depends only on that entry's inputs and not on the number, order or values of the other entries, and the same functions accept any number of leading batch dimensions giving entrywise the same result.",
  ["inputs", "configurations"], "all batch sizes, ranks and contents",
  "Tests use one or two batch shapes, usually with identical entries.",
  [R + "models.py", R + "flowrules.py", R + "hardening.py", R + "damage.py", R + "temperature.py", R + "scaling.py"], [("batched evaluation", R + "models.py, flowrules.py, hardening.py, damage.py, temperature.py, scaling.py")])
p("C18", "Results live on the device of the inputs",
  "When all inputs and parameters of a model evaluation, time integration, operator solve, interpolation, weighting or experiment helper live on one device, every tensor it returns lives on that same device and no operation combines or indexes tensors of different devices. Assigning into an existing tensor copies, and single numbers combine with anything.",
  ["inputs", "configurations"], "all devices",
  "The tests run on the CPU only, where a missing device is invisible.",
  [R + "*.py"], [("tensor allocation sites", R + "*.py")])
p("C20", "Experiment tables are complete and loading follows the control mode",
  "Every named experiment type has exactly one distinct integer code and one formatting function, reachable through its code. Loading a data set gives, for each test, time, temperature and the controlled quantity as input and the other quantity as result, with type and control codes from the tables.",
  ["inputs", "configurations"], "all data sets, type and control assignments",
  "Tests load one file.",
  [R + "experiments.py"], [("exp_map, exp_fns, exp_fns_num, control_map, load_results", R + "experiments.py")])
p("C21", "Simulated results are formatted per test type, per test, without cross-talk",
  "Formatting a batch of simulated histories gives for each test the documented abstraction of its own history (full history for tensile and direct data, per-cycle maximum for cyclic tests, change since the start of the hold for relaxation and creep, zero, yield and maximum stress for abstract tensile) at the documented rows, whatever mixture and order of test types the batch holds, each test by its own cycle markers. Every output entry is defined.",
  ["inputs", "configurations"], "all mixtures of test types, cycle patterns and histories",
  "Tests format one type at a time with simple cycle layouts.",
  [R + "experiments.py"], [("convert_results, format_*", R + "experiments.py")])
p("C22", "Generated test inputs realise the requested conditions",
  "Generated tension histories ramp from zero to the requested strain limit at the requested rate and temperature, generated creep histories ramp to the requested stress at the requested rate and then hold it until the requested time with increasing times and hold markers, and sampled strain cycles follow the ramp-hold-ramp-hold-ramp shape with the requested extremes, rates, hold durations and cycle numbering, for every test of the batch and every number of steps. Random cases draw every quantity from its requested range.",
  ["inputs", "configurations"], "all requested conditions, step counts and batch sizes",
  "Tests spot-check lengths and end points.",
  [R + "experiments.py"], [("make_tension_tests, make_creep_tests, sample_tension, sample_cycle_normalized_times", R + "experiments.py")])
p("C23", "Interpolators reproduce the piecewise linear function through their data",
  "For query times inside the data range, in any position relative to the samples including exactly on them and on the end points, each time-series interpolator and the piecewise temperature law returns the linear interpolation of its own series between the two neighbouring samples, for each batch member separately.",
  ["inputs"], "all sample spacings, query positions and batch members",
  "Tests compare random interior points on one grid.",
  [R + "utility.py", R + "temperature.py"], [("ArbitraryBatchTimeSeriesInterpolator, BatchTimeSeriesInterpolator, CheaterBatchTimeSeriesInterpolator, timeseries_interpolate_*, PiecewiseScaling", R + "utility.py, temperature.py")])
p("C24", "Statistical model, guide and parameter store agree on their sites",
  "The hierarchical model samples for each named parameter a location, a scale and a per-test value with the documented distributions and event dimensions, and the guide it makes samples exactly the same latent sites with matching event dimensions inside the same per-test plate (and the noise site exactly when noise is inferred), from positive-constrained parameters for the scales. Each guide parameter starts at its prior and is stored apart from it, so inference never changes the priors. The extra parameters it tracks for the adjoint pass are exactly the per-test values of the guide, and the model maker receives the values in the order of the names. The single-level model draws each parameter once.",
  ["configurations", "programs"], "all parameter lists, dimensions, noise settings and name suffixes",
  "Tests run two-parameter models with default suffixes.",
  [R + "optimize.py"], [("HierarchicalStatisticalModel, StatisticalModel, DeterministicModel", R + "optimize.py")])
p("C25", "Noise and weights are assigned by test type",
  "Each test receives the weight and, for per-type noise, the noise level of its own type; without weights every type weighs one, every test gets a defined noise, and parameters are passed to the model maker in the order of the given names.",
  ["inputs", "configurations"], "all mixtures of types, weights and noise settings",
  "Tests use uniform weights or one type.",
  [R + "optimize.py"], [("_make_weight_tensor, forward", R + "optimize.py")])
p("C26", "No gradient path is cut between inputs, parameters and results",
  "Evaluating a material model, a temperature law, a scaling function, an interpolator or the formatted results keeps every result differentiable with respect to every parameter and input it depends on: no dependency passes through a detached, copied-to-number or gradient-disabled value.",
  ["inputs", "programs"], "all models and parameters",
  "Gradient tests cover a few parameters of a few models.",
  [R + "models.py", R + "flowrules.py", R + "hardening.py", R + "damage.py", R + "temperature.py", R + "scaling.py", R + "utility.py", R + "optimize.py", R + "experiments.py"], [("detach, item, no_grad, tensor copies", R + "*.py")])
p("C27", "Library calls keep no hidden state between calls",
  "No function or method of the package writes module-level or class-level state, keeps a mutable default argument that it changes, or draws randomness, except the documented random test generators and the probabilistic sampling sites; two objects never share internal state. Results therefore depend only on the arguments and the object's own construction. The same object can be used with batches, time grids and data sets of any sizes one after another, with the result a new object gives, and a later call changes nothing an earlier call returned.",
  ["histories", "programs"], "all call histories",
  "Tests call functions in fresh processes with few repetitions.",
  [R + "*.py"], [("module state, default arguments, caches", R + "*.py")])
p("C28", "Newton solvers take exact steps and return the Jacobian at the returned point",
  "Each nonlinear solver updates the iterate by minus the solution of the linear system formed by the Jacobian and residual at the current point (scaled only by the line search where there is one, which tries the full step first), evaluates the residual at the returned point, and returns the Jacobian evaluated there. The linear solve used for a dense Jacobian solves that system, and the diagonal variant divides by the diagonal.",
  ["inputs", "programs"], "all systems, starting points and iteration counts",
  "Tests check roots of a few functions, which tolerate inexact steps.",
  [R + "solvers.py", R + "chunktime.py"], [("newton_raphson, newton_raphson_bt, newton_raphson_chunk, lu_linear_solve, jacobi_iteration_linear_solve, preconditioner operators", R + "solvers.py, chunktime.py")])
p("C29", "Finite-difference helpers return difference quotients",
  "Each finite-difference helper returns, for every test, value and component of the argument, the forward difference of that value over the increment of that component alone: the given fraction of the size of the component in that test, and at least that fraction. The result has the batch dimensions, then those of the values, then those of the arguments, for any mixture of scalars and vectors and any batch size.",
  ["inputs", "configurations"], "all functions, shapes, sizes of arguments including zero",
  "The helpers are the oracle of other tests and are only used at a few points of equal magnitude.",
  [R + "utility.py"], [("batch_differentiate, new_differentiate, differentiate", R + "utility.py")])
p("C31", "Neural differential equations return the Jacobian of their rate",
  "For any network and forcing, the neural rate is the network applied to the state joined with the forcing at that time, and the returned matrix is its exact derivative with respect to the state only, for any leading batch shape; the generic differentiation wrapper returns the function's value together with its exact per-entry derivatives for the requested arguments.",
  ["inputs", "programs", "configurations"], "all networks, forcings, sizes and batch shapes",
  "Tests use one network shape and one forcing size.",
  [R + "neuralode.py", R + "utility.py"], [("NeuralODE.forward, jacobianize", R + "neuralode.py, utility.py")])
p("C32", "Small numerical helpers equal their definitions",
  "The batched matrix product, the bracket and step functions (the step is one half at zero), the identity shift and the dense, diagonal and preconditioner linear solves equal their mathematical definitions for every input, block size and batch shape, including zero and negative arguments.",
  ["inputs"], "all inputs, sizes and batch shapes",
  "Tests use random positive inputs.",
  [R + "utility.py", R + "solvers.py"], [("mbmm, heaviside, macaulay, add_id, NoOp, Jacobi and LU preconditioners", R + "utility.py, solvers.py")])
p("C33", "Rates, Jacobians and parameter gradients are defined at zero stress and history",
  "For positive parameters (exponents larger than two), every shipped flow rule, hardening model, damage model and material model returns rates and derivatives that are real finite numbers in the virgin state (zero stress, history and damage; strain rate increasing, decreasing or zero; time zero), at zero stress with any history, at zero history with any stress, and on either side of the yield surface: nothing divides by zero, takes a negative or fractional power of a quantity of the wrong sign, or the logarithm of zero. The gradients of these results with respect to the parameters are finite there too: no operation on the way from a parameter to a result has an infinite derivative, not even one whose value is discarded by a conditional.",
  ["inputs", "configurations"], "all positive parameter values (finitely many states of zero and non-zero quantities)",
  "Derivative tests sample non-zero states; a formula that only fails where a quantity is exactly zero agrees with the right one everywhere else, and a lost gradient does not change any value.",
  [R + "flowrules.py", R + "hardening.py", R + "damage.py", R + "models.py"], [("rates and derivatives of every component, forward of the material models", R + "flowrules.py, hardening.py, damage.py, models.py")])
p("C34", "Every trainable parameter is registered with the model that uses it",
  "For every flow rule, hardening, damage and temperature model, material model, control wrapper and neural right-hand side, the object's parameters() contains every trainable parameter its results depend on, however deeply nested in sub-models and superpositions, each exactly once. The right-hand side that model integration hands to the time integrator lists the parameters of the material model, so the adjoint pass and the optimiser reach all of them, and the deterministic model has exactly one trainable parameter per name, starting at the given initial value, passed to the model maker in the order of the names.",
  ["configurations", "programs"], "all nestings of sub-models and parameters",
  "A parameter kept where torch does not look (a list, a tuple, a plain object) changes no value: its gradient is just silently missing from the adjoint pass and the optimiser, and tests track parameters directly.",
  [R + "flowrules.py", R + "hardening.py", R + "temperature.py", R + "models.py", R + "optimize.py", R + "neuralode.py"], [("constructors of the Module subclasses, ModelIntegrator.solve_*, DeterministicModel", R + "flowrules.py, hardening.py, damage.py, temperature.py, models.py, optimize.py, neuralode.py")])
p("C35", "Results follow the current values of the parameters",
  "When the values of the parameters of a model are changed in place, as an optimizer step or the loading of a checkpoint does, every later evaluation of rates, derivatives, temperature laws, material models and control wrappers gives what an object newly built with those values gives, whether or not the object was evaluated before the change: nothing computed from parameter values at construction or in an earlier evaluation is reused.",
  ["inputs", "histories"], "all parameter values, before and after any number of evaluations",
  "Tests build each model once and never change its parameters.",
  [R + "flowrules.py", R + "hardening.py", R + "temperature.py", R + "models.py", R + "damage.py"], [("constructors and evaluations of every model and temperature law", R + "flowrules.py, hardening.py, damage.py, temperature.py, models.py")])
p("C36", "The variance plot shows the mean and the central band of the tests",
  "For any number of tests in either set of curves and any band width alpha below one half, the variance plot draws, for the actual and for the predicted curves, the mean over the tests against the strain and a shaded band that at every point lies between two of the set's own values: those of the ranks nearest to alpha and 1 - alpha of the number of tests in that set. The plotted data are not changed.",
  ["inputs", "sizes"], "all numbers of tests and band widths", "No test draws; with fewer tests than one over alpha the rank rounded to zero.",
  [R + "utility.py"], [("visualize_variance", R + "utility.py")])
p("C37", "Everything uses the package's interface as it is",
  "Every use of the package by itself, by its examples and by its documentation fits its interface: each name imported from or looked up in one of its modules is defined there, each call of one of its functions, classes or methods can be bound to the signature (with options passed on by keyword known to the package), results are unpacked into as many names as are returned, every attribute an object reads from itself exists, and no function reads a name that is bound nowhere. So no documented example and no rarely taken branch fails with a name or argument error.",
  ["programs"], "all call sites and name uses in the package, the examples and the tutorial",
  "The tests never run the examples, and a quarter of the interface the examples use (model makers, statistical models, generators of test inputs, integrator options) is called by no test.",
  [R + "*.py", "examples/**/*.py", "doc/sphinx/*.rst"], [("all definitions and their call sites", R + "*.py, examples, doc/sphinx/structural_tutorial.rst")])
p("C40", "Time integration converges at first order",
  "As the time step goes to zero the integrated trajectory converges to the exact solution of the differential equation at first order.",
  ["inputs", "programs"], "all smooth right-hand sides", "A limit statement over all equations.",
  [R + "ode.py"], [("odeint", R + "ode.py")])
p("C41", "Iterative linear solves reach their tolerance",
  "The restarted Krylov solver returns a solution whose residual meets the requested tolerance within its iteration limit for every well-conditioned system.",
  ["inputs"], "all systems", "A quantitative convergence statement over floating-point matrices.",
  [R + "solvers.py"], [("gmres", R + "solvers.py")])
p("C42", "Statistical inference recovers the generating population",
  "Given enough data generated by the model, inference recovers the population means and scales.",
  ["inputs", "programs"], "all models and data sets", "Statistical, asymptotic.",
  [R + "optimize.py"], [("HierarchicalStatisticalModel", R + "optimize.py")])
p("C43", "Rates and derivatives stay within the floating-point range",
  "No rate or derivative overflows or underflows to a wrong sign in floating point for physically reasonable states and parameters.",
  ["inputs"], "all floating-point states", "Floating-point ranges of power laws.",
  [R + "flowrules.py", R + "damage.py"], [("power laws", R + "flowrules.py, damage.py")])
p("C44", "Adjoint gradients use memory independent of the solver's iterations",
  "The adjoint path stores only the trajectory, never the iteration graph, and is faster than differentiation through the solver.",
  ["programs"], "all models", "A resource statement.",
  [R + "ode.py"], [("odeint_adjoint", R + "ode.py")])
p("C45", "Finite-difference helpers converge to the derivative",
  "The numerical differentiation helpers approximate the derivative to the order of the perturbation for every smooth function.",
  ["inputs", "programs"], "all functions", "A limit statement with rounding.",
  [R + "utility.py"], [("batch_differentiate, differentiate", R + "utility.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        fh.write(json.dumps(x) + "\n")
print(len(P))
