prop("C01", "Slot generators and propagators follow the model and the amplitudes",
     "For every time slot the combined generator equals the drift of that slot plus the "
     "amplitude-weighted sum of the controls of that slot, and the slot's propagator is the "
     "exponential of that generator, with the phase or symplectic form of the dynamics type "
     "applied on the configured side, times the slot's duration.",
     ["inputs", "configurations"],
     "all drifts, controls (constant or per-slot), amplitudes and durations; all dynamics "
     "types, propagator methods, operator types, memory modes and phase placements",
     "tests check a few Pauli/Hadamard/Lindblad models by reaching a goal fidelity, which an "
     "optimiser can do with a wrong but self-consistent generator; per-slot drift and control "
     "containers, AUG_MAT and memory modes are barely touched.",
     ["dynamics.py", "propcomp.py", "symplectic.py", "tslotcomp.py"],
     [("combination of drift and controls", "dynamics.py Dynamics._combine_dyn_gen"),
      ("phase application", "dynamics.py Dynamics._apply_phase_preop/_postop, "
       "DynamicsSymplectic._get_dyn_gen_phase"),
      ("propagator computers", "propcomp.py _compute_propagator / _compute_prop_grad"),
      ("spectral propagator", "dynamics.py DynamicsUnitary._spectral_decomp")],
     [("dyn_gen", "combined generator of each slot", "dynamics.py"),
      ("prop", "propagator of each slot", "dynamics.py")],
     "2x2 systems, 2 slots, 2 controls.")

prop("C02", "Evolutions are the time-ordered products of the slot propagators",
     "The forward evolution up to a slot is the time-ordered product of the earlier slots' "
     "propagators applied to the initial state or operator, the onward evolution is the product "
     "of the remaining propagators, and the onto-target evolution is the target's "
     "adjoint/inverse followed by them. The number of entries and their dimensions are right "
     "for gates and for state transfer.",
     ["inputs", "configurations"],
     "all initial/target states or operators, generators, amplitudes, slot counts up to the "
     "bound, dynamics types and operator representations",
     "tests look only at the final evolution of a few gate problems; intermediate, onward and "
     "onto views and state transfer with both representations are not compared with anything.",
     ["dynamics.py", "tslotcomp.py"],
     [("recomputation of all evolutions", "tslotcomp.py TSlotCompUpdateAll.recompute_evolution"),
      ("public views", "dynamics.py Dynamics.fwd_evo/onwd_evo/onto_evo/full_evo")],
     [("fwd_evo", "evolution from the start to each slot", "dynamics.py"),
      ("onwd_evo", "evolution from each slot to the end", "dynamics.py"),
      ("onto_evo", "overlap of onward evolution and target", "dynamics.py")],
     "2x2 systems, up to 3 slots (4 thorough).")

prop("C03", "The fidelity error is the documented distance between evolution and target",
     "The reported error equals |1 - F| with F the real part (global phase kept) or the modulus "
     "(global phase ignored) of the normalised overlap for the unitary measure, and the scaled "
     "squared Frobenius distance of final evolution and target for the trace-difference "
     "measures.",
     ["inputs", "configurations"],
     "all initial/target matrices or state vectors, amplitudes, durations; all fidelity types, "
     "phase options, scale factors and operator representations",
     "tests assert that an optimised error is below a goal; a wrong normalisation, conjugation "
     "or phase treatment is invisible at an optimum of zero.",
     ["fidcomp.py"],
     [("unitary fidelity", "fidcomp.py FidCompUnitary.get_fid_err/normalize_SU/normalize_PSU"),
      ("trace difference", "fidcomp.py FidCompTraceDiff.get_fid_err")],
     (), "2x2 systems, up to 2 slots.")

prop("C04", "Exact gradients are the derivatives of the reported error",
     "With an exact-gradient propagator method, every component of the returned gradient is the "
     "derivative of the reported fidelity error with respect to that slot's amplitude of that "
     "control, whatever the dynamics type, operator representation, phase option and caching.",
     ["inputs", "configurations"],
     "all systems, amplitudes and durations, including degenerate spectra; all exact propagator "
     "methods, fidelity types, phase options, representations and cache settings",
     "tests compare gradients with scipy's finite differences at single random points of two "
     "systems; degenerate spectra, state transfer, Qobj operators and several controls or slots "
     "in combination are not sampled.",
     ["fidcomp.py", "propcomp.py", "dynamics.py"],
     [("overlap gradient", "fidcomp.py FidCompUnitary.compute_fid_grad/normalize_gradient_*"),
      ("trace-difference gradient", "fidcomp.py FidCompTraceDiff.compute_fid_err_grad"),
      ("propagator gradients", "propcomp.py PropCompDiag/PropCompFrechet/PropCompAugMat"),
      ("factor matrix", "dynamics.py DynamicsUnitary._spectral_decomp")],
     [("prop_grad", "derivative of each slot propagator", "dynamics.py")],
     "2x2 systems, 1-2 slots, 1-2 controls. Trusts that scipy.linalg.expm_frechet is the Frechet "
     "derivative and that eigh diagonalises.")

prop("C05", "Approximate gradients are forward differences of the reported error",
     "With the approximate-gradient method, every gradient component equals the change of the "
     "reported fidelity error when that one amplitude is increased by the step, divided by the "
     "step.",
     ["inputs", "configurations"],
     "all systems, amplitudes, durations and step sizes, gates and state transfer",
     "one existing test runs the approximate gradient on a single-slot-insensitive goal; a wrong "
     "operator order still descends for commuting or nearly commuting steps.",
     ["fidcomp.py", "propcomp.py"],
     [("finite differences", "fidcomp.py FidCompTraceDiffApprox.compute_fid_err_grad"),
      ("perturbed propagator", "propcomp.py PropCompApproxGrad._compute_diff_prop")],
     (), "2x2 systems, up to 3 slots.")

prop("C06", "Every query reflects the latest amplitudes and configuration",
     "After any sequence of amplitude updates (including unchanged, partly changed and in-place "
     "edited arrays), re-initialisations with another target, drift, duration or slot count, "
     "phase-option switches and queries, the error, gradient, gradient norm and evolution views "
     "are those of the current amplitudes and configuration, never of an earlier one.",
     ["histories", "inputs"],
     "all histories of updates, re-initialisations and queries up to the bound, with all "
     "amplitude values symbolic",
     "tests set amplitudes once and let the optimiser run; staleness needs a particular order of "
     "update and query, or an array aliased and edited between them.",
     ["tslotcomp.py", "dynamics.py", "fidcomp.py"],
     [("change detection", "tslotcomp.py TSlotCompUpdateAll.compare_amps"),
      ("invalidation", "dynamics.py Dynamics.flag_system_changed, fidcomp.py "
       "FidelityComputer.flag_system_changed"),
      ("lazy views", "dynamics.py fwd_evo/prop/... cached Qobj views"),
      ("decomposition flags", "dynamics.py Dynamics._decomp_curr")],
     [("evo_current", "evolutions match the amplitudes", "dynamics.py"),
      ("fidelity_current / fid_err_grad_current", "cached error / gradient valid",
       "fidcomp.py")],
     "2x2 systems, 1-2 slots, histories up to 5 operations.")

prop("C07", "Results do not depend on operator type, memory mode, statistics or logging",
     "The error, the gradient, the evolutions and the propagators are the same whether operators "
     "are held as arrays or quantum objects, whether memory is optimised for speed or size, "
     "whether statistics, dumping or verbose logging are on, and whether the drift and controls "
     "are given constant or repeated per slot.",
     ["inputs", "configurations"],
     "all systems, amplitudes and durations; all combinations of dynamics, propagator, fidelity, "
     "representation, memory mode, stats, dump and log level",
     "tests mostly run one representation with default memory settings at log level WARN and "
     "never compare two configurations on the same amplitudes.",
     ["dynamics.py", "propcomp.py", "fidcomp.py", "tslotcomp.py"],
     [("choice of representation", "dynamics.py Dynamics._choose_oper_dtype"),
      ("memory options", "dynamics.py Dynamics._set_memory_optimizations"),
      ("statistics / dump / log branches", "dynamics.py, tslotcomp.py, propcomp.py")],
     (), "2x2 systems, 2 slots.")

prop("C08", "Unitary and symplectic structure is preserved",
     "Hermitian generators give unitary propagators and evolutions, symplectic dynamics "
     "exponentiate Hamiltonian matrices, the error is never negative, it does not change with "
     "the global phase when the phase is ignored (nor with a common phase of start and target "
     "when it is kept), and it is zero, with zero gradient, exactly when the target is what the "
     "pulse produces.",
     ["inputs"],
     "all Hermitian / symplectic generators, unitary starts and targets, amplitudes, durations",
     "a violated structure shows only for particular spectra, phases or non-commuting steps; "
     "tests look at final errors of a few optimisations.",
     ["dynamics.py", "propcomp.py", "fidcomp.py", "symplectic.py"],
     [("spectral propagators", "dynamics.py DynamicsUnitary._spectral_decomp"),
      ("symplectic form", "symplectic.py calc_omega; dynamics.py DynamicsSymplectic"),
      ("phase options", "fidcomp.py FidCompUnitary normalize_SU/normalize_PSU")],
     (), "2x2 systems (4x4 symplectic), 1-2 slots; general eigenvectors, spectrum and phases. "
     "Uses that the exponential of a skew-Hermitian (Hamiltonian) matrix is unitary "
     "(symplectic).")

prop("C09", "The time grid is consistent whatever the order of its settings",
     "After any sequence of setting the number of slots, the total time or the slot durations, "
     "the number of slots equals the number of durations, the total time equals their sum, the "
     "slot boundaries are their running sums starting at zero, and the amplitude times are the "
     "slot starts. Durations that were given are kept; changing the slot count or total time "
     "keeps the other and spreads the time evenly.",
     ["histories", "inputs"],
     "all orders of settings and reads up to the bound, all times",
     "tests set the slot count and time once, at construction.",
     ["dynamics.py"],
     [("setters and derivation", "dynamics.py Dynamics.num_tslots/evo_time/tau/init_timeslots"),
      ("amplitude times", "dynamics.py Dynamics.get_amp_times")],
     [("tau / time", "slot durations and boundaries", "dynamics.py")],
     "histories of up to 3 settings, 1-4 slots.")

prop("C10", "Generated pulses respect their amplitude bounds",
     "Every pulse generator returns one finite amplitude per time slot within the lower and "
     "upper bounds it was given, on either side, both or none, infinite bounds counting as "
     "none, whatever its scaling, offset, shape parameters and random draws; for CRAB also "
     "with guess and ramping pulses and for every set of coefficients. Crossed bounds are "
     "refused.",
     ["inputs", "random draws"],
     "all scalings, offsets, bounds, durations, parameters, coefficients and random draws",
     "one test runs a bounded optimisation per pulse type with one seed and fixed bounds; the "
     "shift/scale logic depends on which side the raw pulse exceeds.",
     ["pulsegen.py"],
     [("shifting and scaling", "pulsegen.py PulseGen._apply_bounds_and_offset"),
      ("CRAB bounds", "pulsegen.py PulseGenCrab._init_bounds/_apply_bounds"),
      ("bound normalisation", "pulsegen.py PulseGen.init_pulse")],
     (), "1-3 slots. Raw shape values of wave, Gaussian and CRAB pulses are arbitrary reals.")

prop("C11", "Pulse generators produce the shape their parameters describe",
     "Each generator's pulse is the documented function of the slot start times: constant, "
     "linear between its end points or with its gradient, sine/square/saw/triangle of the given "
     "frequency, wavelength or number of waves and start phase, Gaussian and Gaussian-edge with "
     "their parameters, random values or walks within the documented ranges; then scaled and "
     "offset. Frequency, wavelength and number of waves agree, later generations reproduce the "
     "pulse, parameters given to the call take effect, and bounds that are satisfied change "
     "nothing (otherwise only shift or scale the pulse).",
     ["inputs", "random draws"],
     "all parameter values (including zero), durations, scalings, offsets and random draws",
     "tests only check pulse bounds after an optimisation for a few types.",
     ["pulsegen.py"],
     [("non-periodic shapes", "pulsegen.py PulseGenLinear/Gaussian/GaussianEdge/Zero"),
      ("periodic shapes", "pulsegen.py PulseGenPeriodic.init_pulse and subclasses"),
      ("random walks", "pulsegen.py PulseGenRndWalk1/2")],
     (), "2-3 slots (3-4 thorough).")

prop("C12", "Termination conditions end the optimisation, and the result says which",
     "Whatever the minimiser does, the run ends at the first objective call whose error is at "
     "or below the target error (given, or derived from the fidelity goal), at the first one "
     "beyond the allowed number of calls, at the first gradient whose norm is below the minimum, "
     "or at the first iteration past the wall-time limit, and never otherwise; exactly the "
     "matching flag and a reason are set, and call and iteration counts are those made. Until "
     "then the minimiser gets the true error and gradient. A normal end is reported as the "
     "minimiser reported it. Missing conditions are refused.",
     ["inputs", "histories"],
     "all errors, gradient norms, clocks, targets and limits, and every order of objective, "
     "gradient and iteration calls up to the bound",
     "tests reach each limit at most once, with the default optimiser, and do not look at the "
     "other flags, equality, BFGS/fmin warning flags or the order of conditions.",
     ["optimizer.py", "termcond.py", "errors.py", "optimresult.py"],
     [("objective wrapper", "optimizer.py Optimizer.fid_err_func_wrapper"),
      ("gradient wrapper", "optimizer.py Optimizer.fid_err_grad_wrapper"),
      ("iteration callback", "optimizer.py Optimizer.iter_step_callback_func"),
      ("outcome", "optimizer.py Optimizer._interpret_term_exception, run_optimization of every "
       "optimiser")],
     [("counts", "num_fid_func_calls, num_grad_func_calls, num_iter", "optimizer.py")],
     "scripts of up to 6 minimiser calls (9 thorough).")

prop("C13", "The optimisation result describes the run",
     "The result's initial amplitudes, error and evolution are those at the start of the run; "
     "its final amplitudes are the point where the run ended (the point returned by the "
     "minimiser, or the one at which a termination condition struck), and its final error, "
     "fidelity and evolution are those of exactly these amplitudes; its times are the slot "
     "boundaries. A later run starts from there and leaves the earlier result unchanged.",
     ["inputs", "histories"],
     "all generators, targets, amplitudes and points visited, all ways a run can end, all "
     "optimisers and several dynamics types",
     "minimisers end at the best point, tests check only that the error is below the goal; a "
     "result that mixes the last with the best point, or a stale evolution, passes them.",
     ["optimizer.py", "optimresult.py"],
     [("initial part", "optimizer.py Optimizer._create_result"),
      ("final part", "optimizer.py Optimizer._add_common_result_attribs and run_optimization")],
     [("result", "OptimResult", "optimresult.py")],
     "2x2 systems, 1-2 slots, scripts of up to 4 minimiser calls (6 thorough).")

prop("C14", "The minimiser is given the right problem",
     "Each optimiser starts the minimiser at the current amplitudes (flattened slot by slot; "
     "for CRAB the coefficients of each control in turn), with one pair of bounds per variable "
     "in the same order, taken from the scalar or per-control amplitude bounds (infinite or "
     "absent meaning none) or from the user's own list, with the gradient function unless it is "
     "to be approximated, and with the limits, tolerances and method parameters in force for "
     "this run; changing any of them between runs takes effect.",
     ["inputs", "configurations", "histories"],
     "all bounds, limits and start amplitudes, every form in which they can be given, slot and "
     "control counts, and sequences of runs",
     "tests use one bound for all controls and one run per optimiser; transposed or stale "
     "bounds and options cannot be noticed.",
     ["optimizer.py", "optimconfig.py"],
     [("bounds", "optimizer.py Optimizer._build_bounds_list"),
      ("options", "optimizer.py Optimizer._build_method_options, apply_method_params"),
      ("start", "optimizer.py _get_optim_var_vals")],
     [("bounds", "bounds of the variables", "optimizer.py"),
      ("method_options", "options of the method", "optimizer.py")],
     "1-3 slots (4 thorough), 1-2 controls, up to 3 runs.")

prop("C15", "CRAB pulses are the documented Fourier sum of their coefficients",
     "A CRAB pulse is, at each slot's start time, the sum over the coefficients of the sine and "
     "cosine at their frequencies (the harmonics of the pulse time, offset by less than half a "
     "unit when randomised, or the optimised frequencies), with the guess pulse added or "
     "modulated and the ramp applied; coefficients passed to the constructor, the initialisation, "
     "the setter or the call are the ones used; reading the parameters and setting them back "
     "reproduces the pulse; the optimiser's vector is the controls' parameters in turn. An "
     "unknown guess action is ignored.",
     ["inputs", "configurations"],
     "all coefficients, times, scalings, random draws, guess and ramp pulses, numbers of "
     "coefficients per control, fixed and optimised frequencies",
     "tests run one CRAB optimisation with default settings and check the final error; the pulse "
     "itself, its parameters and guess pulses are never compared with the documented form.",
     ["pulsegen.py", "optimizer.py"],
     [("pulse", "pulsegen.py PulseGenCrabFourier.gen_pulse, init_freqs"),
      ("coefficients", "pulsegen.py PulseGenCrab.init_coeffs, get/set_optim_var_vals"),
      ("guess pulse", "pulsegen.py PulseGenCrab.init_guess_pulse"),
      ("optimiser vector", "optimizer.py OptimizerCrab._get_ctrl_amps")],
     [("coeffs", "basis coefficients", "pulsegen.py"),
      ("freqs", "frequencies of the basis functions", "pulsegen.py")],
     "2-3 slots, 1-3 coefficients (4 slots thorough).")

prop("C16", "GRAPE iterations climb the overlap and report the pulses they found",
     "Each iteration of grape_unitary and cy_grape_unitary changes every amplitude by the step "
     "size times the first-order derivative of the overlap with the target (its real part, or "
     "its squared modulus), minus the power and lateness penalties, clipped to the limits; start "
     "pulses given in any form are used, clipped; both functions give the same pulses; the final "
     "evolution and the Hamiltonian returned are those of the last row of pulses; the arguments "
     "are not modified.",
     ["inputs", "configurations"],
     "all targets, Hamiltonians, start pulses, times, step sizes, limits and penalties, and the "
     "combinations of options",
     "the only test runs each function once without limits and penalties and looks at the "
     "final unitary, which is the same after convergence.",
     ["grape.py", "cy_grape.py"],
     [("iteration", "grape.py grape_unitary"), ("fast iteration", "cy_grape.py cy_grape_inner"),
      ("fast driver", "grape.py cy_grape_unitary")],
     [("u", "pulses of all iterations", "grape.py GRAPEResult"),
      ("U_f", "final evolution", "grape.py GRAPEResult")],
     "one qubit, 1-3 slots, up to 2 iterations.")

prop("C17", "Adaptive GRAPE never loses overlap and reports what it kept",
     "Each iteration of grape_unitary_adaptive either keeps the pulses or moves them along the "
     "gradient of the overlap (with penalties and limits) by one of its step sizes, in the first "
     "iteration the best of the three; the overlap never decreases; iterations stop early only "
     "above the overlap asked for; the pulses, the final evolution, the Hamiltonian and the logged "
     "overlaps returned belong together.",
     ["inputs", "configurations", "histories"],
     "all targets, Hamiltonians, start pulses, step sizes, limits, penalties and thresholds, and "
     "every order in which the candidate steps can rank",
     "the only test runs it once to convergence without limits, penalties or threshold; what is "
     "returned after a step back or an early stop is never looked at.",
     ["grape.py", "cy_grape.py"],
     [("iteration", "grape.py grape_unitary_adaptive"), ("overlap", "cy_grape.py cy_overlap")],
     [("best pulses", "pulses kept after an iteration", "grape.py")],
     "one qubit, 1-2 slots, up to 2 iterations.")

prop("C18", "The optimisation functions pass every option to the part it is for",
     "optimize_pulse, optimize_pulse_unitary, opt_pulse_crab, opt_pulse_crab_unitary and "
     "create_pulse_optimizer set up the documented system: slot durations or total time, "
     "amplitude bounds, termination limits, algorithm, method and its parameters, propagator, "
     "fidelity and time-slot computer with their parameters, pulse types, scaling, offset, "
     "ramping and guess pulses, statistics, logging and files; the letter case of names does not "
     "matter, deprecated spellings mean the same, the caller's dictionaries are not modified, and "
     "wrong options are rejected with the documented error.",
     ["inputs", "configurations"],
     "all systems, times, bounds, limits, scalings, pulse and fidelity parameters, and the "
     "combinations of functions, algorithms, methods, types and ways to give an option",
     "tests call the functions with a few fixed option sets and check the final fidelity, which "
     "most dropped or overridden options do not change.",
     ["pulseoptim.py", "optimizer.py", "pulsegen.py"],
     [("options", "pulseoptim.py create_pulse_optimizer, optimize_pulse, opt_pulse_crab"),
      ("pulse generators", "pulseoptim.py create_pulse_optimizer; optimizer.py OptimizerCrab"),
      ("method options", "optimizer.py _build_method_options, apply_method_params")],
     [("optim", "configured optimiser", "optimizer.py"),
      ("dyn", "configured dynamics", "dynamics.py"),
      ("p_gen", "configured pulse generators", "pulsegen.py")],
     "1-2 slots, 1-2 controls, 2x2 systems; every configuration is one path per pulse branch.")

prop("C19", "The statistics of a run count exactly what happened in it",
     "After a run, the statistics in the result hold the numbers of iterations, fidelity and "
     "gradient calls, amplitude updates and changes, evolutions, errors and gradients computed "
     "in that run; rates are those quotients; the times of the parts are not negative, do not "
     "overlap and add up to no more than the run; a later run does not change an earlier result.",
     ["histories", "inputs"],
     "every script of minimiser calls, all parameter values it tries, all clock readings, with "
     "and without an evaluation before the run",
     "tests switch statistics on and look at nothing but the printed report; which calls are "
     "counted depends on what was already computed for the same amplitudes.",
     ["stats.py", "optimizer.py", "dynamics.py", "tslotcomp.py", "fidcomp.py"],
     [("counters", "optimizer.py fid_err_func_wrapper, fid_err_grad_wrapper, "
                   "iter_step_callback_func"),
      ("evolution counters", "tslotcomp.py TSlotCompUpdateAll.compare_amps, recompute_evolution"),
      ("rates", "stats.py Stats.calculate")],
     [("num_*", "counters", "stats.py"), ("wall_time_*", "times", "stats.py")],
     "scripts of up to 5 (8 thorough) calls, 1-2 slots, 1-2 controls, up to two runs.")

prop("C20", "Dumps record exactly what happened in the run, and files say the same",
     "With dumping on, every evolution computed, error, gradient and iteration of a run appears "
     "once, in order, with the values it had then, for exactly the quantities of the dumping level "
     "(NONE, SUMMARY, FULL, CUSTOM); files written during the run or afterwards hold the same "
     "numbers; levels and file names follow their settings.",
     ["histories", "configurations", "inputs"],
     "every script of minimiser calls, all amplitudes, errors, gradients and clock readings, all "
     "levels and single-quantity selections, both operator types",
     "tests check that one FULL dump exists, that its propagators are unitary and that the right "
     "number of files appears; what the entries and files contain is never compared.",
     ["dump.py", "optimizer.py", "tslotcomp.py", "dynamics.py"],
     [("logs", "dump.py OptimDump"), ("evolutions", "dump.py DynamicsDump, EvoCompDumpItem"),
      ("files", "dump.py writeout"), ("events", "tslotcomp.py dump_current; optimizer.py")],
     [("evo_dumps", "recorded evolutions", "dump.py"),
      ("fid_err_log, grad_log, iter_summary", "recorded optimisation", "dump.py")],
     "scripts of up to 5 (8 thorough) calls, 1-2 slots, 1-2 controls.")

prop("C21", "Deprecated names do what the names that replace them do",
     "Every deprecated function and attribute of the dynamics, propagator, fidelity and time-slot "
     "computers (combine_dyn_gen, get_dyn_gen, get_ctrl_dyn_gen, get_num_ctrls, evo_init2t, "
     "evo_t2end, evo_t2targ, get_owd_evo_target, compute_propagator, compute_prop_grad, "
     "compute_diff_prop, get_timeslot_for_fidelity_calc, set_phase_option, uses_evo_t2end, "
     "uses_evo_t2targ) still gives the documented value for the current amplitudes, or sets what "
     "its replacement sets, and warns with FutureWarning.",
     ["inputs", "configurations", "histories"],
     "all generators, amplitudes, durations, every dynamics type, propagator method, operator type "
     "and caching, before and after an update",
     "no test calls any deprecated name of these classes.",
     ["dynamics.py", "propcomp.py", "tslotcomp.py", "fidcomp.py"],
     [("generators and evolutions", "dynamics.py combine_dyn_gen, get_dyn_gen, evo_init2t"),
      ("propagators", "propcomp.py compute_prop_grad, compute_diff_prop"),
      ("slot", "tslotcomp.py get_timeslot_for_fidelity_calc")],
     [("_dyn_gen, _prop, _fwd_evo", "current operators", "dynamics.py")],
     "2x2 systems, 1-2 slots, 1-2 controls.")

prop("C22", "Amplitude files and parameter files say what the objects hold",
     "save_amps writes one line per slot with its start time (or the given times, or none) and the "
     "current or given amplitudes, and changes nothing; load_parameters gives each attribute named "
     "in the section of the object the value in the file, in the attribute's type (numbers, whole "
     "numbers, booleans, complex, strings, lists, arrays, quantum objects; untyped attributes take "
     "the first of whole number, number, boolean, text that fits), skips unknown names and leaves "
     "every other attribute alone.",
     ["inputs", "configurations"],
     "every numeric value in a file; every section, attribute kind and option of the writer",
     "one test loads one file and runs an optimisation with it; no value of the file and no saved "
     "amplitude is compared.",
     ["loadparams.py", "dynamics.py"],
     [("reading", "loadparams.py load_parameters, set_param"),
      ("writing", "dynamics.py Dynamics.save_amps, get_amp_times")],
     [("ctrl_amps, time", "amplitudes and slot boundaries", "dynamics.py")],
     "1-3 slots, 1-2 controls, up to 5 entries of a section; decimal text itself outside.")
