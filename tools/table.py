OPT = "include/qlpeps/optimizer/"
prop("C01", "Learning-rate schedules equal their documented closed forms",
     "Each history-free learning-rate schedule (constant, exponential decay, step decay, cosine annealing, linear warm-up, multi-step) returns, for every iteration number and every admissible parameter, exactly the documented function of the iteration; the rate does not depend on energies, on earlier queries or on the order in which milestones were given. Boundary cases hold too: zero-length warm-up or cosine period, iterations past the end of the schedule, and default arguments.",
     ["inputs", "configurations"], "all schedule parameters (real rates, step counts, milestone lists of any length and order) and all iteration numbers",
     "The tests evaluate each schedule at a handful of iterations with one parameter set; boundaries, unsorted or repeated milestones and long horizons are not sampled.",
     [OPT + "lr_schedulers.h"], [("GetLearningRate of ConstantLR, ExponentialDecayLR, StepLR, CosineAnnealingLR, WarmupLR, MultiStepLR", OPT + "lr_schedulers.h"), ("milestone sort in the MultiStepLR constructor", OPT + "lr_schedulers.h")],
     "pow and cos are uninterpreted functions with algebraic axioms.")
prop("C02", "The plateau schedule follows its state machine on every energy history",
     "For every sequence of energies, the plateau-aware schedule takes an energy as the new best exactly when it improves on the best by more than the threshold, counts every other query as a bad step, and after 'patience' consecutive bad steps multiplies the rate once by the factor, restarts the count and takes the current energy as the new reference. Hence the rate changes only by whole powers of the factor, and never otherwise.",
     ["histories", "configurations"], "all energy histories of any length, all parameters with threshold >= 0",
     "The test drives one short history; the machine has memory, so its behaviour depends on whole histories (equal energies, improvements on the last patient step, patience 0).",
     [OPT + "lr_schedulers.h"], [("PlateauLR::GetLearningRate", OPT + "lr_schedulers.h")],
     "Energies are bounded away from the double maximum that marks 'no energy seen yet'.")
prop("C03", "Copies of schedules and parameter sets are faithful and independent",
     "Cloning a learning-rate schedule, at any point of its history, and copying, assigning (also to itself) or moving an optimizer parameter set yields an object that carries the same values and behaves identically from then on, including the presence or absence of optional settings. Source and copy share no mutable state: queries on one never change what the other returns, and replacing an old value drops the old schedule.",
     ["histories", "configurations"], "all parameter values, all presence patterns of optional settings, all query histories before and after the copy",
     "No test copies parameter sets that hold a stateful schedule or compares a clone's later behaviour with its source's.",
     [OPT + "lr_schedulers.h", OPT + "optimizer_params.h"], [("Clone of every schedule", OPT + "lr_schedulers.h"), ("BaseParams copy constructor, copy assignment and moves; OptimizerParams copies", OPT + "optimizer_params.h")])
prop("C04", "The parameter builder and factories deliver the requested configuration",
     "Whatever the order and number of builder calls, the built configuration has, for every setting, the value of the last call that set it and the documented default if none did; building twice gives equal results, and building without the required parts (base settings, algorithm) is refused with an exception. The same default for a setting applies whichever call creates the configuration first, and each factory yields exactly the documented algorithm, settings and defaults.",
     ["histories", "configurations"], "all builder-call histories (by induction over one call from any builder state), all argument values",
     "Call orders multiply; existing tests that touch the builder need the absent tensor library and use one order each.",
     [OPT + "optimizer_params.h"], [("OptimizerParamsBuilder setters and Build", OPT + "optimizer_params.h"), ("OptimizerFactory functions", OPT + "optimizer_params.h")],
     "The induction base and step over builder states are separate obligations; the states covered are those the public calls can produce.")
prop("C05", "The running-average tracker follows its recursion on every series",
     "For every window length and every series of observations, the tracker's mean and variance follow the documented exponential recursion starting from the first observation, the standard deviation is the root of the variance, the variance is never negative, the mean never leaves the range of the observations seen so far, and a constant series gives that constant with zero variance. Reset returns it to the initial state, and trackers do not influence each other.",
     ["histories", "configurations"], "all series of any length, all windows >= 1, resets at any point",
     "The tests feed constant or two-valued series with a fixed window and tolerances; invariants over all series (non-negativity, hull) are not reachable by samples.",
     [OPT + "spike_detection.h"], [("EMATracker::Update, Mean, Var, Std, Reset", OPT + "spike_detection.h")])
FW = "include/qlpeps/two_dim_tn/framework/"
prop("C08", "DuoMatrix owns its elements: deep copies, clean moves, single deletion",
     "A DuoMatrix of any shape starts with no element allocated; copying and copy-assigning it gives an independent matrix with equal elements and the same set of unallocated cells; moving transfers the elements and leaves a source that can be destroyed; every element is deleted exactly once over any sequence of allocation, deallocation, assignment, clear and destruction (no leak, no double delete, no use after delete); an operation on one cell leaves every other cell as it was, and two matrices compare equal exactly when they have the same shape, every cell of both is allocated and the elements are equal.",
     ["histories", "inputs", "configurations"], "all shapes (including zero rows or columns), all allocation patterns and element values, every operation from any state",
     "The tests build two small fully allocated matrices; ownership errors show only for partially allocated matrices, assignments over existing contents and destruction, which the tests do not inspect.",
     [FW + "duomatrix.h"], [("DuoMatrix constructors, copy/move assignment, destructor, alloc, dealloc, Clear, operator(), set, operator==", FW + "duomatrix.h")],
     "Self copy-assignment is excluded by an assert in the code.")
prop("C09", "Traversals and views of a DuoMatrix show exactly its cells",
     "Iterating a DuoMatrix visits each cell exactly once in row-major order and ends, for every shape including matrices with no cells; iterators name their position and compare by it; rows(), cols(), size(), the row and column accessors and the read-only table refer to exactly the elements of the requested row or column, in order; the allocation query of a cell tells whether that cell holds an element.",
     ["inputs", "configurations"], "all shapes, all cells, all allocation patterns",
     "The iterator test walks one small matrix; zero-column and single-row shapes, wrap-around at row ends for all widths and the view functions are not sampled.",
     [FW + "duomatrix.h"], [("DuoMatrix iterators, rows, cols, size, get_row, get_col, cdata views, has_alloc", FW + "duomatrix.h")])
prop("C10", "ObservableMatrix is a bounds-checked row-major table",
     "An ObservableMatrix of any shape reads back at (row, col), and at the equivalent site index, the value last written there, leaves every other entry unchanged, refuses every out-of-range access with an exception and no effect, resizes to the requested shape filled with the given value, and adds to exactly one entry, and flattens to exactly its entries in row-major order.",
     ["inputs", "histories"], "all shapes, indices (also out of range) and values",
     "The tests use one 2 x 3 table; index arithmetic and the bounds test can be wrong for other shapes and boundary indices.",
     ["include/qlpeps/utility/observable_matrix.h"], [("ObservableMatrix constructor, operator(), at, Resize, Extract / flatten", "include/qlpeps/utility/observable_matrix.h")])
prop("C11", "The amplitude consistency summary is the aligned mean and its largest deviation",
     "For every list of real or complex amplitudes, the consistency summary's mean is the arithmetic mean of the amplitudes after flipping exactly those whose overlap with the first largest-magnitude amplitude is negative (no flips when that magnitude is negligible), and its relative error is the largest distance of an aligned amplitude from the mean divided by the mean's magnitude (floored at machine epsilon); an empty list gives zeros; the documented defaults of the warning and rescue settings hold.",
     ["inputs"], "all lists of any length up to 10^6 of real or complex amplitudes",
     "No stable test calls it; ties, signs, tiny reference amplitudes and list length interact, so samples cannot settle it.",
     ["include/qlpeps/algorithm/vmc_update/psi_consistency.h"], [("ComputePsiConsistencySummaryAligned<double>, <complex<double>>", "include/qlpeps/algorithm/vmc_update/psi_consistency.h")],
     "Complex magnitude is an uninterpreted function of the two parts with the facts listed in DESIGN.md.")
prop("C07", "Suwa-Todo moves follow the shifted ring of weights",
     "For every list of non-negative weights, every current state of positive weight and every random draw, the Suwa-Todo update returns the state whose interval on the ring of weights (the first largest weight swapped to the front) contains the point reached by shifting the current state's interval by the largest weight and moving inside it in proportion to the draw. Hence the new state is always a valid index of positive weight, the chain is rejection-free whenever no weight exceeds half of the total, a single state is kept, and the caller's weights are unchanged.",
     ["inputs"], "all lists of 1 to 1000 non-negative weights, all current states of positive weight, all random draws in [0,1)",
     "The tests sample a few weight lists with a seeded generator and statistical tolerances; ties, zero weights, wrap-around and the position of the largest weight need specific draws.",
     ["include/qlpeps/vmc_basic/monte_carlo_tools/suwa_todo_update.h"], [("SuwaTodoStateUpdate", "include/qlpeps/vmc_basic/monte_carlo_tools/suwa_todo_update.h")],
     "long double sums are real arithmetic in the proof; uniform_real_distribution draws a + u*(b-a) with u in [0,1).")
VB = "include/qlpeps/vmc_basic/"
prop("C12", "Configurations keep one state per site and the requested occupations",
     "A configuration built from a table has the table's shape and states; it is valid exactly when every site has a state; sum and occupation count are those of its sites. A random configuration with given occupation numbers, as list or map, has exactly the requested number of sites in each state, and numbers that do not add up to the number of sites are refused; one with a given dimension has only states below it. Writing and reading back (stream, file, message, broadcast) gives the same configuration; truncated data, missing files and files of another shape are refused.",
     ["inputs", "histories", "configurations"], "all lattice shapes, all state tables, all occupation lists and maps, all labels",
     "The existing test needs the absent tensor library and MPI and uses one lattice; conservation must hold for every shape, occupation list and shuffle.",
     [VB + "configuration.h"], [("Configuration constructors, Random, Sum, CountOccupancy, IsValid, StreamRead/StreamWrite, Dump/Load, MPI_Send/Recv/Sendrecv/BCast", VB + "configuration.h")],
     "Proved: construction from a table, shape, states, validity. Bounded (lattices up to 400 sites): random occupations, counts, sums, streams, files and messages. MPI and the tensor library are replaced by the stubs in /verif/stubs.")
prop("C13", "The Jastrow factor is a symmetric pair table and its field sums it",
     "For every lattice, the Jastrow factor holds one coupling per unordered pair of different sites, zero at first: a pair reads, in either order and by site or by site number, the value last written for it, every other pair is unchanged, the diagonal reads zero, and filling gives pair (i, j) with i < j the value of the function. The field at a site is the sum over all other sites of coupling times density.",
     ["inputs", "histories", "configurations"], "all lattices up to 1000 x 1000, all pairs, all values",
     "No stable test touches it; the packed triangular index must be a bijection for every number of sites, and samples miss collisions.",
     [VB + "jastrow_factor.h"], [("JastrowFactor::Set, operator(), Fill, SiteIdxToLinear, JastrowFieldAtSite, PackedUpperIndex", VB + "jastrow_factor.h")],
     "The field is proved for single-row and single-column lattices of any length; for general lattices (up to 6 x 6) it is a bounded clause.")
MT = VB + "monte_carlo_tools/"
prop("C14", "Monte-Carlo means and errors are those of all samples of all processes",
     "For every list of real or complex samples, mean, variance and standard error equal their definitions (the mean of nothing is zero, one sample has an infinite error), and list averages are taken entry by entry. Gathered over any number of processes, the root reports the mean and the standard error over the processes, for single values and entry by entry for lists; the binned estimate uses exactly the full bins of length floor(sqrt(n)) of every process; errors are never negative or undefined. The inflation factor is at least 1 and follows the initial positive sequence.",
     ["inputs", "configurations"], "all sample lists, real and complex, all numbers of processes",
     "The existing tests need MPI and the absent tensor library and use fixed series; rounding cases (processes that agree), short lists and partial bins are not sampled.",
     [MT + "statistics.h"], [("Mean, Variance, StandardError, AveListOfData, MeanAndBinnedErrorSqrtNUniformBin, GatherStatisticSingleData, GatherStatisticListOfData, IPSInflationFactor", MT + "statistics.h")],
     "Proved: mean, variance, standard error, list averages, single-process gathers. Bounded: gathers over 2-9 simulated processes, binning (n <= 40) and the inflation factor (n <= 60). MPI is replaced by /verif/stubs/mpi.h.")
UT = "include/qlpeps/utility/"
prop("C17", "The conjugate gradient solver reports what it returns, and never worse",
     "For every operator, right-hand side, guess and parameters: converged means that the residual is within max(relative * |b|, absolute), not converged that it is outside; the reported residual is that of the returned vector, which is never worse than the guess; a guess within tolerance comes back after 0 iterations; at most max_iter iterations run; a direction without positive curvature, three steps without progress, or a value that is not finite end the solve with that reason and the best iterate, never as converged. Well conditioned systems are solved. With several processes the result is the serial one for the summed matrix, and every process follows the master to the end on every path.",
     ["inputs", "schedules", "configurations"], "all operators, vectors, parameters; real and complex; 1 and several processes",
     "The existing tests need the absent tensor library and MPI, and use a few fixed systems; termination guarantees must hold on every path, for every operator.",
     [UT + "conjugate_gradient_solver.h"], [("ConjugateGradientSolver (serial, parallel), ConjugateGradientSolverMaster/Slave, MatrixMultiplyVectorMaster/Slave, to_string", UT + "conjugate_gradient_solver.h")],
     "Proved for vectors of which only linearity is known (the inner product and the norm are arbitrary functions), serial and with one process: the loop invariants r = b - A x and best = |b - A best_x|^2 are found and checked by the engine. Bounded: dimension 5, real and complex, up to 4 simulated processes, breakdown, stagnation.")
prop("C18", "Optimizer updates are their documented formulas, on the master only",
     "On the master, one optimizer step from any state is its documented formula in every component: SGD with decoupled weight decay (1 - lr*wd)*x - lr*g, with momentum v' = mu*v + g (Nesterov: mu*v' + g), AdaGrad (accumulated |g|^2, rate 1/sqrt cut off at epsilon), Adam (moments, bias correction by step count). A previewed SGD step equals the real one and changes no state; other processes return the state unchanged. L-BFGS keeps the newest pairs up to its capacity, only above the least curvature, with rho = 1/<s,y>; its direction is minus the inverse-Hessian estimate applied to the gradient, limited in norm; an accepted strong-Wolfe step satisfies both Wolfe conditions and a failed one stays. Stopping is exactly: gradient norm or energy change below tolerance, or patience reached, decided by the master for all. Snapshots restore, and clearing up leaves no state.",
     ["inputs", "histories", "configurations"], "all parameter values, gradients, learning rates and internal states of the algorithms; every component, real and complex",
     "The optimizer tests need the absent tensor library and MPI, and follow a few toy trajectories; the formulas must hold from every internal state.",
     [OPT + "optimizer.h", OPT + "optimizer_impl.h"], [("Optimizer::SGDUpdate, SGDPreviewUpdate_, AdaGradUpdate, AdamUpdate, UpdateLBFGSHistoryFromAnchor_, ComputeLBFGSSearchDirection_, ApplyFixedLBFGSStep_, StrongWolfeLBFGSStep_, Save/RestoreLBFGSSnapshot_, ShouldStop, ClearUp", OPT + "optimizer_impl.h")],
     "SplitIndexTPS is replaced by a stand-in vector space (include/vc_sitps.h): one component for the proofs (the updates act per component), lattices of components when executed. Bounded: trajectories of up to 6 steps on up to 27 components, L-BFGS directions with up to 5 pairs, strong-Wolfe searches, 2-4 simulated processes.")
prop("C06", "Spike recovery is bounded; the reported history is the accepted one",
     "Spike signals follow their thresholds exactly: error bar or gradient norm above factor times its running mean, natural-gradient norm above factor times its mean or too few solver iterations, energy above mean plus k sigma (never without a mean). A signal is answered by resampling while the retry budget lasts, then by rollback if enabled and a previous state is held, else by accepting with a warning; so no step takes more than 2(retries+1) evaluations, whatever the evaluator returns. Rejected evaluations enter no average, trajectory or lowest-energy record. The result lists exactly the accepted energies, errors and gradient norms, the lowest accepted energy with the state evaluated there, the last accepted energy, the state after the last step, the iteration count, and convergence only when a stopping criterion fired; statistics count each recovery action once.",
     ["histories", "inputs", "configurations"], "all thresholds, budgets and switches, all sequences of energies, gradients and errors returned by the evaluator",
     "The tests follow two or three scripted histories; a persistent spike, repeated rollbacks and mixtures of signals with stopping criteria are not sampled.",
     [OPT + "optimizer_impl.h", OPT + "spike_detection.h"], [("Optimizer::DetectS1S2_, DetectS3_, DetectS4_, DecideAction_, LogSpikeEvent_, IterativeOptimize", OPT + "optimizer_impl.h")],
     "Proved: the four detectors, the decision, the statistics. Bounded: whole runs of IterativeOptimize (plain SGD, up to 8 steps) against an executable specification. SplitIndexTPS is the stand-in of include/vc_sitps.h.")
prop("C20", "SR and MinSR directions solve their linear systems on all processes",
     "The SR matrix times a vector is, summed over the processes, the sample covariance of the log-derivatives applied to it plus the diagonal shift once; the SR update solves (S + shift) g' = g and moves by -lr g' (per unit norm if asked). MinSR builds the centred Gram matrix <O_i - mean, O_j - mean>/N in row blocks by a ring exchange that completes with blocking messages; eigenvalues are inverted with the documented soft filter l^5/(l^6 + c^6) or hard cutoff (1/l above c, else 0), c = relative * largest magnitude + absolute, and the solution is that filtered pseudo-inverse applied to the right-hand side; the update is the resulting combination of centred log-derivatives. Real and complex alike; only the master moves; a solver mode that is not built in is refused.",
     ["inputs", "schedules", "configurations"], "all samples, vectors, eigenvalues and cutoffs, real and complex, all numbers of processes",
     "The tests need MPI, LAPACK and the absent tensor library and use a few fixed systems; conjugations, ring order and cutoffs at boundary values need specific inputs and process counts.",
     [OPT + "minsr_eigensolve.h", OPT + "minsr_tmatrix.h", OPT + "stochastic_reconfiguration_smatrix.h", OPT + "optimizer_impl.h"],
     [("ApplyPseudoInverseCutoff, ReplicatedEigenSolveReal/Complex, MinSREigenSolveDispatch", OPT + "minsr_eigensolve.h"), ("MinSRTMatrix::Construct", OPT + "minsr_tmatrix.h"), ("SRSMatrix::operator*", OPT + "stochastic_reconfiguration_smatrix.h"), ("Optimizer::CalculateNaturalGradient, StochasticReconfigurationUpdate, CalculateMinSRDirection_, MinSRUpdate", OPT + "optimizer_impl.h")],
     "Proved: the cutoff filters for any number of eigenvalues, the SR matrix product on the master for any number of samples (one component). Bounded: pseudo-inverse (n <= 5), Gram matrix, SR and MinSR updates on 1-4 processes run as threads with blocking messages; LAPACK is replaced by a Jacobi eigensolver, SplitIndexTPS by include/vc_sitps.h.")

UPD = "include/qlpeps/vmc_basic/configuration_update_strategies/"
TRV = "include/qlpeps/algorithm/vmc_update/model_solvers/base/bond_traversal_mixin.h"
prop("C15", "Measurement traversals visit every bond exactly once, in its environment",
     "For every lattice, the bond traversal hands each horizontal and vertical nearest-neighbour bond, and with a link function each diagonal link, to the caller exactly once, with its two sites, its orientation or direction and the inverse of the amplitude; at each call the contractor's environment of that bond or plaquette is built and current. Each row is offered once to the long-range function if there is one; one amplitude per row and per column is listed; an amplitude that is exactly zero, and no other, is refused before anything of that line is measured.",
     ["inputs", "configurations"], "all lattice sizes with at least two rows and columns, all configurations and wave functions, with and without diagonal and long-range functions",
     "Tests compare the energies of a few models on one or two lattices; a missed or repeated bond, or a stale environment, on other shapes does not show.",
     [TRV], [("TraverseAllBonds, TraverseHorizontalBonds, TraverseVerticalBonds", TRV)],
     "TensorNetwork2D and BMPSContractor are replaced by stand-ins that remember which states an environment was built from; that environments are current is checked by bounded runs.")
prop("C16", "Monte-Carlo moves keep |psi|^2 stationary and the walker consistent",
     "For every wave function, lattice, configuration and draw: a nearest-neighbour exchange is accepted exactly with probability min(1, |new/old|^2); the full-space, Hubbard and three-site moves choose among all pair states, all with the same numbers of up and down electrons, or all permutations, so that |psi|^2 is stationary and each can be reached; a configuration of zero amplitude is never entered. After a move or sweep, accepted or not, configuration, network tensors, cached environments and amplitude belong together and no other site changed. An open sweep tries every bond (triple) once in its current environment; a periodic one tries as many random bonds as there are, wrapping ones included; the rate is accepted over tried.",
     ["inputs", "histories", "configurations"], "all amplitudes (real, complex, zero), pair states, draws, lattices and histories of sweeps",
     "Tests run short chains with fixed seeds on one model; a biased acceptance rule, a stale cache or a skipped bond changes averages only slightly.",
     [UPD + "square_nn_updater.h", UPD + "square_3site_updater.h", UPD + "square_hubbard_u1u1_updater.h", "include/qlpeps/vmc_basic/wave_function_component.h"],
     [("TwoSiteNNUpdateLocalImpl and operator() of the nearest-neighbour updaters", UPD + "square_nn_updater.h"), ("MCUpdateSquareTNN3SiteUpdateBase, MCUpdateSquareTNN3SiteExchange", UPD + "square_3site_updater.h"), ("EnumerateHubbardTwoSiteConfigsWithU1U1, MCUpdateSquareNNHubbardU1U1OBC", UPD + "square_hubbard_u1u1_updater.h"), ("UpdateLocal, BeginTrial, AcceptTrial, EvaluateAmplitude", "include/qlpeps/vmc_basic/wave_function_component.h")],
     "Tensor network and contractors are stand-ins (amplitude = any function of the configuration); random engines are replaced by given draws. Proved: the exchange rule and its bookkeeping, the open sweep's bonds; the other moves are bounded (transition matrices over a grid of draws).")

MCE = "include/qlpeps/algorithm/vmc_update/mc_energy_grad_evaluator.h"
prop("C19", "The Monte-Carlo evaluator returns the energy and gradient of the samples",
     "For every state and every sequence of samples: all processes sample the master's state with a refreshed wave function; the energy, the same on every process, is the (binned) mean of the local energies of all samples of all processes and its error, reported on the master only, that of the bin means; the gradient on the master is <E* O*> - E* <O*> in every component, with O* = conj(1/psi) times the hole at the component of the sampled configuration and zero elsewhere, averaged over all samples of all processes; the gradient norm is its squared norm. With stochastic-reconfiguration buffers requested (and only then) each sample's O* and their mean are returned, and the gradient is the same; the local energies are returned in order; acceptance rates are averaged over the samples; the energy-only evaluation reports the same energy and error.",
     ["inputs", "histories", "schedules", "configurations"], "all sample counts, local energies, amplitudes, holes and configurations, real and complex, all numbers of processes",
     "The tests that reach the evaluator need the absent tensor library and MPI and compare noisy averages; a wrong conjugation, weight or component shows only for complex samples, unequal processes or several components.",
     [MCE, "include/qlpeps/vmc_basic/statistics_tensor.h"],
     [("MCEnergyGradEvaluator::Evaluate, EvaluateEnergyOnly", MCE), ("MPIMeanTensor, Mean", "include/qlpeps/vmc_basic/statistics_tensor.h")],
     "Proved for any number of samples, one process and one component: the gradient (real; complex with amplitude i), energy, error, local energies and the evaluated state, with the mean energy an arbitrary number (its own contract is C14). Bounded: 1-4 processes as threads, up to 2x3 sites, 3 components and 10 samples, real and complex, with and without buffers, with the real statistics. Engine, solver and tensors are stand-ins that deliver given samples (include/vc_eval.h); the fermionic branch needs graded tensors and is not covered.")

ACC = "include/qlpeps/two_dim_tn/tensor_network_2d/bmps/bmps_contractor.h"
prop("C30", "Contraction results converge to the exact trace of the network",
     "The amplitude obtained from boundary-MPS or TRG contraction equals the exact trace of the tensor network when nothing is truncated, and its error shrinks with the bond dimension.",
     ["inputs"], "all tensor networks and truncation parameters", "The tests compare a few networks with stored numbers.",
     [ACC], [("BMPSContractor::Trace and the replace-and-trace functions", ACC)], na="every step is a call into TensorToolkit's contraction and SVD, whose sources are not in /repo and whose contracts would have to be assumed to be the very property")
prop("C31", "The sampled chain visits the whole sector and converges to |psi|^2",
     "Repeated sweeps reach every configuration of the conserved sector and the empirical distribution converges to the squared amplitude.",
     ["histories"], "all wave functions and random streams", "A test sees one finite random stream.",
     ["include/qlpeps/vmc_basic/configuration_update_strategies/square_nn_updater.h"], [("sweep operators of the updaters", "include/qlpeps/vmc_basic/configuration_update_strategies/square_nn_updater.h")], na="a statement about limits of random processes; contracts over single calls cannot express ergodicity")
prop("C32", "Rounding errors of the numerics stay small",
     "Results of the statistics, the solvers and the optimizers differ from their real-number values by no more than a small multiple of the rounding unit times the condition of the problem.",
     ["inputs"], "all inputs", "Tests sample a few well-scaled inputs.",
     ["include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h"], [("Mean, Variance, StandardError", "include/qlpeps/vmc_basic/monte_carlo_tools/statistics.h")], na="the verifier treats double as a mathematical real; no floating-point error analysis is available for unbounded loops with the installed tools")
