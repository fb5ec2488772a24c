"""Writes /verif/properties.jsonl (kept as a script so the long lines stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

G, L = "StateModel/Gaussian.py", "Utils/linalg.py"
MT, ME = "Utils/Metrics.py", "MomentMatching/Estimator.py"
UT, TT, MC = "MomentMatching/UnscentedTransform.py", "MomentMatching/TaylorLinearisation.py", "MomentMatching/MonteCarloTransform.py"
ND, IT = "ExpectationPropagation/Nodes.py", "ExpectationPropagation/Iterations.py"
KF, DS, DB = "Filters/KalmanFilter.py", "Systems/DynamicSystem.py", "Utils/Database.py"
FS, BS = "Experiments/EP_FullSweep.py", "Experiments/EP_Sweep_BearingsOnly.py"

prop("C01", "Product, quotient and power of Gaussians act on natural parameters",
     "For Gaussians of equal dimension, a*b, a/b and a**k have as precision and shift the sum, the difference and the k-fold multiple of the operands' precision and shift, for every real k and whether an operand was given by moments or by natural parameters, is proper, improper or flat; hence (a*b)/b is a and a factor divided by itself is flat.",
     ["inputs", "histories"], "all pairs of Gaussians of any dimension and form, all exponents, all expressions built from them",
     "The tests multiply and divide one fixed pair and use exponents 1 and 3; results that feed later operations, improper operands, fractional or negative exponents are not reached.",
     [G], [("__mul__, __truediv__, __pow__", G), ("as_factor, as_marginal, from_natural", G)], ["Gaussian.precision", "Gaussian.shift"],
     [("precision, shift", "natural parameters", G)])
prop("C02", "Moments and natural parameters of a Gaussian describe one distribution",
     "Whatever form a Gaussian was given in, precision is the inverse of cov, shift is precision times mean and both matrices are symmetric; this includes invertible precisions that are not positive definite, which keep their (improper) inverse instead of becoming another distribution. A precision that is zero to within 1e-10 stands for the flat Gaussian, whose mean is 0 and whose covariance is 1e10 times the identity.",
     ["inputs"], "all means, covariances, precisions and shifts of any dimension, well and badly scaled, definite, indefinite and zero",
     "Tests convert a few well conditioned diagonal examples; indefinite precisions appear only inside EP runs.",
     [G, L], [("natural_to_moment, moment_to_natural", G), ("jittered_solve fallback", L)], ["Gaussian.mean", "Gaussian.cov", "Gaussian.precision", "Gaussian.shift"])
prop("C03", "Gaussians are values: reading, copying and combining them changes nothing",
     "Reading mean, cov, precision, shift, dim or the Cholesky factor in any order and any number of times, copying, sampling, scoring or combining a Gaussian never changes what it, its operands, its copies or the arrays it was made from show afterwards; what is read does not depend on what was read before.",
     ["histories"], "all interleavings of reads, copies and operations on shared Gaussians",
     "The values are computed lazily and cached in pairs, so only an order of accesses not tested can expose a stale or half-filled cache.",
     [G], [("lazy properties mean/cov/precision/shift/chol_cov", G), ("copy", G)], ["Gaussian public attributes"],
     [("_mean,_cov,_precision,_shift,_chol,_mode", "lazily filled caches", G)])
prop("C04", "Guarded linear algebra solves the stated problem and refuses the rest",
     "jittered_chol returns the triangular factor, lower or upper as asked, of the symmetric part of its argument plus the jitter, jittered_solve solves the system with the symmetric part plus the jitter, and symmetrize returns the symmetric part; all leave their arguments untouched. Asking for a Cholesky factor of, or validating, a covariance raises LinAlgError exactly when that matrix is not positive definite.",
     ["inputs"], "all square matrices (definite, semidefinite, indefinite, asymmetric, badly scaled; for validation also with infinite or NaN entries), right-hand sides and jitters",
     "No test calls these helpers; they only run on failures of the ordinary routines.",
     [L], [("jittered_chol, jittered_solve, symmetrize, validate_covariance", L)], ["return values and exceptions"])
prop("C05", "Scores and samples are those of the Gaussian",
     "nll(x) is the negative log density of x, squared_error(x) the squared Euclidean distance from x to the mean, == compares mean and covariance within the documented tolerance, and sample(n) returns n independent draws with that mean and covariance. Over lists of states or nodes, rmse is the root of the mean squared error, nll the mean negative log density, and node_metrics returns both for the marginals, pairing the k-th state with the k-th true value.",
     ["inputs", "configurations"], "all Gaussians in either form, all points of shape (d,) or (1,d), all lists",
     "Tests draw samples of one Gaussian; no test evaluates nll, squared_error or the metrics.",
     [G, MT], [("nll, squared_error, sample, __eq__", G), ("nll, rmse, node_metrics", MT)], ["return values"])
prop("C06", "Taylor transform propagates the first-order linearisation",
     "TaylorTransform applied to a function f and a Gaussian N(m, P) returns f(m), J P J' and P J' with J the Jacobian of f at m, for any input and output dimension and for functions returning one vector or a one-row batch; it is exact for affine f and depends on f only near m.",
     ["inputs"], "all differentiable functions, all Gaussians, all dimensions",
     "The test uses loose tolerances (0.1) around mean 0 and a square diagonal function.",
     [TT], [("_transform", TT), ("numerical_jacobian", TT)], ["return value of the transform"])
prop("C07", "Unscented transform matches the scaled sigma-point rule",
     "UnscentedTransform(dim, alpha, beta, kappa) evaluates f at the mean and at 2 dim points placed symmetrically about it that reproduce the state's covariance with spread sqrt(alpha^2 (dim + kappa)), and returns the mean, covariance and cross-covariance of those points under the scaled unscented weights, with beta in the covariance weight of the centre only; for affine f this is exact. A covariance that is not positive semidefinite is refused with LinAlgError. select_transform of the experiments returns the transition and the measurement transform with the parameters given for each.",
     ["inputs", "configurations"], "all parameters, dimensions, functions and Gaussians, including correlated and singular covariances",
     "The test fixes default parameters and an isotropic covariance, where a wrong matrix square root or weight cannot show.",
     [UT, L], [("_weights, _sigma_points, _transform", UT)], ["points at which f is called", "return value of the transform"])
prop("C08", "Monte Carlo transform returns the moments of the samples it drew",
     "MonteCarloTransform evaluates f on exactly number_of_samples independent draws from the given Gaussian and returns their sample mean, unbiased sample covariance and input-output sample cross-covariance; equal random seeds give equal results; select_transform of the experiments passes the number of samples on to both transforms of its pair.",
     ["inputs", "configurations"], "all functions, Gaussians, dimensions (also different input and output dimension) and sample sizes",
     "The test compares with 10% tolerance for equal input and output dimension.",
     [MC, G], [("_transform, sample_covariance", MC), ("sample", G)], ["points at which f is called", "return value of the transform"])
prop("C09", "Estimator predicts and corrects with the (power) EP moments",
     "With the moments (mu, C, X) that the configured transform gives for a function and a state, a time update returns N(mu, (C + Q)/power); a measurement update with observation y returns mean m + K (y - mu) and covariance S - K X' with K = X (C + R/power)^-1. The state, the noise matrices and the observation are left as they were, and an input or intermediate matrix that must be positive definite and is not raises LinAlgError.",
     ["inputs", "configurations"], "all transforms, states, noises, observations and powers",
     "No test runs an estimator.",
     [ME], [("proj_trans, proj_meas", ME)], ["Estimator.proj_trans", "Estimator.proj_meas"])
prop("C10", "Estimator's backward update is the RTS correction of the (power) EP tilted state",
     "A backward update with transform moments (mu, C, X) returns mean m + J (n - mu) and covariance S + J (N - D) J' with D = C + Q/power and J = X D^-1, where (n, N) are the next marginal's moments when power is 1 and a next marginal is given, and otherwise those of N(mu, D) times the next forward cavity raised to the power. Its inputs are left as they were.",
     ["inputs", "configurations"], "all transforms, states, cavities, next marginals, noises and powers",
     "No test runs an estimator.",
     [ME], [("proj_back", ME)], ["Estimator.proj_back"])
prop("C11", "Node updates are damped power-EP updates of one factor",
     "A forward update projects the previous node's marginal with its backward factor divided out to the power 1/power (the prior, for the first node), replaces the forward factor F by F^(1-damping) times the projection to the power damping, and the marginal by marginal times (new F / F)^(1/power). Measurement and backward updates divide their factor out of the marginal (backward also takes the next marginal with its forward factor divided out to the power 1/power), and with r = projection/marginal multiply their factor by r^damping and the marginal by r^(damping/power); the last node has no backward update.",
     ["schedules", "configurations", "inputs"], "all nodes, powers, dampings, projections and states reachable under any order of updates",
     "Tests build nodes but never update one.",
     [ND], [("fwd_update, meas_update, back_update, power_update", ND)], ["Node.marginal", "Node.forward_factor", "Node.measurement_factor", "Node.back_factor", "arguments passed to the estimator"],
     [("marginal, forward_factor, measurement_factor, back_factor", "EP approximation of one time step", ND)])
prop("C12", "The marginal always is the prior belief times its factors; updates are local",
     "After any sequence of updates of any nodes, in any order, with failures in between, every node's marginal equals its initial marginal times the product of its three factors raised to 1/power. An update changes only the marginal and the one factor it is named after, of the one node it is called on; a copy taken of a node keeps the beliefs the node had.",
     ["schedules", "fault_sequences", "histories"], "all orders and interleavings of forward, measurement and backward updates, all failure points",
     "An invariant over unbounded histories of updates; tests perform none.",
     [ND, IT], [("fwd_update, power_update", ND)], ["public attributes of all nodes after each update"],
     [("marginal and factors", "factorised approximation", ND)])
prop("C13", "A failed update leaves the node as it was; marginals stay proper",
     "If a projection or validation in an update fails with LinAlgError, or the projected state or the resulting marginal is not a proper Gaussian (finite mean, finite positive definite covariance), the update has no effect and does not raise; otherwise marginal and factor are replaced together. Hence the marginal of every node has a positive definite covariance at all times.",
     ["fault_sequences", "schedules"], "every point of an update at which the projection or the algebra can fail, in every reachable state",
     "Numerical failures need particular states and powers; tests never provoke one.",
     [ND, L], [("try/except LinAlgError around each update", ND), ("validate_covariance", L)], ["node attributes before and after an update"])
prop("C14", "EP is exact for linear-Gaussian models and sweeps reach a fixed point",
     "On a linear-Gaussian model with a linearisation-exact transform and damping 1, one forward-backward sweep from fresh nodes brings every marginal to the exact smoothing posterior for every power, and further sweeps change nothing; for powers up to 1 the same holds from any state reachable by earlier updates. With damping in (0,1) and power up to 1 repeated sweeps converge to the same posterior. An observation with a component that is NaN counts as missing.",
     ["schedules", "inputs", "configurations", "histories"], "all linear-Gaussian models, chain lengths, powers, dampings and preceding update orders",
     "No test runs EP; exactness needs an independent posterior for every model.",
     [ND, IT, ME], [("ep_fwd_back_updates", IT), ("update rules", ND), ("projections", ME)], ["Node.marginal after each sweep"])
prop("C15", "The first undamped EP sweep is the Gaussian filter and smoother",
     "From fresh nodes and with power = damping = 1, the forward half of an EP sweep gives each node the filtering distribution and the whole sweep the smoothing distribution of the Gaussian (extended or unscented) Kalman filter and smoother with the same transforms, for nonlinear and time-dependent models.",
     ["inputs", "configurations"], "all models, transforms, chain lengths and observation sequences",
     "The README states it; no test compares the two implementations.",
     [ND, IT, KF, ME], [("kalman_filter, kalman_smoother, ep_fwd_back_updates", IT), ("KalmanFilterSmoother", KF)], ["Node.marginal", "kalman_filter and kalman_smoother results"])
prop("C16", "Gaussian filter recursion",
     "kalman_filter returns one state per measurement, in order, each obtained from its predecessor (the initial state or the given prior, for the first) by prediction with the transition at time t_zero + i*dt and input u, adding the transition noise, and correction with the i-th measurement through the measurement function at the same time, with the separate measurement transform if one was given; nothing it was given is modified.",
     ["inputs", "configurations", "histories"], "all models, time steps, start times, inputs, measurement sequences and repeated use of one filter object",
     "No test runs a filter.",
     [KF], [("predict, correct, kalman_filter", KF)], ["returned list of Gaussians", "arguments the model functions are called with"])
prop("C17", "RTS smoother recursion",
     "kalman_smoother returns one state per filtered state; the last equals the last filtered state and each earlier one is the Rauch-Tung-Striebel correction of the filtered state by its already smoothed successor, through the transition that leads to that successor, at the time the filter used for it; the filtered list is not modified. On linear-Gaussian models the result is the exact smoothing posterior.",
     ["inputs", "configurations"], "all models, time steps, start times, inputs and sequence lengths",
     "No test runs a smoother.",
     [KF], [("smooth, kalman_smoother", KF)], ["returned list of Gaussians", "arguments the model functions are called with"])
prop("C18", "Iterated EKF performs Gauss-Newton measurement updates",
     "IEKF corrects each predicted state N(x, P) by num_iter relinearisations: starting from x, the next iterate is x + K (y - h(z) - H (x - z)) with H the measurement Jacobian at the current iterate z and K = P H' (H P H' + R)^-1, and the final covariance is P - K H P of the last iteration; with num_iter = 1 it is the extended Kalman filter. Time stepping, start time and input are those of the Gaussian filter.",
     ["inputs", "configurations"], "all models, numbers of iterations, start times, inputs and measurement sequences",
     "No test runs it.",
     [KF], [("IEKF._iterated_update, __call__", KF)], ["returned list of Gaussians"])
prop("C19", "Iterated EKS smooths about its own previous trajectory",
     "IEKS with num_iter = 1 is the extended Kalman smoother, and each further iteration is the exact linear smoother of the model linearised about the previous iterate: the transition into step i about the previous state of step i-1 (the initial mean, for the first), the measurement about the state of step i. Calling the same object again gives the same result.",
     ["inputs", "configurations", "histories"], "all models, numbers of iterations, measurement sequences and sequences of calls on one object",
     "No test runs it.",
     [KF], [("IEKS._linearise, _kalman_filter, _kalman_smoother, __call__", KF)], ["returned list of Gaussians"])
prop("C20", "The factor graph is a chain equipped with its model, data and estimator",
     "build_nodes(N, dim) gives N nodes numbered 0..N-1, each linked to its direct neighbours with open ends, with flat factors, a flat (1e10) marginal of the given dimension and no shared state; a Node made with neighbours, an index, factors (measurement, backward, forward) or a marginal has those. node_system gives node i the transition at time i*dt (or the i-th given arguments), the measurement function and the i-th observation, and the first node the model's initial state; node_estimator gives every node the estimator's updates, power and damping, and each function returns the same nodes in order.",
     ["configurations", "inputs"], "all N, dimensions, systems, observation shapes, argument lists and estimators, in any order of equipping",
     "Tests look at three nodes' indices and a few links.",
     [ND], [("build_nodes, node_estimator, node_system", ND)], ["public attributes of the nodes", "arguments the model functions are called with"])
prop("C21", "Simulation follows the state-space model",
     "simulate(N, x_zero, t_zero) returns N pairs with x_k = f(x_{k-1}, t_zero + (k-1) dt) + w_k and y_k = h(x_k) + v_k, with x_0 = x_zero or a draw from the initial state, and w, v the successive draws of the system's noise models; pairs returned earlier, x_zero and anything the model functions return are not modified by later steps. A noise model draws from N(mean, cov) with the mean and covariance it was given, by default zero mean and identity covariance of its dimension.",
     ["inputs", "configurations", "histories"], "all models including functions that return their argument, a view of it or a shared array, all N, start states and times",
     "The tests look at shapes of noise and one deterministic transition.",
     [DS], [("DynamicSystemModel._simulate, simulate", DS), ("GaussianNoise", DS)], ["returned pairs", "arguments of the model functions"])
prop("C22", "Benchmark systems implement their published equations",
     "UNGM, constant-velocity bearings tracking, coordinated-turn bearings tracking (including its limit at zero turn rate) and Lorenz 96 (RK4 of (x[i+1]-x[i-2])x[i-1]-x[i]+F, cyclic) have the transition and measurement functions, noise covariances and initial distributions of their definitions for every constructor parameter; applying a function to a batch of states equals applying it to each row.",
     ["inputs", "configurations"], "all states, batch sizes, times, sensor lists, step sizes, noise levels and dimensions",
     "Only the toy TestDynamics is tested.",
     ["Systems/UniformNonlinearGrowthModel.py", "Systems/BearingsOnlyTracking.py", "Systems/BearingOnlyTrackingTurn.py", "Systems/L96.py", "Systems/TestDynamics.py"],
     [("f, h and constructors of each system", "Systems/*.py")], ["system.transition", "system.measurement", "noise covariances", "init_state"])
prop("C23", "What is stored is what is read back; keys are unique",
     "Arrays and lists written through the registered adapters come back equal in value, shape and type after the database is reopened; inserting simulated data keeps the first row of a (seed, time) key, inserting a result replaces the row of the same key, and creating a table twice loses nothing; an undefined score (NaN) is never read back as a number. Uncommitted rows are never visible to another connection and are gone after a crash.",
     ["histories", "crash_points", "inputs"], "all sequences of inserts, commits, crashes and reopenings, all arrays and lists",
     "No test opens a database.",
     [DB], [("adapt_array, convert_array, adapt_list, convert_list", DB), ("INSERT OR IGNORE / OR REPLACE, UNIQUE", DB)], ["rows seen by this and by another connection"])
prop("C24", "EP runs log one durable row per sweep",
     "ep_iterations(nodes, max_iter) performs max_iter forward-backward sweeps and, when the true states are given, after each sweep commits one row whose Iter counts up from the given start, whose RMSE and NLL are the node metrics of the marginals at that moment and whose other fields are those given; when it dies at any point, the rows of all completed sweeps, and no others, are in the database.",
     ["crash_points", "configurations", "histories"], "all crash points (any SQL statement, commit or model evaluation), numbers of sweeps and settings",
     "No test runs it, let alone kills it.",
     [IT, DB, MT], [("ep_iterations", IT), ("insert_experiment_data", DB)], ["rows seen by another connection during and after the run"])
prop("C25", "A sweep resumes where it stopped and computes every configuration once",
     "full_sweep leaves, for every seed, transform, power and damping, exactly the rows of num_iter iterations of that configuration run on that seed's simulated data; a configuration whose last iteration is already stored is skipped unless override is set, in which case its results are replaced, and one that fails numerically does not stop the others. After a crash at any point, running it again completes the table to what an uninterrupted run would have stored (for deterministic transforms).",
     ["crash_points", "configurations", "histories", "fault_sequences"], "all crash points, numbers of restarts, configuration grids, overrides and failing configurations",
     "Needs interruption and restart of a whole run.",
     [FS, BS, DB], [("full_sweep, power_sweep, select_transform", FS), ("full_sweep", BS)], ["rows of the result and simulation tables"])
prop("C26", "Sweeps visit every node once per pass in the documented order",
     "The filter pass updates nodes first to last, forward before measurement; the smoother pass updates backward from last to first; ep_fwd_back_updates is the one followed by the other; ep_update does forward, measurement and backward of each node in turn. No node is skipped or visited twice, for any chain length, and the list of nodes is left as it was, even if an update raises, which ends the pass there.",
     ["configurations", "schedules"], "all chain lengths",
     "No test runs a pass.",
     [IT], [("kalman_filter, kalman_smoother, ep_fwd_back_updates, ep_update", IT)], ["sequence of update calls on the nodes"])
prop("C27", "Turning-target results are scored per physical component",
     "The bearings-only experiments score position (components 0 and 2), velocity (1 and 3) and turn rate (4) separately: each RMSE and NLL is that of the marginal Gaussian of those components, with their cross-covariances, against those components of the true states, in this order, and each sweep logs one row per component.",
     ["inputs", "configurations"], "all marginals and true trajectories",
     "No test imports the experiment modules.",
     [BS, "Experiments/IEKS_Sweep_BearingsOnly.py"], [("node_metrics, ep_iterations", BS), ("componentwise_metrics", "Experiments/IEKS_Sweep_BearingsOnly.py")], ["return values and rows"])
prop("C28", "Plots show the marginals they are given",
     "The plotting helpers draw, for each time step of a one-dimensional chain, the mean and the band mean +/- 1.96 standard deviations of exactly that state, the ground truth unchanged, and for a set of runs their mean and +/- one standard deviation over runs.",
     ["inputs"], "all chains and data sets",
     "No test draws a plot.",
     ["Utils/Plot_Helper.py"], [("plot_gaussian, plot_gaussian_node, plot_1d_data", "Utils/Plot_Helper.py")], ["artists on the axes"])
prop("C29", "EP computes the damped power-EP recursion of the whole model",
     "Run from fresh beliefs on any state-space model, with any transforms for transition and measurement, power and damping, every sequence of passes or single node updates leaves each node's marginal and factors equal to the damped power-EP recursion evaluated on the model itself: the transition into node i at that node's time, the measurement of node i, the transform's moments of the exact cavity, an update that fails numerically (such as one whose observation is NaN) being left out. Nothing else enters: not earlier calls, nor other chains using the same estimator or system.",
     ["inputs", "configurations", "histories", "schedules"], "all models, observation sequences, powers, dampings, transforms and orders of updates and passes",
     "Needs a second implementation of the whole recursion; the tests only compare a linear chain's single sweep with stored numbers.",
     [ND, ME, IT, UT, TT, G], [("fwd_update, meas_update, back_update, power_update", ND), ("proj_trans, proj_meas, proj_back", ME), ("ep_fwd_back_updates and the other passes", IT), ("node_system", ND)],
     ["marginals and factors of all nodes after each pass"])

prop("C30", "Batch experiments record the scores of the runs their rows describe",
     "The scripts IEKS_Sweep_UNGM, IEKS_Sweep_BearingsOnly, IEKS_Sweep_L96 and EP_Sweep_L96 go through their configurations one after the other; each smoother run (for EP: each forward-backward sweep) commits rows whose fields state the seed its data were simulated with, the dimension, transform, power, damping and number of iterations it had (EP sweeps count from 0), and whose RMSE and NLL are the scores of its beliefs against the true states of that data. Killed at any point, the rows of all completed runs and no others are stored; a result an iterated-smoother script finds in the table stays as it is.",
     ["crash_points", "configurations", "histories"], "all configurations of the scripts, crash points and repetitions on one database",
     "The tests never run the scripts; a full run takes hours.",
     ["Experiments/IEKS_Sweep_UNGM.py", "Experiments/IEKS_Sweep_BearingsOnly.py", "Experiments/IEKS_Sweep_L96.py", "Experiments/EP_Sweep_L96.py"],
     [("main blocks, create_experiment_table, componentwise_metrics", "Experiments/IEKS_Sweep_*.py"), ("module body", "Experiments/EP_Sweep_L96.py")], ["rows seen by another connection during and after a run", "arguments of the smoother and the nodes"])
prop("C31", "The results report summarises the stored runs its lines name",
     "Each line DisplayResults prints gives mean and population standard deviation of RMSE and of NLL over exactly the stored runs of the experiment, transform, physical quantity or dimension, power and damping it is about: for the baseline lines the first sweep of plain EP (power and damping 1), for power EP lines the last sweep, for the iterated smoother the last iteration of every seed. remove_outliers drops exactly the entries more than 1.5 interquartile ranges outside the quartiles, or those whose positions it was given, keeping order, and returns the dropped positions.",
     ["inputs", "histories"], "all contents of the result stores",
     "The tests never run the script, and no fixed store tells a summary of the right rows from one of others.",
     ["Experiments/DisplayResults.py"], [("module body, remove_outliers", "Experiments/DisplayResults.py")], ["printed lines"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
