"""Writes /verif/properties.jsonl (kept as a script so that the texts stay in one readable place)."""
import json, os
P = []
def add(id, title, statement, over, qtext, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=["parallel_control/" + f for f in files],
                               mechanism=[dict(name=n, where="parallel_control/" + w) for n, w in mech])))

add("C01", "Simulated associative scan returns every in-order prefix (or suffix)",
    "For every associative operator, commutative or not, the simulated parallel scan of a non-empty list returns a list of the same length whose k-th entry is the in-order combination of the first k+1 elements, or, in reverse mode, of elements k to the last. This holds for every list length, power of two or not, and the caller's list is left as it was.",
    ["inputs"], "all associative operators, all element values, all list lengths N >= 1, both directions",
    "Tests run a handful of lengths with particular operators (numbers, small matrices) on random values; a wrong bracketing or an order swap that only shows with a non-commutative operator at some length is not excluded.",
    ["my_assoc_scan.py"], [("Blelloch up/down sweep with None padding", "my_assoc_scan.py:my_assoc_scan")])

add("C02", "Sequential and batch finite-state control are optimal (NumPy)",
    "For any finite-state control problem, the sequential backward pass returns as value of every state at every step exactly the least total remaining cost over all control sequences, and following its controls from any initial state attains that cost with states that obey the transition function. The exhaustive batch solution returns a trajectory from the given initial state with the least total cost together with that cost, and the cost evaluation of any trajectory is the sum of its stage costs and its terminal cost.",
    ["inputs"], "all transition tables, all real stage and terminal costs, all initial states, all competing control sequences",
    "Tests compare against brute force on one or two random instances; the claim quantifies over all cost values (including negative and tied costs) and all transition tables.",
    ["fsc_np.py"], [("Bellman recursion", "fsc_np.py:FSC.seqBackwardPass"), ("policy roll-out", "fsc_np.py:FSC.seqForwardPass"), ("enumeration", "fsc_np.py:FSC.batch_solution"), ("cost", "fsc_np.py:FSC.cost")])

add("C03", "Parallel finite-state control equals sequential (NumPy)",
    "For any finite-state control problem with finite costs, the parallel backward pass returns the same value functions as the sequential one and controls that attain them. The parallel forward pass and both forward-backward passes return a trajectory that starts at the given state, obeys the transition function and is optimal whenever the optimal trajectory is unique.",
    ["inputs"], "all transition tables, all stage/terminal costs of magnitude well below the infinity constant, all initial states",
    "Tests compare on a few random problems of one size; unreachable transitions, colliding transitions, particular horizons and negative costs are only touched by chance.",
    ["fsc_np.py", "my_assoc_scan.py"], [("min-plus combination of conditional values", "fsc_np.py:combine_V"), ("function composition", "fsc_np.py:combine_f"), ("element initialisation", "fsc_np.py:FSC.parBackwardPass_init"), ("extraction", "fsc_np.py:FSC.parFwdBwdPass_extract")])

add("C04", "TensorFlow finite-state control is optimal and equals the NumPy one",
    "For any finite-state control problem with finite costs and every horizon of at least one step, the TensorFlow sequential and parallel backward passes return exactly the optimal cost-to-go of every state and step with controls that attain it. The TensorFlow sequential forward, parallel forward and parallel forward-backward passes return trajectories that start at the given state, obey the transition function and are optimal whenever the optimal trajectory is unique, for every allowed parallelism limit not below the horizon.",
    ["inputs", "configurations"], "all transition tables, costs, initial states; horizons from 1; parallelism limits >= horizon",
    "Tests use one random problem per routine with a fixed horizon; scatter/gather index construction and scan bracketing are shape- and value-dependent.",
    ["fsc_tf.py"], [("element initialisation by scatter", "fsc_tf.py:fsc_par_backwardpass_init_most"), ("parallel scan", "fsc_tf.py:fsc_par_backwardpass"), ("sequential scan", "fsc_tf.py:fsc_seq_backwardpass")])

add("C05", "NumPy Viterbi variants return the MAP state sequence",
    "For any hidden Markov model with positive probabilities and any observation sequence, every NumPy Viterbi variant (probability form, both log forms, and the sequential, parallel and forward-backward control forms) returns a most probable state sequence whenever that sequence is unique. The value table of each variant holds, for every step and state, the probability (or its negative logarithm) of the best state path ending there.",
    ["inputs"], "all positive priors, transition and output matrices (not only normalised ones), all observation sequences",
    "Tests use the Gilbert-Elliott model with seeded data of a few lengths; other models, state/observation dimensions and adversarial observation sequences are not reached.",
    ["viterbi_np.py", "fsc_np.py"], [("textbook recursion", "viterbi_np.py:Viterbi_np.ref_viterbi"), ("reduction to control", "viterbi_np.py:Viterbi_np.getFSC"), ("mapping back", "viterbi_np.py:Viterbi_np.fscToViterbi")])

add("C06", "TensorFlow Viterbi variants return the MAP state sequence",
    "For any hidden Markov model with positive probabilities and any observation sequence of at least one symbol, every TensorFlow Viterbi variant (control-based sequential, parallel and forward-backward; sequential, parallel, hybrid and max-product variants) returns the unique most probable state sequence whenever it is unique. The value table each variant returns holds, for every step and state, the negative logarithm of the probability of the best state path ending there.",
    ["inputs", "configurations"], "all positive priors, transition and output matrices, all observation sequences, lengths from 1",
    "Tests use one seeded Gilbert-Elliott data set per variant; the parallel element layouts depend on length, block structure and values.",
    ["viterbi_tf.py", "fsc_tf.py"], [("reduction to control", "viterbi_tf.py:viterbi_fsc_seq_bwfw"), ("parallel max-product elements", "viterbi_tf.py:viterbi_par_fwbw")])

add("C07", "Sequential, batch and transformed LQT are optimal (NumPy)",
    "For any linear quadratic tracking problem with time-varying dynamics, offsets, output matrices, references, control transformations and cross terms (convex in the controls), the sequential backward pass followed by the forward pass gives the unique minimiser of the total cost, and its value matrices and vectors give the optimal cost-to-go up to a constant. The batch solution gives the same trajectory, the transformed backward pass (identity control transformation) the same gains and values, the simulation obeys the dynamics, and the cost evaluation returns the documented sum.",
    ["inputs"], "all system, cost and reference parameters, all initial states, all competing control sequences",
    "Tests compare the variants with each other on one seeded random model, mostly without cross terms, control offsets or time variation; the claim is about all parameters.",
    ["lqt_np.py"], [("Riccati recursion", "lqt_np.py:LQT.seqBackwardPass"), ("batch least squares", "lqt_np.py:LQT.batchSolution"), ("cost", "lqt_np.py:LQT.cost")])

add("C08", "Parallel LQT equals sequential LQT (NumPy)",
    "For any linear quadratic tracking problem with general cost (time-varying, with offsets, output matrices, control transformations and cross terms), the parallel backward pass returns the same gains, offsets and value functions as the sequential one. The parallel forward pass and both forward-backward passes return the same controls and states as the sequential forward pass from any initial state.",
    ["inputs"], "all system, cost and reference parameters, all initial states, all horizons",
    "Tests use one seeded model; an error in how cross terms, offsets or padding enter the scan elements is invisible when those terms are zero or the horizon has a particular form.",
    ["lqt_np.py", "my_assoc_scan.py"], [("conditional value elements", "lqt_np.py:LQT.parBackwardPass_init"), ("combination", "lqt_np.py:combine_abcej"), ("extraction", "lqt_np.py:LQT.parFwdBwdPass2_extract")])

add("C09", "Combining conditional value functions is minimisation over the middle state",
    "Combining two quadratic conditional value functions, in the NumPy and the TensorFlow library, discrete and continuous, gives exactly the conditional value function obtained by minimising their sum over the intermediate state, up to an additive constant. The combination is associative, and so is the composition rule for affine maps used by the forward passes.",
    ["inputs"], "all conditional value function parameters for which the combination is defined",
    "Tests only exercise the rule through complete solvers on a few models; the algebraic identity and associativity must hold for every parameter value for parallel scans to be correct.",
    ["lqt_np.py", "lqt_tf.py", "clqt_np.py", "clqt_tf.py"], [("combination rule", "lqt_np.py:combine_abcej"), ("TensorFlow rule", "lqt_tf.py:lqt_par_comb_V"), ("affine composition", "lqt_np.py:combine_fc")])

add("C10", "TensorFlow LQT equals the optimal solution",
    "For any canonical-form tracking problem, the TensorFlow sequential and parallel backward passes return the gains, offsets and value functions of the exact dynamic programming recursion, and the sequential forward, parallel forward and forward-backward passes return the optimal controls and states. Conversion from a general cost (with cross terms and control offsets) to canonical form and back yields the optimal gains of the general problem, and the cost routine returns the documented sum.",
    ["inputs", "configurations"], "all parameters of the problem, all initial states, horizons, parallelism limits not below the horizon",
    "Tests use one seeded model and compare with NumPy numerically; scan bracketing, batching and index layout depend on the horizon and the dimensions.",
    ["lqt_tf.py"], [("sequential passes", "lqt_tf.py:lqt_seq_backwardpass"), ("parallel passes", "lqt_tf.py:lqt_par_backwardpass"), ("canonical form", "lqt_tf.py:lqt_gen_to_canon")])

add("C11", "LQR solvers agree with the Riccati recursion",
    "For any time-invariant linear quadratic regulator and any horizon of at least one step, the parallel backward and forward passes give the same gains, value matrices, controls and states as the sequential ones, which minimise the documented cost. The iterative stationary solver after n steps equals n Riccati steps from the state cost, and the doubling solver after n doublings equals the value matrix reached after 2^n - 1 Riccati steps with the gain that belongs to it.",
    ["inputs"], "all system and cost matrices, all initial states, horizons, iteration counts",
    "Tests use one fixed model and compare converged results, which hides errors that only shift the number of steps or vanish at convergence.",
    ["lqt_np.py"], [("LQR passes", "lqt_np.py:LQR.seqBackwardPass"), ("iteration", "lqt_np.py:LQR.lqrIter"), ("doubling", "lqt_np.py:LQR.lqrDouble")])

add("C12", "Condensing a tracking problem preserves its solution",
    "Condensing a canonical tracking problem over blocks of any length (whether or not it divides the horizon) gives a shorter problem whose optimal trajectory, converted back, is the optimal control and state trajectory of the original problem from every initial state. This holds for the NumPy and the TensorFlow implementation.",
    ["inputs", "configurations"], "all problem parameters, initial states, horizons and block lengths",
    "Tests use one seeded model with a few block lengths; how block boundaries, padding of a last incomplete block, offsets and references enter the condensed cost is length- and value-dependent.",
    ["condensing_np.py", "condensing_tf.py"], [("condensing", "condensing_np.py:LQTCondenser.condense"), ("recovery", "condensing_np.py:LQTCondenser.convertUX"), ("TensorFlow version", "condensing_tf.py:condense")])

add("C13", "Runge-Kutta integration is the classical fourth-order method",
    "For any right-hand side, one step of the integrators in both libraries equals the classical fourth-order Runge-Kutta step, so it reproduces the Taylor expansion of the exact solution up to and including the fourth order in the step length, for autonomous and time-dependent equations, with or without parameters, forwards and backwards in time. This holds for scalar, vector, matrix and (in TensorFlow) batched states with their own times.",
    ["inputs"], "all right-hand sides, all states, parameters, times and step lengths",
    "Tests integrate particular equations and compare with a tolerance, which a lower-order or slightly perturbed method also meets.",
    ["diffeq_np.py", "diffeq_tf.py"], [("step", "diffeq_np.py:rk4"), ("TensorFlow step", "diffeq_tf.py:rk4")])

add("C14", "Discretisation of linear differential equations is exact",
    "The discretisation routines return the exact transition matrix, input matrix and accumulated covariance of a linear time-invariant system over a step, for every step length: composing two steps equals one step of their summed length, and the derivative with respect to the step length at zero is given by the continuous-time matrices.",
    ["inputs"], "all system, input and diffusion matrices, all step lengths",
    "Tests compare on one example with numerical integration to a tolerance.",
    ["disc.py"], [("matrix fraction decomposition", "disc.py:lti_disc"), ("augmented exponential", "disc.py:lti_disc_u")])

add("C15", "Sequential continuous-time LQR/LQT follows the Riccati equations (NumPy)",
    "For any continuous-time tracking problem, the sequential backward passes of the continuous-time regulator and tracker follow the exact Riccati and linear value equations to the fourth order of the Runge-Kutta integrator (the regulator's exact methods to all orders), with gains computed from the value functions by the optimality condition. The forward passes follow the closed loop with held gains or held controls, the forward value functions their own Riccati equations, and combining forward and backward value functions gives the optimal trajectory, all to the same order and for any start time, step length and terminal value.",
    ["inputs", "configurations"], "all problem parameters (constant or time-varying), initial states, step counts",
    "Tests compare variants to each other with tolerances on one model, which hides lower-order errors and errors in terms that vanish for that model.",
    ["clqt_np.py", "diffeq_np.py"], [("Riccati equations", "clqt_np.py:CLQT.seqBackwardPass"), ("forward equations", "clqt_np.py:CLQT.seqForwardPass")])

add("C16", "Parallel continuous-time LQR/LQT agrees with the sequential one (NumPy)",
    "For any continuous-time tracking problem split into any number of blocks, the parallel backward pass, with block elements integrated forwards or backwards, agrees with the sequential one up to the fourth-order discretisation error of the integrator. The parallel forward pass without control hold and the parallel forward-backward pass return states and controls that agree with their sequential counterparts up to the same error.",
    ["inputs", "configurations"], "all problem parameters, initial states, numbers of blocks and steps",
    "Tests use tolerances of percents on one model and cannot separate discretisation error from a wrong term of the same size.",
    ["clqt_np.py"], [("block value functions", "clqt_np.py:CLQT.parBackwardPass_init"), ("block combination", "clqt_np.py:CLQT.parBackwardPass")])

add("C17", "TensorFlow continuous-time LQT equals the NumPy one",
    "For any continuous-time tracking problem with constant or time-varying parameters and any number of blocks and steps, each TensorFlow backward, forward and forward-backward pass, sequential or parallel, returns the same values, gains, states and controls as its NumPy counterpart.",
    ["inputs", "configurations"], "all problem parameters, initial states, block and step counts",
    "Tests compare on one model with one block layout, within tolerances.",
    ["clqt_tf.py", "clqt_np.py"], [("batched integration", "clqt_tf.py:clqt_par_backwardpass")])

add("C18", "Parareal converges to the fine sequential solution",
    "After as many iterations as there are blocks, the parareal backward, forward and forward-backward passes of the continuous-time tracker return exactly the result of the fine sequential integration over the same grid, whatever integrator is used, and further iterations keep it. After fewer iterations k, the k blocks nearest the known end are exact. This holds for the NumPy and the TensorFlow implementation, including the TensorFlow passes that chain the backward pass with a forward one.",
    ["inputs", "configurations"], "all problem parameters, initial states, block and step counts",
    "Tests compare with tolerances on one model where a partially converged iteration is already close.",
    ["parareal_clqt_np.py", "parareal_clqt_tf.py"], [("parareal backward", "parareal_clqt_np.py:Parareal_CLQT_np.backwardPass"), ("parareal forward", "parareal_clqt_np.py:Parareal_CLQT_np.forwardPass")])

add("C19", "Iterated nonlinear LQT linearises exactly and solves affine models in one step",
    "For any differentiable model, the linearised tracking problem around a nominal trajectory agrees with the nonlinear dynamics in value and first derivative along that trajectory. Hence, for an affine model one iteration from any nominal trajectory gives the optimal trajectory, a stationary trajectory is a fixed point, simulations obey the dynamics, and the NumPy and TensorFlow versions, sequential and parallel, agree.",
    ["inputs"], "all models (affine, or polynomial of bounded degree), nominal trajectories, references and costs",
    "Tests run a fixed number of iterations on one model and compare the converged results.",
    ["nlqt_np.py", "nlqt_tf.py"], [("linearisation", "nlqt_np.py:NLQT.linearize"), ("iteration", "nlqt_tf.py:nlqt_iterate_seq")])

add("C20", "Analytic Jacobians of the nonlinear models match their dynamics",
    "For every state, control and step length the Jacobians that the nonlinear vehicle model provides equal the derivatives of its transition function, for the NumPy and TensorFlow versions. The two versions agree with each other, and the continuous-time nonlinear example models agree between their libraries.",
    ["inputs"], "all states, controls and step lengths",
    "Tests compare with finite differences at a few points with a tolerance.",
    ["nonlinear_model_np.py", "nonlinear_model_tf.py", "cnonlin_models_np.py", "cnonlin_models_tf.py"], [("Jacobians", "nonlinear_model_np.py:NonlinearModel.Fx"), ("TensorFlow model", "nonlinear_model_tf.py")])

add("C21", "SQP sub-problem, Newton steps and quasi-Newton iterations satisfy their defining equations",
    "The equality-constrained quadratic solver returns the point and multipliers that satisfy the optimality system for every nonsingular problem, and each full step of the local solvers is the Newton step of the optimality conditions, so one step solves any quadratic problem with affine constraints from any starting point. The TensorFlow function, gradient, Jacobian and Hessian helpers return the exact derivatives, batched or not. The basic quasi-Newton update satisfies the secant equation and symmetry for all step pairs with positive curvature and leaves the matrix alone otherwise; the damped one keeps the matrix symmetric with curvature along the step equal to that of the gradient change or one fifth of the previous one, whichever its rule selects. The backtracking iteration takes the first halved step that does not increase the merit, or the full step when the allowed halvings do not find one.",
    ["inputs"], "all quadratic objectives, affine constraints, starting points, step pairs",
    "Tests run a few optimisation problems to convergence, which a wrong multiplier or update often survives.",
    ["sqp_np.py", "sqp_tf.py"], [("KKT solve", "sqp_np.py:lqe_solve"), ("updates", "sqp_np.py:bfgs_damped_update"), ("iterations", "sqp_np.py:bfgs_eq_bt"), ("derivatives", "sqp_tf.py:lag_value_grad_hess")])

add("C22", "Grid value-function combination is min-plus and the passes combine the blocks in order",
    "For the one-dimensional grid control solver, combining two block value functions without interpolation is exactly minimisation over the intermediate grid state, is associative, and scanning a list returns its suffix combinations. The interpolating combination returns the vertex of the parabola through a minimising grid point and its two neighbours (mirrored at the ends of the grid), and the minimum itself where those values are equal. The sequential backward pass applies the blocks one after the other to the terminal value function, the parallel pass combines the same blocks in order under some bracketing, for every number of blocks, block value function and terminal value; the NumPy and TensorFlow routines agree.",
    ["inputs", "configurations"], "all block value functions, terminal values, grids and numbers of blocks",
    "Tests run one nonlinear example to a tolerance; some TensorFlow routines have no stable test.",
    ["hjb_grid_1d_np.py", "hjb_grid_1d_tf.py"], [("combination", "hjb_grid_1d_np.py:combine_V"), ("interpolating combination", "hjb_grid_1d_np.py:combine_V_interp"), ("passes", "hjb_grid_1d_tf.py:par_bw_pass")])

add("C23", "Grid finite-difference passes implement the stated schemes",
    "The symmetric finite-difference and upwind backward passes of the one-dimensional grid solver apply, at each time step and grid point, the explicit scheme for the Hamilton-Jacobi-Bellman equation with the minimising control, for every value function and model, and the TensorFlow versions give the same results.",
    ["inputs"], "all value functions, model coefficients, grids, time steps",
    "Tests compare the schemes against each other on one model with loose tolerances.",
    ["hjb_grid_1d_np.py", "hjb_grid_1d_tf.py"], [("schemes", "hjb_grid_1d_np.py:HJB_Grid_1d.seqBackwardPass_upwind")])

add("C24", "Example finite-state models are well formed",
    "The text, Gilbert-Elliott and game models return transition, output and prior tables that are valid: probabilities are non-negative and each row sums to one, state indices convert to symbols and back without loss, and the finite-state control problem of the game has in-range transitions with the documented costs for every scene.",
    ["inputs"], "all texts over the alphabet up to a bounded length, all model orders and scenes up to a bounded size",
    "Tests only use the models with fixed parameters to generate data.",
    ["text_model.py", "ge_model_np.py", "finite_model_np.py"], [("game model", "finite_model_np.py:FiniteModel.getFSC"), ("text model", "text_model.py"), ("channel model", "ge_model_np.py:GEModel")])

add("C25", "Problem constructors validate shapes, apply defaults and replicate parameters",
    "The checking constructors of the finite-state and linear-quadratic problems accept a parameter set if and only if its dimensions and list lengths match (state and control dimensions fixed over time, the running-cost dimension free at each step and in the terminal cost), and raise an error otherwise, including when the horizon is neither given nor deducible. On acceptance constant parameters are replicated over the horizon, lists are taken as they are, and omitted parameters become identities (output and terminal cost matrices, sized by the first running cost), zeros (offsets, cross terms) or ones (finite-state terminal cost).",
    ["inputs", "configurations"], "all combinations of parameter shapes up to bounded sizes, constant or per-step, given or defaulted",
    "Tests construct a few valid problems and a handful of mismatches.",
    ["fsc_np.py", "lqt_np.py"], [("FSC checks", "fsc_np.py:FSC.checkAndExpand"), ("LQT checks", "lqt_np.py:LQT.checkAndExpand")])

add("C26", "Continuous-time example models: shooting costs, constraints and block value functions",
    "For the one-dimensional nonlinear example models, the direct-shooting cost and constraint functions evaluate the documented discretised cost and dynamics on the prescribed number of grid steps for every horizon, step count, control sequence and end states, and the block value of every pair of grid states is the cost after the prescribed SQP iterations on that problem (for linear drift and quadratic cost the exact constrained minimum), rows being initial and columns final states. The example models return the documented functions and grids. The closed-form block value functions agree between the NumPy and TensorFlow libraries for every pair of grid states, positive, negative or zero.",
    ["inputs"], "all control sequences, initial and final states, horizons, step counts",
    "Tests evaluate one grid with positive states and one step count.",
    ["cnonlin_models_np.py", "cnonlin_models_tf.py", "hjb_grid_1d_np.py", "hjb_grid_1d_tf.py"], [("shooting functions", "hjb_grid_1d_np.py:fun_and_con_1"), ("block values", "cnonlin_models_tf.py:upwind_model_block_V")])
add("C27", "Example tracking and mass models give the documented control problems",
    "For every trajectory and number of steps between points, the linear and nonlinear tracking models return control problems with the documented dynamics, costs, reference schedule and initial state (running cost heavy on the trajectory points and light in between, reference held over the steps of its point, terminal cost on the last point), the same in the NumPy and TensorFlow libraries; the continuous-time tracking model has the documented matrices and the same reference curve in both. The nonlinear model's transition function and its Jacobians are the documented motion and its exact derivatives, and initial guesses have the documented lengths with positions at the references and zero controls. The mass chain has the documented spring-damper dynamics with exact zero-order-hold discretisation, and its number of steps is the final time over the step whenever that is a whole number, also when the division rounds. The linear model's generated trajectories stay in the arena with steps of the documented length.",
    ["inputs"], "all trajectories, states, controls, step lengths and numbers of masses up to bounded sizes",
    "Tests use the models at one seed and one step length, as data for other routines.",
    ["linear_model_np.py", "linear_model_tf.py", "nonlinear_model_np.py", "nonlinear_model_tf.py", "mass_model_np.py"], [("tracking problem", "linear_model_np.py:LinearModel.getLQT"), ("mass chain", "mass_model_np.py:MassModel.getLQT"), ("nonlinear model", "nonlinear_model_np.py:NonlinearModel")])
add("C28", "Timed solvers compute the reference solution and the drivers report their mean duration and error",
    "Every solver offered for timing computes the solution of the problem it is given: the sequential, parallel, two-filter and condensed discrete tracking routines (any block length) and the finite-state ones the optimal solution, the continuous-time ones and Parareal with as many iterations as blocks the solution of the library's sequential or parallel passes over blocks times steps, the nonlinear ones ten of the library's iterations, the grid ones the library's passes over the given blocks of the given duration and steps. Each driver runs the routine once untimed and then n_iter times on each generated problem (or the given model), and reports the mean duration of the n_iter calls, the problem's horizon and state dimension, and, where it reports an error, the largest absolute deviation from the reference solution (for grids also over the middle third).",
    ["inputs", "configurations"], "all problem data, horizons, block lengths, durations of the calls, repetitions and numbers of problems up to bounded sizes",
    "Tests run the routines once at one size and look at loose errors or at nothing but the lengths of the lists; the tests of the continuous-time and grid routines are not among the stable ones.",
    ["linear_speedtest.py", "finite_speedtest.py", "nonlinear_speedtest.py", "contlin_speedtest.py", "hjb_grid_1d_speedtest.py"], [("discrete tracking", "linear_speedtest.py:lqt_parallel_cond_bwfw_2"), ("continuous time", "contlin_speedtest.py:clqt_par_bw_fwbw"), ("drivers", "hjb_grid_1d_speedtest.py:par_assoc_speedtest")])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as fh:
        for p in P:
            fh.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P))
