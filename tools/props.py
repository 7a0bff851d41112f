"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = "neural_network_lyapunov/"
P = []


def prop(id, title, statement, text, why, files, mech, state=(),
         observe=(), over=("inputs", )):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [N + f for f in files],
            "mechanism": [{"name": n, "where": N + w} for n, w in mech],
            "state": [{"name": a, "meaning": b, "where": N + w}
                      for a, b, w in state],
            "observe_at": list(observe), "hook_needed": None}})


NOGRB = ("The module needs gurobipy, so none of its tests run in this build; "
         "where they do run they sample a handful of fixed numbers and ask a "
         "solver, ")

prop("C01", "The MIP of a ReLU network has exactly the network's output",
     "For every fully-connected ReLU or leaky-ReLU network, every input box "
     "and every input in it, the mixed-integer constraints generated for the "
     "network are feasible, and every feasible assignment with binary "
     "activations gives exactly the network's output. The same holds with "
     "each way of computing the neuron bounds, with neurons that are provably "
     "always active or inactive, and with and without biases. (A network "
     "alternates linear layers and activations of one kind and ends in a "
     "linear layer.)",
     "all weights, biases, slopes, input boxes and inputs; each "
     "bound-propagation method; all feasible slack and binary assignments",
     NOGRB + "never all feasible assignments for all weights.",
     ["relu_to_optimization.py", "relu_to_optimization_utils.py",
      "utils.py"],
     [("ReLUFreePattern.output_constraint", "relu_to_optimization.py"),
      ("add_constraint_by_neuron, add_constraint_by_layer",
       "relu_to_optimization_utils.py")],
     [("MixedIntegerConstraintsReturn", "linear rows over input, slack, "
       "binary", "gurobi_torch_mip.py")],
     ["the returned constraint rows and output map"],
     ("inputs", "configurations"))

prop("C02", "Neuron and output bounds contain every reachable value",
     "For every network and every input box, the lower and upper bounds "
     "computed for each neuron before and after its activation, and for the "
     "network output, contain the value attained at every input in the box, "
     "for every bound-propagation method (interval arithmetic, linear "
     "programming, mixed-integer programming, and their combinations). "
     "Bounds of linear maps by interval arithmetic are also attained.",
     "all weights, boxes and inputs in the box; every method",
     NOGRB + "and compare with sampled inputs.",
     ["relu_to_optimization.py", "mip_utils.py", "utils.py"],
     [("_compute_layer_bound and its methods", "relu_to_optimization.py"),
      ("compute_range_by_IA, compute_range_by_lp, propagate_bounds",
       "mip_utils.py")],
     (), ["the returned bound tensors"], ("inputs", "configurations"))

prop("C03", "Strengthening cuts never remove a valid activation",
     "Every inequality added to strengthen the mixed-integer formulation of a "
     "(leaky) ReLU neuron is satisfied by every true input, output and "
     "activation of that neuron. The cut generated at a given point is the "
     "most violated one of its family, and the vertices and ranges computed "
     "for a linear input are those of the exact set.",
     "all weights, input boxes, index sets, slopes in [0,1) and inputs in "
     "the box", NOGRB + "on a few fixed neurons.",
     ["mip_utils.py"],
     [("strengthen_relu_mip_w_indices, find_index_set_to_strengthen, "
       "strengthen_relu_mip_given_pts, strengthen_relu_mip", "mip_utils.py")],
     (), ["the returned cut coefficients"])

prop("C04", "Elementary mixed-integer encodings are exact",
     "The linear encodings of a binary-continuous product, a ReLU, a leaky "
     "ReLU, the gradient of a leaky ReLU times a value, an absolute value, a "
     "maximum, a saturation and the boundary of a box admit exactly the true "
     "function value for every argument in the stated interval, and the "
     "binary variables mean what the documentation says. The encodings of a "
     "single product, ReLU and leaky ReLU relax to the convex hull, and the "
     "interval computed for a leaky ReLU contains its range.",
     "all bounds, arguments, slopes, limits; all slack and binary values",
     NOGRB + "on a few numbers; boundary cases such as a zero bound or ties "
     "are the ones that break.",
     ["utils.py"],
     [("replace_*_mixed_integer_constraint, "
       "max/absolute_value_as_mixed_integer_constraint, "
       "add_saturation_as_mixed_integer_constraint, box_boundary",
       "utils.py")],
     (), ["the returned rows"])

prop("C05", "Network-gradient-times-vector encoding is exact",
     "For every network, input and vector, the mixed-integer constraints "
     "generated for the product of the network's input gradient with the "
     "vector are feasible at every consistent activation pattern, and force "
     "the encoded output to equal the gradient of the pattern times the "
     "vector. The intermediate bounds used in the encoding contain every "
     "value taken.",
     "all weights, vectors in the given box, activation patterns",
     NOGRB + "for one or two fixed networks.",
     ["relu_to_optimization.py"],
     [("output_gradient_times_vector, _compute_Wz_bounds",
       "relu_to_optimization.py")], (), ["the returned rows and bounds"])

prop("C06", "Activation patterns and subgradients enumerate exactly",
     "The activation pattern of an input reproduces the network output and "
     "its gradient, inputs on an activation boundary yield every admissible "
     "pattern or gradient and no other, and the affine form and region "
     "returned for a pattern hold exactly on the inputs with that pattern. "
     "The possible gradients of the 1-norm and the infinity-norm within the "
     "tolerance are likewise complete and correct.",
     "all networks, inputs (including exactly on boundaries), tolerances",
     "Tests evaluate random inputs, which never lie on an activation "
     "boundary, or a single hand-made boundary point.",
     ["relu_to_optimization.py", "utils.py"],
     [("ComputeReLUActivationPattern, "
       "ComputeAllReLUActivationPatterns, ReLUGivenActivationPattern, "
       "ReLUGivenWeights", "relu_to_optimization.py"),
      ("relu_network_gradient, l1_gradient, l_infinity_gradient",
       "utils.py")], (), ["returned patterns, gradients, affine maps"])

prop("C07", "The tensor MIP mirrors the solver's program",
     "Whatever sequence of variables, linear constraints and objectives is "
     "added, the tensors recorded for a mixed-integer program describe the "
     "same feasible set and objective as the program handed to the solver: "
     "every row, bound, variable position and objective coefficient agrees, "
     "including equal lower and upper bounds and relaxed binaries. The "
     "bounds of a binary variable are not recorded (a relaxed one is between "
     "0 and 1), nor are variable bounds carried by a composed constraint set "
     "(they go to the solver only). Turning relaxed variables into binary ones and substituting "
     "values for binary variables keep the remaining description "
     "consistent.",
     "all sequences of add-variable, add-constraint, remove-binary and "
     "set-objective calls and all coefficients",
     NOGRB + "for short fixed call sequences.",
     ["gurobi_torch_mip.py"],
     [("GurobiTorchMIP.addVars, addLConstr, addMConstr; GurobiTorchMILP, "
       "GurobiTorchMIQP.setObjective; remove_binary_relaxation",
       "gurobi_torch_mip.py")],
     [("Ain/Aeq index-value lists", "recorded rows",
       "gurobi_torch_mip.py")],
     ["the gurobi model", "the tensors"], ("histories", "inputs"))

prop("C08", "Composing constraint sets preserves their solutions",
     "Concatenating two sets of mixed-integer constraints over the same "
     "input, transforming the input affinely, cloning, and adding a set to a "
     "program each yield constraints whose solutions are exactly those of the "
     "parts, with every absent block treated as zero or unbounded (rows need "
     "at least one matrix to be added to a program). None of them changes "
     "the constraints they were given; an input bound, which an affine "
     "transformation cannot carry over, is refused.",
     "all combinations of present and absent blocks, all coefficients",
     NOGRB + "with every block present.",
     ["gurobi_torch_mip.py"],
     [("concatenate_mixed_integer_constraints, transform_input, clone, "
       "add_mixed_integer_linear_constraints", "gurobi_torch_mip.py")],
     (), ["the resulting rows and output map"],
     ("inputs", "configurations"))

prop("C09", "The recomputed optimal cost equals the solver's and differentiates",
     "After a program is solved, recomputing the optimal objective from the "
     "recorded tensors gives the solver's objective value at that solution, "
     "for the best and for every pooled solution, with the active constraints "
     "selected consistently. The recomputed value differentiates with respect "
     "to the problem data as the optimal cost of the active-constraint linear "
     "system does. (The active rows are of full column rank and well "
     "conditioned; for a quadratic objective the optimality conditions are "
     "nonsingular.)",
     "all programs with such an active set, all solutions in the pool",
     NOGRB + "for a few fixed programs.",
     ["gurobi_torch_mip.py"],
     [("get_active_constraints, compute_objective_from_mip_data*",
       "gurobi_torch_mip.py")], (), ["the returned tensor and its gradient"])

prop("C10", "Hybrid linear systems: encodings equal the simulated step",
     "For every piecewise-affine system with polytopic modes, the "
     "mixed-integer constraints of its dynamics are satisfied exactly by the "
     "states, inputs and successors of some mode containing the state and "
     "input (within the bounds of state and input the caller gives, where "
     "given), and simulation steps with the dynamics of a mode that contains "
     "them. Costs accumulated along a simulated trajectory equal the sum of "
     "the stage costs of its states, and leave the user's data unchanged.",
     "all mode polytopes, dynamics, states and inputs",
     NOGRB + "for fixed examples and sampled states.",
     ["hybrid_linear_system.py"],
     [("HybridLinearSystem.mixed_integer_constraints, step_forward, mode; "
       "AutonomousHybridLinearSystem; "
       "compute_discrete_time_system_cost_to_go",
       "hybrid_linear_system.py")], (), ["rows, successors, costs"])

prop("C11", "ReLU dynamics systems: MIP successor equals the simulated one",
     "For every dynamics given by a neural network (autonomous, controlled "
     "with equilibrium, residual, second order, with or without network "
     "bounds), the constraints added to a program admit for each state and "
     "control in the box exactly the successor computed by simulation. The "
     "prescribed equilibrium is a fixed point of the simulated dynamics.",
     "all networks, equilibria, time steps, states and controls in the box",
     NOGRB + "for one or two networks.",
     ["relu_system.py", "dynamic_system.py"],
     [("add_dynamics_constraint, step_forward, mixed_integer_constraints",
       "relu_system.py")], (), ["program rows", "simulated successor"],
     ("inputs", "configurations"))

prop("C12", "Closed loop: encoded control and successor equal the simulation",
     "For every plant and controller (neural-network or linear), the closed "
     "loop's program admits for each state in the box exactly the control "
     "obtained by saturating controller(x) - controller(x_eq) + u_eq at the "
     "limits, and the plant's successor under it. The same control is applied "
     "in simulation, and the equilibrium of plant and control is kept. (Each "
     "control has both limits, the lower below the upper, or neither.)",
     "all networks or gains, limits, states in the box",
     NOGRB + "for a few states.",
     ["feedback_system.py", "utils.py"],
     [("FeedbackSystem.add_dynamics_mip_constraint, compute_u, "
       "step_forward", "feedback_system.py")], (),
     ["program rows", "simulated successor"], ("inputs", "configurations"))

prop("C13", "Control-affine systems: encodings equal the vector field",
     "For every control-affine plant (linear or neural-network, first or "
     "second order), the program terms for the drift and the actuation matrix "
     "admit exactly the values of the vector field at each state of the box, "
     "lie within the bounds reported for them, and combine with the control "
     "into the dynamics with the control clamped to its limits. The model "
     "fitted around a prescribed equilibrium has zero derivative there.",
     "all networks, equilibria, states and controls in the box",
     NOGRB + "for fixed networks.",
     ["control_affine_system.py"],
     [("mixed_integer_constraints, f, G, dynamics, bounds",
       "control_affine_system.py")], (), ["program rows", "f, G values"])

prop("C14", "Lyapunov programs state exactly the Lyapunov conditions",
     "The objective of the positivity program at each state of the box is "
     "epsilon |R(x-x*)|_1 - V(x), and that of the discrete-time derivative "
     "program at each state whose successor is in the box is the amount by "
     "which V(x_next) - V(x) violates the requested convergence condition: "
     "the decrease at least (ExpLower) or at most (ExpUpper) epsilon V(x), or "
     "at least epsilon |R(x-x*)|_1 (Asymp). Hence a nonpositive optimum "
     "certifies the condition for every such state, and a violated condition "
     "makes the optimum positive. V is the network's difference to the "
     "equilibrium plus lambda |R(x-x*)|_1.",
     "all networks, R, lambda, rates, states of the box and their "
     "successors", NOGRB + "by sampling states against one network.",
     ["lyapunov.py"],
     [("lyapunov_value, lyapunov_positivity_as_milp, "
       "lyapunov_derivative_as_milp", "lyapunov.py")], (),
     ["the program's rows and objective"], ("inputs", "configurations"))

prop("C15", "Continuous-time derivative program equals the true derivative",
     "The continuous-time derivative programs (dynamics given as a "
     "mixed-integer system or as a hybrid linear system, the latter in both "
     "formulations) admit exactly the states of the box with lyapunov_lower "
     "<= V(x) <= lyapunov_upper, with xdot the derivative of the closed loop "
     "there, and every admissible activation pattern of the network and sign "
     "of R(x - x*); for each of them the objective is the derivative of V "
     "along xdot with that subgradient, plus epsilon V(x), maximised. With "
     "relaxed binary variables it admits at least those points. "
     "lyapunov_derivative returns exactly one value for each admissible "
     "subgradient of the network and of the norm and each possible xdot. A "
     "convergence type, matrix R or bound propagation that is not supported "
     "is refused.",
     "all networks, R, dynamics, states (including kinks)",
     NOGRB + "on random states, which miss the kinks.",
     ["continuous_time_lyapunov.py", "lyapunov.py"],
     [("lyapunov_derivative, lyapunov_derivative_as_milp",
       "continuous_time_lyapunov.py")], (),
     ["derivative values", "program rows and objective"])

prop("C16", "Barrier programs state exactly the barrier conditions",
     "The barrier function is h(x) = phi(x) - phi(x_safe) + c for every "
     "state and batch of states, with c > 0 required, so that h(x_safe) = c. "
     "The value program admits exactly the states of the box in the given "
     "region and maximises h over it (for an unsafe region) or -h (for a "
     "region that must stay inside). The discrete-time derivative program "
     "admits exactly the states of the box whose successor is in the box and "
     "maximises -h(x_next) + h(x) - epsilon h(x), the amount by which the "
     "barrier condition is violated. Both hold for each kind of binary "
     "variable and each way of computing the network's bounds.",
     "all networks, constants, rates, regions, states of the box and their "
     "successors", NOGRB + "on random states.",
     ["barrier.py"],
     [("value, value_as_milp", "barrier.py"),
      ("derivative, derivative_as_milp", "barrier.py")], (),
     ["values", "program rows and objective"])

prop("C17", "Sample losses are the hinge of the violated condition",
     "The loss computed on sampled states is, for each sample, exactly the "
     "hinge of the amount by which the Lyapunov or barrier condition is "
     "violated beyond the margin, reduced as requested (the mean, in which "
     "each sample can be weighted, the maximum, or the 4-norm). A loss of "
     "zero with positive weights therefore means that every sample satisfies "
     "the condition with the margin. The trainer scales each of these losses "
     "by its own weight, and a loss without samples or weight is zero.",
     "all networks, samples, weights, margins, reductions",
     NOGRB + "on a few samples.",
     ["lyapunov.py", "barrier.py", "utils.py", "train_utils.py"],
     [("lyapunov_positivity_loss_at_samples, "
       "lyapunov_derivative_loss_at_samples, barrier losses",
       "lyapunov.py"), ("loss_reduction", "utils.py")], (),
     ["returned loss"])

prop("C18", "Every R parameterisation keeps R full rank and round-trips",
     "For every value of the free variables, the matrix R produced has the "
     "documented form (fixed, lower-triangular-product plus epsilon, or "
     "prescribed singular values and orthogonal factors), so that R x = 0 "
     "only for x = 0. Setting the variables from a flat vector or from a "
     "given matrix and reading them back reproduces that vector or matrix "
     "(the symmetric part of its top block, for the triangular product), "
     "inadmissible matrices are rejected, and the parameters saved along "
     "with R describe it.",
     "all variable values and admissible matrices",
     NOGRB + "for a few matrices.",
     ["r_options.py"],
     [("SearchRwithSPDOptions, SearchRwithSVDOptions, FixedROptions",
       "r_options.py")], (), ["R(), variables"])

prop("C19", "Network parameters round-trip through vectors and structure",
     "Setting up or updating a network from a flat vector of parameters and "
     "reading the parameters back returns the same vector: layer by layer, "
     "the weights row by row and then the bias if there is one. The network "
     "computes the function of these parameters, and neither vector changes "
     "when the network is trained afterwards. Gradients are read in the same "
     "order, with zeros where there is none; clearing them leaves the "
     "parameters. The structure read from a network (linear layers with one "
     "kind of activation between each two) sets up a network of the same "
     "function, and a network without such a structure is refused. Saved "
     "network files hold what rebuilds the network and the other values "
     "given.",
     "all layouts and parameter values",
     NOGRB + "for one layout.",
     ["utils.py"],
     [("setup_relu, update_relu_params, extract_relu_parameters, "
       "extract_relu_parameters_grad, extract_relu_structure", "utils.py")],
     (), ["parameter vectors"], ("inputs", "configurations"))

prop("C20", "Training reports success only for a verified function",
     "Training returns success only if, for the parameters it leaves in the "
     "networks, the positivity and derivative programs were solved and their "
     "maxima are within the stated tolerances, also when the solver stopped "
     "before proving optimality; otherwise it takes one descent step on the "
     "loss of the current parameters, up to the iteration limit, and then "
     "reports failure. Descending and training on samples end at the best "
     "parameters seen, which stay trainable. Counterexamples added to the "
     "sample pools are the states found by the solver (only the violating "
     "ones where asked) with their own next states, the newest samples are "
     "used up to the pool limit, and clustering keeps one state of each "
     "cluster. Networks and R are saved in the iterations asked for.",
     "all solver outcomes, iteration counts and options",
     NOGRB + "and training runs are not exercised to failure and success.",
     ["train_lyapunov_barrier.py"],
     [("Trainer.train, train_adversarial, train_lyapunov_on_samples, "
       "_batch_descent_on_samples, total_loss, compute_barrier_loss, "
       "solve_positivity_mip, solve_lyap_derivative_mip, "
       "solve_barrier_value_mip, solve_barrier_derivative_mip, "
       "_cluster_adversarial_states, _save_network, add_lyapunov, "
       "add_barrier; TrainValueApproximator", "train_lyapunov_barrier.py")],
     [("best parameters", "restored after descending on samples",
       "train_lyapunov_barrier.py")],
     ["return value", "parameters", "pools"],
     ("histories", "inputs", "configurations"))

prop("C21", "Line searches never accept an insufficient step",
     "The line-search optimisers try the steps lr, lr * reduction, lr * "
     "reduction^2, ... along their search direction and end at the first "
     "whose loss satisfies the sufficient-decrease (Armijo) condition for "
     "that very step and the required improvement, or else at the smallest "
     "step above the minimal one. The parameters end at exactly start plus "
     "step times direction and the loss returned is the loss there; "
     "parameters without gradient stay. The direction is that of the "
     "documented method (gradient descent with momentum, dampening, Nesterov, "
     "weight decay; Adam with AMSGrad, weight decay) over the whole history "
     "of steps. Options outside their range are refused.",
     "all loss functions, gradients, options, histories",
     "Tests run a few quadratic problems and look at convergence only.",
     ["line_search_gd.py", "line_search_adam.py"],
     [("LineSearchGD.step", "line_search_gd.py"),
      ("LineSearchAdam.step", "line_search_adam.py")], (),
     ["parameters and loss after a step"], ("inputs", "histories"))

prop("C22", "Rotations, integration, simulation and encoders follow their equations",
     "Roll-pitch-yaw to rotation matrix conversion gives a proper rotation "
     "equal to yaw times pitch times roll, its derivatives are those of that "
     "matrix, and the numpy and torch forms agree. The fixed-step integrator "
     "takes the classical fourth-order Runge-Kutta steps for every vector "
     "field, with the control computed once at the initial state and held. "
     "Stepping a closed loop returns the whole path from the start state on; "
     "simulating a plant feeds it the saturated control clamp(phi(x) - "
     "phi(x*) + u*, u_lo, u_up). Image encoders return, for every image of "
     "the batch, the mean (first z_dim outputs) and the log-variance (the "
     "rest), decoders one image (batch, channels, width, height) with values "
     "in [0, 1], for image sizes the architecture divides evenly.",
     "all angles, vector fields, step sizes, states, layer weights",
     "Tests compare a handful of sampled angles and one system.",
     ["geometry_transform.py", "integrator.py", "encoders.py", "utils.py"],
     [("rpy2rotmat and rpy2rotmat_gradient", "geometry_transform.py"),
      ("rk4_constant_control", "integrator.py"),
      ("step_system, simulate_plant_with_controller", "utils.py"),
      ("encoders and decoders", "encoders.py")], (),
     ["returned matrices, trajectories, tensors"])

prop("C23", "Spring-loaded pendulum models keep their physics",
     "For every admissible state, the hopper's flight and stance dynamics, "
     "guards, touch-down and lift-off maps are the stated equations of "
     "motion and conserve energy (the two maps undo one another). The apex "
     "map composes ballistic fall, touch-down map, the stance flow until the "
     "leg has its rest length again, lift-off map and ballistic climb, and "
     "returns None exactly when the foot starts below the ground, the leg "
     "points against the velocity, the hopper falls over or lifts off "
     "downwards. All gradients are the derivatives of those maps (the stance "
     "phase's by the sensitivity equation with the event's timing). The "
     "linearised hopper on stepping stones is, at its sample, the value and "
     "first-order change of the map, the step's duration and the three "
     "admissibility conditions.",
     "all physical parameters, states, leg angles, stepping stones",
     "Tests evaluate a few states numerically, to the accuracy of an ODE "
     "solver.",
     ["spring_loaded_inverted_pendulum.py",
      "slip_hybrid_linear_system.py"],
     [("SLIP", "spring_loaded_inverted_pendulum.py"),
      ("SlipHybridLinearSystem.apex_map_linear_approximation",
       "slip_hybrid_linear_system.py")], (),
     ["dynamics, map and gradient values"])

prop("C24", "Certified sublevel sets stay inside the verified region",
     "The program of a level set's boundary admits exactly the states on the "
     "boundary of the verified box, with the Lyapunov function's value as its "
     "objective. The region-of-attraction programs admit exactly the steps "
     "that leave the box, or enter it, from and to states of the given larger "
     "box, with the Lyapunov value of the first state as objective, and the "
     "level returned is the least of their optima and of the verified upper "
     "bound. Hence a state of the box below that level cannot leave the box "
     "in one step.",
     "all networks, R, boxes, larger boxes and states; all solver outcomes",
     NOGRB + "for one network.",
     ["lyapunov.py", "train_lyapunov_barrier.py"],
     [("_construct_milp_for_roa_boundary, _construct_milp_for_roa, "
       "compute_region_of_attraction", "lyapunov.py"),
      ("solve_boundary_gap_mip", "train_lyapunov_barrier.py")], (),
     ["program rows, objective, returned level"])


prop("C25", "Gradient surgery, samplers, approximator and helper maths",
     "project_gradient leaves in the parameters, per its mode, the sum of "
     "the two losses' gradients when their angle is acute, and otherwise the "
     "sum after projecting the gradients that the mode names on the plane "
     "normal to the other, so that the first-order change it protects is "
     "kept. The samplers return only points of the box or of its boundary, "
     "reach every face, and the mesh has every grid point once. The "
     "approximator trainer takes one step per batch along the gradient of "
     "the mean squared error and stops as documented. linear_program_cost "
     "is the optimum of its program, with the true gradient, the "
     "early-termination callback stops exactly above its threshold, and the "
     "numerical helpers (finite differences, nearest sample, conversions) "
     "return what they document.",
     "all gradients, boxes, random draws, data, thresholds and programs",
     "Tests sample random draws and one small regression; those of "
     "train_utils and utils are not among the stable tests.",
     ["utils.py", "train_utils.py"],
     [("uniform_sample_in_box, uniform_sample_on_box_boundary, "
       "get_meshgrid_samples, linear_program_cost, "
       "train_approximator", "utils.py"),
      ("project_gradient", "train_utils.py")], (),
     ["gradients, samples, costs, returned values"])

prop("C26", "Piecewise linear Lyapunov synthesis solves the documented program",
     "The program of SimplePWLLyapunov admits exactly the piecewise linear "
     "functions and slacks that satisfy conditions (6)-(9) of its "
     "documentation: at every vertex of every mode given, slack s1 bounds "
     "the derivative plus eps2 V and slack s2 bounds eps1 |x - x*|_1 - V, "
     "neighbouring modes agree at every common vertex, the value at the "
     "equilibrium is zero and slacks are nonnegative; vertices outside the "
     "stated side of the equilibrium are refused; the objective is the "
     "documented weighting of the slacks and the solver's solution is "
     "returned unchanged. Hence a solution of cost zero is a Lyapunov "
     "function on the whole of each mode.",
     "all modes, vertices, dynamics, margins; every solution of the program",
     "Tests check one system's solution at samples.",
     ["simple_pwl_lyapunov.py"],
     [("SimplePWLLyapunov", "simple_pwl_lyapunov.py")], (),
     ["constraints and objective of the program, returned function"])

prop("C27", "Learning dynamics with a Lyapunov certificate optimises its loss",
     "In both learners (states and images), every batch takes one optimizer "
     "step along the gradient of the prediction loss plus the three weighted "
     "Lyapunov losses at that batch's samples inside the stable box, and "
     "every lyap_loss_freq-th batch one along the weighted optima of the "
     "three programs, solved to the end or stopped exactly above the current "
     "sample losses, warm-started at their last solutions. Prediction, "
     "reconstruction and divergence losses are the documented means over the "
     "whole batch, rollouts follow the learnt dynamics, adversarial samples "
     "are exactly the solutions with positive objective, validation is the "
     "mean over the validation set, and saved learners load as saved.",
     "all systems, Lyapunov functions, coders, data, weights, solver results",
     NOGRB + "for one dataset and one seed.",
     ["dynamics_learning.py"],
     [("DynamicsLearning, StateSpaceDynamicsLearning, "
       "LatentSpaceDynamicsLearning", "dynamics_learning.py")], (),
     ["losses, gradients of steps, rollouts, saved files"])

prop("C28", "Simulated data sets hold consecutive moments of one motion",
     "Every sample of the physics data generator starts from its own settled "
     "world with the robot placed in exactly the state given, and returns "
     "the positions and velocities of all joints (or pose and velocities of "
     "the body) one duration later, with the pictures of the start, the "
     "middle and the end of that motion, channels first, scaled to [0,1], "
     "grey ones with the documented weights. Rollouts chain such samples, "
     "data sets pair states and pictures of the same step, initial states "
     "lie in the box, added noise is proportional to the mean magnitude of "
     "each dimension, loaders shuffle the pairs given, and generators do not "
     "share a world.",
     "all states, pictures, boxes, draws, data and answers of the engine",
     "Tests check shapes only, for one pendulum and one cube.",
     ["pybullet_data_generation.py"],
     [("PybulletSampleGenerator, add_noise, get_dataloader",
       "pybullet_data_generation.py")], (),
     ["calls of the engine, states, images, data sets"])

prop("C29", "Encodings, programs, values and losses carry their gradients",
     "Every number recorded in an encoding of a network or of a system, in a "
     "verification program (matrices, right hand sides, bounds, objective), "
     "in a certificate's value or derivative, in a loss or in R is a "
     "differentiable function of the parameters it is computed from: of the "
     "certificate's, controller's, dynamics' and coders' weights and of R. "
     "None of them is recorded as a copy of the present values, so that the "
     "gradients handed to training are those of the quantities verified. "
     "Holds for bounds by interval arithmetic; bounds found by solving "
     "programs are constants by design.",
     "all weights, biases, R, boxes, states and settings",
     "A detached or copied number leaves every value right and only the "
     "gradient wrong; tests compare few gradients at few points.",
     ["relu_to_optimization.py", "lyapunov.py", "relu_system.py",
      "feedback_system.py", "control_affine_system.py", "barrier.py",
      "continuous_time_lyapunov.py", "r_options.py"],
     [("ReLUFreePattern", "relu_to_optimization.py"),
      ("LyapunovHybridLinearSystem", "lyapunov.py")], (),
     ["gradients of encodings, programs, values, losses"])


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            fh.write(json.dumps(p) + "\n")
    sys.path.insert(0, os.path.join(HERE, "tools"))
    import manifest
    manifest.write(P)


if __name__ == "__main__":
    main()
