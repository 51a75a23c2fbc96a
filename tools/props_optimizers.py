RUNS = ["inputs", "configurations", "histories"]
RT = (
    "every optimizer (steepest descent, conjugate gradient, trust regions, "
    "Nelder-Mead, particle swarm) on every manifold that supports it, every "
    "valid parameter setting, start point and deterministic finite-or-+inf "
    "cost"
)
RWHY = (
    "the unit tests run each optimizer a handful of times and look at the "
    "last point or at nothing but the absence of exceptions; the guarantee "
    "is about every step of every run"
)

prop(
    "O01", "Iterates stay on the manifold, directions are tangent vectors",
    "During every optimizer run each point at which the cost or gradient is "
    "evaluated, each iterate and the returned point are finite points of the "
    "manifold, and every vector handed to retractions, transports, inner "
    "products, preconditioners and line searchers is a finite tangent vector "
    "at the point it is used with. This includes runs that start at or reach "
    "a critical point exactly, and costs for which directions are exactly "
    "orthogonal or curvatures exactly zero.",
    RUNS, RT, RWHY, ALLOPT,
    [("run loops, inner solver, line searches, centroid", OPT)],
    ["arguments of cost/gradient callbacks, manifold methods, line searchers"],
)
prop(
    "O02", "Descent methods never go uphill; swarm and simplex keep the best",
    "For steepest descent, conjugate gradient and trust regions the cost of "
    "successive iterates never increases (up to the documented rounding "
    "regularisation of trust regions) and the result is no worse than the "
    "start. Nelder-Mead and particle swarm return the best point among all "
    "points they evaluated, also when the cost is infinite in parts of the "
    "manifold.",
    RUNS, RT, RWHY, ALLOPT, [("accept/reject logic of each optimizer", OPT)],
    ["cost callback, iterates, returned result"],
)
prop(
    "O03", "The returned result describes the returned point and the run",
    "OptimizerResult.cost is the cost of OptimizerResult.point, which was "
    "evaluated during the run; gradient_norm is the Riemannian gradient norm "
    "at that point, step_size the length of the last line-search step. "
    "iterations, cost_evaluations and time equal the number of steps begun, "
    "the number of cost evaluations performed and the time the run took, and "
    "stopping_criterion states a reason.",
    RUNS, RT + "; observed under a virtual clock", RWHY, ALLOPT,
    [("_return_result and the counters of each optimizer", OPT)],
    ["OptimizerResult fields against the event log of the run"],
)
prop(
    "O04", "Every run terminates, for the reason it states, without overrun",
    "Every run terminates, and the stated stopping criterion (maximum time, "
    "iterations, cost evaluations, minimum gradient norm, minimum step size) "
    "really holds at that moment. No optimizer begins a further iteration "
    "once one of the configured criteria that apply to it is met.",
    RUNS, RT + "; positive thresholds, any combination of limits, virtual "
    "clock", RWHY, ALLOPT,
    [("_check_stopping_criterion and its callers", OPT)],
    ["stopping_criterion, result fields, event log, virtual clock"],
)
prop(
    "O05", "The optimizer log is a faithful record of the run",
    "With log_verbosity of at least 1 the log holds one entry per iteration "
    "with consecutive iteration numbers and non-decreasing times, whose "
    "points are the iterates (the best point so far for Nelder-Mead and "
    "particle swarm) and whose costs and gradient norms are those of the "
    "logged point; the last entry is the result. With log_verbosity 0 there "
    "are no entries, the recorded parameters are the ones in force, and a "
    "later run leaves the log of an earlier result alone.",
    RUNS, RT, RWHY, ALLOPT, [("_initialize_log / _add_log_entry", OPT)],
    ["result.log against the event log of the run"],
)
prop(
    "O06", "Runs are reproducible and leave their inputs and the optimizer alone",
    "A run is a function of problem, start, parameters and random seed: the "
    "same ones give bit-for-bit the same result, log and statistics. Running "
    "never modifies the initial point, population or simplex, the line "
    "searcher that was passed in or an earlier result, and an optimizer "
    "instance that has been used before, also on another problem, behaves "
    "like a fresh one. Starts of equal value but another numerical type "
    "(such as an integer identity matrix) are as good.",
    RUNS, RT + "; histories of several runs "
    "on one instance", RWHY, ALLOPT,
    [("run methods, line searcher copies, default parameters", OPT)],
    ["digests of inputs and results before and after runs"],
)
prop(
    "O07", "Line searches honour their acceptance and step-size contract",
    "Both line searchers try points retraction(x, alpha*d) only, contract "
    "alpha by the contraction factor until the Armijo condition holds for the "
    "first time, and use at most max_iterations+1 evaluations. They return "
    "the last trial and its length if it does not increase the cost and "
    "(0, x) otherwise. A fresh searcher starts with a step of "
    "initial_step_size; later searches start from the documented guess, "
    "which is positive and finite.",
    RUNS, "both line searchers, every parameter setting, manifold, point, "
    "descent direction of any length and sequence of searches", RWHY,
    [OPT + "line_search.py"],
    [("BackTrackingLineSearcher.search / AdaptiveLineSearcher.search",
      OPT + "line_search.py")],
    ["retraction and objective calls of a search, its return value"],
)
prop(
    "O08", "Search directions follow the documented update rules",
    "Steepest descent searches along the negative gradient. Conjugate "
    "gradient searches along minus the preconditioned gradient plus beta "
    "times the transported previous direction with the beta of the chosen "
    "rule, restarts when that is no descent direction or when Powell's "
    "criterion fires, and always passes the true directional derivative to "
    "the line searcher.",
    RUNS, "steepest descent and every conjugate gradient rule, orth_value, "
    "preconditioner and manifold", RWHY,
    [OPT + "conjugate_gradient.py", OPT + "steepest_descent.py"],
    [("BETA_RULES and the run loop", OPT + "conjugate_gradient.py")],
    ["arguments of the line searcher"],
)
prop(
    "O09", "Trust-region steps obey radius, model decrease and acceptance test",
    "Every proposed step lies within the current radius, which starts at "
    "Delta0, never exceeds Delta_bar, shrinks by 4 after poor agreement and "
    "doubles after good steps that end on the boundary. The step decreases "
    "the quadratic model at least as much as the Cauchy point, is accepted "
    "exactly if the regularised ratio exceeds rho_prime, and the inner solver "
    "respects mininner, maxinner and its residual rule.",
    RUNS, "every manifold with second-order information, all parameters incl. "
    "use_rand, preconditioners, indefinite Hessians", RWHY,
    [OPT + "trust_regions.py"],
    [("outer loop and _truncated_conjugate_gradient",
      OPT + "trust_regions.py")],
    ["retraction, Hessian, cost and preconditioner calls"],
)
prop(
    "O10", "Nelder-Mead follows its simplex decision table",
    "Nelder-Mead keeps dim+1 vertices, reflects the worst vertex through the "
    "Karcher mean of the others, and expands, contracts outside or inside, or "
    "shrinks towards the best vertex exactly as its cost comparisons "
    "prescribe, with the configured coefficients. It starts from the supplied "
    "simplex and returns the best vertex.",
    RUNS, "every manifold with log and pair_mean, all coefficients", RWHY,
    [OPT + "nelder_mead.py"],
    [("run loop and compute_centroid", OPT + "nelder_mead.py")],
    ["cost, retraction, logarithm and pair_mean calls"],
)
prop(
    "O11", "Particle swarm updates combine inertia, memory and social pull",
    "Every particle moves along its velocity: the decreasing inertia weight "
    "times the transported previous velocity plus random multiples, within "
    "[0, nostalgia] and [0, social], of the directions to its own best and to "
    "the swarm's best position so far. The supplied population is used as the "
    "start and the best evaluated position is returned.",
    RUNS, "every manifold with log and transport, all coefficients and "
    "population sizes", RWHY, [OPT + "particle_swarm.py"],
    [("run loop", OPT + "particle_swarm.py")],
    ["cost, retraction and random tangent vector calls"],
)
prop(
    "O12", "Optimizers reach the known optimum of well-posed problems",
    "On problems whose only local minima are global and known in closed form "
    "(eigenvectors, dominant subspaces, Procrustes, covariance estimation, "
    "low-rank approximation, phase synchronisation, products of these) the "
    "gradient-based optimizers converge to the optimal cost from random "
    "starts, and the derivative-free ones come close in low dimension.",
    RUNS, "random well-conditioned instances of 20 problem families, every "
    "optimizer and conjugate gradient rule", RWHY, ALLOPT + ALLMAN,
    [("optimizers together with manifolds", OPT)],
    ["final cost against the closed-form optimum"],
)
