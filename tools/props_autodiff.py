PROGS = ["programs", "inputs"]
PT = (
    "all compositions of differentiable operations the backends support, any "
    "number, shape and memory layout of real and complex arguments, any "
    "manifold layout"
)
PWHY = (
    "the unit tests differentiate three fixed cost functions; conversion "
    "mistakes show only for other shapes, complex numbers, unused arguments "
    "or sequences of calls"
)

prop(
    "A01", "Automatic gradients are exact on every backend",
    "The Euclidean gradient derived by any backend (autograd, JAX, PyTorch, "
    "TensorFlow) equals the exact gradient of the decorated cost function to "
    "rounding, where the gradient with respect to a complex argument is the "
    "vector representing the directional derivative in the real inner "
    "product. It is returned as NumPy arrays with the shape, and the real or "
    "complex kind, of each argument, including arguments the cost ignores or "
    "uses only in part. Single precision arguments give single precision "
    "gradients, accurate to what that precision allows. Costs may branch in "
    "Python on the values of their arguments and may depend on data which "
    "changes between calls.",
    PROGS, PT, PWHY, ALLAD,
    [("generate_gradient_operator of each backend", AD + "backends"),
     ("conversion of arguments and results", AD + "backends")],
    ["return values of Problem.euclidean_gradient and Function gradient "
     "operators"],
)
prop(
    "A02", "Automatic Hessian-vector products are exact on every backend",
    "The Euclidean Hessian derived by any backend, applied to any direction, "
    "equals the directional derivative of the Euclidean gradient to rounding, "
    "for real and complex arguments, several arguments at once, costs which "
    "are linear in or independent of some arguments, and for directions of any "
    "length, including zero, also for costs that branch on values or depend on "
    "changing data. Results are NumPy arrays of the shape, kind and "
    "precision of the arguments.",
    PROGS, PT + "; any direction", PWHY, ALLAD,
    [("generate_hessian_operator of each backend", AD + "backends")],
    ["return values of Function Hessian operators"],
)
prop(
    "A03", "Cost, gradient and Hessian evaluations are pure",
    "Evaluating a decorated cost, gradient or Hessian never modifies its "
    "arguments and depends only on their values: not on memory layout, "
    "writability, on what was evaluated before, in what order, or on other "
    "functions built from the same code. Results never share memory with "
    "the arguments or with earlier results; the cost is a Python or NumPy "
    "real scalar equal to that of the undecorated function.",
    ["programs", "histories", "inputs"],
    PT + "; any interleaving of evaluations", PWHY, ALLAD,
    [("backend wrappers and cached operators", AD)],
    ["arguments before and after, repeated and reordered calls"],
)
prop(
    "A04", "Problem supplies consistent derivatives whatever the user provides",
    "For every combination of automatic and user-supplied Euclidean or "
    "Riemannian gradients and Hessians, Problem calls the supplied function "
    "with the point (and the ambient form of the tangent vector for "
    "Euclidean Hessians) unpacked to its arguments, uses its value, and "
    "derives the rest from it through the manifold's conversions. Results "
    "have the structure of tangent vectors of the manifold, including "
    "products and factored points, and combine with other tangent vectors, and "
    "depend on the current contents of points and vectors only, even if these "
    "were overwritten in place since the last call; "
    "NumPy costs without derivatives raise NotImplementedError.",
    ["configurations", "programs", "inputs"],
    "every backend, manifold layout and combination of supplied derivatives",
    "tests cover two manifolds and one mixture", ALLAD,
    [("wrapping of functions and derivatives", "src/pymanopt/core/problem.py")],
    ["Problem.cost, .euclidean_gradient, .riemannian_gradient, "
     ".euclidean_hessian, .riemannian_hessian, .preconditioner"],
)
prop(
    "A05", "Invalid use is rejected with the documented exception",
    "Decorators reject anything but manifold instances (TypeError), functions "
    "with keyword or mixed signatures (ValueError) and unavailable backends "
    "(RuntimeError); Problem rejects undecorated functions, conflicting "
    "derivatives, malformed derivative values or points, and overriding its "
    "manifold or preconditioner. Manifold constructors reject impossible "
    "sizes, copies, layouts, retractions and nested products (ValueError or "
    "TypeError), unimplemented operations raise NotImplementedError, and "
    "optimizers and tools reject wrong simplices, populations, update rules "
    "and incomplete arguments; valid use of each kind is accepted.",
    ["inputs", "configurations"],
    "all kinds of misuse named, with arbitrary sizes and values",
    "tests sample a few of these errors with one value each",
    ALLAD + ALLMAN + ALLOPT,
    [("argument validation", "src/pymanopt")],
    ["exceptions raised by constructors, decorators, Problem, optimizers"],
)
prop(
    "A06", "Optimizer runs do not depend on the backend",
    "An optimizer given automatic derivatives of any backend performs the "
    "same iterations and returns the same point and cost, to rounding, as "
    "with hand-written derivatives of the same function.",
    ["programs", "configurations", "inputs"],
    "steepest descent, conjugate gradient and trust regions on every "
    "manifold, any backend and cost; runs short enough not to amplify "
    "rounding", PWHY, ALLAD + ALLOPT,
    [("Problem derivatives used by optimizers", OPT)],
    ["OptimizerResult of paired runs"],
)
