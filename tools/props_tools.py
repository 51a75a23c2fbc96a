TOOLS = "src/pymanopt/tools/"
prop(
    "T01", "Stacked matrix functions equal the function of each matrix",
    "Transpose, conjugate transpose, symmetric, Hermitian, skew and skew-"
    "Hermitian parts, identities, matrix exponential and logarithm (general "
    "and symmetric/positive definite variants) of a stack equal the result "
    "for each matrix on its own and the mathematical definition, keep real "
    "input real and leave the input unmodified. multiqr returns a "
    "factorisation A = QR with orthonormal Q and upper triangular R with real "
    "non-negative diagonal, also for wide, tall, rank-deficient and complex "
    "matrices.",
    IN, "all matrix sizes, stack sizes, real and complex entries of any "
    "scale, rank-deficient and repeated-eigenvalue matrices",
    "tests use one generic stack per function", [TOOLS + "multi.py"],
    [("vectorised linear algebra", TOOLS + "multi.py")],
    ["return values of the multi* functions"],
)
prop(
    "T02", "Numerical derivative checks tell right from wrong derivatives",
    "check_directional_derivative evaluates the Taylor model error at the "
    "documented step sizes and identifies the most linear window of the "
    "log-log curve; correct first-order models show slope two, wrong "
    "gradients slope one. check_gradient and check_hessian report a near-zero "
    "residual for tangent, linear, symmetric derivatives and the actual "
    "residual otherwise; check_retraction reports slope two or three for "
    "first and second order retractions and one for maps that are none.",
    IN, "all manifolds with the required operations, costs, points, "
    "directions and kinds of mistakes",
    "tests only look at whether the functions run",
    [TOOLS + "diagnostics.py"],
    [("Taylor model, linear piece, residuals", TOOLS + "diagnostics.py")],
    ["return values and printed residuals of the check functions"],
)
prop(
    "T03", "Output is silent at verbosity zero, faithful above, never matters",
    "At verbosity 0 no optimizer prints anything; from 1 on it announces the "
    "stopping criterion exactly once; from 2 on the printed iterations, costs "
    "and gradient norms are those of the run, one aligned row per iteration. "
    "The result of a run is the same whatever the verbosity and log "
    "verbosity.",
    ["configurations", "inputs"],
    "every optimizer and valid configuration, including zero iterations",
    "tests run optimizers at a single verbosity and never read the output",
    [TOOLS + "printer.py"] + ALLOPT,
    [("column printer", TOOLS + "printer.py"), ("progress output", OPT)],
    ["standard output of runs compared with their log"],
)
prop(
    "T04", "Projection-based test helpers match the manifold's conversions",
    "On Riemannian submanifolds of Euclidean space the helpers of "
    "tools.testing, given the orthogonal projector, produce the Riemannian "
    "gradient and Hessian-vector product that the manifold's own conversions "
    "produce.",
    IN, "embedded submanifolds, costs, points and tangent vectors",
    "each test uses one manifold, point and direction",
    [TOOLS + "testing.py", MAN + "sphere.py", MAN + "stiefel.py",
     MAN + "oblique.py"],
    [("projector based conversions", TOOLS + "testing.py")],
    ["return values of the helper functions"],
)
