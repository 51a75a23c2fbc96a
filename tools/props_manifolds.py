IN = ["inputs", "configurations"]
FEW = (
    "the unit tests sample one random point of one size per manifold and "
    "compare a few formulas; the guarantee is for every point, tangent "
    "vector, size and stack count, including degenerate and boundary inputs"
)

prop(
    "M01", "Operations that return a point return a finite point of the manifold",
    "Random sampling, retraction, exponential map, pairwise mean and point "
    "normalisation always return a finite point that satisfies the defining "
    "constraints of the manifold (unit norm, orthonormal columns, symmetry "
    "and definiteness, determinant, rank, correlation diagonal, ...) with the "
    "shape and real/complex kind of the manifold's points. This holds for "
    "every start point, tangent vectors of any length including zero, and "
    "after long chains of such operations.",
    IN, SPACES + "; start points sampled, canonical, nearly degenerate and "
    "library-generated; tangent vectors generic, sparse, zero, tiny and long",
    FEW, ALLMAN,
    [("retraction / exp / random_point / pair_mean", MAN)],
    ["return values of random_point, retraction, exp, pair_mean"],
)
prop(
    "M02", "Operations that return a tangent vector return a tangent vector",
    "Random tangent vectors, projections, re-tangentialisations, zero vectors, "
    "logarithms, vector transports and gradient/Hessian conversions always "
    "return finite vectors that satisfy the tangency conditions at the point "
    "they belong to (horizontality on quotients). Random tangent vectors have "
    "unit norm, zero vectors have norm zero, and re-tangentialising a tangent "
    "vector leaves it unchanged.",
    IN, SPACES + "; points of all styles, ambient vectors of any size",
    FEW, ALLMAN,
    [("projection / to_tangent_space / transport / log", MAN)],
    ["return values of all tangent-vector valued manifold methods"],
)
prop(
    "M03", "Projection is the orthogonal projection onto the tangent space",
    "Projecting an ambient vector onto the tangent (horizontal) space yields "
    "the closest tangent vector: the operation is linear, idempotent, and the "
    "removed part is orthogonal to every tangent vector. On manifolds whose "
    "metric is not the ambient one the orthogonality is with respect to the "
    "ambient inner product documented for the projection.",
    IN, SPACES + "; arbitrary ambient vectors", FEW, ALLMAN,
    [("projection", MAN)], ["return values of projection"],
)
prop(
    "M04", "The metric is a genuine, real inner product matching its norm",
    "On every tangent space the inner product is a finite real scalar that is "
    "symmetric, bilinear and positive definite and equals the documented "
    "metric of the manifold. The norm is its square root, including for zero "
    "vectors and for vectors spanning many orders of magnitude.",
    IN, SPACES + "; all pairs of tangent vectors at all points", FEW, ALLMAN,
    [("inner_product / norm", MAN)],
    ["return values of inner_product and norm"],
)
prop(
    "M05", "Retractions agree with the tangent direction to first order",
    "Retracting the zero vector returns the start point, and moving along a "
    "tangent vector by a small step leaves the point in exactly that "
    "direction with unit speed. Retractions documented as the exponential map "
    "or as second order also match the geodesic to second order.",
    IN, SPACES + "; points of all styles, all tangent directions",
    FEW + "; a retraction with a wrong factor still returns points of the "
    "manifold", ALLMAN, [("retraction", MAN)],
    ["return values of retraction at several step sizes"],
)
prop(
    "M06", "Exponential and logarithm are the geodesic maps and mutual inverses",
    "Where a manifold provides them, the exponential map follows the true "
    "geodesic of the metric and the logarithm inverts it inside the "
    "injectivity radius; both are finite, and real for real manifolds, for "
    "coinciding, tiny and far apart arguments up to just before the cut "
    "locus (antipodes, half-turns, orthogonal subspaces). The length of the logarithm equals the distance.",
    IN, SPACES + "; tangent vectors from 1e-12 up to the injectivity radius",
    FEW + "; near-identical points hit arccos/arctanh singularities that a "
    "random pair never meets", ALLMAN, [("exp / log", MAN)],
    ["return values of exp and log compared to closed-form geodesics"],
)
prop(
    "M07", "Distance is the geodesic metric",
    "The distance between two points is a finite non-negative real number "
    "equal to the length of the shortest geodesic; it is symmetric, zero "
    "exactly on identical points, and satisfies the triangle inequality. This "
    "includes identical, nearly identical, antipodal and far apart points, and "
    "pairs at the cut locus such as half-turns and orthogonal subspaces.",
    IN, SPACES + "; all pairs and triples of points",
    FEW, ALLMAN, [("dist", MAN)], ["return values of dist"],
)
prop(
    "M08", "Pairwise mean is the geodesic midpoint",
    "Where provided, the mean of two points is a point at equal distance from "
    "both that lies on the minimizing geodesic between them and does not "
    "depend on their order. It is finite and equals the point itself when "
    "both coincide.",
    IN, SPACES + "; pairs of points up to just inside the injectivity radius", FEW,
    ALLMAN, [("pair_mean", MAN)], ["return values of pair_mean"],
)
prop(
    "M09", "Vector transport moves tangent vectors consistently",
    "Transporting a tangent vector from one point to another gives a tangent "
    "vector at the destination, is linear in the vector, is the identity when "
    "both points coincide, and changes continuously with the destination on submanifolds. "
    "Transports documented as parallel or isometric preserve inner products, "
    "all others match their documented projection.",
    IN, SPACES + "; pairs of points, near and far", FEW, ALLMAN,
    [("transport", MAN)], ["return values of transport"],
)
prop(
    "M10", "Riemannian gradients represent the directional derivative",
    "Converting the Euclidean gradient of any smooth cost gives the unique "
    "tangent vector whose inner product with every tangent vector equals the "
    "derivative of the cost in that direction. The conversion is linear in "
    "the Euclidean gradient.",
    IN, SPACES + "; smooth costs with closed-form derivatives, all points",
    FEW + "; a wrong metric factor or a missing projection only shows as a "
    "mismatch with the actual derivative", ALLMAN,
    [("euclidean_to_riemannian_gradient", MAN)],
    ["return values compared with derivatives of the cost along curves"],
)
prop(
    "M11", "Riemannian Hessians are the covariant derivative of the gradient",
    "Converting Euclidean Hessian-vector products gives an operator on the "
    "tangent space that is linear and self-adjoint with respect to the metric "
    "and whose quadratic form equals the second derivative of the cost along "
    "geodesics. This holds away from critical points as well.",
    IN, SPACES + "; smooth costs with closed-form derivatives, all points and "
    "directions", FEW + "; curvature (Weingarten) terms vanish at critical "
    "points or for linear costs", ALLMAN,
    [("euclidean_to_riemannian_hessian, weingarten", MAN)],
    ["return values compared with second derivatives along geodesics"],
)
prop(
    "M12", "Dimensions, diameters and layouts describe the actual geometry",
    "The advertised dimension equals the rank of the tangent space, the "
    "number and layout of point components match the returned points, and the "
    "typical distance is a positive finite scale. Constructors reject "
    "meaningless sizes instead of building a broken manifold.",
    ["configurations", "inputs"], SPACES + "; valid and invalid sizes",
    "tests check single sizes; the formulas must hold for all sizes, stack "
    "counts and nested products", ALLMAN,
    [("dim, typical_dist, num_values, point_layout", MAN)],
    ["attributes dim, typical_dist, num_values, point_layout; constructor errors"],
)
prop(
    "M13", "A stack of k objects behaves like k independent objects",
    "On stacked manifolds every operation gives, component by component, "
    "what the unstacked manifold gives, with metrics summed over components "
    "and distances combined in root-sum-square. Changing one component never "
    "affects another.",
    IN, "every manifold with a stack parameter, k = 1, 2, 3, ...", FEW,
    [MAN + f for f in ("stiefel.py", "grassmann.py", "group.py",
                       "positive.py", "positive_definite.py",
                       "hyperbolic.py", "sphere.py", "oblique.py",
                       "complex_circle.py")] + ["src/pymanopt/tools/multi.py"],
    [("stacked linear algebra", "src/pymanopt/tools/multi.py")],
    ["return values of all operations, stacked against unstacked"],
)
prop(
    "M14", "Product manifolds act factor by factor with the summed metric",
    "On a product of manifolds every operation applies the corresponding "
    "operation of each factor to the matching component, inner products and "
    "dimensions add up, and distances (also the typical ones) combine in "
    "root-sum-square. Results "
    "support the same vector arithmetic and stay correctly paired with their "
    "factor for any order, number and nesting of components.",
    IN, "products of any shipped manifolds, including factors whose points "
    "have several components", FEW, [MAN + "product.py", MAN + "manifold.py"],
    [("Product", MAN + "product.py")],
    ["return values of all Product operations"],
)
prop(
    "M15", "On quotient manifolds results do not depend on the representative",
    "Replacing a point by an equivalent representative (another orthonormal "
    "basis, another factor of the same matrix, another factorisation) changes "
    "no distance, inner product, gradient norm or resulting equivalence class "
    "when tangent vectors are moved along. Operations return horizontal "
    "vectors.",
    IN, "Grassmann, fixed-rank positive semidefinite, elliptope and "
    "fixed-rank manifolds; all representatives", FEW,
    [MAN + f for f in ("grassmann.py", "psd.py", "fixed_rank.py")],
    [("horizontal projection and alignment", MAN)],
    ["return values for pairs of equivalent inputs"],
)
prop(
    "M16", "Tangent vectors form a vector space and embedding is linear",
    "Tangent vectors returned by any operation can be added, subtracted, "
    "negated and scaled by Python and NumPy scalars from either side, stay "
    "tangent vectors, and can be fed back into every operation. Embedding a "
    "tangent vector into the ambient space is linear and agrees with the "
    "derivative of the point in that direction.",
    IN, SPACES + "; all ways to obtain a tangent vector", FEW,
    ALLMAN + ["src/pymanopt/tools/__init__.py"],
    [("tangent vector classes, embedding", MAN)],
    ["results of vector arithmetic and embedding"],
)
prop(
    "M17", "Manifold operations leave their inputs alone and keep no state",
    "No operation modifies the points or vectors passed to it, and the result "
    "of a deterministic operation depends only on its arguments: repeating "
    "it, overwriting earlier results, interleaving it with others or using read-only, non-contiguous or "
    "reused arrays gives the same result. Random sampling is driven only by "
    "the global NumPy seed and returns fresh, independent objects.",
    ["inputs", "histories"], SPACES + "; any interleaving of operations",
    "tests never look at the arguments after a call or repeat calls", ALLMAN,
    [("pure functions over arrays", MAN)],
    ["arguments before and after every call, repeated calls"],
)
prop(
    "M18", "Random samples are unit, symmetric, full-rank and uniform",
    "random_tangent_vector returns unit vectors which reach all directions of "
    "the tangent space and prefer none over its opposite. random_point "
    "returns a new point on every call; on spheres, oblique and complex "
    "circle manifolds, Stiefel, Grassmann and the orthogonal and unitary "
    "groups points are distributed uniformly (Haar measure). The copies of a "
    "stack and the factors of a product are drawn independently.",
    ["inputs", "histories"], SPACES + "; sequences of draws",
    "a single draw in a test says nothing about a distribution", ALLMAN,
    [("random_point, random_tangent_vector", MAN)],
    ["samples drawn by random_point and random_tangent_vector"],
    note="statistical oracles at 6.5 standard errors",
)
prop(
    "M19", "Operations commute with the symmetries of the manifolds",
    "Applying a natural symmetry of the manifold to all arguments of an "
    "operation moves its result along: rotations, permutations of stacked "
    "copies and interchangeable entries, sign and phase changes, group "
    "translations, congruences of positive matrices and rescalings of "
    "positive entries leave inner products, norms and distances unchanged and "
    "carry points, projections, transports, logarithms, gradients and "
    "Hessians to their images. Rescaling a Euclidean, semidefinite or "
    "fixed-rank point by any factor merely rescales the results.",
    IN, SPACES + "; random symmetries, scale factors over many orders of "
    "magnitude", FEW, ALLMAN,
    [("all operations of the manifold classes", MAN)],
    ["results for pairs of inputs related by a symmetry"],
)
prop(
    "M20", "Results do not depend on the numerical type of equal inputs",
    "Points, tangent vectors and derivatives may be given in any numerical "
    "type which holds their values: integers (identity matrices, unit "
    "vectors), real arrays where the manifold is complex, or single "
    "precision. Every operation accepts them and returns what it returns for "
    "equal inputs in double precision (to the accuracy of the type).",
    ["inputs"], SPACES + "; integer, real and single precision copies of "
    "points, vectors and derivatives, alone or mixed",
    "tests use random float points only", ALLMAN,
    [("all operations of the manifold classes", MAN)],
    ["results for equal inputs in two numerical types"],
)
