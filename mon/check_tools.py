"""Monitors for misuse rejection (A05) and for pymanopt.tools (T01..T04)."""

import contextlib
import io
import re
import warnings

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import scipy.linalg

import opt as O
import pymanopt
import pymanopt.manifolds as pm
import spaces as S
from core import CaseAbort, digest_of, flat, leaves, rel_err
from pymanopt.manifolds.manifold import Manifold
from pymanopt.tools import (
    bisect_sequence, diagnostics, multi, printer, testing,
    unpack_singleton_sequence_return_value,
)


class captured:
    """Everything written to stdout, split into lines."""

    def __enter__(self):
        self.buffer = io.StringIO()
        self.redirect = contextlib.redirect_stdout(self.buffer)
        self.redirect.__enter__()
        return self

    def __exit__(self, *a):
        self.redirect.__exit__(*a)
        self.text = self.buffer.getvalue()
        self.lines = self.text.splitlines()


EPS = np.finfo(float).eps
NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+|nan|inf)")


def numbers(text):
    return [float(x) for x in NUMBER.findall(text)]


class TBase:
    RULE = "distinct = digest of the inputs of a case in which every monitor ran"
    ASSUMPTIONS = []
    REQUIRED = []
    N = {"quick": 600, "thorough": 4000}

    def keys(self, tier):
        return [(i,) for i in range(self.N[tier])]


# ---------------------------------------------------------------------------
MANIFOLD_CLASSES = (
    pm.Sphere, pm.Euclidean, pm.ComplexEuclidean, pm.Stiefel, pm.Grassmann,
    pm.ComplexGrassmann, pm.Oblique, pm.ComplexCircle, pm.Symmetric,
    pm.SkewSymmetric, pm.SpecialOrthogonalGroup, pm.UnitaryGroup, pm.Positive,
    pm.SymmetricPositiveDefinite, pm.HermitianPositiveDefinite,
    pm.SpecialHermitianPositiveDefinite, pm.PoincareBall,
    pm.FixedRankEmbedded, pm.PSDFixedRank, pm.PSDFixedRankComplex,
    pm.Elliptope,
)


def some_manifold(rng):
    n, m = int(rng.integers(2, 5)), int(rng.integers(1, 3))
    return [
        lambda: pm.Sphere(n), lambda: pm.Euclidean(n, m),
        lambda: pm.Stiefel(n + m, m), lambda: pm.Grassmann(n, m),
        lambda: pm.SpecialOrthogonalGroup(n),
        lambda: pm.SymmetricPositiveDefinite(n),
    ][int(rng.integers(6))]()


class Bare(Manifold):
    """The smallest valid manifold: only the abstract methods."""

    def __init__(self, dimension=3, point_layout=1):
        super().__init__("bare", dimension, point_layout=point_layout)

    def inner_product(self, point, a, b):
        return float(np.sum(a * b))

    def projection(self, point, vector):
        return vector

    def norm(self, point, a):
        return float(np.linalg.norm(a))

    def random_point(self):
        return np.random.normal(size=3)

    def random_tangent_vector(self, point):
        return np.random.normal(size=3)

    def zero_vector(self, point):
        return np.zeros(3)


class A05(TBase):
    """Invalid use is rejected with the documented kind of exception."""

    N = {"quick": 240, "thorough": 3000}
    REQUIRED = [
        "oracle:decorator:manifold-required", "oracle:signature:rejected",
        "oracle:signature:accepted", "oracle:backend-unavailable",
        "oracle:problem:undecorated", "oracle:problem:both-derivatives",
        "oracle:problem:override", "oracle:problem:wrong-count",
        "oracle:problem:structure", "oracle:manifold:constructor",
        "oracle:manifold:valid-constructor", "oracle:not-implemented",
        "oracle:retraction-as-exp-warns", "oracle:optimizer:argument",
        "oracle:tools:argument",
    ]
    RULE = "distinct = digest of the randomly drawn (mis)use and its arguments"
    ASSUMPTIONS = [
        "TensorFlow, PyTorch and JAX are made unimportable, which is the "
        "documented way a backend is unavailable"]

    def run(self, ctx, key):
        rng = ctx.rng
        for part in (self.decorators, self.problems, self.manifolds,
                     self.products, self.optimizers, self.tools):
            part(ctx, rng)
        ctx.nontrivial(key, int(rng.integers(1 << 30)))
        ctx.sample(key=key)

    # -- decorators -------------------------------------------------------
    def decorators(self, ctx, rng):
        M = some_manifold(rng)
        fn = pymanopt.function
        dec = (fn.numpy, fn.autograd)[int(rng.integers(2))]
        bad = [None, pm.Sphere, 3, "sphere", [M], lambda x: x, np.zeros(2),
               (M, M)]
        for b in bad:
            ctx.raises(TypeError, "decorator:manifold-required", dec, b)
        for name in ("pytorch", "tensorflow", "jax"):
            ctx.raises(TypeError, "decorator:manifold-required",
                       getattr(fn, name), bad[int(rng.integers(len(bad)))])

        names = ["x", "y", "point", "a1", "U"]
        k = int(rng.integers(1, 4))
        some = ", ".join(names[:k])
        kw = ", ".join(f"{n}=1" for n in names[3:])
        rejected = [
            "", f"{some}, *args", f"{some}, **kwargs", "**kwargs",
            "*args, **kwargs", f"*, {names[4]}", f"{some}, *, {kw}",
            f"*args, {kw}", f"{some}, *args, {kw}, **kwargs",
            f"{some}, *, U", "*args, U",
        ]
        accepted = [some, "*args", f"{some}, z=2", f"{some}, /"]
        for text in rejected:
            scope = {}
            exec(f"def f({text}):\n    return 0.0", scope)
            ctx.raises(ValueError, "signature:rejected", dec(M), scope["f"])
        for text in accepted:
            scope = {}
            exec(f"def f({text}):\n    return 0.5", scope)
            f = ctx.call("signature:accepts", dec(M), scope["f"])
            count = k
            ctx.ok(callable(f) and f(*[np.ones(2)] * count) == 0.5,
                   "signature:accepted", signature=text)

        def cost(x):
            return 0.0

        for name in ("pytorch", "tensorflow", "jax"):
            ctx.raises(RuntimeError, "backend-unavailable",
                       lambda: getattr(fn, name)(M)(cost))
        for value in (3, None, "cost"):
            ctx.raises((TypeError, ValueError), "signature:not-callable",
                       dec(M), value)

    # -- Problem ----------------------------------------------------------
    def problems(self, ctx, rng):
        M = some_manifold(rng)
        dec = pymanopt.function.numpy(M)

        def plain(x):
            return float(np.sum(x))

        def plain2(x, y):
            return x

        def vector(x):
            return np.ones_like(x)

        good = dec(plain)
        P = pymanopt.Problem
        ctx.raises(ValueError, "problem:undecorated", P, M, plain)
        ctx.raises(ValueError, "problem:undecorated", P, M, plain, )
        for name, f in (("euclidean_gradient", vector),
                        ("riemannian_gradient", vector),
                        ("euclidean_hessian", plain2),
                        ("riemannian_hessian", plain2)):
            ctx.raises(ValueError, "problem:undecorated", P, M, good, **{name: f})
            for junk in (3, "f", np.ones(2), [dec(vector)]):
                ctx.raises(ValueError, "problem:undecorated", P, M, good,
                           **{name: junk})
        g, h = dec(vector), dec(plain2)
        extra = [{}, {"euclidean_hessian": h}, {"preconditioner": lambda p, v: v}]
        ctx.raises(ValueError, "problem:both-derivatives", P, M, good,
                   euclidean_gradient=g, riemannian_gradient=dec(vector),
                   **extra[int(rng.integers(3))])
        extra = [{}, {"euclidean_gradient": g}, {"riemannian_gradient": g}]
        ctx.raises(ValueError, "problem:both-derivatives", P, M, good,
                   euclidean_hessian=h, riemannian_hessian=dec(plain2),
                   **extra[int(rng.integers(3))])
        # an undecorated function wins over nothing: every mixture is fine
        ok = ctx.call("problem:mixture", P, M, good, **extra[int(rng.integers(3))],
                      riemannian_hessian=h)
        ctx.ok(ok.manifold is M, "problem:manifold-kept")

        precon = (None, lambda p, v: 2 * v)[int(rng.integers(2))]
        problem = P(M, good, euclidean_gradient=g, preconditioner=precon)
        before = problem.preconditioner
        other = pm.Euclidean(2)
        ctx.raises(AttributeError, "problem:override", setattr, problem,
                   "manifold", other)
        ctx.raises(AttributeError, "problem:override", setattr, problem,
                   "preconditioner", lambda p, v: v)
        ctx.ok(problem.manifold is M and problem.preconditioner is before,
               "problem:override:retained")
        for name in ("cost", "euclidean_gradient", "riemannian_gradient",
                     "euclidean_hessian", "riemannian_hessian"):
            # (looking the attribute up may already fail for lack of autodiff)
            ctx.raises((AttributeError, NotImplementedError),
                       "problem:override", setattr, problem, name, g)

    # -- constructors -----------------------------------------------------
    def manifolds(self, ctx, rng):
        i = lambda lo, hi: int(rng.integers(lo, hi))
        bad = "manifold:constructor"
        n, p = i(1, 5), i(1, 4)
        for cls in (pm.Stiefel, pm.Grassmann, pm.ComplexGrassmann):
            ctx.raises(ValueError, bad, cls, n, n + p)
            ctx.raises(ValueError, bad, cls, n, 0)
            ctx.raises(ValueError, bad, cls, n, -p)
            ctx.raises(ValueError, bad, cls, n + p, p, k=0)
            ctx.raises(ValueError, bad, cls, n + p, p, k=-i(1, 4))
            M = ctx.call("manifold:valid-constructor", cls, n + p, p, k=i(1, 3))
            ctx.ok(isinstance(M, Manifold), "manifold:valid-constructor")
            ctx.call("manifold:valid-constructor", cls, n, n)
        for name in ("svd", "cayley", "QR", "", "exp", "polar_", "_qr", "Polar"):
            ctx.raises(ValueError, bad, pm.Stiefel, n + p, p, retraction=name)
            for cls in (pm.SpecialOrthogonalGroup, pm.UnitaryGroup):
                ctx.raises(ValueError, bad, cls, n, retraction=name)
        for name in ("qr", "polar"):
            ctx.call("manifold:valid-constructor", pm.Stiefel, n + p, p,
                     retraction=name)
            for cls in (pm.SpecialOrthogonalGroup, pm.UnitaryGroup):
                M = ctx.call("manifold:valid-constructor", cls, n, k=i(1, 3),
                             retraction=name)
                ctx.ok(isinstance(M, Manifold), "manifold:valid-constructor")
        for cls in (pm.SpecialOrthogonalGroup, pm.UnitaryGroup, pm.Symmetric,
                    pm.SkewSymmetric, pm.PoincareBall):
            ctx.raises(ValueError, bad, cls, n, k=0)
            kw = {} if cls is pm.PoincareBall else {"k": -i(1, 3)}
            if kw:
                ctx.raises(ValueError, bad, cls, n, **kw)
        ctx.raises(ValueError, bad, pm.PoincareBall, 0)
        ctx.raises(ValueError, bad, pm.PoincareBall, -n)
        ctx.raises(ValueError, bad, pm.PoincareBall, n, k=-1)
        for cls in (pm.Sphere, pm.Euclidean, pm.ComplexEuclidean):
            ctx.raises(TypeError, bad, cls)
            ctx.call("manifold:valid-constructor", cls, *[i(1, 4)
                     for _ in range(i(1, 4))])
        for cls in (pm.SphereSubspaceIntersection,
                    pm.SphereSubspaceComplementIntersection):
            ctx.raises(ValueError, bad, cls, rng.normal(size=n + 1))
            ctx.raises(ValueError, bad, cls, rng.normal(size=(n + 1, 2, 2)))
            ctx.raises(ValueError, bad, cls, rng.normal(size=(n, n + p)))
            ctx.call("manifold:valid-constructor", cls,
                     rng.normal(size=(n + 3, n + 1)))
        for d in (1.0, "2", None, 2.5, [3]):
            ctx.raises(TypeError, bad, Bare, d)
        ctx.raises(ValueError, bad, Bare, -i(1, 5))
        for layout in (0, -1, (1, 0), [1, -2], (2, 1, 0)):
            ctx.raises(ValueError, bad, Bare, 3, layout)
        for layout in (1.0, "1", None, {1}):
            ctx.raises(TypeError, bad, Bare, 3, layout)
        for layout, count in ((1, 1), (3, 3), ((1, 3), 4), ([2, 1, 1], 4)):
            M = ctx.call("manifold:valid-constructor", Bare, i(0, 9), layout)
            ctx.ok(M.num_values == count, "manifold:valid-constructor")
        ctx.raises(TypeError, bad, Manifold, "abstract", 3)

        # operations a manifold does not provide say so
        M, x, v = Bare(), rng.normal(size=3), rng.normal(size=3)
        for name, args in (
            ("dist", (x, v)), ("retraction", (x, v)), ("exp", (x, v)),
            ("log", (x, v)), ("transport", (x, x, v)), ("pair_mean", (x, v)),
            ("to_tangent_space", (x, v)),
            ("euclidean_to_riemannian_gradient", (x, v)),
            ("euclidean_to_riemannian_hessian", (x, v, v, v)),
        ):
            ctx.raises(NotImplementedError, "not-implemented",
                       getattr(M, name), *args)
        ctx.raises(NotImplementedError, "not-implemented",
                   lambda: M.typical_dist)
        ctx.ok(M.embedding(x, v) is v, "manifold:identity-embedding")
        for name in S.NAMES:
            s = S.get(name)
            for attr, absent in ABSENT.items():
                if not any(name.startswith(a) for a in absent):
                    continue
                p = s.rand_point(rng, "generic")
                args = {"dist": (p, p), "log": (p, p), "pair_mean": (p, p),
                        "exp": (p, s.zero(p)),
                        "transport": (p, p, s.zero(p))}[attr]
                ctx.raises(NotImplementedError, "not-implemented",
                           getattr(s.M, attr), *args)

        # manifolds which only approximate the exponential map say so
        for name, M in (("fixed-rank", pm.FixedRankEmbedded(4, 3, 2)),
                        ("psd", pm.PSDFixedRank(4, 2)),
                        ("elliptope", pm.Elliptope(4, 2))):
            np.random.seed(int(rng.integers(1 << 30)))
            q = M.random_point()
            w = M.random_tangent_vector(q)
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter("always")
                try:
                    y = M.exp(q, w)
                except NotImplementedError:
                    continue
            if name == "psd":
                continue
            ctx.ok(any(issubclass(c.category, RuntimeWarning)
                       for c in caught), "retraction-as-exp-warns", manifold=name)
            ctx.leq(rel_err(list(leaves(y)), list(leaves(M.retraction(q, w)))),
                    1e-12, "retraction-as-exp-equal", manifold=name)

    # -- products -----------------------------------------------------------
    def products(self, ctx, rng):
        A, B, C = (some_manifold(rng) for _ in range(3))
        inner = pm.Product([A, B])
        for factors in ([inner], [inner, C], [C, inner], [A, C, inner]):
            ctx.raises(ValueError, "manifold:constructor", pm.Product, factors)
        np.random.seed(int(rng.integers(1 << 30)))
        M = pm.Product((A, B) if rng.random() < 0.5 else [A, B])
        M3 = pm.Product([A, B, C])
        u, v = (X.random_tangent_vector(X.random_point()) for X in (M, M3))
        for f in (lambda: u + v, lambda: v - u, lambda: v + u, lambda: u - v):
            ctx.raises(ValueError, "product:mismatched-lengths", f)

        # derivatives of the wrong shape
        dec = pymanopt.function.numpy(M)
        p = M.random_point()

        def cost(x, y):
            return float(np.sum(x) + np.sum(y))

        one = lambda x, y: [x]
        three = lambda x, y: [x, y, x]
        bare = lambda x, y: x
        zero = lambda x, y: []
        for f in (one, three, bare, zero):
            for name in ("euclidean_gradient", "riemannian_gradient"):
                Q = pymanopt.Problem(M, dec(cost), **{name: dec(f)})
                ctx.raises(ValueError, "problem:wrong-count",
                           Q.riemannian_gradient, p)
        one = lambda x, y, u, v: [x]
        three = lambda x, y, u, v: [x, y, x]
        bare = lambda x, y, u, v: x
        w = M.random_tangent_vector(p)
        for f in (one, three, bare):
            for name in ("euclidean_hessian", "riemannian_hessian"):
                Q = pymanopt.Problem(M, dec(cost), **{name: dec(f)})
                ctx.raises(ValueError, "problem:wrong-count",
                           getattr(Q, name), p, w)

        # points of the wrong structure
        Q = pymanopt.Problem(M, dec(cost))
        bad = (Exception,)
        for q in ([p[0]], [p[0], p[1], p[0]], p[0][None][:1], [],
                  [p[0], [p[1]]], [[p[0]], p[1]]):
            ctx.raises(bad, "problem:structure", Q.cost, q)
        ctx.ok(np.isfinite(Q.cost(p)), "problem:structure:valid-accepted")
        FR = pm.Product([pm.FixedRankEmbedded(4, 3, 2), A])
        q = FR.random_point()

        def cost4(u, s, vt, x):
            return float(np.sum(u) + np.sum(s) + np.sum(vt) + np.sum(x))

        Q = pymanopt.Problem(FR, pymanopt.function.numpy(FR)(cost4))
        for r in ([q[0], q[1], q[1]], [q[0]], [tuple(q[0])[:2], q[1]],
                  [*q[0], q[1]], [q[1], q[0]], [q[0][0], q[1]]):
            ctx.raises(bad, "problem:structure", Q.cost, r)
        ctx.ok(np.isfinite(Q.cost(q)), "problem:structure:valid-accepted")

    # -- optimizers ---------------------------------------------------------
    def optimizers(self, ctx, rng):
        sig = "optimizer:argument"
        M = pm.Sphere(int(rng.integers(2, 5)))
        dec = pymanopt.function.numpy(M)
        c = rng.normal(size=M.random_point().shape)
        P = pymanopt.Problem(
            M, dec(lambda x: float(c @ x)), euclidean_gradient=dec(lambda x: c))
        kw = dict(verbosity=0, max_iterations=2)
        dim = int(M.dim)
        points = [M.random_point() for _ in range(dim + 4)]
        for size in (dim, dim + 2, 1, dim + 3):
            if size != dim + 1:
                ctx.raises(ValueError, sig, O.NelderMead(**kw).run, P,
                           initial_point=points[:size])
        ctx.call("optimizer:valid", O.NelderMead(**kw).run, P,
                 initial_point=points[:dim + 1])
        for bad in (points[0], 3, 2.5, iter(points), {1: points[0]}):
            ctx.raises(ValueError, sig,
                       O.ParticleSwarm(population_size=3, **kw).run, P,
                       initial_point=bad)
        r = ctx.call("optimizer:valid",
                     O.ParticleSwarm(population_size=9, **kw).run, P,
                     initial_point=points[:3])
        ctx.ok(r.cost <= min(float(c @ x) for x in points[:3]) + 1e-12,
               "optimizer:population-used")
        for rule in ("fletcher", "", "Fletcher-Reeves", "polakribiere", None, 3,
                     "HagerZhang "):
            ctx.raises(ValueError, sig,
                       lambda: O.ConjugateGradient(beta_rule=rule, **kw).run(P))
        for rule in O.BETAS:
            ctx.call("optimizer:valid", O.ConjugateGradient(
                beta_rule=rule, **kw).run, P)
        # derivatives that do not exist
        Q = pymanopt.Problem(M, dec(lambda x: float(c @ x)))
        for cls in (O.SteepestDescent, O.ConjugateGradient, O.TrustRegions):
            ctx.raises(NotImplementedError, "optimizer:no-derivative",
                       cls(**kw).run, Q)
        ctx.raises(NotImplementedError, "optimizer:no-derivative",
                   O.TrustRegions(**kw).run, P)

    # -- tools ---------------------------------------------------------------
    def tools(self, ctx, rng):
        sig = "tools:argument"
        M = pm.Sphere(3)
        dec = pymanopt.function.numpy(M)
        P = pymanopt.Problem(
            M, dec(lambda x: float(x @ x)), euclidean_gradient=dec(lambda x: x),
            euclidean_hessian=dec(lambda x, v: v))
        d = rng.normal(size=3)
        with captured(), figures_closed():
            ctx.raises(ValueError, sig,
                       diagnostics.check_directional_derivative, P, d=d)
            ctx.raises(ValueError, sig, diagnostics.check_gradient, P, d=d)
            ctx.raises(ValueError, sig, diagnostics.check_hessian, P,
                       tangent_vector=d)
            for M, missing in (
                (pm.Stiefel(4, 2), "dist"), (Bare(), "exp"),
                (OnlyExp(), "retraction"), (NoDist(), "dist"),
            ):
                ctx.raises(RuntimeError, "tools:check-retraction-missing",
                           diagnostics.check_retraction, M)
        for n in (1, 3, 5, int(rng.integers(4, 20)) * 2 + 1):
            ctx.raises(ValueError, sig, bisect_sequence, list(range(n)))
        n = int(rng.integers(0, 10))
        a, b = bisect_sequence(tuple(range(2 * n)))
        ctx.ok(list(a) == list(range(n)) and list(b) == list(range(n, 2 * n)),
               "tools:bisect")
        for value in ([], [1, 2], (), (1, 2, 3), 5, None, "a", np.ones(1)):
            ctx.raises(ValueError, sig,
                       unpack_singleton_sequence_return_value(lambda: value))
        for value in ([7], (7,), [[1, 2]], (None,)):
            out = unpack_singleton_sequence_return_value(lambda: value)()
            ctx.ok(out is value[0], "tools:unpack")
        for shape in ((3,), (2, 2, 3, 3), ()):
            ctx.raises(ValueError, sig, multi.multiqr, rng.normal(size=shape))


# operations that exist in the interface but are not defined on a manifold;
# an implementation that appears later would be judged by M06..M09 instead
ABSENT = {}


class OnlyExp(Bare):
    def exp(self, point, vector):
        return point + vector


class NoDist(OnlyExp):
    def retraction(self, point, vector):
        return point + vector


class figures_closed:
    """plt.show() does nothing, figures are closed afterwards."""

    def __enter__(self):
        self.show, plt.show = plt.show, lambda *a, **k: None
        self.shown = 0
        plt.close("all")

    def __exit__(self, *a):
        plt.show = self.show
        plt.close("all")


# ---------------------------------------------------------------------------
def matrices(rng, cplx, k, n, m=None, style="generic"):
    m = m or n
    shape = (n, m) if k is None else (k, n, m)
    A = rng.normal(size=shape)
    if cplx:
        A = A + 1j * rng.normal(size=shape)
    scale = 10.0 ** rng.uniform(-3, 2) if style != "generic" else 1.0
    return A * scale


def each(A, f):
    """Per matrix reference."""
    if A.ndim == 2:
        return f(A)
    return np.array([f(a) for a in A])


def herm(a):
    return (a + a.conj().T) / 2


def matrix_err(got, ref):
    """Largest relative error of a matrix of the stack."""
    if np.shape(got) != np.shape(ref):
        return float("inf")
    n = ref.shape[-1]
    with np.errstate(all="ignore"):
        d = np.linalg.norm((got - ref).reshape(-1, n * n), axis=1)
        return float(np.max(d / np.linalg.norm(ref.reshape(-1, n * n), axis=1)))


class T01(TBase):
    """Stacked matrix functions equal the matrix function of each matrix."""

    N = {"quick": 4000, "thorough": 20000}
    REQUIRED = [f"oracle:{n}" for n in (
        "transp", "hconj", "sym", "herm", "skew", "skewh", "eye", "expm",
        "expm-symmetric", "logm", "logm-positive-definite", "qr:product",
        "qr:orthonormal", "qr:triangular", "qr:positive-diagonal",
        "qr:unique", "inputs-untouched")]
    RULE = "distinct = digest of the matrices of a case"
    ASSUMPTIONS = [
        "multilogm without positive_definite is judged on matrices whose "
        "principal logarithm has the dtype of the input",
        "condition numbers up to 1e6"]

    def run(self, ctx, key):
        rng = ctx.rng
        cplx = bool(rng.random() < 0.5)
        k = [None, 1, 2, 5][int(rng.integers(4))]
        n, m = int(rng.integers(1, 7)), int(rng.integers(1, 7))
        style = ("generic", "scaled")[int(rng.integers(2))]
        A = matrices(rng, cplx, k, n, m, style)
        Q = matrices(rng, cplx, k, n, style=style)
        if rng.random() < 0.3:  # memory layouts
            A, Q = np.asfortranarray(A), np.asfortranarray(Q)
        if rng.random() < 0.2 and k is not None:
            A, Q = A[::-1], Q[::-1]
        frozen = digest_of([A, Q])
        tag = f"{'complex' if cplx else 'real'}|"
        ctx.ok(np.array_equal(multi.multitransp(A), each(A, lambda a: a.T)),
               tag + "transp", shape=A.shape)
        ctx.ok(np.array_equal(multi.multihconj(A), each(A, lambda a: a.conj().T)),
               tag + "hconj", shape=A.shape)
        for name, f in (
            ("sym", lambda a: (a + a.T) / 2), ("herm", herm),
            ("skew", lambda a: (a - a.T) / 2),
            ("skewh", lambda a: (a - a.conj().T) / 2),
        ):
            got = ctx.call(tag + name, getattr(multi, "multi" + name), Q)
            ctx.ok(got.dtype == Q.dtype, tag + "parts:dtype", name=name,
                   got=str(got.dtype))
            ctx.leq(rel_err(got, each(Q, f)), 1e-15 * n, tag + name,
                    shape=Q.shape)
        kk = k or 3
        got = multi.multieye(kk, n)
        ctx.ok(got.shape == (kk, n, n) and np.array_equal(
            got, np.array([np.eye(n)] * kk)), tag + "eye")
        got = np.asarray(got)
        if got.flags.writeable:  # the matrices are independent of each other
            got[0] += 1
        again = multi.multieye(kk, n)
        ctx.ok(np.array_equal(again, np.array([np.eye(n)] * kk))
               and np.array_equal(got[1:], again[1:]), tag + "eye")

        # exponentials
        E = Q / np.max(np.abs(Q)) * rng.uniform(0.1, 3)
        ref, Href = (each(X, lambda a: self.expm(a))
                     for X in (E, each(E, herm)))
        tol = 1e-12
        if rng.random() < 0.25:  # large and tiny exponentials
            shift = float(rng.uniform(-150, 150))
            E = E + shift * np.eye(n)
            ref, Href = ref * np.exp(shift), Href * np.exp(shift)
            tol *= 1 + abs(shift)
        got = ctx.call(tag + "expm", multi.multiexpm, E)
        ctx.leq(matrix_err(got, ref), tol, tag + "expm", matrix=E)
        H, ref = each(E, herm), Href
        if rng.random() < 0.4:
            # one matrix of the stack has a repeated eigenvalue
            if k is None:
                H = np.eye(n, dtype=H.dtype) * 0.7
            else:
                H[0] = np.eye(n) * 0.7
            if k is None:
                ref = self.expm(H)
            else:
                ref[0] = self.expm(H[0])
        got = ctx.call(tag + "expm-symmetric", multi.multiexpm, H, symmetric=True)
        ctx.leq(matrix_err(got, ref), tol, tag + "expm-symmetric", matrix=H)
        ctx.ok(np.isrealobj(got) == np.isrealobj(H), tag + "expm:dtype")

        # logarithms
        P = each(ref, herm)
        if rng.random() < 0.3:
            w = 10.0 ** rng.uniform(-3, 3, n)
            q = np.linalg.qr(Q if k is None else Q[0])[0]
            bad = herm((q * w) @ q.conj().T)
            if k is None:
                P = bad
            else:
                P[-1] = bad
        if rng.random() < 0.5:  # units
            P = P * 10.0 ** rng.uniform(-20, 20)
        ref = each(P, self.logh)
        got = ctx.call(tag + "logm-positive-definite", multi.multilogm, P,
                       positive_definite=True)
        ctx.leq(rel_err(got, ref), 1e-9, tag + "logm-positive-definite", matrix=P)
        ctx.ok(np.isrealobj(got) == np.isrealobj(P), tag + "logm:dtype")
        E = Q / np.max(np.abs(Q)) * rng.uniform(0.1, 3)
        G = each(E, lambda a: self.expm(a / (1e-3 + np.linalg.norm(a, 2))))
        got = ctx.call(tag + "logm", multi.multilogm, G)
        ctx.leq(rel_err(got, each(E, lambda a: a / (
            1e-3 + np.linalg.norm(a, 2)))), 1e-8, tag + "logm", matrix=G)

        # QR
        self.qr(ctx, rng, tag, A, cplx)
        ctx.ok(digest_of([A, Q]) == frozen, tag + "inputs-untouched")
        ctx.nontrivial(A, Q)
        ctx.sample(shape=A.shape, complex=cplx, stacked=k)

    def expm(self, a):
        """Independent of scipy.linalg.expm: Taylor with scaling, squaring."""
        norm = np.linalg.norm(a, 1)
        s = max(0, int(np.ceil(np.log2(norm))) + 4) if norm > 0 else 0
        b = a / 2.0 ** s
        out = np.eye(len(a), dtype=a.dtype)
        term = np.eye(len(a), dtype=a.dtype)
        for i in range(1, 22):
            term = term @ b / i
            out = out + term
        for _ in range(s):
            out = out @ out
        return out

    def logh(self, a):
        w, v = scipy.linalg.eigh(a)
        return (v * np.log(w)) @ v.conj().T

    def qr(self, ctx, rng, tag, A, cplx):
        kind = ("generic", "rank-deficient", "zero-column", "negated",
                "orthonormal")[int(rng.integers(5))]
        A = np.array(A)
        if kind == "rank-deficient" and A.shape[-1] > 1:
            A[..., -1] = A[..., 0]
        elif kind == "zero-column":
            A[..., 0] = 0
        elif kind == "negated":
            A = -np.abs(A) + (1j * np.imag(A) if cplx else 0)
        elif kind == "orthonormal" and A.shape[-2] >= A.shape[-1]:
            A = each(A, lambda a: np.linalg.qr(a)[0])
        unit = 1.0
        if rng.random() < 0.3:
            unit = 10.0 ** rng.uniform(-100, 100)
        q, r = ctx.call(tag + "qr", multi.multiqr, A * unit)
        r = r / unit
        n, m = A.shape[-2:]
        k = min(n, m)
        ctx.ok(q.shape == A.shape[:-1] + (k,)
               and r.shape == A.shape[:-2] + (k, m), tag + "qr:shapes",
               got=[q.shape, r.shape], expected=A.shape)
        scale = 1 + np.linalg.norm(A)
        ctx.leq(np.linalg.norm(q @ r - A) / scale, 1e-13 * (n + m),
                tag + "qr:product", kind=kind)
        qh = np.conj(np.swapaxes(q, -1, -2))
        ctx.leq(np.max(np.abs(qh @ q - np.eye(k))), 1e-13 * (n + m),
                tag + "qr:orthonormal", kind=kind, q=q)
        ctx.leq(np.linalg.norm(np.tril(r, -1)) / scale, 1e-13,
                tag + "qr:triangular", kind=kind)
        d = np.diagonal(r, axis1=-2, axis2=-1)
        ctx.leq(np.max(np.abs(np.imag(d))), 1e-13 * scale,
                tag + "qr:positive-diagonal", kind=kind, diagonal=d)
        ctx.leq(-np.min(np.real(d)), 1e-13 * scale,
                tag + "qr:positive-diagonal", kind=kind, diagonal=d)
        if kind in ("generic", "orthonormal") and n >= m:
            # a QR decomposition with positive diagonal is unique
            one = np.array(A if A.ndim == 2 else A[-1])
            L = None
            gram = herm(one.conj().T @ one)
            w = np.linalg.eigvalsh(gram)
            if w[0] > 1e-6 * w[-1]:
                L = np.linalg.cholesky(gram)
                got = r if A.ndim == 2 else r[-1]
                ctx.leq(rel_err(got, L.conj().T), 1e-8, tag + "qr:unique",
                        matrix=one)


# ---------------------------------------------------------------------------
DIAG_SPACES = None


def diag_spaces():
    global DIAG_SPACES
    if DIAG_SPACES is None:
        DIAG_SPACES = [n for n in S.NAMES if S.get(n).has_hess]
    return DIAG_SPACES


class T02(TBase):
    """The numerical derivative and retraction checks tell right from wrong."""

    N = {"quick": 800, "thorough": 6000}
    REQUIRED = [f"oracle:{n}" for n in (
        "linear-piece:segment", "linear-piece:fit", "directional:errors",
        "directional:step-sizes", "directional:slope-correct",
        "directional:slope-wrong", "quadratic:errors",
        "gradient:residual-small", "gradient:residual-large",
        "hessian:residual-small", "hessian:nonlinear-reported",
        "hessian:asymmetric-reported", "hessian:normal-part-reported",
        "retraction:slope-second-order", "retraction:slope-first-order",
        "retraction:identical-reported", "retraction:not-a-retraction")]
    RULE = "distinct = digest of (kind of check, space, point, direction)"
    ASSUMPTIONS = [
        "costs and points of order one; wrong derivatives are wrong by a "
        "relative amount of at least 0.1"]

    def keys(self, tier):
        kinds = ("piece", "directional", "gradient", "hessian", "retraction")
        return [(kinds[i % 5], i) for i in range(self.N[tier])]

    def run(self, ctx, key):
        with figures_closed():
            getattr(self, key[0])(ctx, ctx.rng, key[1])

    # -- identify_linear_piece -------------------------------------------
    def piece(self, ctx, rng, index):
        n = int(rng.integers(6, 60))
        w = int(rng.integers(2, n - 1))
        x = np.sort(rng.uniform(-8, 1, n)) + 0.02 * np.arange(n)
        slope = rng.uniform(-4, 4)
        y = slope * x + rng.normal() + 0.5 * rng.normal(size=n)
        start = int(rng.integers(0, n - w))
        if rng.random() < 0.8:
            y[start:start + w + 1] = (
                slope * x[start:start + w + 1] + 1.5
                + 1e-6 * rng.normal(size=w + 1))
        segment, poly = ctx.call("linear-piece", diagnostics.identify_linear_piece,
                                 x, y, w)
        segment = np.asarray(segment)
        best = min(self.residual(x[i:i + w + 1], y[i:i + w + 1])
                   for i in range(n - w))
        ok = (len(segment) == w + 1 and np.all(np.diff(segment) == 1)
              and segment[0] >= 0 and segment[-1] < n)
        ctx.ok(ok, "linear-piece:window", got=segment, length=w)
        if not ok:
            return
        got = self.residual(x[segment], y[segment])
        ctx.leq(got, best * (1 + 1e-6) + 1e-12, "linear-piece:segment",
                segment=segment)
        ref = np.linalg.lstsq(
            np.stack([x[segment], np.ones(w + 1)], 1), y[segment], rcond=None)[0]
        ctx.leq(rel_err(np.asarray(poly), ref), 1e-7, "linear-piece:fit")
        ctx.nontrivial("piece", x, y)
        ctx.sample(points=n, window=w)

    @staticmethod
    def residual(x, y):
        A = np.stack([x, np.ones(len(x))], 1)
        c = np.linalg.lstsq(A, y, rcond=None)[0]
        return np.linalg.norm(A @ c - y)

    # -- problems -----------------------------------------------------------
    def problem(self, rng, **wrong):
        names = diag_spaces()
        name = wrong.pop("space", None) or names[int(rng.integers(len(names)))]
        s = S.get(name)
        cost = O.OptCost(s, rng, "bumpy")
        p = s.rand_point(rng, "generic")
        B = s.basis(p)
        v = s.tangent(rng, p, B=B)
        v = s.scale_t(p, v, 0.5 * min(1.0, s.inj(p)) / s.norm(p, v))
        return s, cost, p, v, B

    def build(self, s, cost, gradient=None, hessian=None):
        """Problem with Riemannian derivatives, optionally distorted."""
        mon = O.Monitored(s, cost, record_manifold=False)
        mon.rec.enabled = False
        dec = pymanopt.function.numpy(s.M)
        unwrap = lambda a: O.factor_points(s, a)

        def out(v):
            return O.flatten(s, v) if isinstance(s, S.ProductSpace) else v

        compound = isinstance(s, S.ProductSpace)
        if compound and any(f.layout != 1 for f in s.factors):
            return None, None
        rg = lambda p: mon.rgrad(p)
        rh = lambda p, v: mon.rhess(p, v)
        g = gradient or (lambda p, base: base(p))
        h = hessian or (lambda p, v, base: base(p, v))

        @dec
        def f(*a):
            return cost.f(unwrap(a))

        @dec
        def grad(*a):
            return out(g(unwrap(a), rg))

        @dec
        def hess(*a):
            n = len(a) // 2
            vec = a[n:]
            p = unwrap(a[:n])
            if compound:
                vec = type(s.zero(p))(list(vec))
            elif s.layout == 1:
                (vec,) = vec
            else:
                vec = type(s.zero(p))(*vec)
            return out(h(p, vec, rh))

        return pymanopt.Problem(
            s.M, f, riemannian_gradient=grad, riemannian_hessian=hess), mon

    def directional(self, ctx, rng, index):
        s, cost, p, v, B = self.problem(rng)
        cost.scale = float(rng.choice([1.0, 1.0, 1e-4, 1e-7, 1e4]))
        factor = float(rng.choice([1.0, 1.0, 0.8, 1.3]))
        P, mon = self.build(
            s, cost, gradient=lambda q, base: factor * base(q))
        if P is None:
            return
        quadratic = bool(rng.random() < 0.4)
        with captured():
            h, error, segment, poly = ctx.call(
                "directional", diagnostics.check_directional_derivative,
                P, p, v, use_quadratic_model=quadratic)
        ctx.leq(rel_err(h, np.logspace(-8, 0, 51)), 1e-12,
                "directional:step-sizes")
        # independent evaluation of the Taylor model
        f0 = cost.f(p)
        d1 = factor * mon.inner(p, mon.rgrad(p), v)
        d2 = mon.inner(p, mon.rhess(p, v), v) if quadratic else 0.0
        ref = []
        for t in h:
            try:
                y = s.M.exp(p, t * v)
            except NotImplementedError:
                y = s.M.retraction(p, t * v)
            ref.append(abs(f0 + t * d1 + 0.5 * t * t * d2 - cost.f(y)))
        scale = cost.scale + abs(f0) + abs(d1) + abs(d2) + np.max(ref)
        ctx.leq(np.max(np.abs(np.array(ref) - error)), 1e-11 * scale,
                ("quadratic" if quadratic else "directional") + ":errors",
                space=s.name)
        segment = np.asarray(segment)
        if np.all(np.asarray(ref) < 1e-12):
            return
        best = min(self.residual(
            np.log10(h[i:i + 11]), np.log10(error[i:i + 11] + EPS))
            for i in range(len(h) - 10))
        got = self.residual(np.log10(h[segment]),
                            np.log10(error[segment] + EPS))
        ctx.leq(got, best * (1 + 1e-4) + 1e-9, "directional:segment")
        # where truncation dominates rounding, the error has the order of
        # the model; a wrong derivative leaves an error of first order
        t = h[-26:-12]
        e = np.maximum(error[-26:-12], 1e-300)
        if not quadratic and abs(d1) > 0.05 * cost.scale and np.min(e) > 1e-11 * scale:
            slope = np.polyfit(np.log10(t), np.log10(e), 1)[0]
            if factor == 1.0:
                ctx.leq(1.85 - slope, 0.0, "directional:slope-correct",
                        slope=slope, space=s.name)
            else:
                ctx.leq(abs(slope - 1), 0.35, "directional:slope-wrong",
                        slope=slope, space=s.name)
        ctx.nontrivial("directional", s.name, p, v)
        ctx.sample(space=s.name, factor=factor, quadratic=quadratic)

    def normal_part(self, s, rng, p):
        """An ambient vector that is not tangent at ``p``, or None."""
        if s.layout != 1 or isinstance(s, S.ProductSpace):
            return None
        if not any(t in s.name for t in ("sphere", "stiefel", "oblique",
                                         "circle", "grass")):
            return None
        A = s.ambient(rng, p)
        R = A - s.project(p, A)
        n = np.linalg.norm(R)
        return None if n < 1e-3 else R / n

    def gradient(self, ctx, rng, index):
        s, cost, p, v, B = self.problem(
            rng, space=[None, "sphere"][0])
        normal = self.normal_part(s, rng, p)
        size = float(rng.choice([0.0, 0.5, 3.0])) if normal is not None else 0.0
        P, mon = self.build(
            s, cost,
            gradient=lambda q, base: base(q) + size * normal if size else base(q))
        if P is None:
            return
        with captured() as out:
            ctx.call("check-gradient", diagnostics.check_gradient, P, p, v)
        figs = len(plt.get_fignums())
        line = [l for l in out.lines if "residual" in l.lower()]
        try:
            s.M.to_tangent_space(p, v)
        except NotImplementedError:
            ctx.ok(any("unable" in l.lower() or "not" in l.lower()
                       for l in out.lines), "gradient:tells-unverifiable")
            return
        if not ctx.ok(line and numbers(line[0]), "gradient:reports-residual",
                      output=out.text):
            return
        value = numbers(line[0])[-1]
        norm = mon.rnorm(p, mon.rgrad(p))
        if size:
            ctx.leq(abs(value - size), 1e-3 * size, "gradient:residual-large",
                    reported=value, space=s.name)
        else:
            ctx.leq(value, 1e-7 * (1 + norm) * s.cond(p),
                    "gradient:residual-small", space=s.name)
        ctx.ok(figs >= 1, "gradient:plots")
        ctx.nontrivial("gradient", s.name, p, v)
        ctx.sample(space=s.name, normal=size, reported=value)

    def hessian(self, ctx, rng, index):
        s, cost, p, v, B = self.problem(rng)
        kind = ("correct", "nonlinear", "asymmetric", "normal",
                "nonlinear-normal")[int(rng.integers(5))]
        normal = self.normal_part(s, rng, p)
        if "normal" in kind and normal is None:
            kind = "correct"
        # (In one dimension |u| is linear on each side of zero, and the vectors
        # compared may all lie on the same side.)
        if len(B) < 2 and kind in ("asymmetric", "nonlinear-normal"):
            kind = "correct"
        if kind == "asymmetric":
            a, b = B[0], B[1]
        distort = {
            "correct": None,
            "nonlinear": lambda q, u, base: base(q, u) + 2.0 * float(
                mon.rnorm(q, u)) * u,
            "asymmetric": lambda q, u, base: base(q, u) + 5.0 * s.scale(
                a, s.inner(q, b, u)),
            "normal": lambda q, u, base: base(q, u) + 4.0 * normal,
            "nonlinear-normal": lambda q, u, base: base(q, u) + 4.0 * float(
                mon.rnorm(q, u)) * normal,
        }[kind]
        P, mon = self.build(s, cost, hessian=distort)
        if P is None:
            return
        with captured() as out:
            ctx.call("check-hessian", diagnostics.check_hessian, P, p, v)
        lin = [l for l in out.lines if "H[a" in l]
        sym = [l for l in out.lines if "<d1" in l]
        res = [l for l in out.lines if "Residual" in l]
        if not ctx.ok(lin and sym and numbers(lin[0]) and numbers(sym[0]),
                      "hessian:reports", output=out.text):
            return
        linear, symmetric = numbers(lin[0])[-1], numbers(sym[0])
        gap = symmetric[-1]
        scale = (1 + mon.rnorm(p, mon.rhess(p, v)) / mon.rnorm(p, v)) * s.cond(p)
        scale *= 1 + max(abs(x) for x in symmetric[-3:])
        if kind.startswith("nonlinear"):
            ctx.ok(abs(linear) > 1e-10 and linear == linear,
                   "hessian:nonlinear-reported", reported=linear, space=s.name)
        elif kind != "normal":
            ctx.leq(abs(linear), 1e-5 * scale, "hessian:linear", space=s.name,
                    kind=kind)
        if kind == "asymmetric":
            ctx.ok(abs(gap) > 1e-6 or len(B) < 2, "hessian:asymmetric-reported",
                   reported=symmetric, space=s.name)
        elif kind == "correct":
            ctx.leq(abs(gap), 1e-5 * scale, "hessian:symmetric", space=s.name,
                    reported=symmetric)
        if res and numbers(res[0]):
            value = numbers(res[0])[-1]
            if "normal" in kind:
                want = 4 * (1 if kind == "normal" else mon.rnorm(p, v))
                ctx.leq(abs(value - want), 0.01 * want, "hessian:normal-part-reported",
                        space=s.name, reported=value)
            else:
                ctx.leq(value, 1e-6 * scale, "hessian:residual-small",
                        space=s.name, kind=kind)
        ctx.nontrivial("hessian", s.name, p, v, kind)
        ctx.sample(space=s.name, kind=kind)

    def retraction(self, ctx, rng, index):
        """The reported slope is that of dist(exp(tv), retraction(tv))."""
        np.random.seed(int(rng.integers(1 << 30)))
        n = int(rng.integers(3, 6))
        kind = ("second-order", "first-order", "identical", "broken")[index // 5 % 4]
        M = {
            "second-order": [
                lambda: pm.Sphere(n), lambda: pm.Oblique(n, 2),
                lambda: pm.Grassmann(n + 1, 2), lambda: pm.ComplexCircle(n),
                lambda: pm.SpecialOrthogonalGroup(n, retraction="polar"),
                lambda: pm.UnitaryGroup(n, retraction="polar"),
            ][int(rng.integers(6))],
            "first-order": [
                lambda: pm.SpecialOrthogonalGroup(n),
                lambda: pm.UnitaryGroup(n)][int(rng.integers(2))],
            "identical": [
                lambda: pm.Euclidean(n, 2), lambda: pm.Symmetric(n)
            ][int(rng.integers(2))],
            "broken": lambda: pm.Sphere(n),
        }[kind]()
        point = M.random_point()
        vector = 0.8 * M.random_tangent_vector(point)
        if kind == "broken":
            retr = M.retraction
            factor = float(rng.choice([0.7, 1.4, 0.9]))
            M.retraction = lambda p, v: retr(p, factor * v)
        given = False
        with captured() as out:
            if rng.random() < 0.5:
                given = True
                ctx.call("check-retraction", diagnostics.check_retraction, M,
                         point, vector)
            elif rng.random() < 0.5:
                ctx.call("check-retraction", diagnostics.check_retraction, M,
                         point)
            else:
                ctx.call("check-retraction", diagnostics.check_retraction, M)
        line = [l for l in out.lines if "appears" in l]
        if not ctx.ok(line and numbers(line[0]), "retraction:reports",
                      output=out.text):
            return
        slope = numbers(line[0])[-1]
        if given:
            # (the rest of the sentence precedes the figure)
            text = out.text.split("this should be zero")
            figure = numbers(text[1]) if len(text) == 2 else []
            steps = np.logspace(-12, 0, 251)
            err = np.array([M.dist(M.exp(point, h * vector),
                                   M.retraction(point, h * vector))
                            for h in steps])
            ctx.ok(figure, "retraction:reports-distance", output=out.text)
            # (the figure summarises the distances: it lies between the
            # largest of them and the norm of all of them)
            if figure:
                ctx.leq(0.95 * err.max() - figure[0], 1e-6,
                        "retraction:distance", manifold=str(M),
                        reported=figure[0], largest=err.max())
                ctx.leq(figure[0], 1.5 * np.linalg.norm(err) + 1e-5,
                        "retraction:distance", manifold=str(M),
                        reported=figure[0], largest=err.max())
        if kind == "second-order":
            ctx.leq(2.7 - slope, 0.0, "retraction:slope-second-order",
                    manifold=str(M), slope=slope)
        elif kind == "first-order":
            ctx.leq(abs(slope - 2), 0.25, "retraction:slope-first-order",
                    manifold=str(M), slope=slope)
        elif kind == "identical":
            total = [l for l in out.lines if "identical" in l
                     or "this should be zero" in l]
            ctx.ok(total and abs(numbers(total[-1])[-1]) < 1e-10,
                   "retraction:identical-reported", output=out.text)
        else:
            ctx.leq(abs(slope - 1), 0.25, "retraction:not-a-retraction",
                    slope=slope)
        ctx.nontrivial("retraction", str(M), point, vector, kind)
        ctx.sample(manifold=str(M), kind=kind, slope=slope)


# ---------------------------------------------------------------------------
def plain_result(r):
    """What a run computed, without wall-clock times."""
    reason = re.sub(r"[-+]?\d+\.\d+ seconds", "T seconds", r.stopping_criterion)
    return [flat(r.point), float(r.cost), r.iterations, reason,
            r.cost_evaluations, r.step_size, r.gradient_norm]


class T03(TBase):
    """Printing: silent at 0, faithful above, never changes the run."""

    N = {"quick": 600, "thorough": 6000}
    REQUIRED = [f"oracle:{n}" for n in (
        "silent", "same-run", "announces-reason", "rows-match", "row-count",
        "columns-aligned", "printer:values", "printer:header")] + [
        f"run:{o}" for o in O.OPTIMIZERS]
    RULE = "distinct = digest of (optimizer, configuration, start point)"
    ASSUMPTIONS = ["finite costs; wall-clock limits out of reach"]

    def run(self, ctx, key):
        rng = ctx.rng
        self.printer(ctx, rng)
        opt = list(O.OPTIMIZERS)[key[0] % 5]
        names = [n for n in O.spaces_for(opt)
                 if opt != "NM" or S.get(n).M.dim < 10]
        s = S.get(names[int(rng.integers(len(names)))])
        kind = O.OptCost.KINDS[int(rng.integers(len(O.OptCost.KINDS)))]
        scale = 10.0 ** rng.uniform(-2, 3) * rng.choice([-1, 1])
        cost = O.OptCost(s, rng, kind, scale=abs(scale))
        kw = O.configure(opt, rng, max_time=1e9)
        kw.pop("verbosity")
        kw.pop("log_verbosity")
        if rng.random() < 0.1 and opt != "PSO":
            kw["max_iterations"] = 0
        if rng.random() < 0.2:
            kw["max_cost_evaluations"] = int(rng.choice([1, 3, 10]))
        if opt == "NM":
            kw["max_iterations"] = min(kw["max_iterations"], 6)
        rkw = O.run_options(opt, rng)
        start = O.initial(opt, s, rng, kw)
        if opt == "PSO" and rng.random() < 0.5:
            start = None
        if opt == "NM" and rng.random() < 0.3 and s.M.dim < 8:
            start = None
        seed = int(rng.integers(1 << 30))
        runs = {}
        levels = [(0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (3, 1)]
        if opt == "NM":  # centroids are expensive
            levels = [(0, 0), (1, 1), (2, 1)]
        for verbosity, log_verbosity in levels:
            mon = O.Monitored(s, cost, record_manifold=False)
            mon.rec.enabled = False
            import copy

            args = {k: copy.deepcopy(v) for k, v in kw.items()}
            o = O.OPTIMIZERS[opt](verbosity=verbosity,
                                  log_verbosity=log_verbosity, **args)
            np.random.seed(seed)
            with captured() as out:
                r = ctx.call(f"{opt}|run", o.run, mon.problem,
                             initial_point=O.deep(start), **rkw)
            runs[verbosity, log_verbosity] = (r, out)
        ctx.hit(f"run:{opt}")
        base = plain_result(runs[0, 0][0])
        for level in levels:
            r, out = runs[level]
            ctx.ok(digest_of(plain_result(r)) == digest_of(base),
                   f"{opt}|same-run", level=level, space=s.name,
                   got=plain_result(r)[1:], expected=base[1:])
            if level[0] == 0:
                ctx.ok(out.text == "", f"{opt}|silent", text=out.text)
            else:
                reason = r.stopping_criterion
                count = sum(l.strip() == reason.strip() for l in out.lines)
                ctx.ok(count == 1, f"{opt}|announces-reason",
                       reason=reason, tail=out.lines[-4:])
        rows = getattr(self, "rows_" + opt)(ctx, *runs[2, 1])
        if kw["max_iterations"]:
            ctx.nontrivial(opt, kw, start if start is not None else seed)
        ctx.sample(optimizer=opt, space=s.name, rows=rows)

    # -- rows at verbosity 2 ------------------------------------------------
    def table(self, ctx, opt, lines, width, log, columns):
        """Rows below the dashed rule until the blank/ending line."""
        rule = [i for i, l in enumerate(lines) if re.fullmatch(r"[- ]*-[- ]*", l)]
        if not ctx.ok(len(rule) == 1, f"{opt}|table", lines=lines[:5]):
            return 0
        header = lines[rule[0] - 1]
        starts = [m.start() for m in re.finditer(r"-+", lines[rule[0]])]
        ends = [m.end() for m in re.finditer(r"-+", lines[rule[0]])]
        names = [header[a:b].strip() for a, b in zip(starts, starts[1:] + [None])]
        ctx.ok(names == [c[0] for c in columns], f"{opt}|header", got=names)
        rows = []
        for l in lines[rule[0] + 1:]:
            parts = l.split()
            if len(parts) != len(columns) or not all(
                NUMBER.fullmatch(p) for p in parts
            ):
                break
            rows.append([float(p) for p in parts])
            where = [m.start() for m in re.finditer(r"\S+", l)]
            right = [m.end() for m in re.finditer(r"\S+", l)]
            aligned = all(
                a <= x and (b is None or y <= b)
                for a, b, x, y in zip(starts, starts[1:] + [None], where, right))
            ctx.ok(aligned, f"{opt}|columns-aligned", row=l, starts=starts)
        n = len(log["cost"])
        ctx.ok(len(rows) == n, f"{opt}|row-count", got=len(rows), expected=n)
        for i, row in enumerate(rows[:n]):
            for j, (name, source, digits) in enumerate(columns):
                if source is None:
                    continue
                want = float(log[source][i])
                ctx.leq(abs(row[j] - want), 10.0 ** -digits * (
                    abs(want) + 1e-300), f"{opt}|rows-match", column=name,
                    row=i, printed=row[j], logged=want)
        return len(rows)

    def rows_SD(self, ctx, r, out, opt="SD"):
        return self.table(ctx, opt, out.lines, None, r.log["iterations"], [
            ("Iteration", "iteration", 15), ("Cost", "cost", 14),
            ("Gradient norm", "gradient_norm", 7)])

    def rows_CG(self, ctx, r, out):
        return self.rows_SD(ctx, r, out, "CG")

    def rows_PSO(self, ctx, r, out):
        return self.table(ctx, "PSO", out.lines, None, r.log["iterations"], [
            ("Iteration", "iteration", 15), ("Cost evaluations", None, 1),
            ("Best cost", "cost", 7)])

    def rows_NM(self, ctx, r, out):
        rows = [l for l in out.lines if "Best cost" in l]
        log = r.log["iterations"]
        ctx.ok(len(rows) == len(log["cost"]), "NM|row-count", got=len(rows),
               expected=len(log["cost"]))
        last = 0
        for row, want in zip(rows, log["cost"]):
            nums = numbers(row)
            ctx.leq(abs(nums[-1] - want), 1e-7 * abs(want) + 1e-300,
                    "NM|rows-match", row=row, logged=want)
            ctx.ok(nums[0] >= last, "NM|evaluations-monotone", row=row)
            last = nums[0]
        return len(rows)

    def rows_TR(self, ctx, r, out):
        rows = [l for l in out.lines if "|grad|" in l]
        log = r.log["iterations"]
        ctx.ok(len(rows) == len(log["cost"]), "TR|row-count", got=len(rows),
               expected=len(log["cost"]))
        for i, row in enumerate(rows[:len(log["cost"])]):
            f = re.search(r"\bf:\s*(\S+)", row)
            g = re.search(r"\|grad\|:\s*(\S+)", row)
            if not ctx.ok(f and g, "TR|row-format", row=row):
                continue
            for what, text, want in (
                ("cost", f.group(1), log["cost"][i]),
                ("gradient norm", g.group(1), log["gradient_norm"][i]),
            ):
                ctx.leq(abs(float(text) - want), 1e-6 * abs(want) + 1e-300,
                        "TR|rows-match", what=what, row=row, logged=want)
            k = re.search(r"\bk:\s*(\d+)", row)
            if i:
                ctx.ok(k and int(k.group(1)) == i, "TR|iteration-number", row=row)
        return len(rows)

    # -- ColumnPrinter ------------------------------------------------------
    def printer(self, ctx, rng):
        k = int(rng.integers(1, 5))
        formats = ["d", "5d", "+.3e", ".8e", ".2f", "+.16e", "s", "10s"]
        words = ["Iteration", "Cost", "x", "Gradient norm", "A long heading"]
        cols = [(str(rng.choice(words)), str(rng.choice(formats)))
                for _ in range(k)]
        kw = {}
        pad = 4
        if rng.random() < 0.5:
            pad = kw["column_padding"] = int(rng.integers(1, 8))
        holders = ["abc" if f.endswith("s") else 0 for _, f in cols]
        if any(f.endswith("s") for _, f in cols) or rng.random() < 0.3:
            kw["placeholder_values"] = holders
        P = ctx.call("printer", printer.ColumnPrinter, columns=cols, **kw)
        values = []
        for _, f in cols:
            if f.endswith("d"):
                values.append(int(rng.integers(0, 9)))
            elif f.endswith("s"):
                values.append(["abc", "xyz"][int(rng.integers(2))])
            else:
                values.append(float(rng.uniform(0.1, 9.9)))
        with captured() as out:
            P.print_header()
            P.print_row(values)
        widths = [max(len(c), len(format(h, f))) for (c, f), h in
                  zip(cols, holders)]
        starts = np.concatenate([[0], np.cumsum([w + pad for w in widths])])
        ok = len(out.lines) == 3
        ctx.ok(ok, "printer:lines", text=out.text)
        if ok:
            head, rule, row = out.lines
            for (c, f), w, a, v in zip(cols, widths, starts, values):
                cell = slice(int(a), int(a) + w)
                ctx.ok(head[cell].strip() == c, "printer:header", header=head)
                ctx.ok(rule[cell] == "-" * w, "printer:rule", rule=rule)
                ctx.ok(row[cell].strip() == format(v, f).strip(),
                       "printer:values", row=row, value=v)
        with captured() as out:
            V = printer.VoidPrinter()
            V.print_header()
            V.print_row(values)
        ctx.ok(out.text == "", "printer:void-silent")


# ---------------------------------------------------------------------------
class T04(TBase):
    """tools.testing: projector-based derivatives of embedded submanifolds."""

    N = {"quick": 2000, "thorough": 4000}
    REQUIRED = ["oracle:gradient", "oracle:gradient-converter",
                "oracle:hessian-converter"]
    RULE = "distinct = digest of (manifold, point, direction)"
    ASSUMPTIONS = ["embedded submanifolds with the orthogonal projection "
                   "written with autograd.numpy, as the module documents"]

    def run(self, ctx, key):
        import autograd.numpy as anp

        rng = ctx.rng
        np.random.seed(int(rng.integers(1 << 30)))
        kind = ("sphere", "stiefel", "oblique", "euclidean", "stack",
                "tensor")[key[0] % 6]
        n, m = int(rng.integers(2, 6)), int(rng.integers(1, 4))
        if kind == "sphere":
            M = pm.Sphere(n, m) if rng.random() < 0.5 else pm.Sphere(n)
            proj = lambda x, u: u - anp.sum(x * u) * x
        elif kind == "stiefel":
            M = pm.Stiefel(n + m, m)
            proj = lambda x, u: u - x @ ((x.T @ u + u.T @ x) / 2)
        elif kind == "oblique":
            M = pm.Oblique(n, m)
            proj = lambda x, u: u - x * anp.sum(x * u, axis=0)
        elif kind == "stack":
            M = pm.Stiefel(n + m, m, k=int(rng.integers(2, 4)))
            T = lambda a: anp.transpose(a, (0, 2, 1))
            proj = lambda x, u: u - anp.matmul(
                x, (anp.matmul(T(x), u) + anp.matmul(T(u), x)) / 2)
        elif kind == "tensor":
            M = pm.Sphere(n, m, 2)
            proj = lambda x, u: u - anp.sum(x * u) * x
        else:
            M = pm.Euclidean(n, m)
            proj = lambda x, u: u + 0 * x
        x = M.random_point()
        v = M.random_tangent_vector(x) * rng.uniform(0.1, 3)
        A = rng.normal(size=x.shape)
        C = rng.normal(size=x.shape)
        cost = lambda y: anp.sum(anp.sin(A * y)) + anp.sum(C * y) ** 2
        g = A * np.cos(A * x) + 2 * np.sum(C * x) * C
        h = -A * A * np.sin(A * x) * v + 2 * np.sum(C * v) * C
        ref = M.euclidean_to_riemannian_gradient(x, g)
        got = ctx.call("gradient", testing.riemannian_gradient(cost, proj), x)
        ctx.leq(rel_err(got, ref), 1e-10, f"{kind}|gradient")
        got = ctx.call("gradient-converter",
                       testing.euclidean_to_riemannian_gradient(proj), x, g)
        ctx.leq(rel_err(got, ref), 1e-10, f"{kind}|gradient-converter")
        got = ctx.call(
            "hessian-converter",
            testing.euclidean_to_riemannian_hessian(proj), x, g, h, v)
        ref = M.euclidean_to_riemannian_hessian(x, g, h, v)
        ctx.leq(rel_err(got, ref), 1e-9, f"{kind}|hessian-converter")
        ctx.nontrivial(kind, x, v)
        ctx.sample(kind=kind, shape=x.shape)


CHECKS = {c.__name__: c() for c in (A05, T01, T02, T03, T04)}
