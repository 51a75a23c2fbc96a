"""Monitors for automatic differentiation and Problem (A01..A06)."""

import copy
import functools
import warnings

import numpy as np

import pymanopt
import pymanopt.manifolds as pm
import spaces as S
from core import CaseAbort, digest_of, flat, leaves, rel_err, same_structure
from programs import NumPyLike, Program, Reject, Single, namespace, single

BACKENDS = ("autograd", "pytorch", "tensorflow", "jax")
ASSUME = [
    "costs are real-valued, smooth around the evaluation points and depend "
    "on at least one argument",
    "arguments are float64 or complex128 arrays; directions have the dtype of "
    "the arguments",
    "the reference derivatives are hyper-dual numbers (exact to rounding)",
]


@functools.lru_cache(None)
def xp_for(backend):
    return namespace(backend)


def decorator(backend):
    return getattr(pymanopt.function, backend)


def as_function(rng, fn, n, style=None):
    """``fn`` as a function of n named arguments or of ``*args``."""
    style = style or ("named", "varargs", "defaults")[int(rng.integers(3))]
    if style == "varargs":
        def cost(*args):
            assert len(args) == n
            return fn(*args)

        return cost
    names = [f"x{i}" for i in range(n)]
    scope = {"fn": fn}
    exec(f"def cost({', '.join(names)}):\n    return fn({', '.join(names)})", scope)
    return scope["cost"]


def make_cost(backend, manifold, program, rng, style=None):
    return varying_cost(backend, manifold, program, rng, style)[0]


def varying_cost(backend, manifold, program, rng, style=None):
    """The cost and its factor, which may be changed later on.  Half of the
    costs decide in Python, on their own value, what they return."""
    xp = xp_for(backend)
    factor = [1.0]

    def plain(*a):
        v = program(xp, *a)
        return v if factor[0] == 1.0 else factor[0] * v

    def branching(*a):
        v = plain(*a)
        if v < 1e200:
            return v
        return 0.0 * v

    fn = branching if rng.random() < 0.5 else plain
    return decorator(backend)(manifold)(
        as_function(rng, fn, program.n, style)), factor


# -- layouts of points --------------------------------------------------------
SHAPES = [(1,), (4,), (3, 2), (2, 3), (3, 3), (2, 2, 2), (1, 1), (2, 1),
          (2, 1, 2, 2)]


class Layout:
    """A manifold with flat ambient arguments."""

    def __init__(self, rng, allow_fixed_rank=True):
        kind = rng.choice(["single", "product", "product", "one-factor",
                           "fixed-rank", "mixed-product"])
        if not allow_fixed_rank and kind in ("fixed-rank", "mixed-product"):
            kind = "product"
        self.kind = str(kind)
        self.shapes, self.cplx, factors = [], [], []

        def factor():
            if kind == "fixed-rank" or (kind == "mixed-product" and not factors):
                self.shapes.extend([(4, 2), (2,), (2, 3)])
                self.cplx.extend([False] * 3)
                factors.append(pm.FixedRankEmbedded(4, 3, 2))
                return
            shape = SHAPES[int(rng.integers(len(SHAPES)))]
            cplx = bool(rng.random() < 0.4)
            self.shapes.append(shape)
            self.cplx.append(cplx)
            factors.append((pm.ComplexEuclidean if cplx else pm.Euclidean)(*shape))

        n = {"single": 1, "one-factor": 1, "fixed-rank": 1}.get(
            self.kind, int(rng.integers(2, 5)))
        for _ in range(n):
            factor()
        if self.kind in ("single", "fixed-rank"):
            self.M = factors[0]
        else:
            if kind == "mixed-product" and rng.random() < 0.5:
                # the compound factor last
                factors.reverse()
                self.shapes = self.shapes[3:][::-1] + self.shapes[:3]
                self.cplx = self.cplx[3:][::-1] + self.cplx[:3]
            self.M = pm.Product(factors)
        self.factors = factors

    @property
    def name(self):
        return f"{self.kind}:" + "x".join(
            ("C" if c else "R") + str(s).replace(" ", "")
            for s, c in zip(self.shapes, self.cplx))

    def args(self, rng, scale=1.0):
        out = []
        for s, c in zip(self.shapes, self.cplx):
            a = rng.normal(size=s) * scale
            if c:
                a = a + 1j * rng.normal(size=s) * scale
            out.append(a)
        return out

    def pack(self, args):
        """Flat arguments -> point/vector of the manifold."""
        if self.kind in ("single",):
            return args[0]
        if self.kind == "fixed-rank":
            return tuple(args)
        out, i = [], 0
        for f in self.factors:
            if isinstance(f, pm.FixedRankEmbedded):
                out.append(tuple(args[i:i + 3]))
                i += 3
            else:
                out.append(args[i])
                i += 1
        return out

    def unpack(self, value):
        return list(leaves(value))

    def shaped(self, value):
        """value has the structure of a point."""
        return same_structure(value, self.pack([np.zeros(s) for s in self.shapes]))


KINDS = ["mixed", "mixed", "mixed", "mixed", "linear", "unused",
         "partial-linear", "quadratic", "selected"]


def relayout(rng, a, style=None):
    """The same values in another memory layout."""
    style = style or str(rng.choice(
        ["C", "F", "strided", "reversed", "readonly", "offset", "swapped"]))
    a = np.asarray(a)
    if style == "F":
        return np.asfortranarray(a)
    if style == "strided":
        big = np.zeros(tuple(2 * n for n in a.shape), a.dtype)
        view = big[tuple(slice(None, None, 2) for _ in a.shape)]
        view[...] = a
        return view
    if style == "reversed":
        return np.ascontiguousarray(a[tuple(
            slice(None, None, -1) for _ in a.shape)])[tuple(
                slice(None, None, -1) for _ in a.shape)]
    if style == "swapped" and a.ndim >= 2:
        return np.ascontiguousarray(np.swapaxes(a, -1, -2)).swapaxes(-1, -2)
    if style == "offset":
        buf = np.zeros(a.size + 3, a.dtype)
        view = buf[3:].reshape(a.shape)
        view[...] = a
        return view
    b = np.array(a)
    if style == "readonly":
        b.flags.writeable = False
    return b


class ABase:
    LEVEL = "exploration"
    ASSUMPTIONS = ASSUME
    QUICK = {"autograd": 240, "pytorch": 240, "tensorflow": 80, "jax": 32}
    THOROUGH = {"autograd": 3000, "pytorch": 3000, "tensorflow": 1500, "jax": 700}
    SHARDS = {"jax": 4, "tensorflow": 2, "pytorch": 1, "autograd": 1}
    RULE = ("distinct = digest of (backend, program text, argument values) of a "
            "random cost function whose derivatives were compared")

    def keys(self, tier):
        n = self.QUICK if tier == "quick" else self.THOROUGH
        return [(b, i) for b in BACKENDS for i in range(n[b])]

    def run(self, ctx, key):
        backend, index = key
        # the same program for every backend
        rng = ctx.rng = np.random.default_rng(
            [ctx.seed, int(self.__class__.__name__[1:]), index])
        self.one(ctx, backend, rng, index)

    def setup(self, ctx, backend, rng, index, allow_fixed_rank=True, kind=None):
        layout = Layout(rng, allow_fixed_rank)
        kind = kind or KINDS[index % len(KINDS)]
        args = layout.args(rng)
        program = Program(rng, args, kind, size=int(rng.integers(2, 8)))
        ctx.hit("kind:" + kind)
        ctx.hit("layout:" + layout.kind)
        ctx.hit("backend:" + backend)
        if any(layout.cplx):
            ctx.hit("complex-arguments")
        return layout, args, program

    def near(self, program, args, rng):
        """Another point where the program is well behaved too."""
        for _ in range(20):
            b = [a + 0.3 * (rng.normal(size=a.shape)
                            + (1j * rng.normal(size=a.shape)
                               if np.iscomplexobj(a) else 0)) for a in args]
            try:
                v = program.value(b)
            except Exception:
                continue
            if abs(v) < 1e3:
                return b
        return args


def dtype_ok(value, args):
    return all(
        np.iscomplexobj(v) == np.iscomplexobj(a) and isinstance(v, np.ndarray)
        and v.dtype.itemsize == (16 if np.iscomplexobj(a) else 8)
        for v, a in zip(raw_leaves(value), args)
    )


def raw_leaves(v):
    if isinstance(v, (list, tuple)):
        for w in v:
            yield from raw_leaves(w)
    else:
        yield v


def compare(ctx, backend, what, got, expected, layout, program, args):
    detail = dict(program=program.text, layout=layout.name)
    ctx.ok(layout.shaped(got), f"{backend}|{what}:structure", got=got, **detail)
    values = layout.unpack(got)
    ctx.ok(dtype_ok(got, args), f"{backend}|{what}:dtype", got=got, **detail)
    ctx.leq(rel_err(values, expected), 1e-8, f"{backend}|{what}:exact",
            got=values, expected=expected, **detail)


def single_precision(ctx, backend, rng, layout, program, args, what):
    """The same evaluation on single precision arguments: same precision out,
    values those of the exact derivative to what single precision allows."""
    a = [x.astype(single(x.dtype)) for x in args]
    v = [x.astype(single(x.dtype)) for x in layout.args(rng)]
    xp = Single(xp_for(backend))
    cost = decorator(backend)(layout.M)(as_function(
        rng, lambda *x: program(xp, *x), program.n))
    double = [x.astype(np.result_type(x, 1.0)) for x in a]
    dirs = [x.astype(np.result_type(x, 1.0)) for x in v]
    want = program.gradient(double, dirs if what == "hessian" else None)
    moved = [x * (1 + 1e-6 * rng.normal(size=x.shape)) for x in double]
    near = program.gradient(moved, dirs if what == "hessian" else None)
    tol = 2e-3 + 1e2 * rel_err(near, want)
    ctx.hit("single-precision")
    if what == "hessian":
        got = ctx.call(f"{backend}|hessian-operator", cost.get_hessian_operator(),
                       *a, *v)
    else:
        got = ctx.call(f"{backend}|gradient-operator",
                       cost.get_gradient_operator(), *a)
    got = [got] if len(a) == 1 else list(got)
    ctx.ok(all(isinstance(g, np.ndarray) and g.dtype == x.dtype
               for g, x in zip(got, a)), f"{backend}|{what}:precision",
           got=[str(getattr(g, "dtype", type(g))) for g in got],
           program=program.text, layout=layout.name)
    ctx.leq(rel_err(got, want), tol, f"{backend}|{what}:single-precision",
            program=program.text, layout=layout.name)


class A01(ABase):
    """Automatic gradients are exact."""

    REQUIRED = [f"oracle:gradient:exact", "kind:linear", "kind:unused",
                "layout:fixed-rank", "layout:one-factor", "complex-arguments",
                "single-precision", "kind:selected", "changed-data",
                "reference-checked"] + [f"backend:{b}" for b in BACKENDS]

    def one(self, ctx, backend, rng, index):
        layout, args, program = self.setup(ctx, backend, rng, index)
        cost, factor = varying_cost(backend, layout.M, program, rng)
        P = pymanopt.Problem(layout.M, cost)
        if backend == "autograd":
            self.check_reference(ctx, program, args, rng)
        for a in (args, self.near(program, args, rng)):
            point = layout.pack(a)
            value = ctx.call(f"{backend}|cost", P.cost, point)
            ref = program.value(a)
            ctx.ok(np.ndim(value) == 0 and not np.iscomplexobj(value),
                   f"{backend}|cost:real-scalar", got=value)
            ctx.leq(abs(float(value) - ref), 1e-9 * (1 + abs(ref)),
                    f"{backend}|cost:value", program=program.text)
            expected = program.gradient(a)
            got = ctx.call(f"{backend}|gradient", P.euclidean_gradient, point)
            compare(ctx, backend, "gradient", got, expected, layout, program, a)
            direct = ctx.call(f"{backend}|gradient-operator",
                              cost.get_gradient_operator(), *a)
            if len(a) == 1:
                direct = [direct]
            ctx.leq(rel_err(list(direct), expected), 1e-8,
                    f"{backend}|gradient-operator:exact", program=program.text)
        # the function may depend on data which changes between calls
        factor[0] = 2.5
        ctx.hit("changed-data")
        value = ctx.call(f"{backend}|cost", P.cost, point)
        ctx.leq(abs(float(value) - 2.5 * ref), 1e-9 * (1 + 2.5 * abs(ref)),
                f"{backend}|cost:current-data", program=program.text)
        got = ctx.call(f"{backend}|gradient", P.euclidean_gradient, point)
        got = [2 / 5 * x for x in flat_args(got)]
        ctx.leq(rel_err(got, expected), 1e-8,
                f"{backend}|gradient:current-data", program=program.text)
        factor[0] = 1.0
        if index % 4 == 0:
            single_precision(ctx, backend, rng, layout, program, args, "gradient")
        ctx.nontrivial(backend, program.text, args)
        ctx.sample(backend=backend, program=program.text, layout=layout.name)

    def check_reference(self, ctx, program, args, rng):
        """The oracle itself against central differences."""
        u = [rng.normal(size=a.shape) + (1j * rng.normal(size=a.shape)
             if np.iscomplexobj(a) else 0) for a in args]
        h = 1e-5
        plus = program.value([a + h * b for a, b in zip(args, u)])
        minus = program.value([a - h * b for a, b in zip(args, u)])
        d = program.d1(args, u)
        assert abs((plus - minus) / (2 * h) - d) < 1e-3 * (
            1 + abs(d) + abs(plus)), (program.text, d, plus, minus)
        d2 = program.d2(args, u, u)
        fd = (program.d1([a + h * b for a, b in zip(args, u)], u)
              - program.d1([a - h * b for a, b in zip(args, u)], u)) / (2 * h)
        assert abs(fd - d2) < 1e-3 * (1 + abs(d2)) + 1e-4 * abs(d), (
            program.text, fd, d2)
        ctx.hit("reference-checked")


class A02(ABase):
    """Automatic Hessian-vector products are exact."""

    REQUIRED = ["oracle:hessian:exact", "oracle:hessian-operator:exact",
                "kind:linear", "kind:unused", "layout:one-factor",
                "single-precision", "kind:selected", "changed-data",
                "complex-arguments"] + [f"backend:{b}" for b in BACKENDS]

    def one(self, ctx, backend, rng, index):
        layout, args, program = self.setup(ctx, backend, rng, index)
        cost, factor = varying_cost(backend, layout.M, program, rng)
        P = pymanopt.Problem(layout.M, cost)
        compound = any(isinstance(f, pm.FixedRankEmbedded) for f in layout.factors)
        for k, a in enumerate((args, self.near(program, args, rng))):
            v = layout.args(rng, float(rng.choice([1.0, 1e-3, 10.0])))
            if k == 1 and rng.random() < 0.5:
                v = [x * (j == 0) for j, x in enumerate(v)]
            expected = program.gradient(a, v)
            scale = 1 + np.linalg.norm(flat(v))
            if not compound:
                got = ctx.call(f"{backend}|hessian", P.euclidean_hessian,
                               layout.pack(a), layout.pack(v))
                compare(ctx, backend, "hessian", got, expected, layout, program, a)
            direct = ctx.call(f"{backend}|hessian-operator",
                              cost.get_hessian_operator(), *a, *v)
            if len(a) == 1:
                direct = [direct]
            ctx.leq(rel_err(list(direct), expected), 1e-8,
                    f"{backend}|hessian-operator:exact", program=program.text,
                    layout=layout.name, got=direct, expected=expected)
            ctx.leq(abs(float(cost(*a)) - program.value(a)),
                    1e-9 * (1 + abs(program.value(a))),
                    f"{backend}|cost-after-hessian:value", program=program.text)
            # homogeneous in the direction, whatever its length
            size = float(rng.choice([1e-150, 1e-30, 1e-12, 1e-8, 1e8, 1e12, 0.0]))
            got = ctx.call(f"{backend}|hessian-operator",
                           cost.get_hessian_operator(), *a, *[x * size for x in v])
            got = [got] if len(a) == 1 else list(got)
            ctx.hit(f"direction:{size}")
            if size:
                got = [g / size for g in got]
                ctx.leq(rel_err(got, expected), 1e-8,
                        f"{backend}|hessian-operator:homogeneous", size=size,
                        program=program.text, layout=layout.name)
            else:
                ctx.ok(not np.any(flat(got)), f"{backend}|hessian-operator:zero",
                       program=program.text, layout=layout.name)
            # with the data of the moment
            factor[0] = 2.5
            ctx.hit("changed-data")
            got = ctx.call(f"{backend}|hessian-operator",
                           cost.get_hessian_operator(), *a, *v)
            got = [got] if len(a) == 1 else list(got)
            ctx.leq(rel_err([2 / 5 * g for g in got], expected), 1e-8,
                    f"{backend}|hessian-operator:current-data",
                    program=program.text, layout=layout.name)
            factor[0] = 1.0
            # and one argument at a time much shorter than the others
            if len(a) > 1:
                j = int(rng.integers(len(a)))
                parts = [x * (1e-9 if i == j else 0.0) for i, x in enumerate(v)]
                got = ctx.call(f"{backend}|hessian-operator",
                               cost.get_hessian_operator(), *a,
                               *[x * (1e-9 if i == j else 1.0)
                                 for i, x in enumerate(v)])
                rest = ctx.call(f"{backend}|hessian-operator",
                                cost.get_hessian_operator(), *a,
                                *[x * (0.0 if i == j else 1.0)
                                  for i, x in enumerate(v)])
                want = program.gradient(a, parts)
                ctx.leq(1e9 * rel_err([np.subtract(g, h)
                                       for g, h in zip(got, rest)], want),
                        1e-4 * (1 + np.linalg.norm(flat(expected))),
                        f"{backend}|hessian-operator:short-part",
                        program=program.text, layout=layout.name)
        if index % 4 == 0:
            single_precision(ctx, backend, rng, layout, program, args, "hessian")
        ctx.nontrivial(backend, program.text, args, v)
        ctx.sample(backend=backend, program=program.text, layout=layout.name)


class A03(ABase):
    """Evaluation is pure and independent of the memory layout."""

    REQUIRED = ["oracle:gradient:input-unchanged", "oracle:hessian:input-unchanged",
                "oracle:gradient:repeatable", "oracle:gradient:layout-independent",
                "oracle:hessian:layout-independent",
                "oracle:cost:overwritten-arguments",
                "oracle:hessian:overwritten-arguments", "memory:reversed",
                "memory:strided", "memory:readonly", "memory:F"]
    QUICK = {"autograd": 80, "pytorch": 80, "tensorflow": 32, "jax": 20}

    def one(self, ctx, backend, rng, index):
        layout, args, program = self.setup(ctx, backend, rng, index,
                                           allow_fixed_rank=False)
        cost = make_cost(backend, layout.M, program, rng)
        P = pymanopt.Problem(layout.M, cost)
        v = layout.args(rng)

        def evaluate(what, a, w):
            p = layout.pack(a)
            if what == "cost":
                return [np.array(ctx.call(f"{backend}|cost", P.cost, p))], None
            if what == "gradient":
                out = ctx.call(f"{backend}|gradient", P.euclidean_gradient, p)
            else:
                out = ctx.call(f"{backend}|hessian", P.euclidean_hessian, p,
                               layout.pack(w))
            return [np.array(x) for x in leaves(out)], out

        base = {}
        kept = {}
        order = list(rng.permutation(["cost", "gradient", "hessian"]))
        for what in order:
            base[what], kept[what] = evaluate(what, args, v)
        for style in ("C", "F", "strided", "reversed", "readonly", "offset",
                      "swapped"):
            a = [relayout(rng, x, style) for x in args]
            w = [relayout(rng, x, style) for x in v]
            ctx.hit("memory:" + style)
            before = [x.tobytes() for x in a + w]
            for what in rng.permutation(order):
                got, raw = evaluate(what, a, w)
                ctx.ok([x.tobytes() for x in a + w] == before,
                       f"{backend}|{what}:input-unchanged", memory=style,
                       program=program.text)
                ctx.leq(rel_err(got, base[what]), 1e-10,
                        f"{backend}|{what}:layout-independent", memory=style,
                        program=program.text, got=got, expected=base[what])
                if raw is not None:
                    ctx.ok(not any(np.shares_memory(r, x)
                                   for r in raw_leaves(raw) for x in a + w),
                           f"{backend}|{what}:result-aliases-input",
                           program=program.text)
        other = self.near(program, args, rng)
        for what in order:
            evaluate(what, other, layout.args(rng))
        for what in rng.permutation(order):
            got, _ = evaluate(what, args, v)
            ctx.ok(digest_of(got) == digest_of(base[what]),
                   f"{backend}|{what}:repeatable", program=program.text,
                   got=got, expected=base[what])
            if kept[what] is not None:
                ctx.ok(rel_err([np.array(x) for x in leaves(kept[what])],
                               base[what]) == 0,
                       f"{backend}|{what}:earlier-result-unchanged",
                       program=program.text)
        # the same array objects holding other values
        bufs = [x.copy() for x in args]
        dirs = [x.copy() for x in v]
        for what in order:
            evaluate(what, bufs, dirs)
        moved = layout.args(rng)
        for target, values in ((bufs, other), (dirs, moved)):
            for x, y in zip(target, values):
                x[...] = y
            for what in rng.permutation(order):
                got, _ = evaluate(what, bufs, dirs)
                want, _ = evaluate(what, [x.copy() for x in bufs],
                                   [x.copy() for x in dirs])
                ctx.leq(rel_err(got, want), 1e-10,
                        f"{backend}|{what}:overwritten-arguments",
                        program=program.text, got=got, expected=want)
        ctx.nontrivial(backend, program.text, args)
        ctx.sample(backend=backend, program=program.text, layout=layout.name)


def pack_like(template, flat_list):
    """Flat list of arrays -> nested structure of ``template``."""
    it = iter(flat_list)

    def build(t):
        if isinstance(t, (list, tuple)):
            return [build(x) for x in t]
        return next(it)

    return build(template)


def flat_args(p):
    return [np.asarray(a) for a in leaves(p)]


_ELIGIBLE = []


def eligible():
    """Spaces whose points have few enough coordinates."""
    if not _ELIGIBLE:
        for name in S.NAMES:
            s = S.get(name)
            p = s.rand_point(np.random.default_rng(0), "generic")
            if sum(a.size * (2 if np.iscomplexobj(a) else 1)
                   for a in flat_args(p)) <= 40:
                _ELIGIBLE.append(name)
    return _ELIGIBLE


class Counted:
    """A user-supplied derivative that counts how often it is used."""

    def __init__(self, fn):
        self.fn = fn
        self.calls = 0
        self.args = None

    def __call__(self, *args):
        self.calls += 1
        self.args = args
        return self.fn(*args)


def usable(ctx, s, p, v, tag):
    """The arithmetic optimizers perform on derivatives."""
    c = s.coords(v)
    for name, w, e in (("neg", -v, -c), ("scale", 2.5 * v, 2.5 * c),
                       ("rscale", v * 0.5, 0.5 * c), ("div", v / 4.0, c / 4.0),
                       ("npscale", np.float64(3.0) * v, 3.0 * c),
                       ("add", v + 2.0 * v, 3 * c), ("sub", v - 0.5 * v, c / 2)):
        ctx.leq(rel_err(s.coords(w), e), 1e-12, tag + ":arithmetic", op=name)


class A04(ABase):
    """Problem turns any mixture of derivatives into Riemannian ones."""

    SHARDS = {"jax": 3, "tensorflow": 2, "pytorch": 1, "autograd": 1, "numpy": 1}
    REPS = {"quick": {"autograd": 2, "pytorch": 2, "tensorflow": 1, "jax": 0.4,
                      "numpy": 3},
            "thorough": {"autograd": 40, "pytorch": 40, "tensorflow": 12,
                         "jax": 6, "numpy": 60}}
    REQUIRED = ["oracle:riemannian-gradient:conversion",
                "oracle:riemannian-gradient:represents-differential",
                "oracle:riemannian-hessian:conversion",
                "oracle:user-euclidean-gradient:used",
                "oracle:user-euclidean-hessian:used",
                "oracle:user-riemannian-gradient:used",
                "oracle:user-riemannian-hessian:used",
                "overwritten-in-place",
                "oracle:user-derivatives:*"] + [
                    f"backend:{b}" for b in BACKENDS + ("numpy",)]
    RULE = ("distinct = digest of (backend, space, program, point) of a problem "
            "whose Riemannian derivatives were compared")

    def keys(self, tier):
        out = []
        for b, n in self.REPS[tier].items():
            if n < 1:
                step = int(round(1 / n))
                out += [(b, name, 0) for i, name in enumerate(eligible())
                        if i % step == 0]
            else:
                out += [(b, name, r) for r in range(n) for name in eligible()]
        return out

    def run(self, ctx, key):
        backend, name, rep = key
        rng = ctx.rng
        s = S.get(name)
        for _ in range(10):
            p = s.rand_point(rng, str(rng.choice(["generic", "generic", "lib"])))
            args = flat_args(p)
            try:
                program = Program(rng, args, "mixed", size=int(rng.integers(1, 5)))
                break
            except Reject:
                continue
        else:
            ctx.hit("rejected")
            return
        ctx.hit("backend:" + backend)
        point = p
        g = program.gradient(args)
        G = pack_like(p, g)
        M = s.M
        B = s.basis(p)
        u = s.tangent(rng, p, B=B)
        tol = 1e-8 * max(1.0, s.cond(p))
        env = dict(ctx=ctx, s=s, p=p, args=args, program=program, g=g, G=G, u=u,
                   tol=tol, rng=rng, backend=backend, B=B)
        hess = s.has_hess
        if hess:
            w = flat_args(s.emb(p, u))
            env["h"] = program.gradient(args, w)
            env["w"] = w
        rgrad = M.euclidean_to_riemannian_gradient(point, G)
        env["rgrad"] = rgrad
        if hess:
            env["rhess"] = M.euclidean_to_riemannian_hessian(
                point, G, pack_like(p, env["h"]), u)
        if backend != "numpy":
            self.automatic(**env)
        self.user(**env)
        self.moved(**env)
        ctx.nontrivial(backend, s.name, program.text, p)
        ctx.sample(backend=backend, space=s.name, program=program.text)

    def close(self, ctx, s, got, expected, tol, sig, **detail):
        try:
            a, b = s.coords(got), s.coords(expected)
        except Exception as e:
            ctx.violate(sig + ":structure", error=str(e), got=got, **detail)
            return
        ctx.leq(rel_err(a, b), tol, sig, got=got, expected=expected,
                space=s.name, **detail)

    def automatic(self, ctx, s, p, args, program, g, G, u, tol, rng, backend,
                  rgrad, B, h=None, w=None, rhess=None):
        cost = make_cost(backend, s.M, program, rng)
        P = pymanopt.Problem(s.M, cost)
        tag = f"{backend}|"
        value = ctx.call(tag + "cost", P.cost, p)
        ref = program.value(args)
        ctx.leq(abs(float(value) - ref), 1e-9 * (1 + abs(ref)), tag + "cost:value")
        order = ["eg", "rg", "eh", "rh"]
        rng.shuffle(order)
        for what in order:
            if what == "eg":
                got = ctx.call(tag + "euclidean-gradient", P.euclidean_gradient, p)
                ctx.ok(same_structure(got, G), tag + "euclidean-gradient:structure")
                ctx.leq(rel_err(flat_args(got), g), 1e-8,
                        tag + "euclidean-gradient:exact", space=s.name,
                        program=program.text)
            elif what == "rg":
                got = ctx.call(tag + "riemannian-gradient", P.riemannian_gradient, p)
                self.close(ctx, s, got, rgrad, tol,
                           tag + "riemannian-gradient:conversion",
                           program=program.text)
                usable(ctx, s, p, got, tag + "riemannian-gradient")
                if not s.quotient:
                    d = program.d1(args, flat_args(s.emb(p, u)))
                    gn = s.norm(p, got) * s.norm(p, u)
                    ctx.leq(abs(s.inner(p, got, u) - d), 10 * tol * (1 + gn),
                            tag + "riemannian-gradient:represents-differential",
                            space=s.name)
            elif what == "eh" and h is not None:
                got = ctx.call(tag + "euclidean-hessian", P.euclidean_hessian, p, u)
                ctx.leq(rel_err(flat_args(got), h), 1e-8,
                        tag + "euclidean-hessian:exact", space=s.name,
                        program=program.text)
            elif what == "rh" and h is not None:
                got = ctx.call(tag + "riemannian-hessian", P.riemannian_hessian, p, u)
                self.close(ctx, s, got, rhess, 10 * tol,
                           tag + "riemannian-hessian:conversion",
                           program=program.text)
                usable(ctx, s, p, got, tag + "riemannian-hessian")
        v = ctx.call(tag + "preconditioner", P.preconditioner, p, u)
        self.close(ctx, s, v, u, 0.0 + 1e-300, tag + "default-preconditioner:identity")

    # -- points and vectors overwritten in place -----------------------------
    def moved(self, ctx, s, p, args, program, g, G, u, tol, rng, backend,
              rgrad, B, h=None, w=None, rhess=None):
        """A problem evaluated at other data in the same objects (a point and
        a vector updated in place) is a function of the data."""
        M, n = s.M, len(args)
        dec = decorator("numpy")(M)
        kinds = ["numpy"] + [backend] * (backend != "numpy")
        for kind in kinds:
            if kind == "numpy":
                xp = NumPyLike(np, "numpy")
                out = lambda v: v[0] if n == 1 else v
                more = {}
                if h is not None:
                    more["euclidean_hessian"] = dec(as_function(
                        rng, lambda *a: out(program.gradient(
                            list(a[:n]), list(a[n:]))), 2 * n))
                P = pymanopt.Problem(
                    M, dec(as_function(rng, lambda *a: program(xp, *a), n)),
                    euclidean_gradient=dec(as_function(
                        rng, lambda *a: out(program.gradient(list(a))), n)),
                    **more)
            else:
                P = pymanopt.Problem(M, make_cost(backend, M, program, rng))
            x, v = copy.deepcopy(s.rand_point(rng, "generic")), None
            try:
                other = program.value(flat_args(x))
                B2 = s.basis(x)
                v = copy.deepcopy(s.tangent(rng, x, B=B2))
                if not np.isfinite(other):
                    continue
            except Exception:
                continue
            if [a.dtype for a in leaves(x)] != [a.dtype for a in leaves(p)] or (
                    [a.dtype for a in leaves(v)]
                    != [a.dtype for a in leaves(u)]):
                continue
            try:
                P.cost(x), P.riemannian_gradient(x)
                if h is not None:
                    P.riemannian_hessian(x, v)
            except Exception:
                pass
            for a, b in zip([*leaves(x), *leaves(v)], [*leaves(p), *leaves(u)]):
                np.copyto(a, b)
            ctx.hit("overwritten-in-place")
            tag = f"{kind}|"
            # (the Hessian first: it must not use an old gradient)
            if h is not None:
                got = ctx.call(tag + "riemannian-hessian",
                               P.riemannian_hessian, x, v)
                self.close(ctx, s, got, rhess, 10 * tol,
                           tag + "in-place:riemannian-hessian")
            got = ctx.call(tag + "riemannian-gradient",
                           P.riemannian_gradient, x)
            self.close(ctx, s, got, rgrad, tol,
                       tag + "in-place:riemannian-gradient")
            got = float(ctx.call(tag + "cost", P.cost, x))
            ref = program.value(args)
            ctx.leq(abs(got - ref), 1e-9 * (1 + abs(ref)),
                    tag + "in-place:cost")

    # -- user supplied derivatives ------------------------------------------
    def user(self, ctx, s, p, args, program, g, G, u, tol, rng, backend, rgrad,
             B, h=None, w=None, rhess=None):
        """Deliberately distinguishable derivatives (multiples of the true
        ones), so that silently using something else shows."""
        M, n = s.M, len(args)
        dec = decorator(backend)(M)
        xp = xp_for(backend)
        compound = any(t in s.name for t in ("fixedrank",))
        product = isinstance(M, pm.Product)

        def out(values):
            """Return value of a user function, in the backend's types."""
            values = [xp.const(np.array(v)) for v in values]
            return values[0] if n == 1 else values

        def near(a, b):
            a, b = flat_args([np.asarray(x) for x in a]), flat_args(b)
            return len(a) == len(b) and rel_err(a, b) < 1e-12

        scale = float(rng.uniform(1.5, 3))
        cost = make_cost(backend, M, program, rng)
        eg = Counted(lambda *a: out([scale * x for x in program.gradient(
            [np.asarray(x) for x in a])]))
        EG = dec(as_function(rng, eg, n))
        tag = f"{backend}|user-"

        # Euclidean gradient
        P = pymanopt.Problem(M, cost, euclidean_gradient=EG)
        got = ctx.call(tag + "euclidean-gradient", P.euclidean_gradient, p)
        ctx.ok(same_structure(got, G), tag + "euclidean-gradient:structure")
        ctx.leq(rel_err(flat_args(got), [scale * x for x in g]), 1e-12,
                tag + "euclidean-gradient:used", space=s.name)
        ctx.ok(near(eg.args, args), tag + "euclidean-gradient:argument")
        got = ctx.call(tag + "euclidean-gradient-riemannian",
                       P.riemannian_gradient, p)
        expected = M.euclidean_to_riemannian_gradient(
            p, pack_like(p, [scale * x for x in g]))
        self.close(ctx, s, got, expected, tol,
                   tag + "euclidean-gradient:converted")
        usable(ctx, s, p, got, tag + "euclidean-gradient")
        if h is not None and backend != "numpy":
            got = ctx.call(tag + "euclidean-gradient-hessian",
                           P.riemannian_hessian, p, u)
            expected = M.euclidean_to_riemannian_hessian(
                p, pack_like(p, [scale * x for x in g]), pack_like(p, h), u)
            self.close(ctx, s, got, expected, 10 * tol,
                       tag + "derivatives:mixed-with-automatic", space_=s.name)
        if backend == "numpy":
            for what, call in (
                ("euclidean-hessian", lambda: P.euclidean_hessian(p, u)),
                ("hessian-operator", lambda: cost.get_hessian_operator()),
                ("gradient-operator", lambda: cost.get_gradient_operator()),
                ("gradient", lambda: pymanopt.Problem(M, cost)
                 .riemannian_gradient(p)),
            ):
                ctx.raises(NotImplementedError,
                           f"numpy|no-autodiff:{what}", call)

        # Euclidean Hessian
        if h is not None:
            eh = Counted(lambda *a: out([scale * x for x in program.gradient(
                [np.asarray(x) for x in a[:n]], [np.asarray(x) for x in a[n:]])]))
            P = pymanopt.Problem(
                M, cost, euclidean_gradient=EG,
                euclidean_hessian=dec(as_function(rng, eh, 2 * n)))
            got = ctx.call(tag + "euclidean-hessian", P.euclidean_hessian, p, u)
            ctx.leq(rel_err(flat_args(got), [scale * x for x in h]), 1e-9,
                    tag + "euclidean-hessian:used", space=s.name)
            ctx.ok(len(eh.args) == 2 * n and near(eh.args[:n], args),
                   tag + "euclidean-hessian:point-argument")
            ctx.ok(near(eh.args[n:], w), tag + "euclidean-hessian:embedded-vector",
                   got=[np.asarray(x) for x in eh.args[n:]], expected=w,
                   space=s.name)
            before = eh.calls
            got = ctx.call(tag + "euclidean-hessian-riemannian",
                           P.riemannian_hessian, p, u)
            expected = M.euclidean_to_riemannian_hessian(
                p, pack_like(p, [scale * x for x in g]),
                pack_like(p, [scale * x for x in h]), u)
            self.close(ctx, s, got, expected, 10 * tol,
                       tag + "euclidean-hessian:converted")
            usable(ctx, s, p, got, tag + "euclidean-hessian")
            ctx.ok(eh.calls > before, tag + "euclidean-hessian:called")

        # Riemannian derivatives, in the representation of tangent vectors
        if compound:
            return
        t1 = s.tangent(rng, p, B=B)
        t2 = s.tangent(rng, p, B=B)
        rg = Counted(lambda *a: out(flat_args(t1)))
        rh = Counted(lambda *a: out(flat_args(t2)))
        precon = Counted(lambda q, v: 2.0 * v)
        P = pymanopt.Problem(
            M, cost, riemannian_gradient=dec(as_function(rng, rg, n)),
            riemannian_hessian=dec(as_function(rng, rh, 2 * n)),
            preconditioner=precon)
        got = ctx.call(tag + "riemannian-gradient", P.riemannian_gradient, p)
        self.close(ctx, s, got, t1, 1e-14, tag + "riemannian-gradient:used")
        ctx.ok(near(rg.args, args), tag + "riemannian-gradient:argument")
        usable(ctx, s, p, got, tag + "riemannian-gradient")
        got = ctx.call(tag + "riemannian-hessian", P.riemannian_hessian, p, u)
        self.close(ctx, s, got, t2, 1e-14, tag + "riemannian-hessian:used")
        ctx.ok(near(rh.args, args + flat_args(u)),
               tag + "riemannian-hessian:arguments", space=s.name)
        usable(ctx, s, p, got, tag + "riemannian-hessian")
        got = P.preconditioner(p, u)
        ctx.ok(precon.calls == 1 and rel_err(
            s.coords(got), 2 * s.coords(u)) < 1e-14, tag + "preconditioner:used")
        if h is not None and backend != "numpy":
            P = pymanopt.Problem(
                M, cost, riemannian_gradient=dec(as_function(rng, rg, n)))
            got = ctx.call(tag + "riemannian-gradient-hessian",
                           P.riemannian_hessian, p, u)
            self.close(ctx, s, got, rhess, 10 * tol,
                       tag + "derivatives:gradient-user-hessian-automatic")


class A06(ABase):
    """Optimizers follow the same path whichever backend differentiates."""

    SHARDS = {"jax": 3, "tensorflow": 2, "pytorch": 1, "autograd": 1}
    QUICK = {"autograd": 60, "pytorch": 60, "tensorflow": 24, "jax": 12}
    THOROUGH = {"autograd": 1500, "pytorch": 1500, "tensorflow": 500, "jax": 200}
    REQUIRED = ["oracle:same-result", "oracle:same-iterations",
                "run:TrustRegions", "run:ConjugateGradient",
                "run:SteepestDescent"] + [f"backend:{b}" for b in BACKENDS]
    RULE = ("distinct = digest of (backend, optimizer, space, program, start) of "
            "a pair of runs that took at least one step")
    ASSUMPTIONS = ASSUME + [
        "runs of at most four iterations from well-conditioned starts, so that "
        "rounding differences between backends are not amplified"]

    def run(self, ctx, key):
        backend, index = key
        rng = ctx.rng = np.random.default_rng([ctx.seed, 6, index])
        names = [n for n in eligible() if S.get(n).has_hess and not any(
            t in n for t in ("ball", "hpd", "spd", "positive"))]
        name = names[int(rng.integers(len(names)))]
        s = S.get(name)
        opt = ("SteepestDescent", "ConjugateGradient", "TrustRegions")[index % 3]
        p = s.rand_point(rng, "generic")
        args = flat_args(p)
        program = Program(rng, args, "mixed", size=int(rng.integers(1, 4)))
        n = len(args)
        M = s.M
        xp = NumPyLike(np, "numpy")
        dec = pymanopt.function.numpy(M)

        def out(v):
            return v[0] if n == 1 else v

        hand = pymanopt.Problem(
            M, dec(as_function(rng, lambda *a: program(xp, *a), n)),
            euclidean_gradient=dec(as_function(
                rng, lambda *a: out(program.gradient(list(a))), n)),
            euclidean_hessian=dec(as_function(
                rng, lambda *a: out(program.gradient(
                    list(a[:n]), list(a[n:]))), 2 * n)))
        noise = [rng.normal(size=a.shape) for a in args]

        def wobble(grads):
            return [g + 1e-9 * e * np.linalg.norm(flat(grads))
                    for g, e in zip(grads, noise)]

        shaken = pymanopt.Problem(
            M, dec(as_function(rng, lambda *a: program(xp, *a), n)),
            euclidean_gradient=dec(as_function(
                rng, lambda *a: out(wobble(program.gradient(list(a)))), n)),
            euclidean_hessian=dec(as_function(
                rng, lambda *a: out(wobble(program.gradient(
                    list(a[:n]), list(a[n:])))), 2 * n)))
        auto = pymanopt.Problem(M, make_cost(backend, M, program, rng))
        iterations = int(rng.integers(1, 5))
        results = []
        for problem in (hand, auto, shaken):
            kw = dict(max_iterations=iterations, verbosity=0)
            if opt == "TrustRegions":
                rk = dict(maxinner=3, Delta_bar=1.0)
            else:
                rk = {}
            o = getattr(pymanopt.optimizers, opt)(**kw)
            results.append(ctx.call(f"{backend}|run", o.run, problem,
                                    initial_point=p, **rk))
        a, b, c = results
        if not np.isfinite(a.cost) or a.iterations != c.iterations or not (
            rel_err(flat_args(c.point), flat_args(a.point)) < 1e-7
        ):
            # a perturbation of the derivatives by 1e-9 changes the path
            ctx.hit("skipped:ill-conditioned-run")
            return
        ctx.hit("run:" + opt)
        ctx.hit("backend:" + backend)
        ctx.ok(a.iterations == b.iterations, f"{backend}|same-iterations",
               got=b.iterations, expected=a.iterations, space=name, optimizer=opt,
               program=program.text)
        ctx.leq(rel_err(flat_args(b.point), flat_args(a.point)), 1e-5,
                f"{backend}|same-result", space=name, optimizer=opt,
                program=program.text)
        ctx.leq(abs(a.cost - b.cost), 1e-6 * (1 + abs(a.cost)),
                f"{backend}|same-cost", space=name, optimizer=opt)
        if a.iterations:
            ctx.nontrivial(backend, opt, name, program.text, p)
        ctx.sample(backend=backend, optimizer=opt, space=name,
                   iterations=a.iterations)


CHECKS = {c.__name__: c() for c in (A01, A02, A03, A04, A06)}
