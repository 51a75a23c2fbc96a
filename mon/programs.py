"""Random differentiable programs, and their exact derivatives.

A program is a straight-line list of instructions over array values.  It is
interpreted with an *op namespace*: one per autodiff backend (the cost handed
to pymanopt) and one over hyper-dual numbers (the reference).  Hyper-dual
arithmetic ``a + b e1 + c e2 + d e1 e2`` with ``e1^2 = e2^2 = 0`` gives first
and mixed second directional derivatives that are exact up to rounding, and
uses none of the four autodiff systems.

Complex arguments are treated as real-linear: the directions are complex
arrays, the e's are real units.
"""

import numpy as np


class Reject(Exception):
    """The random program is not smooth/bounded enough at this point."""


# -- hyper-dual reference -----------------------------------------------------
class HD:
    __slots__ = ("a", "b", "c", "d")

    def __init__(self, a, b=None, c=None, d=None):
        self.a = np.asarray(a)
        z = np.zeros(self.a.shape, self.a.dtype)
        self.b = z if b is None else np.asarray(b)
        self.c = z if c is None else np.asarray(c)
        self.d = z if d is None else np.asarray(d)

    @property
    def shape(self):
        return self.a.shape


def _lin(f, x):
    return HD(f(x.a), f(x.b), f(x.c), f(x.d))


def _bil(f, x, y):
    return HD(
        f(x.a, y.a),
        f(x.b, y.a) + f(x.a, y.b),
        f(x.c, y.a) + f(x.a, y.c),
        f(x.d, y.a) + f(x.b, y.c) + f(x.c, y.b) + f(x.a, y.d),
    )


def _fun(f0, f1, f2):
    def op(x):
        a1, a2 = f1(x.a), f2(x.a)
        return HD(f0(x.a), a1 * x.b, a1 * x.c, a1 * x.d + a2 * x.b * x.c)

    return op


class Ref:
    """Reference op namespace."""

    name = "reference"

    def const(self, a):
        return HD(a)

    def add(self, x, y):
        return HD(x.a + y.a, x.b + y.b, x.c + y.c, x.d + y.d)

    def sub(self, x, y):
        return HD(x.a - y.a, x.b - y.b, x.c - y.c, x.d - y.d)

    def mul(self, x, y):
        return _bil(np.multiply, x, y)

    def matmul(self, x, y):
        return _bil(np.matmul, x, y)

    def outer(self, x, y):
        return _bil(lambda u, v: u[:, None] * v[None, :], x, y)

    def smul(self, s, x):
        return _lin(lambda u: s * u, x)

    sin = staticmethod(_fun(np.sin, np.cos, lambda u: -np.sin(u)))
    cos = staticmethod(_fun(np.cos, lambda u: -np.sin(u), lambda u: -np.cos(u)))
    exp = staticmethod(_fun(np.exp, np.exp, np.exp))
    tanh = staticmethod(_fun(
        np.tanh, lambda u: 1 - np.tanh(u) ** 2,
        lambda u: -2 * np.tanh(u) * (1 - np.tanh(u) ** 2)))
    log = staticmethod(_fun(np.log, lambda u: 1 / u, lambda u: -1 / u**2))
    sqrt = staticmethod(_fun(
        np.sqrt, lambda u: 0.5 * u**-0.5, lambda u: -0.25 * u**-1.5))
    recip = staticmethod(_fun(
        lambda u: 1 / u, lambda u: -1 / u**2, lambda u: 2 / u**3))
    square = staticmethod(_fun(np.square, lambda u: 2 * u, lambda u: 2 + 0 * u))
    cube = staticmethod(_fun(lambda u: u**3, lambda u: 3 * u**2, lambda u: 6 * u))

    def conj(self, x):
        return _lin(np.conj, x)

    def real(self, x):
        return _lin(np.real, x)

    def imag(self, x):
        return _lin(np.imag, x)

    def transpose(self, x):
        return _lin(lambda u: np.swapaxes(u, -1, -2), x)

    def reshape(self, x, shape):
        return _lin(lambda u: u.reshape(shape), x)

    def sum(self, x):
        return _lin(np.sum, x)

    def sum0(self, x):
        return _lin(lambda u: np.sum(u, axis=0), x)

    def mean_last(self, x):
        return _lin(lambda u: np.mean(u, axis=-1), x)

    def trace(self, x):
        return _lin(lambda u: np.trace(u, axis1=-2, axis2=-1), x)

    def head(self, x):
        return _lin(lambda u: u[:1], x)

    def last(self, x):
        return _lin(lambda u: u[..., -1], x)

    def concat(self, x, y):
        return HD(*(np.concatenate([getattr(x, k), getattr(y, k)])
                    for k in "abcd"))

    def inv(self, x):
        y = np.linalg.inv(x.a)
        y1, y2 = -y @ x.b @ y, -y @ x.c @ y
        return HD(y, y1, y2, y @ x.b @ y @ x.c @ y + y @ x.c @ y @ x.b @ y
                  - y @ x.d @ y)

    arctan = staticmethod(_fun(
        np.arctan, lambda u: 1 / (1 + u**2), lambda u: -2 * u / (1 + u**2) ** 2))
    # twice continuously differentiable, with a kink in the second derivative
    relu3 = staticmethod(_fun(
        lambda u: np.maximum(u, 0) ** 3, lambda u: 3 * np.maximum(u, 0) ** 2,
        lambda u: 6 * np.maximum(u, 0)))

    def rows(self, x, index):
        return _lin(lambda u: u[list(index)], x)

    def entries(self, x, i, j):
        return _lin(lambda u: u[list(i), list(j)], x)

    def flip(self, x):
        return _lin(lambda u: u[::-1], x)

    def cumsum(self, x):
        return _lin(lambda u: np.cumsum(u, axis=0), x)

    def diag(self, x):
        return _lin(lambda u: np.diagonal(u, axis1=-2, axis2=-1), x)

    def stack(self, x, y):
        return HD(*(np.stack([getattr(x, k), getattr(y, k)]) for k in "abcd"))

    def spread(self, x, y):
        return _bil(lambda u, v: np.einsum("...i,...j->...ij", u, v), x, y)

    def norm(self, x):
        return self.sqrt(self.sum(self.real(self.mul(x, self.conj(x)))))

    def lse(self, x):
        return self.log(self.sum(self.exp(x)))

    def solve(self, x, y):
        return self.matmul(self.inv(x), y)

    def logdet(self, x):
        y = np.linalg.inv(x.a)

        def tr(m):
            return np.real(np.trace(m, axis1=-2, axis2=-1))

        return HD(np.linalg.slogdet(x.a)[1], tr(y @ x.b), tr(y @ x.c),
                  tr(y @ x.d) - tr(y @ x.b @ y @ x.c))


# -- op namespaces of the backends ------------------------------------------
class NumPyLike:
    """numpy (and autograd.numpy, jax.numpy)."""

    def __init__(self, np_, name):
        self.np = np_
        self.name = name

    def const(self, a):
        return a

    def add(self, x, y):
        return x + y

    def sub(self, x, y):
        return x - y

    def mul(self, x, y):
        return x * y

    def matmul(self, x, y):
        return x @ y

    def outer(self, x, y):
        return self.np.outer(x, y)

    def smul(self, s, x):
        return s * x

    def __getattr__(self, k):
        if k in ("sin", "cos", "exp", "tanh", "log", "sqrt", "conj", "real",
                 "imag"):
            return getattr(self.np, k)
        raise AttributeError(k)

    def recip(self, x):
        return 1 / x

    def square(self, x):
        return x**2

    def cube(self, x):
        return x**3

    def transpose(self, x):
        return self.np.swapaxes(x, -1, -2)

    def reshape(self, x, shape):
        return self.np.reshape(x, shape)

    def sum(self, x):
        return self.np.sum(x)

    def sum0(self, x):
        return self.np.sum(x, axis=0)

    def mean_last(self, x):
        return self.np.mean(x, axis=-1)

    def trace(self, x):
        return self.np.sum(x * np.eye(x.shape[-1], dtype=x.dtype), axis=(-2, -1))

    def head(self, x):
        return x[:1]

    def last(self, x):
        return x[..., -1]

    def concat(self, x, y):
        return self.np.concatenate([x, y])

    def inv(self, x):
        return self.np.linalg.inv(x)

    def solve(self, x, y):
        return self.np.linalg.solve(x, y)

    def logdet(self, x):
        return self.np.linalg.slogdet(x)[1]

    def arctan(self, x):
        return self.np.arctan(x)

    def relu3(self, x):
        return self.np.where(x > 0, x, 0 * x) ** 3

    def rows(self, x, index):
        return x[np.array(index)]

    def entries(self, x, i, j):
        return x[np.array(i), np.array(j)]

    def flip(self, x):
        return x[::-1]

    def cumsum(self, x):
        return self.np.cumsum(x, axis=0)

    def diag(self, x):
        # (autograd's own derivative of np.diagonal loses imaginary parts)
        n = np.arange(x.shape[-1])
        return x[..., n, n]

    def stack(self, x, y):
        return self.np.stack([x, y])

    def spread(self, x, y):
        return self.np.einsum("...i,...j->...ij", x, y)

    def norm(self, x):
        return self.np.linalg.norm(self.np.reshape(x, (-1,)))

    def lse(self, x):
        return self.np.log(self.np.sum(self.np.exp(x)))


class Torch:
    name = "pytorch"

    def __init__(self):
        import torch

        self.t = torch

    def const(self, a):
        return self.t.from_numpy(np.array(a))

    def add(self, x, y):
        return x + y

    def sub(self, x, y):
        return x - y

    def mul(self, x, y):
        return x * y

    def matmul(self, x, y):
        if x.is_complex() != y.is_complex():
            x, y = x.to(self.t.complex128), y.to(self.t.complex128)
        return x @ y

    def outer(self, x, y):
        return x[:, None] * y[None, :]

    def smul(self, s, x):
        return s * x

    def __getattr__(self, k):
        if k in ("sin", "cos", "exp", "tanh", "log", "sqrt", "conj"):
            return getattr(self.t, k)
        raise AttributeError(k)

    def real(self, x):
        return x.real if x.is_complex() else x

    def imag(self, x):
        return x.imag

    def recip(self, x):
        return 1 / x

    def square(self, x):
        return x**2

    def cube(self, x):
        return x**3

    def transpose(self, x):
        return x.transpose(-1, -2)

    def reshape(self, x, shape):
        return x.reshape(shape)

    def sum(self, x):
        return x.sum()

    def sum0(self, x):
        return x.sum(0)

    def mean_last(self, x):
        return x.mean(-1)

    def trace(self, x):
        return self.t.diagonal(x, dim1=-2, dim2=-1).sum(-1)

    def head(self, x):
        return x[:1]

    def last(self, x):
        return x[..., -1]

    def concat(self, x, y):
        if x.is_complex() != y.is_complex():
            x, y = x.to(self.t.complex128), y.to(self.t.complex128)
        return self.t.cat([x, y])

    def inv(self, x):
        return self.t.linalg.inv(x)

    def solve(self, x, y):
        if x.is_complex() != y.is_complex():
            x, y = x.to(self.t.complex128), y.to(self.t.complex128)
        return self.t.linalg.solve(x, y)

    def arctan(self, x):
        return self.t.atan(x)

    def relu3(self, x):
        return self.t.relu(x) ** 3

    def rows(self, x, index):
        return self.t.index_select(x, 0, self.t.tensor(index))

    def entries(self, x, i, j):
        return x[list(i), list(j)]

    def flip(self, x):
        return self.t.flip(x, (0,))

    def cumsum(self, x):
        return self.t.cumsum(x, 0)

    def diag(self, x):
        return self.t.diagonal(x, dim1=-2, dim2=-1)

    def stack(self, x, y):
        return self.t.stack([x, y])

    def spread(self, x, y):
        return x[..., :, None] * y[..., None, :]

    def norm(self, x):
        return self.t.linalg.norm(x.reshape(-1))

    def lse(self, x):
        return self.t.logsumexp(x.reshape(-1), 0)

    def logdet(self, x):
        return self.t.linalg.slogdet(x)[1]


class TensorFlow:
    name = "tensorflow"

    def __init__(self):
        import tensorflow as tf

        self.tf = tf

    def const(self, a):
        return self.tf.constant(a)

    def _same(self, x, y):
        if x.dtype != y.dtype:
            x = self.tf.cast(x, self.tf.complex128)
            y = self.tf.cast(y, self.tf.complex128)
        return x, y

    def add(self, x, y):
        x, y = self._same(x, y)
        return x + y

    def sub(self, x, y):
        x, y = self._same(x, y)
        return x - y

    def mul(self, x, y):
        x, y = self._same(x, y)
        return x * y

    def matmul(self, x, y):
        x, y = self._same(x, y)
        if len(x.shape) >= 2 and len(y.shape) >= 2:
            return x @ y
        if len(y.shape) == 1:
            return self.tf.linalg.matvec(x, y)
        return self.tf.linalg.matvec(y, x, transpose_a=True)

    def outer(self, x, y):
        x, y = self._same(x, y)
        return x[:, None] * y[None, :]

    def smul(self, s, x):
        return self.tf.constant(s, dtype=x.dtype) * x

    def __getattr__(self, k):
        if k in ("sin", "cos", "exp", "tanh", "log", "sqrt", "conj", "real",
                 "imag"):
            return getattr(self.tf.math, k)
        raise AttributeError(k)

    def recip(self, x):
        return 1 / x

    def square(self, x):
        return x * x

    def cube(self, x):
        return x * x * x

    def transpose(self, x):
        return self.tf.linalg.matrix_transpose(x)

    def reshape(self, x, shape):
        return self.tf.reshape(x, shape)

    def sum(self, x):
        return self.tf.reduce_sum(x)

    def sum0(self, x):
        return self.tf.reduce_sum(x, axis=0)

    def mean_last(self, x):
        return self.tf.reduce_mean(x, axis=-1)

    def trace(self, x):
        return self.tf.linalg.trace(x)

    def head(self, x):
        return x[:1]

    def last(self, x):
        return x[..., -1]

    def concat(self, x, y):
        return self.tf.concat(self._same(x, y), 0)

    def inv(self, x):
        return self.tf.linalg.inv(x)

    def solve(self, x, y):
        return self.tf.linalg.solve(*self._same(x, y))

    def arctan(self, x):
        return self.tf.math.atan(x)

    def relu3(self, x):
        y = self.tf.nn.relu(x)
        return y * y * y

    def rows(self, x, index):
        return self.tf.gather(x, list(index))

    def entries(self, x, i, j):
        return self.tf.gather_nd(x, list(zip(i, j)))

    def flip(self, x):
        return self.tf.reverse(x, [0])

    def cumsum(self, x):
        return self.tf.cumsum(x, 0)

    def diag(self, x):
        return self.tf.linalg.diag_part(x)

    def stack(self, x, y):
        return self.tf.stack(self._same(x, y))

    def spread(self, x, y):
        return self.tf.einsum("...i,...j->...ij", *self._same(x, y))

    def norm(self, x):
        return self.tf.math.real(self.tf.norm(x))

    def lse(self, x):
        return self.tf.reduce_logsumexp(x)

    def logdet(self, x):
        return self.tf.math.real(2 * self.tf.reduce_sum(self.tf.math.log(
            self.tf.linalg.diag_part(self.tf.linalg.cholesky(x))), axis=-1))


class Single:
    """An op namespace with constants in single precision."""

    def __init__(self, xp):
        self.xp = xp

    def const(self, a):
        a = np.asarray(a)
        return self.xp.const(a.astype(single(a.dtype)))

    def __getattr__(self, k):
        return getattr(self.xp, k)


def single(dtype):
    return np.complex64 if np.issubdtype(dtype, np.complexfloating) else np.float32


def namespace(backend):
    if backend == "autograd":
        import autograd.numpy as anp

        return NumPyLike(anp, "autograd")
    if backend == "jax":
        import jax.numpy as jnp

        return NumPyLike(jnp, "jax")
    if backend == "numpy":
        return NumPyLike(np, "numpy")
    if backend == "pytorch":
        return Torch()
    return TensorFlow()


# -- programs -----------------------------------------------------------------
class Program:
    """A random real-valued function of several array arguments."""

    def __init__(self, rng, args, kind="mixed", size=7, real_only=False):
        """``args``: example values; the program is smooth around them."""
        self.n = len(args)
        self.code = []
        self.kind = kind
        self._shapes = [np.shape(a) for a in args]
        for _ in range(50):
            self.code = []
            try:
                self._build(rng, [np.asarray(a) for a in args], size)
                return
            except Reject:
                continue
        raise Reject("no program found")

    # values are tracked with plain numpy while building
    def _emit(self, op, *operands):
        self.code.append((op, operands))
        v = self._eval(NumPyLike(np, "numpy"), op, operands, self._vals)
        v = np.asarray(v)
        if not np.all(np.isfinite(v)) or np.abs(v).max(initial=0) > 50:
            raise Reject(op)
        self._vals.append(v)
        return len(self._vals) - 1

    @staticmethod
    def _eval(xp, op, operands, vals):
        args = [
            vals[o[1]] if isinstance(o, tuple) and o and o[0] == "v"
            else xp.const(o[1]) if isinstance(o, tuple) and o and o[0] == "c"
            else o[1]
            for o in operands
        ]
        return getattr(xp, op)(*args)

    def _const(self, rng, shape, cplx=None):
        a = rng.normal(size=shape) / np.sqrt(max(1, shape[-1] if shape else 1))
        if cplx is None:
            cplx = False
        if cplx:
            a = a + 1j * rng.normal(size=shape) / 2
        return ("c", np.asarray(a))

    def _gram(self, rng, i):
        """c I + X X^H, positive definite, from any matrix-shaped value."""
        n = self._vals[i].shape[-2]
        h = self._emit("conj", ("v", i)) if np.iscomplexobj(self._vals[i]) else i
        h = self._emit("transpose", ("v", h))
        g = self._emit("matmul", ("v", i), ("v", h))
        return self._emit("add", ("v", g), ("c", 1.5 * np.eye(n)
                          + (0j if np.iscomplexobj(self._vals[g]) else 0.0)))

    def _abs2(self, i):
        if np.iscomplexobj(self._vals[i]):
            j = self._emit("conj", ("v", i))
            return self._emit("real", ("v", self._emit("mul", ("v", i), ("v", j))))
        return self._emit("square", ("v", i))

    def _build(self, rng, args, size):
        self._vals = list(args)
        used = list(range(self.n))
        self.unused = []
        self.linear = []
        if self.kind == "unused" and self.n > 1:
            k = int(rng.integers(self.n))
            used.remove(k)
            self.unused = [k]
        if self.kind == "partial-linear" and self.n > 1:
            k = int(rng.integers(self.n))
            used.remove(k)
            self.linear = [k]
        if self.kind == "linear":
            self.linear, used = used, []
        terms = []
        live = list(used)
        for k in self.linear:
            v = self._vals[k]
            c = self._const(rng, v.shape, np.iscomplexobj(v))
            t = self._emit("mul", c, ("v", k))
            t = self._emit("sum", ("v", t))
            terms.append(self._realpart(rng, t))
        if self.kind == "quadratic":
            for k in used:
                i = self._emit("add", ("v", k), self._const(rng, self._vals[k].shape))
                terms.append(self._emit("sum", ("v", self._abs2(i))))
            live = []
        if self.kind == "selected":
            # the arguments enter through some of their entries only
            used = live = [self._select(rng, k) for k in used]
            live = list(live)
        for _ in range(size if live else 0):
            live.append(self._random_op(rng, live))
        for i in set(live[-3:] + used) if live else ():
            terms.append(self._scalar(rng, i))
        # combine the terms with a smooth nonlinearity
        total = terms[0]
        for t in terms[1:]:
            total = self._emit(
                "add", ("v", total),
                ("v", self._emit("smul", ("p", float(rng.uniform(-1, 1)) or 1.0),
                                 ("v", t))))
        if self.kind in ("mixed",) and rng.random() < 0.5:
            total = self._emit(rng.choice(["sin", "tanh", "square"]), ("v", total))
        self.out = total
        self.values = len(self._vals)
        del self._vals

    def _scalar(self, rng, i):
        """Reduce value i to a real scalar."""
        v = self._vals[i]
        if v.ndim and rng.random() < 0.5:
            i = self._abs2(i)
        elif v.ndim:
            c = self._const(rng, v.shape, np.iscomplexobj(v))
            i = self._emit("mul", c, ("v", i))
        if self._vals[i].ndim:
            i = self._emit("sum", ("v", i))
        return self._realpart(rng, i)

    def _realpart(self, rng, i):
        if not np.iscomplexobj(self._vals[i]):
            return i
        if rng.random() < 0.3:
            i = self._emit("conj", ("v", i))
        return self._emit(rng.choice(["real", "imag"]), ("v", i))

    def _select(self, rng, i):
        """Some of the entries of value i, possibly repeated."""
        v = self._vals[i]
        ops = ["rows", "rows", "head", "last", "flip"]
        if v.ndim >= 2:
            ops += ["entries"]
        if v.ndim >= 2 and v.shape[-1] == v.shape[-2]:
            ops += ["diag"]
        op = str(rng.choice(ops))
        if op == "rows":
            n = int(rng.integers(1, 4))
            return self._emit("rows", ("v", i), ("p", tuple(
                map(int, rng.integers(v.shape[0], size=n)))))
        if op == "entries":
            n = int(rng.integers(1, 4))
            return self._emit(
                "entries", ("v", i),
                ("p", tuple(map(int, rng.integers(v.shape[0], size=n)))),
                ("p", tuple(map(int, rng.integers(v.shape[1], size=n)))))
        return self._emit(op, ("v", i))

    def _random_op(self, rng, live):
        i = int(rng.choice(live[-6:] if rng.random() < 0.7 else live))
        v = self._vals[i]
        cplx = np.iscomplexobj(v)
        ops = ["sin", "cos", "exp", "square", "cube", "affine", "bin", "ratio",
               "sqrtlog"]
        if cplx:
            ops += ["conj", "real", "imag", "conj"]
        else:
            ops += ["tanh"]
        if v.ndim >= 2:
            ops += ["transpose", "lmul", "rmul", "self", "sum0", "mean_last",
                    "last"]
            ops += ["gramfun"] * 2
            if v.shape[-1] == v.shape[-2]:
                ops += ["trace"]
        if v.ndim == 1:
            ops += ["outer", "lmul"]
        if v.ndim >= 1:
            ops += ["reshape", "head", "concat", "select", "select", "cumsum",
                    "stack", "spread", "normalize"]
            if v.ndim >= 3:
                ops.remove("spread")
            if not cplx:
                ops += ["lse"]
        if not cplx:
            ops += ["arctan", "relu3"]
        op = rng.choice(ops)
        if op == "select":
            return self._select(rng, i)
        if op in ("stack", "spread"):
            mates = [k for k in live if self._vals[k].shape == v.shape
                     and np.iscomplexobj(self._vals[k]) == cplx]
            if op == "spread":
                mates = [k for k in live if self._vals[k].shape[:-1] == v.shape[:-1]
                         and self._vals[k].ndim == v.ndim
                         and np.iscomplexobj(self._vals[k]) == cplx]
            return self._emit(op, ("v", i), ("v", int(rng.choice(mates))))
        if op == "normalize":
            if np.linalg.norm(v) < 0.1:
                raise Reject(op)
            j = self._emit("norm", ("v", i))
            if cplx:
                return j
            return self._emit("mul", ("v", i), ("v", self._emit("recip", ("v", j))))
        if op == "relu3" and np.abs(v).min(initial=1) < 1e-3:
            raise Reject(op)
        if op == "exp":
            j = self._emit("smul", ("p", 0.4), ("v", i))
            return self._emit("exp", ("v", j))
        if op == "affine":
            j = self._emit("smul", ("p", float(rng.uniform(-2, 2))), ("v", i))
            return self._emit("add", ("v", j), self._const(rng, v.shape))
        if op == "bin":
            mates = [k for k in live if self._vals[k].shape == v.shape]
            k = int(rng.choice(mates))
            return self._emit(rng.choice(["add", "sub", "mul"]), ("v", i), ("v", k))
        if op == "ratio":
            j = self._emit("add", ("v", self._abs2(i)),
                           ("c", np.full(v.shape, 1.0)))
            return self._emit("mul", ("v", i), ("v", self._emit("recip", ("v", j))))
        if op == "sqrtlog":
            j = self._emit("add", ("v", self._abs2(i)),
                           ("c", np.full(v.shape, 0.8)))
            return self._emit(rng.choice(["sqrt", "log"]), ("v", j))
        if op == "lmul":
            n = v.shape[-2] if v.ndim >= 2 else v.shape[0]
            return self._emit("matmul", self._const(rng, (int(rng.integers(1, 4)), n),
                                                    cplx and rng.random() < 0.5),
                              ("v", i))
        if op == "rmul":
            return self._emit("matmul", ("v", i),
                              self._const(rng, (v.shape[-1], int(rng.integers(1, 4))),
                                          cplx and rng.random() < 0.5))
        if op == "self":
            j = self._emit("transpose", ("v", i))
            return self._emit("matmul", ("v", j), ("v", i))
        if op == "gramfun":
            j = self._gram(rng, i)
            op = str(rng.choice(["inv", "logdet", "solve"]))
            return self._emit(op, ("v", j), *([("v", i)] * (op == "solve")))
        if op == "outer":
            mates = [k for k in live if self._vals[k].ndim == 1
                     and np.iscomplexobj(self._vals[k]) == cplx]
            return self._emit("outer", ("v", i), ("v", int(rng.choice(mates))))
        if op == "reshape":
            return self._emit("reshape", ("v", i), ("p", (int(v.size),)))
        if op == "concat":
            mates = [k for k in live if self._vals[k].ndim == v.ndim
                     and self._vals[k].shape[1:] == v.shape[1:]
                     and np.iscomplexobj(self._vals[k]) == cplx]
            return self._emit("concat", ("v", i), ("v", int(rng.choice(mates))))
        return self._emit(op, ("v", i))

    def __call__(self, xp, *args):
        vals = list(args)
        for op, operands in self.code:
            vals.append(self._eval(xp, op, operands, vals))
        return vals[self.out]

    @property
    def text(self):
        out = []
        for k, (op, operands) in enumerate(self.code):
            out.append(f"v{k + self.n} = {op}("
                       + ", ".join(f"v{o[1]}" if o[0] == "v" else
                                   "const" if o[0] == "c" else repr(o[1])
                                   for o in operands) + ")")
        return "; ".join(out)

    # -- exact derivatives --------------------------------------------------
    def value(self, args):
        return float(self(Ref(), *map(HD, args)).a)

    def d1(self, args, u):
        r = self(Ref(), *[HD(a, b) for a, b in zip(args, u)])
        return float(np.real(r.b))

    def d2(self, args, u, v):
        r = self(Ref(), *[HD(a, b, c) for a, b, c in zip(args, u, v)])
        return float(np.real(r.d))

    def gradient(self, args, v=None):
        """Euclidean gradient w.r.t. Re<.,.> (v: its derivative along v)."""
        out = []
        for k, a in enumerate(args):
            g = np.zeros(a.shape, a.dtype)
            for idx in np.ndindex(*a.shape):
                for unit in ((1.0, 1j) if np.iscomplexobj(a) else (1.0,)):
                    u = [np.zeros(b.shape, b.dtype) for b in args]
                    u[k][idx] = unit
                    d = self.d1(args, u) if v is None else self.d2(args, u, v)
                    g[idx] += d * unit
            out.append(g)
        return out
