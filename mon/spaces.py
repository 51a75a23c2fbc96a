"""Reference geometry, written independently of pymanopt.

Every ``Space`` wraps one configured pymanopt manifold and knows, from the
textbook definition of the set (not from the library's formulas):

* how to draw points in several styles and to measure membership,
* the linear constraints that define a tangent space (the tangent space is
  then computed numerically as a null space, giving a basis, a dimension and a
  least-squares projection that share no code or formula with the library),
* the metric, geodesics and distances (through different formulas or models),
* a family of closed-form smooth costs with Euclidean derivatives.
"""

import numpy as np
import scipy.linalg as sl
import pymanopt.manifolds as pm


# ---------------------------------------------------------------------------
# real coordinates of (possibly nested, possibly complex) arrays
def _parts(v):
    return list(v) if isinstance(v, (list, tuple)) else [v]


def _h(a):
    return np.conj(np.swapaxes(a, -1, -2))


def _sym(a):
    return (a + _h(a)) / 2


def _skew(a):
    return (a - _h(a)) / 2


def rdot(a, b):
    """Real Euclidean inner product of ambient objects."""
    return float(
        sum(
            np.real(np.vdot(np.asarray(x), np.asarray(y)))
            for x, y in zip(_parts(a), _parts(b))
        )
    )


def realvec(a, cplx):
    a = np.asarray(a)
    if cplx:
        return np.concatenate([np.real(a).ravel(), np.imag(a).ravel()])
    return np.real(a).astype(float).ravel()


def unrealvec(x, shape, cplx):
    if cplx:
        n = x.size // 2
        return (x[:n] + 1j * x[n:]).reshape(shape)
    return x.reshape(shape).copy()


def haar(rng, n, p, cplx):
    a = rng.standard_normal((n, p))
    if cplx:
        a = a + 1j * rng.standard_normal((n, p))
    q, r = np.linalg.qr(a)
    d = np.diagonal(r).copy()
    return q * (d / np.abs(d))


# ---------------------------------------------------------------------------
class Space:
    cplx = False
    quotient = False
    has_exp = True  # library implements exp as the Riemannian exponential
    has_log = True
    has_dist = True
    has_hess = True
    has_pair_mean = False
    exact_pair_mean = True
    retraction_order = 1
    embedded = True  # metric inherited from the ambient inner product
    proj_riemannian = False  # projection orthogonal w.r.t. the metric
    transport_isometric = False
    layout = 1
    k = 1
    POINT_STYLES = ("generic", "canonical", "lib")

    def __init__(self, name, M):
        self.name = name
        self.M = M

    # representation ---------------------------------------------------
    def coords(self, v):
        return realvec(v, self.cplx)

    def uncoords(self, x, p=None):
        return unrealvec(x, self.shape, self.cplx)

    @property
    def ncoords(self):
        return int(np.prod(self.shape)) * (2 if self.cplx else 1)

    amb_shape = property(lambda self: self.shape)

    def emb(self, p, v):
        return v

    # cost representation z(p) and its differential --------------------
    def z(self, p):
        return p

    def pull(self, p, G):
        """Euclidean gradient w.r.t. the point given the gradient in z."""
        return G

    def dz(self, p, w):
        """Differential of z along the ambient point perturbation w."""
        return w

    def pull_d(self, p, w, G, dG):
        return dG

    z_cplx = property(lambda self: self.cplx)
    z_shape = property(lambda self: self.amb_shape)

    # geometry defaults -------------------------------------------------
    def inner(self, p, u, v):
        return rdot(self.emb(p, u), self.emb(p, v))

    def norm(self, p, v):
        return np.sqrt(max(self.inner(p, v, v), 0.0))

    def cond(self, p):
        return 1.0

    def canon(self, p):
        return p

    def same(self, a, b):
        """Distance between the objects two points represent."""
        x, y = self.canon(a), self.canon(b)
        num = den = 0.0
        for s, t in zip(_parts(x), _parts(y)):
            s, t = np.asarray(s), np.asarray(t)
            if s.shape != t.shape:
                return float("inf")
            num += np.linalg.norm(s - t) ** 2
            den += np.linalg.norm(t) ** 2
        return float(np.sqrt(num) / (1 + np.sqrt(den)))

    def inj(self, p):
        return np.inf

    def dist_slack(self, a, b):
        """How far the pair is from where the distance is singular."""
        return self.dist(a, b)

    # basis --------------------------------------------------------------
    def basis(self, p):
        """Metric-free basis of the tangent space (as tangent vectors)."""
        n = self.ncoords
        cols = [
            np.asarray(self.tan_res(p, self.uncoords(e, p)), float)
            for e in np.eye(n)
        ]
        A = np.array(cols).T
        if A.size == 0:
            N = np.eye(n)
        else:
            _, s, vt = np.linalg.svd(A)
            tol = 1e-9 * max(1.0, s[0] if s.size else 1.0)
            N = vt[int(np.sum(s > tol)):].T
        return [self.uncoords(N[:, j], p) for j in range(N.shape[1])]

    def combine(self, p, B, c):
        x = sum(ci * self.coords(b) for ci, b in zip(c, B))
        return self.uncoords(np.asarray(x), p)

    def project(self, p, zvec):
        """Least-squares projection of an ambient vector (reference)."""
        B = self.basis(p)
        if self.proj_riemannian:
            G = np.array([[self.inner(p, a, b) for b in B] for a in B])
            r = np.array([self.inner(p, b, self.hermitize(zvec)) for b in B])
            return self.combine(p, B, np.linalg.solve(G, r))
        acols = np.array(
            [self.amb_coords(self.emb(p, b)) for b in B]
        ).T
        c, *_ = np.linalg.lstsq(acols, self.amb_coords(zvec), rcond=None)
        return self.combine(p, B, c)

    def hermitize(self, z):
        return z

    def amb_coords(self, zvec):
        return realvec(zvec, self.cplx)

    def ambient(self, rng, p, scale=1.0):
        a = rng.standard_normal(self.amb_shape)
        if self.cplx:
            a = a + 1j * rng.standard_normal(self.amb_shape)
        return a * scale

    TAN_STYLES = ("generic", "sparse", "tiny", "large", "slice")

    def tangent(self, rng, p, style="generic", B=None):
        """Tangent vector drawn by the harness (not by the library)."""
        B = self.basis(p) if B is None else B
        d = len(B)
        c = rng.standard_normal(d)
        if style == "sparse":
            c = np.zeros(d)
            c[int(rng.integers(d))] = 1.0
        v = self.combine(p, B, c)
        nv = self.norm(p, v)
        if style == "slice" and self.k > 1:
            w = np.array(v)
            w[int(rng.integers(self.k))] = 0
            v = w
            nv = self.norm(p, v)
        if style == "raw":
            return v
        scale = {"tiny": 1e-7, "large": 3.0}.get(style, 0.7)
        return self.scale(v, scale / (nv + (nv == 0)))

    def far_ok(self, op, length):
        """Whether results of very long steps are representable."""
        return True

    def scale(self, v, c):
        return self.uncoords(self.coords(v) * c)

    def zero(self, p):
        return self.uncoords(np.zeros(self.ncoords), p)

    def tan_resid(self, p, v):
        """Relative tangency residual."""
        x = np.asarray(self.tan_res(p, v), float)
        n = np.linalg.norm(self.coords(v))
        with np.errstate(all="ignore"):
            return float(np.linalg.norm(x) / (1.0 + n)) if x.size else 0.0

    def shape_ok(self, v):
        return np.shape(v) == tuple(self.shape)

    def real_ok(self, v):
        """Real manifolds must not produce complex arrays."""
        return self.cplx or not np.iscomplexobj(v)

    def near(self, rng, p, eps):
        v = self.tangent(rng, p)
        v = self.scale_t(p, v, eps / self.norm(p, v))
        return self.exp(p, v)

    def scale_t(self, p, v, c):
        return self.scale(v, c)

    def random_scaled(self, rng, p, length, B=None):
        v = self.tangent(rng, p, B=B)
        return self.scale_t(p, v, length / self.norm(p, v))


# ---------------------------------------------------------------------------
class Flat(Space):
    has_pair_mean = True
    retraction_order = 2
    POINT_STYLES = ("generic", "canonical", "lib", "big")

    def __init__(self, name, M, shape, cplx=False, kind=None):
        super().__init__(name, M)
        self.shape, self.cplx, self.kind = shape, cplx, kind
        self.k = shape[0] if kind and len(shape) == 3 else 1
        self.transport_isometric = True

    def rand_point(self, rng, style):
        if style == "lib":
            return self.M.random_point()
        a = rng.standard_normal(self.shape)
        if self.cplx:
            a = a + 1j * rng.standard_normal(self.shape)
        if style == "canonical":
            a = np.zeros(self.shape, a.dtype)
        if style == "big":
            a = a * 1e3
        if self.kind == "sym":
            a = _sym(a)
        if self.kind == "skew":
            a = _skew(a)
        return a

    def _c(self, v):
        if self.kind == "sym":
            return _skew(v)
        if self.kind == "skew":
            return _sym(v)
        return np.zeros(0)

    def point_res(self, p):
        return float(np.linalg.norm(self._c(p)) / (1 + np.linalg.norm(p)))

    def tan_res(self, p, v):
        return np.ravel(self._c(v)).real

    def exp(self, p, v):
        return p + v

    def dist(self, a, b):
        return float(np.sqrt(np.sum(np.abs(a - b) ** 2)))

    def midpoint(self, a, b):
        return (a + b) / 2


class SphereSpace(Space):
    """Sphere, optionally intersected with a linear subspace (basis W)."""

    has_pair_mean = True
    retraction_order = 2

    def __init__(self, name, M, shape, W=None):
        super().__init__(name, M)
        self.shape = shape
        self.W = W  # orthonormal basis of the subspace, or None
        if W is not None:
            self.C = np.eye(W.shape[0]) - W @ W.T

    def rand_point(self, rng, style):
        if style == "lib":
            return self.M.random_point()
        a = rng.standard_normal(self.shape)
        if style == "canonical":
            a = np.zeros(self.shape)
            a.ravel()[0] = -1.0
            if self.W is not None:
                a = self.W[:, 0].copy()
        elif self.W is not None:
            a = self.W @ rng.standard_normal(self.W.shape[1])
        return a / np.linalg.norm(a)

    def point_res(self, p):
        r = abs(np.linalg.norm(p) - 1)
        if self.W is not None:
            r += np.linalg.norm(self.C @ p)
        return float(r)

    def tan_res(self, p, v):
        r = [np.sum(p * v)]
        if self.W is not None:
            r = np.concatenate([r, self.C @ v])
        return np.asarray(r)

    def exp(self, p, v):
        t = np.linalg.norm(v)
        if t == 0:
            return p.copy()
        return np.cos(t) * p + np.sin(t) / t * v

    def dist(self, a, b):
        return float(
            2 * np.arctan2(np.linalg.norm(a - b), np.linalg.norm(a + b))
        )

    def inj(self, p):
        return np.pi

    def dist_slack(self, a, b):
        d = self.dist(a, b)
        return min(d, np.pi - d)

    def midpoint(self, a, b):
        m = a + b
        return m / np.linalg.norm(m)


class ObliqueSpace(Space):
    has_pair_mean = True
    retraction_order = 2
    axis = 0  # unit vectors along this axis
    TAN_STYLES = ("generic", "sparse", "tiny", "large", "column")

    def __init__(self, name, M, m, n):
        super().__init__(name, M)
        self.shape = (m, n)

    def rand_point(self, rng, style):
        if style == "lib":
            return self.M.random_point()
        a = rng.standard_normal(self.shape)
        if style == "canonical":
            a = np.zeros(self.shape)
            if self.axis == 0:
                a[np.arange(self.shape[1]) % self.shape[0],
                  np.arange(self.shape[1])] = 1.0
            else:
                a[np.arange(self.shape[0]),
                  np.arange(self.shape[0]) % self.shape[1]] = 1.0
        return a / np.linalg.norm(a, axis=self.axis, keepdims=True)

    def tangent(self, rng, p, style="generic", B=None):
        if style == "column":
            v = super().tangent(rng, p, "generic", B)
            if self.shape[1 - self.axis] > 1 and not self.quotient:
                v = v.copy()
                j = int(rng.integers(self.shape[1 - self.axis]))
                if self.axis == 0:
                    v[:, j] = 0
                else:
                    v[j] = 0
            return v
        return super().tangent(rng, p, style, B)

    def point_res(self, p):
        return float(
            np.linalg.norm(np.linalg.norm(p, axis=self.axis) - 1)
        )

    def tan_res(self, p, v):
        return np.sum(p * v, axis=self.axis)

    def exp(self, p, v):
        t = np.linalg.norm(v, axis=self.axis, keepdims=True)
        safe = np.where(t == 0, 1, t)
        return np.where(
            t == 0, p, np.cos(t) * p + np.sin(t) / safe * v
        )

    def dist(self, a, b):
        d = 2 * np.arctan2(
            np.linalg.norm(a - b, axis=self.axis),
            np.linalg.norm(a + b, axis=self.axis),
        )
        return float(np.linalg.norm(d))

    def inj(self, p):
        return np.pi

    def dist_slack(self, a, b):
        s = np.linalg.norm(a + b, axis=self.axis)
        return min(self.dist(a, b), float(np.min(s)))

    def midpoint(self, a, b):
        m = a + b
        return m / np.linalg.norm(m, axis=self.axis, keepdims=True)


class CircleSpace(Space):
    cplx = True
    has_pair_mean = True
    retraction_order = 2
    TAN_STYLES = ("generic", "sparse", "tiny", "large")

    def __init__(self, name, M, n):
        super().__init__(name, M)
        self.shape = (n,)

    def rand_point(self, rng, style):
        if style == "lib":
            return self.M.random_point()
        if style == "canonical":
            return 1j ** np.arange(self.shape[0])
        return np.exp(2j * np.pi * rng.random(self.shape))

    def point_res(self, p):
        return float(np.linalg.norm(np.abs(p) - 1))

    def tan_res(self, p, v):
        return np.real(np.conj(p) * v)

    def exp(self, p, v):
        return p * np.exp(1j * np.imag(np.conj(p) * v))

    def dist(self, a, b):
        return float(np.linalg.norm(np.angle(np.conj(a) * b)))

    def inj(self, p):
        return np.pi

    def dist_slack(self, a, b):
        return min(self.dist(a, b), float(np.min(np.abs(a + b))))

    def midpoint(self, a, b):
        return a * np.exp(0.5j * np.angle(np.conj(a) * b))


class StackMixin:
    """Helpers for (k, ., .) stacks: slice-wise functions of matrices."""

    def slices(self, p):
        p = np.asarray(p)
        return p[None] if p.ndim == 2 else p

    def stack(self, mats, like=None):
        out = np.stack(mats)
        return out[0] if self.k == 1 else out


class StiefelSpace(StackMixin, Space):
    has_log = False
    has_dist = False

    def __init__(self, name, M, n, p, k=1, retraction="qr"):
        super().__init__(name, M)
        self.n, self.p, self.k = n, p, k
        self.shape = (n, p) if k == 1 else (k, n, p)
        self.retraction_order = 2 if retraction == "polar" else 1

    def rand_point(self, rng, style):
        if style == "lib":
            return self.M.random_point()
        if style == "canonical":
            return self.stack([np.eye(self.n, self.p)] * self.k)
        return self.stack(
            [haar(rng, self.n, self.p, self.cplx) for _ in range(self.k)]
        )

    def point_res(self, x):
        return float(np.linalg.norm(_h(x) @ x - np.eye(self.p)))

    def tan_res(self, x, v):
        return np.ravel(_sym(_h(x) @ v))

    def exp(self, x, v):
        # X'' = -X X'^T X'   integrated exactly through the enlarged linear
        # system of the embedded metric.
        out = []
        for X, V in zip(self.slices(x), self.slices(v)):
            A, S = X.T @ V, V.T @ V
            p = self.p
            Z = sl.expm(np.block([[A, -S], [np.eye(p), A]]))
            out.append(
                (X @ Z[:p, :p] + V @ Z[p:, :p]) @ sl.expm(-A)
            )
        return self.stack(out)


class GrassmannSpace(StackMixin, Space):
    quotient = True
    retraction_order = 2

    def __init__(self, name, M, n, p, k=1, cplx=False):
        super().__init__(name, M)
        self.n, self.p, self.k, self.cplx = n, p, k, cplx
        self.shape = (n, p) if k == 1 else (k, n, p)

    rand_point = StiefelSpace.rand_point
    point_res = StiefelSpace.point_res

    def tan_res(self, x, v):
        return realvec(_h(x) @ v, self.cplx)

    def canon(self, x):
        return x @ _h(x)

    def exp(self, x, v):
        out = []
        for X, V in zip(self.slices(x), self.slices(v)):
            out.append(sl.expm(V @ _h(X) - X @ _h(V)) @ X)
        return self.stack(out)

    def dist(self, a, b):
        t = []
        for X, Y in zip(self.slices(a), self.slices(b)):
            c = np.linalg.svd(_h(X) @ Y, compute_uv=False)
            s = np.linalg.svd(Y - X @ (_h(X) @ Y), compute_uv=False)[::-1]
            s = s[: len(c)]
            t.append(np.arctan2(s, c))
        return float(np.linalg.norm(np.concatenate(t)))

    def inj(self, p):
        return np.pi / 2

    def rotate(self, rng, x):
        """A different representative of the same point and the action."""
        Q = self.stack(
            [haar(rng, self.p, self.p, self.cplx) for _ in range(self.k)]
        )
        return (lambda y: y @ Q), Q

    z = canon

    @property
    def z_shape(self):
        return (self.n, self.n) if self.k == 1 else (self.k, self.n, self.n)

    def pull(self, x, G):
        return 2 * _sym(G) @ x

    def dz(self, x, w):
        return w @ _h(x) + x @ _h(w)

    def pull_d(self, x, w, G, dG):
        return 2 * _sym(dG) @ x + 2 * _sym(G) @ w


class GroupSpace(StackMixin, Space):
    has_pair_mean = True

    def __init__(self, name, M, n, k=1, cplx=False, retraction="qr"):
        super().__init__(name, M)
        self.n, self.k, self.cplx = n, k, cplx
        self.shape = (n, n) if k == 1 else (k, n, n)
        self.retraction_order = 2 if retraction == "polar" else 1
        self.transport_isometric = True

    def rand_point(self, rng, style):
        if style == "lib":
            return self.M.random_point()
        if style == "canonical":
            return self.stack(
                [np.eye(self.n, dtype=complex if self.cplx else float)]
                * self.k
            )
        out = []
        for _ in range(self.k):
            q = haar(rng, self.n, self.n, self.cplx)
            if not self.cplx and np.linalg.det(q) < 0:
                q[:, 0] *= -1
            out.append(q)
        return self.stack(out)

    def point_res(self, x):
        r = np.linalg.norm(_h(x) @ x - np.eye(self.n))
        if not self.cplx:
            r += np.linalg.norm(np.linalg.det(x) - 1)
        return float(r)

    def tan_res(self, x, v):
        return realvec(_sym(v), self.cplx)

    def emb(self, x, v):
        return x @ v

    def unemb(self, x, w):
        return _h(x) @ w

    def inner(self, p, u, v):
        return rdot(u, v)

    def exp(self, x, v):
        out = []
        for X, V in zip(self.slices(x), self.slices(v)):
            w, U = np.linalg.eigh(1j * V)  # iV is Hermitian
            E = (U * np.exp(-1j * w)) @ _h(U)
            out.append(X @ (E if self.cplx else E.real))
        return self.stack(out)

    def dist(self, a, b):
        t = []
        for X, Y in zip(self.slices(a), self.slices(b)):
            t.append(np.angle(np.linalg.eigvals(_h(X) @ Y)))
        return float(np.linalg.norm(np.concatenate(t)))

    def inj(self, p):
        return np.pi if self.cplx or self.n < 2 else np.sqrt(2) * np.pi

    def midpoint(self, a, b):
        out = []
        for X, Y in zip(self.slices(a), self.slices(b)):
            T, U = sl.schur((_h(X) @ Y).astype(complex), output="complex")
            d = np.exp(0.5j * np.angle(np.diagonal(T)))
            R = X @ ((U * d) @ _h(U))
            out.append(R if self.cplx else R.real)
        return self.stack(out)


class SPDSpace(StackMixin, Space):
    embedded = False
    retraction_order = 2
    POINT_STYLES = ("generic", "canonical", "lib", "ill")

    def far_ok(self, op, length):
        return op == "retraction"

    def __init__(self, name, M, n, k=1, cplx=False, special=False):
        super().__init__(name, M)
        self.n, self.k, self.cplx, self.special = n, k, cplx, special
        self.shape = (n, n) if k == 1 else (k, n, n)
        self.has_hess = not special
        if special:
            self.proj_riemannian = True
            self.retraction_order = 1

    def rand_point(self, rng, style):
        if style == "lib":
            return self.M.random_point()
        out = []
        for _ in range(self.k):
            if style == "canonical":
                P = np.eye(self.n, dtype=complex if self.cplx else float)
            else:
                span = 2.0 if style == "ill" else 0.7
                w = np.exp(span * rng.uniform(-1, 1, self.n))
                q = haar(rng, self.n, self.n, self.cplx)
                P = (q * w) @ _h(q)
                P = (P + _h(P)) / 2
            if self.special:
                P = P / np.exp(np.linalg.slogdet(P)[1] / self.n)
            out.append(P)
        return self.stack(out)

    def point_res(self, P):
        r = np.linalg.norm(P - _h(P)) / np.linalg.norm(P)
        w = np.linalg.eigvalsh(_sym(P))
        if not np.all(w > 0):
            return float("inf")
        if self.special:
            r += np.linalg.norm(np.sum(np.log(w), -1))
        return float(r)

    def tan_res(self, P, v):
        r = realvec(_skew(v), self.cplx)
        if self.special:
            t = np.trace(np.linalg.inv(P) @ v, axis1=-2, axis2=-1)
            r = np.concatenate([r, np.ravel(np.real(t))])
        return r

    def hermitize(self, z):
        return _sym(z)

    def cond(self, P):
        return float(np.max(np.linalg.cond(P)))

    def inner(self, P, u, v):
        return float(
            np.real(
                sum(
                    np.trace(
                        np.linalg.inv(p) @ a @ np.linalg.inv(p) @ b
                    )
                    for p, a, b in zip(
                        self.slices(P), self.slices(u), self.slices(v)
                    )
                )
            )
        )

    def exp(self, P, v):
        out = []
        for p, a in zip(self.slices(P), self.slices(v)):
            w, q = np.linalg.eigh(p)
            r, ri = (q * np.sqrt(w)) @ _h(q), (q / np.sqrt(w)) @ _h(q)
            w2, q2 = np.linalg.eigh(_sym(ri @ a @ ri))
            out.append(r @ ((q2 * np.exp(w2)) @ _h(q2)) @ r)
        return self.stack(out)

    def dist(self, a, b):
        t = [
            np.log(sl.eigvalsh(_sym(y), _sym(x)))
            for x, y in zip(self.slices(a), self.slices(b))
        ]
        return float(np.linalg.norm(np.concatenate(t)))


class PositiveSpace(Space):
    embedded = False
    retraction_order = 2
    POINT_STYLES = ("generic", "canonical", "lib", "ill")

    def far_ok(self, op, length):
        return False  # exponentials of the components

    def __init__(self, name, M, m, n, k=1, parallel=False):
        super().__init__(name, M)
        self.k = k
        self.shape = (m, n) if k == 1 else (k, m, n)
        self.has_log = self.has_dist = True
        self.transport_isometric = parallel

    def rand_point(self, rng, style):
        if style == "lib":
            return self.M.random_point()
        if style == "canonical":
            return np.ones(self.shape)
        s = 4.0 if style == "ill" else 0.7
        return np.exp(s * rng.uniform(-1, 1, self.shape))

    def point_res(self, p):
        return 0.0 if np.all(np.asarray(p) > 0) else float("inf")

    def tan_res(self, p, v):
        return np.zeros(0)

    def inner(self, p, u, v):
        return float(np.sum(u * v / p**2))

    def cond(self, p):
        return float(max(np.max(p), 1.0) ** 2 / min(np.min(p), 1.0))

    def exp(self, p, v):
        return np.exp(np.log(p) + v / p)

    def dist(self, a, b):
        return float(np.linalg.norm(np.log(b / a)))


class BallSpace(Space):
    embedded = False
    retraction_order = 2
    has_pair_mean = True
    POINT_STYLES = ("generic", "canonical", "lib", "edge")

    def __init__(self, name, M, n, k=1):
        super().__init__(name, M)
        self.n, self.k = n, k
        self.shape = (n,) if k == 1 else (k, n)

    def _rows(self, p):
        p = np.asarray(p)
        return p[None] if p.ndim == 1 else p

    def _stack(self, rows):
        out = np.stack(rows)
        return out[0] if self.k == 1 else out

    def rand_point(self, rng, style):
        if style == "lib":
            # uniform in the ball; keep away from the numerical boundary
            for _ in range(50):
                p = self.M.random_point()
                if np.max(np.linalg.norm(self._rows(p), axis=-1)) < 0.97:
                    return p
        if style == "canonical":
            return np.zeros(self.shape)
        u = rng.standard_normal((self.k, self.n))
        u /= np.linalg.norm(u, axis=-1, keepdims=True)
        r = 0.9 if style == "edge" else rng.uniform(0.05, 0.7, (self.k, 1))
        return self._stack(list(u * r))

    def point_res(self, p):
        return (
            0.0
            if np.all(np.linalg.norm(self._rows(p), axis=-1) < 1)
            else float("inf")
        )

    def tan_res(self, p, v):
        return np.zeros(0)

    def rim_point(self, rng):
        u = rng.standard_normal((self.k, self.n))
        u /= np.linalg.norm(u, axis=-1, keepdims=True)
        return self._stack(
            list(u * (1 - 10 ** rng.uniform(-7, -2, (self.k, 1)))))

    def _lam(self, p):
        return 2 / (1 - np.sum(self._rows(p) ** 2, -1))

    def cond(self, p):
        return float(np.max(self._lam(p)) ** 2)

    def inner(self, p, u, v):
        return float(
            np.sum(
                self._lam(p) ** 2
                * np.sum(self._rows(u) * self._rows(v), -1)
            )
        )

    def exp(self, p, v):
        # hyperboloid model: stereographic lift, exp there, project back
        out = []
        for x, u in zip(self._rows(p), self._rows(v)):
            q = x @ x
            t0, X = (1 + q) / (1 - q), 2 * x / (1 - q)
            # differential of the lift
            dq = 2 * x @ u
            dt = dq * 2 / (1 - q) ** 2
            dX = 2 * u / (1 - q) + 2 * x * dq / (1 - q) ** 2
            n = np.sqrt(max(dX @ dX - dt * dt, 0.0))
            if n == 0:
                out.append(x.copy())
                continue
            T = np.cosh(n) * t0 + np.sinh(n) / n * dt
            Y = np.cosh(n) * X + np.sinh(n) / n * dX
            out.append(Y / (1 + T))
        return self._stack(out)

    def dist(self, a, b):
        a, b = self._rows(a), self._rows(b)
        num = np.linalg.norm(a - b, axis=-1)
        den = np.sqrt((1 - np.sum(a * a, -1)) * (1 - np.sum(b * b, -1)))
        return float(np.linalg.norm(2 * np.arcsinh(num / den)))

    def midpoint(self, a, b):
        out = []
        for x, y in zip(self._rows(a), self._rows(b)):
            X = [np.r_[(1 + q) / (1 - q), 2 * w / (1 - q)]
                 for w, q in ((x, x @ x), (y, y @ y))]
            m = X[0] + X[1]
            m = m / np.sqrt(m[0] ** 2 - m[1:] @ m[1:])
            out.append(m[1:] / (1 + m[0]))
        return self._stack(out)


class PSDSpace(Space):
    quotient = True
    retraction_order = 1
    POINT_STYLES = ("generic", "canonical", "lib")

    def __init__(self, name, M, n, k, cplx=False):
        super().__init__(name, M)
        self.n, self.rank, self.cplx = n, k, cplx
        self.shape = (n, k)
        self.retraction_order = 2

    def rand_point(self, rng, style):
        if style == "lib":
            return self.M.random_point()
        d = np.linspace(1.0, 2.0, self.rank)
        if style == "canonical":
            return np.eye(self.n, self.rank) * d + (
                0j if self.cplx else 0.0
            )
        u = haar(rng, self.n, self.rank, self.cplx)
        return (u * np.exp(rng.uniform(-0.5, 0.8, self.rank))) @ haar(
            rng, self.rank, self.rank, self.cplx
        )

    def cond(self, p):
        return float(np.linalg.cond(p)) ** 2

    def point_res(self, p):
        s = np.linalg.svd(p, compute_uv=False)
        return 0.0 if s[-1] > 0 else float("inf")

    def tan_res(self, p, v):
        return realvec(_skew(_h(p) @ v), self.cplx)

    def canon(self, p):
        return p @ _h(p)

    def exp(self, p, v):
        return p + v

    def dist(self, a, b):
        u, _, vt = np.linalg.svd(_h(b) @ a)
        return float(np.linalg.norm(a - b @ (u @ vt)))

    def dist_slack(self, a, b):
        # the library subtracts squared norms
        size = np.linalg.norm(a) ** 2 + np.linalg.norm(b) ** 2
        return self.dist(a, b) / (1 + size)

    def inj(self, p):
        return 0.9 * float(np.linalg.svd(p, compute_uv=False)[-1])

    def rotate(self, rng, x):
        Q = haar(rng, self.rank, self.rank, self.cplx)
        return (lambda y: y @ Q), Q

    z = canon

    @property
    def z_shape(self):
        return (self.n, self.n)

    pull = GrassmannSpace.pull
    dz = GrassmannSpace.dz
    pull_d = GrassmannSpace.pull_d


class ElliptopeSpace(ObliqueSpace):
    axis = 1
    quotient = True
    has_exp = False
    has_log = False
    has_dist = False
    has_pair_mean = False

    def __init__(self, name, M, n, k):
        Space.__init__(self, name, M)
        self.n, self.rank = n, k
        self.shape = (n, k)

    def cond(self, p):
        return float(np.linalg.cond(p)) ** 2

    def tan_res(self, p, v):
        return np.concatenate(
            [np.sum(p * v, axis=1), np.ravel(_skew(p.T @ v))]
        )

    canon = PSDSpace.canon
    z = PSDSpace.canon
    z_shape = PSDSpace.z_shape
    pull = GrassmannSpace.pull
    dz = GrassmannSpace.dz
    pull_d = GrassmannSpace.pull_d
    rotate = PSDSpace.rotate
    # lifting to horizontal curves: rowwise great circles are geodesics of
    # the total space and horizontal when started horizontally.


class FixedRankSpace(Space):
    has_exp = has_log = has_dist = has_hess = False
    layout = 3
    retraction_order = 2
    quotient = True  # (u, s, vt) is only unique up to signs
    POINT_STYLES = ("generic", "canonical", "lib", "ill", "close")
    TAN_STYLES = ("generic", "sparse", "tiny", "large", "M", "Up")

    def __init__(self, name, M, m, n, k):
        super().__init__(name, M)
        self.m, self.n, self.rank = m, n, k
        self.shapes = [(m, k), (k, k), (n, k)]
        self.shape = (m, n)

    @property
    def point_class(self):
        if not hasattr(self, "_pc"):
            state = np.random.get_state()
            self._pc = type(self.M.random_point())
            np.random.set_state(state)
        return self._pc

    def rand_point(self, rng, style):
        if style == "lib":
            for _ in range(50):
                p = self.M.random_point()
                s = np.sort(np.asarray(p[1]))
                gap = np.min(np.diff(s)) if s.size > 1 else 1.0
                if s[0] > 0.05 and gap > 0.05:
                    return p
        cls = type(self.M.random_point())
        s = np.sort(0.5 + np.arange(self.rank) + 0.3 * rng.random(self.rank))
        s = s[::-1].copy()
        if style == "ill":
            s = 10.0 ** -np.arange(0.0, 2.0, 2.0 / self.rank)[: self.rank]
        if style == "close":  # singular values that nearly coincide
            gap = 10 ** rng.uniform(-4, -2.5)
            s = 1.0 + gap * np.arange(self.rank, 0.0, -1.0)
        if style == "canonical":
            u, v = np.eye(self.m, self.rank), np.eye(self.n, self.rank)
        else:
            u = haar(rng, self.m, self.rank, False)
            v = haar(rng, self.n, self.rank, False)
        return cls(u, s, v.T.copy())

    def cond(self, p):
        s = np.asarray(p[1])
        return float(np.max(s) / np.min(s)) ** 2

    @property
    def ncoords(self):
        return sum(a * b for a, b in self.shapes)

    def coords(self, v):
        return np.concatenate([np.asarray(a, float).ravel() for a in v])

    def uncoords(self, x, p=None):
        out, i = [], 0
        for s in self.shapes:
            n = s[0] * s[1]
            out.append(x[i:i + n].reshape(s).copy())
            i += n
        return self._tcls()(*out)

    def _tcls(self):
        if not hasattr(self, "_tc"):
            p = self.M.random_point()
            self._tc = type(self.M.zero_vector(p))
        return self._tc

    def shape_ok(self, v):
        return len(v) == 3 and [np.shape(a) for a in v] == self.shapes

    def real_ok(self, v):
        return not any(np.iscomplexobj(a) for a in v)

    def tangent(self, rng, p, style="generic", B=None):
        if style in ("M", "Up"):
            v = super().tangent(rng, p, "generic", B)
            Up, Mm, Vp = (np.array(a) for a in v)
            if style == "M":
                Up, Vp = 0 * Up, 0 * Vp
            else:
                Mm, Vp = 0 * Mm, 0 * Vp
            if style == "Up" and self.m == self.rank:
                return v
            return self._tcls()(Up, Mm, Vp)
        return super().tangent(rng, p, style, B)

    def emb(self, p, v):
        u, _, vt = p
        Up, Mm, Vp = v
        return u @ Mm @ vt + Up @ vt + u @ Vp.T

    def point_res(self, p):
        u, s, vt = p
        k = self.rank
        if (
            np.shape(u) != (self.m, k)
            or np.shape(s) != (k,)
            or np.shape(vt) != (k, self.n)
            or not np.all(np.asarray(s) > 0)
        ):
            return float("inf")
        return float(
            np.linalg.norm(u.T @ u - np.eye(k))
            + np.linalg.norm(vt @ vt.T - np.eye(k))
        )

    def tan_res(self, p, v):
        u, _, vt = p
        return np.concatenate([(u.T @ v[0]).ravel(), (vt @ v[2]).ravel()])

    def canon(self, p):
        u, s, vt = p
        return (u * s) @ vt

    z = canon

    def pull(self, p, G):
        u, s, vt = p
        GV = G @ vt.T
        return [GV * s, np.sum(u * GV, axis=0), s[:, None] * (u.T @ G)]

    def retraction_reference(self, p, v):
        """Metric projection of X + Z onto the rank-k matrices."""
        U, S, Vt = np.linalg.svd(self.canon(p) + self.emb(p, v))
        k = self.rank
        return (U[:, :k] * S[:k]) @ Vt[:k]

    def exp(self, p, v):
        """Second-order curve (metric projection), not a geodesic."""
        U, S, Vt = np.linalg.svd(self.canon(p) + self.emb(p, v))
        k = self.rank
        return type(p)(U[:, :k], S[:k], Vt[:k])


class ProductSpace(Space):
    POINT_STYLES = ("generic", "canonical", "lib")

    def far_ok(self, op, length):
        return all(f.far_ok(op, length) for f in self.factors)

    def __init__(self, name, factors):
        self.factors = factors
        super().__init__(name, pm.Product([f.M for f in factors]))
        self.POINT_STYLES = tuple(dict.fromkeys(
            st for f in factors for st in f.POINT_STYLES
            if st in ("generic", "canonical", "lib", "ill", "edge")))
        f = factors
        self.has_exp = all(s.has_exp for s in f)
        self.has_log = all(s.has_log for s in f)
        self.has_dist = all(s.has_dist for s in f)
        self.has_hess = all(s.has_hess for s in f)
        self.has_pair_mean = all(s.has_pair_mean for s in f)
        self.retraction_order = min(s.retraction_order for s in f)
        self.quotient = any(s.quotient for s in f)
        self.embedded = all(s.embedded for s in f)
        self.transport_isometric = all(s.transport_isometric for s in f)
        self.cplx = any(s.cplx for s in f)
        self.layout = tuple(s.layout for s in f)
        self.TAN_STYLES = ("generic", "sparse", "tiny", "large", "factor")

    def rand_point(self, rng, style):
        if style == "lib":
            return [s.rand_point(rng, "lib") for s in self.factors]
        return [
            s.rand_point(rng, style if style in s.POINT_STYLES else "generic")
            for s in self.factors
        ]

    @property
    def ncoords(self):
        return sum(s.ncoords for s in self.factors)

    def coords(self, v):
        return np.concatenate(
            [s.coords(a) for s, a in zip(self.factors, v)]
        )

    def _cls(self):
        if not hasattr(self, "_tc"):
            self._tc = type(
                self.M.zero_vector(
                    [s.rand_point(np.random.default_rng(0), "generic")
                     for s in self.factors]
                )
            )
        return self._tc

    def uncoords(self, x, p=None):
        out, i = [], 0
        for s in self.factors:
            out.append(s.uncoords(x[i:i + s.ncoords]))
            i += s.ncoords
        return self._cls()(out)

    def basis(self, p):
        out = []
        for j, s in enumerate(self.factors):
            for b in s.basis(p[j]):
                out.append(
                    self._cls()(
                        [b if i == j else t.uncoords(np.zeros(t.ncoords))
                         for i, t in enumerate(self.factors)]
                    )
                )
        return out

    def tangent(self, rng, p, style="generic", B=None):
        if style == "factor" and len(self.factors) > 1:
            v = super().tangent(rng, p, "generic", B)
            j = int(rng.integers(len(self.factors)))
            return self._cls()(
                [self.factors[i].scale(w, 0.0) if i == j else w
                 for i, w in enumerate(v)]
            )
        return super().tangent(rng, p, style, B)

    def shape_ok(self, v):
        return len(v) == len(self.factors) and all(
            s.shape_ok(a) for s, a in zip(self.factors, v)
        )

    def real_ok(self, v):
        return all(s.real_ok(a) for s, a in zip(self.factors, v))

    def _map(self, name, *args):
        return [
            getattr(s, name)(*a) for s, *a in zip(self.factors, *args)
        ]

    def emb(self, p, v):
        return self._map("emb", p, v)

    def amb_coords(self, z):
        return np.concatenate(self._map("amb_coords", z))

    def ambient(self, rng, p, scale=1.0):
        return [s.ambient(rng, q, scale) for s, q in zip(self.factors, p)]

    def project(self, p, z):
        return self._cls()(self._map("project", p, z))

    def inner(self, p, u, v):
        return float(sum(self._map("inner", p, u, v)))

    def cond(self, p):
        return max(self._map("cond", p))

    def point_res(self, p):
        return float(sum(self._map("point_res", p)))

    def tan_res(self, p, v):
        return np.concatenate(
            [np.asarray(a, float).ravel() for a in self._map("tan_res", p, v)]
        )

    def canon(self, p):
        return self._map("canon", p)

    def exp(self, p, v):
        return self._map("exp", p, v)

    def dist(self, a, b):
        return float(np.linalg.norm(self._map("dist", a, b)))

    def dist_slack(self, a, b):
        # factors at a small distance hardly contribute to a large one
        d = self._map("dist", a, b)
        low = self._map("dist_slack", a, b)
        return min([float(np.linalg.norm(d))] + [
            s for s, t in zip(low, d) if s < t])

    def midpoint(self, a, b):
        return self._map("midpoint", a, b)

    def inj(self, p):
        return min(self._map("inj", p))

    def z(self, p):
        return self._map("z", p)

    def pull(self, p, G):
        return self._map("pull", p, G)

    def dz(self, p, w):
        return self._map("dz", p, w)

    def pull_d(self, p, w, G, dG):
        return self._map("pull_d", p, w, G, dG)


# ---------------------------------------------------------------------------
def zvec(space, zz):
    if isinstance(space, ProductSpace):
        return np.concatenate(
            [zvec(s, a) for s, a in zip(space.factors, zz)]
        )
    return realvec(zz, space.z_cplx)


def unzvec(space, x):
    if isinstance(space, ProductSpace):
        out, i = [], 0
        for s in space.factors:
            n = int(np.prod(s.z_shape)) * (2 if s.z_cplx else 1)
            out.append(unzvec(s, x[i:i + n]))
            i += n
        return out
    return unrealvec(x, space.z_shape, space.z_cplx)


class Cost:
    """f(p) = g(z(p)),  g(x) = a.x + x'Qx/2 + sum_i sin(b_i.x) : closed form,
    couples every coordinate (and every slice and factor) with every other."""

    def __init__(self, space, rng, scale=1.0, convexity=None):
        self.space = space
        n = self.dimension()
        self.a = rng.standard_normal(n) / np.sqrt(n) * scale
        Q = rng.standard_normal((n, n)) / n
        self.Q = (Q + Q.T) * scale
        self.b = rng.standard_normal((3, n)) / np.sqrt(n)
        self.scale = scale

    def dimension(self):
        s = self.space

        def size(s):
            if isinstance(s, ProductSpace):
                return sum(size(t) for t in s.factors)
            return int(np.prod(s.z_shape)) * (2 if s.z_cplx else 1)

        return size(s)

    def f(self, p):
        x = zvec(self.space, self.space.z(p))
        return float(
            self.a @ x + x @ self.Q @ x / 2
            + self.scale * np.sum(np.sin(self.b @ x))
        )

    def _g(self, x):
        return self.a + self.Q @ x + self.scale * self.b.T @ np.cos(self.b @ x)

    def egrad(self, p):
        s = self.space
        x = zvec(s, s.z(p))
        return s.pull(p, unzvec(s, self._g(x)))

    def zgrad(self, p):
        s = self.space
        return unzvec(s, self._g(zvec(s, s.z(p))))

    def ehess(self, p, w):
        """Derivative of egrad along the ambient perturbation ``w``."""
        s = self.space
        x = zvec(s, s.z(p))
        dx = zvec(s, s.dz(p, w))
        g = self._g(x)
        dg = self.Q @ dx - self.scale * self.b.T @ (
            np.sin(self.b @ x) * (self.b @ dx)
        )
        return s.pull_d(p, w, unzvec(s, g), unzvec(s, dg))


def aslist(space, value):
    return list(value) if isinstance(space, ProductSpace) else value


# ---------------------------------------------------------------------------
MIXES = {}


def _span(n, r, seed):
    rng = np.random.default_rng(seed)
    return rng.standard_normal((n, r))


def _subspace(kind, n, r, seed, span="gauss"):
    A = _span(n, r, seed)
    if span == "unit":  # unit columns that are not orthogonal
        A = A / np.linalg.norm(A, axis=0)
    elif span == "orth":  # orthogonal columns of different lengths
        A = np.linalg.qr(A)[0] * np.geomspace(0.5, 20, r)
    elif span == "basis":  # coordinate directions, integer data
        A = np.eye(n, dtype=int)[:, 1:r + 1]
    elif span in ("big", "small"):
        A = A * (1e4 if span == "big" else 1e-4)
    elif span == "skewed":  # nearly dependent columns
        A = A @ (np.ones((r, r)) + 1e-3 * np.eye(r))
    u, _, _ = np.linalg.svd(A, full_matrices=True)
    if kind == "in":
        return pm.SphereSubspaceIntersection(A), u[:, :r]
    return pm.SphereSubspaceComplementIntersection(A), u[:, r:]


def _sub(name, kind, n, r, seed, span="gauss"):
    M, W = _subspace(kind, n, r, seed, span)
    return SphereSpace(name, M, (n,), W)


def _builders():
    B = {}

    def add(name, fn):
        B[name] = fn

    for shape in [(1,), (5,), (3, 2), (2, 3, 2)]:
        s = "x".join(map(str, shape))
        add(f"euclidean-{s}",
            lambda n, shape=shape: Flat(n, pm.Euclidean(*shape), shape))
    for shape in [(1,), (3,), (2, 2), (2, 1, 3)]:
        s = "x".join(map(str, shape))
        add(f"ceuclidean-{s}",
            lambda n, shape=shape: Flat(
                n, pm.ComplexEuclidean(*shape), shape, cplx=True))
    for n_, k in [(1, 1), (3, 1), (3, 3), (2, 2), (4, 2), (2, 5)]:
        add(f"symmetric-{n_}-k{k}",
            lambda n, a=n_, k=k: Flat(
                n, pm.Symmetric(a, k), (a, a) if k == 1 else (k, a, a),
                kind="sym"))
    for n_, k in [(2, 1), (4, 1), (3, 3), (2, 2), (5, 2), (2, 4)]:
        add(f"skew-{n_}-k{k}",
            lambda n, a=n_, k=k: Flat(
                n, pm.SkewSymmetric(a, k), (a, a) if k == 1 else (k, a, a),
                kind="skew"))
    for shape in [(2,), (5,), (3, 2), (2, 2, 2), (3, 3), (40,)]:
        s = "x".join(map(str, shape))
        add(f"sphere-{s}",
            lambda n, shape=shape: SphereSpace(n, pm.Sphere(*shape), shape))
    for kind, n_, r in [("in", 5, 3), ("in", 4, 4), ("in", 6, 2),
                        ("out", 5, 2), ("out", 4, 1)]:
        add(f"sphere{kind}-{n_}-{r}",
            lambda n, kind=kind, a=n_, r=r: _sub(n, kind, a, r, 7 * a + r))
    for kind, n_, r, span in [
            ("in", 5, 3, "unit"), ("out", 5, 2, "unit"), ("in", 4, 2, "orth"),
            ("out", 4, 2, "orth"), ("in", 5, 2, "basis"),
            ("out", 5, 2, "basis"), ("in", 5, 2, "big"), ("out", 4, 2, "small"),
            ("in", 6, 3, "small"), ("in", 5, 3, "skewed"),
            ("out", 5, 2, "skewed")]:
        add(f"sphere{kind}-{n_}-{r}-{span}",
            lambda n, kind=kind, a=n_, r=r, span=span: _sub(
                n, kind, a, r, 7 * a + r, span))
    for m, n_ in [(2, 1), (3, 4), (4, 2), (3, 3), (2, 2), (2, 7)]:
        add(f"oblique-{m}-{n_}",
            lambda n, m=m, a=n_: ObliqueSpace(n, pm.Oblique(m, a), m, a))
    for n_ in [1, 2, 5, 16]:
        add(f"circle-{n_}",
            lambda n, a=n_: CircleSpace(n, pm.ComplexCircle(a), a))
    for n_, p, k, r in [(4, 2, 1, "qr"), (4, 2, 1, "polar"), (3, 3, 1, "qr"),
                        (3, 1, 1, "qr"), (4, 2, 3, "qr"), (3, 2, 2, "polar"),
                        (3, 3, 2, "polar"), (5, 1, 2, "qr"),
                        (3, 3, 1, "polar"), (2, 2, 4, "qr"),
                        (6, 2, 5, "qr"), (12, 3, 1, "qr"),
                        (12, 3, 1, "polar"), (5, 3, 2, "polar")]:
        add(f"stiefel-{n_}-{p}-k{k}-{r}",
            lambda n, a=n_, p=p, k=k, r=r: StiefelSpace(
                n, pm.Stiefel(a, p, k=k, retraction=r), a, p, k, r))
    for n_, p, k in [(4, 2, 1), (3, 1, 1), (5, 3, 1), (4, 2, 3), (3, 2, 2),
                     (2, 1, 4), (9, 2, 1), (5, 3, 2)]:
        add(f"grassmann-{n_}-{p}-k{k}",
            lambda n, a=n_, p=p, k=k: GrassmannSpace(
                n, pm.Grassmann(a, p, k=k), a, p, k))
        add(f"cgrassmann-{n_}-{p}-k{k}",
            lambda n, a=n_, p=p, k=k: GrassmannSpace(
                n, pm.ComplexGrassmann(a, p, k=k), a, p, k, cplx=True))
    for n_, k, r in [(2, 1, "qr"), (3, 1, "qr"), (3, 1, "polar"),
                     (4, 1, "qr"), (3, 3, "qr"), (2, 2, "polar"),
                     (4, 2, "qr"), (5, 1, "qr"), (4, 3, "polar"),
                     (2, 5, "qr"), (6, 1, "polar")]:
        add(f"so-{n_}-k{k}-{r}",
            lambda n, a=n_, k=k, r=r: GroupSpace(
                n, pm.SpecialOrthogonalGroup(a, k=k, retraction=r), a, k,
                False, r))
    for n_, k, r in [(1, 1, "qr"), (2, 1, "qr"), (3, 1, "polar"),
                     (3, 3, "qr"), (2, 2, "polar"), (1, 2, "qr"),
                     (4, 1, "qr"), (3, 2, "polar"), (2, 4, "qr")]:
        add(f"u-{n_}-k{k}-{r}",
            lambda n, a=n_, k=k, r=r: GroupSpace(
                n, pm.UnitaryGroup(a, k=k, retraction=r), a, k, True, r))
    for n_, k in [(1, 1), (3, 1), (3, 3), (2, 2), (2, 3), (4, 2), (2, 1),
                  (1, 3), (7, 1)]:
        add(f"spd-{n_}-k{k}",
            lambda n, a=n_, k=k: SPDSpace(
                n, pm.SymmetricPositiveDefinite(a, k=k), a, k))
        add(f"hpd-{n_}-k{k}",
            lambda n, a=n_, k=k: SPDSpace(
                n, pm.HermitianPositiveDefinite(a, k=k), a, k, cplx=True))
        if n_ > 1:
            add(f"shpd-{n_}-k{k}",
                lambda n, a=n_, k=k: SPDSpace(
                    n, pm.SpecialHermitianPositiveDefinite(a, k=k), a, k,
                    cplx=True, special=True))
    for m, n_, k, t in [(1, 1, 1, False), (3, 2, 1, False), (3, 2, 1, True),
                        (2, 2, 3, False), (2, 3, 2, True),
                        (1, 3, 1, False), (2, 1, 2, True), (1, 1, 4, False),
                        (3, 3, 1, False), (3, 3, 3, True), (4, 1, 2, False)]:
        add(f"positive-{m}-{n_}-k{k}" + ("-pt" if t else ""),
            lambda n, m=m, a=n_, k=k, t=t: PositiveSpace(
                n, pm.Positive(m, a, k=k, use_parallel_transport=t), m, a,
                k, t))
    for n_, k in [(1, 1), (2, 1), (4, 1), (2, 3), (3, 2), (3, 3), (1, 2), (10, 1),
                  (2, 2), (1, 5)]:
        add(f"ball-{n_}-k{k}",
            lambda n, a=n_, k=k: BallSpace(n, pm.PoincareBall(a, k=k), a, k))
    for n_, k in [(4, 2), (3, 3), (5, 1), (2, 2), (6, 4), (3, 1)]:
        add(f"psd-{n_}-{k}",
            lambda n, a=n_, k=k: PSDSpace(n, pm.PSDFixedRank(a, k), a, k))
        add(f"cpsd-{n_}-{k}",
            lambda n, a=n_, k=k: PSDSpace(
                n, pm.PSDFixedRankComplex(a, k), a, k, cplx=True))
    for n_, k in [(5, 2), (6, 3), (4, 2), (3, 3), (7, 2), (2, 2), (4, 3)]:
        add(f"elliptope-{n_}-{k}",
            lambda n, a=n_, k=k: ElliptopeSpace(n, pm.Elliptope(a, k), a, k))
    for m, n_, k in [(5, 4, 2), (4, 6, 3), (3, 3, 1), (6, 5, 2), (4, 4, 2),
                      (3, 5, 1), (5, 3, 3), (3, 5, 3), (4, 4, 4), (7, 3, 2)]:
        add(f"fixedrank-{m}-{n_}-{k}",
            lambda n, m=m, a=n_, k=k: FixedRankSpace(
                n, pm.FixedRankEmbedded(m, a, k), m, a, k))

    MIXES.update({
        "product-sphere-euclid": ["sphere-5", "euclidean-3x2"],
        "product-stiefel-spd-ball": [
            "stiefel-4-2-k1-qr", "spd-3-k1", "ball-2-k1"],
        "product-so-sphere": ["so-3-k1-qr", "sphere-5"],
        "product-u-ceuclid": ["u-2-k1-qr", "ceuclidean-3"],
        "product-grassmann-positive": [
            "grassmann-4-2-k1", "positive-3-2-k1", "euclidean-5"],
        "product-fixedrank-euclid": ["fixedrank-5-4-2", "euclidean-3x2"],
        "product-oblique-psd": ["oblique-3-4", "psd-4-2"],
        "product-same-euclid": ["euclidean-5", "euclidean-5"],
        "product-single": ["sphere-5"],
        "product-circle-skew": ["circle-2", "skew-4-k1"],
        "product-four": [
            "sphere-2", "symmetric-3-k1", "positive-3-2-k1", "so-2-k1-qr"],
        # the same manifold object in several places
        "product-shared-stiefel": ["stiefel-4-2-k1-qr"] * 2,
        "product-shared-spd": ["spd-3-k1", "sphere-5", "spd-3-k1"],
        # equal shapes, different geometries
        "product-alike": ["spd-3-k1", "symmetric-3-k1", "so-3-k1-qr",
                          "oblique-4-2", "grassmann-4-2-k1"],
        # stacks inside a product
        "product-stacks": ["so-3-k3-qr", "spd-2-k2", "ball-2-k3"],
        "product-complex": ["cgrassmann-4-2-k1", "hpd-3-k1", "circle-2"],
        "product-fixedrank-two": ["fixedrank-5-4-2", "fixedrank-4-6-3"],
        "product-elliptope-sphere": ["elliptope-4-2", "sphere-5"],
        "product-hyperbolic": ["ball-2-k1", "ball-4-k1", "positive-3-2-k1"],
    })
    for name, parts in MIXES.items():

        def build(n, parts=parts):
            made = {q: B[q](q) for q in parts}
            fresh = not n.startswith("product-shared")
            return ProductSpace(
                n, [B[q](q) if fresh else made[q] for q in parts])

        add(name, build)
    return B


BUILDERS = _builders()
NAMES = list(BUILDERS)


def family(name):
    return name.split("-")[0]


def kinds(name):
    """Families of the factors of a (product) space."""
    return {family(n) for n in MIXES.get(name, [name])}


def get(name):
    return BUILDERS[name](name)
