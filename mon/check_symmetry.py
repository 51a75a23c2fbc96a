"""M19: operations commute with the symmetries of the manifolds."""

import warnings

import numpy as np

import spaces as S
from check_manifolds import (
    Base, _pl, ambient_of, flatten_np, has_transport, sig, styles, vdiff,
)
from core import finite, rel_err


class Symmetry:
    """A map of the manifold onto itself given by a (real) linear map of the
    ambient space: how points, tangent vectors, ambient vectors and covectors
    move, the inverses for points and tangent vectors, and the factor by which
    lengths are multiplied."""

    def __init__(self, label, pt, pt_inv, tan=None, tan_inv=None, amb=None,
                 cov=None, factor=1.0, retracts=True):
        self.label, self.factor, self.retracts = label, factor, retracts
        self.pt, self.pt_inv = pt, pt_inv
        self.tan = tan or pt
        self.tan_inv = tan_inv or pt_inv
        self.amb = amb or self.tan
        self.cov = cov or (lambda g: self.amb(g))


def orth(rng, n, k, cplx=False):
    q = [S.haar(rng, n, n, cplx) for _ in range(k)]
    return q[0] if k == 1 else np.stack(q)


def shuffled(s, rng):
    """Permutation of the slices of a stack and its inverse."""
    if s.k == 1:
        return (lambda x: x), (lambda x: x)
    i = rng.permutation(s.k)
    return (lambda x: np.asarray(x)[i]), (lambda x: np.asarray(x)[np.argsort(i)])


def linear(label, fwd, inv, **kw):
    return Symmetry(label, fwd, inv, **kw)


def rescaled(label, c, fwd, inv):
    """Homothety: lengths are multiplied by c, covectors divided by c."""
    return Symmetry(
        label, lambda x: c * fwd(x), lambda x: inv(x) / c,
        cov=lambda g: fwd(g) / c, factor=c,
    )


def power(rng, top):
    return float(10.0 ** rng.uniform(-top, top))


def symmetries(s, rng, homothety=True):
    t = type(s)
    h = S._h
    if t is S.ProductSpace:
        return product(s, rng)
    if t is S.Flat:
        if s.kind:
            sh, un = shuffled(s, rng)
            Q = orth(rng, s.shape[-1], s.k)
            fwd = lambda x: sh(Q @ x @ h(Q))
            inv = lambda x: h(Q) @ un(x) @ Q
        else:
            n = int(np.prod(s.shape))
            Q = S.haar(rng, n, n, s.cplx)
            fwd = lambda x: (Q @ np.ravel(x)).reshape(s.shape)
            inv = lambda x: (h(Q) @ np.ravel(x)).reshape(s.shape)
        out = [linear("rotation", fwd, inv)]
        b = s.rand_point(rng, "generic") * power(rng, 2)
        out.append(Symmetry(
            "translation", lambda x: fwd(x) + b, lambda x: inv(x - b),
            tan=fwd, tan_inv=inv, amb=fwd, cov=fwd,
        ))
        if homothety:
            out.append(rescaled("scaling", power(rng, 20), fwd, inv))
        return out
    if t is S.SphereSpace:
        n = int(np.prod(s.shape))
        if s.W is None:
            Q = S.haar(rng, n, n, False)
        else:
            W = s.W
            Q = W @ S.haar(rng, W.shape[1], W.shape[1], False) @ W.T
            Q = Q + np.eye(n) - W @ W.T
        return [linear(
            "rotation",
            lambda x: (Q @ np.ravel(x)).reshape(s.shape),
            lambda x: (Q.T @ np.ravel(x)).reshape(s.shape),
        )]
    if t is S.ElliptopeSpace:
        i, d = rng.permutation(s.n), np.sign(rng.standard_normal((s.n, 1)))
        Q = S.haar(rng, s.rank, s.rank, False)
        return [linear(
            "signed permutation", lambda x: (d * x @ Q)[i],
            lambda x: (d * x[np.argsort(i)]) @ Q.T,
        )]
    if t is S.ObliqueSpace:
        m, n = s.shape
        j, d = rng.permutation(n), np.sign(rng.standard_normal(n))
        Q = S.haar(rng, m, m, False)
        return [
            linear("rotation", lambda x: Q @ x, lambda x: Q.T @ x),
            linear("signed permutation", lambda x: (x * d)[:, j],
                   lambda x: x[:, np.argsort(j)] * d),
        ]
    if t is S.CircleSpace:
        n = s.shape[0]
        w = np.exp(2j * np.pi * rng.random(n))
        i = rng.permutation(n)
        j = np.argsort(i)
        return [
            linear("phases", lambda x: (w * x)[i],
                   lambda x: np.conj(w) * np.asarray(x)[j]),
            linear("conjugation", np.conj, np.conj),
        ]
    if t in (S.StiefelSpace, S.GrassmannSpace):
        sh, un = shuffled(s, rng)
        Q = orth(rng, s.n, s.k, s.cplx)
        return [linear("rotation", lambda x: sh(Q @ x),
                       lambda x: h(Q) @ un(x))]
    if t is S.GroupSpace:
        sh, un = shuffled(s, rng)

        def element():
            Q = orth(rng, s.n, s.k, s.cplx)
            if not s.cplx:  # determinant one
                Q = np.array(Q)
                Q[..., 0] *= np.sign(np.linalg.det(Q))[..., None]
            return Q

        Q, R = element(), element()
        return [
            Symmetry("left translation", lambda x: sh(Q @ x),
                     lambda x: h(Q) @ un(x), tan=sh, tan_inv=un,
                     amb=lambda a: sh(Q @ a)),
            Symmetry("right translation", lambda x: x @ R,
                     lambda x: x @ h(R), tan=lambda v: h(R) @ v @ R,
                     tan_inv=lambda v: R @ v @ h(R), amb=lambda a: a @ R,
                     retracts=s.retraction_order == 2),
        ]
    if t is S.SPDSpace:
        sh, un = shuffled(s, rng)
        A = orth(rng, s.n, s.k, s.cplx) @ (
            np.eye(s.n) + 0.3 * np.diag(rng.uniform(-1, 1, s.n)))
        if s.special:
            det = np.abs(np.linalg.det(A)) ** (1 / s.n)
            A = A / np.reshape(det, np.shape(det) + (1, 1))
        else:
            A = A * power(rng, 4)
        Ai = np.linalg.inv(A)
        return [Symmetry(
            "congruence", lambda x: S._sym(sh(A @ x @ h(A))),
            lambda x: S._sym(Ai @ un(x) @ h(Ai)),
            amb=lambda x: sh(A @ x @ h(A)),
            cov=lambda g: sh(h(Ai) @ g @ Ai),
        )]
    if t is S.PositiveSpace:
        sh, un = shuffled(s, rng)
        c = 10.0 ** rng.uniform(-20, 20, s.shape)
        i = rng.permutation(int(np.prod(s.shape[-2:])))
        flat = s.shape[:-2] + (-1,)

        def perm(x, i):
            return np.reshape(
                np.reshape(x, flat)[..., i], s.shape)

        j = np.argsort(i)
        return [Symmetry(
            "scaling", lambda x: perm(sh(c * x), i),
            lambda x: un(perm(x, j)) / c, cov=lambda g: perm(sh(g / c), i),
        )]
    if t is S.BallSpace:
        sh, un = shuffled(s, rng)
        Q = orth(rng, s.n, s.k)
        mul = lambda Q, x: (Q @ np.asarray(x)[..., None])[..., 0]
        return [linear("rotation", lambda x: sh(mul(Q, x)),
                       lambda x: mul(h(Q), un(x)))]
    if t is S.PSDSpace:
        Q = S.haar(rng, s.n, s.n, s.cplx)
        fwd, inv = (lambda x: Q @ x), (lambda x: h(Q) @ x)
        out = [linear("rotation", fwd, inv)]
        if homothety:
            out.append(rescaled("scaling", power(rng, 12), fwd, inv))
        return out
    if t is S.FixedRankSpace:
        return fixed_rank(s, rng, homothety)
    raise TypeError(t)


def fixed_rank(s, rng, homothety):
    out = []
    for c in (1.0, power(rng, 5)) if homothety else (1.0,):
        Q, R = S.haar(rng, s.m, s.m, False), S.haar(rng, s.n, s.n, False)

        def pt(x, c=c, Q=Q, R=R):
            return type(x)(Q @ x[0], c * x[1], x[2] @ R.T)

        def pt_inv(x, c=c, Q=Q, R=R):
            return type(x)(Q.T @ x[0], x[1] / c, x[2] @ R)

        def tan(v, c=c, Q=Q, R=R):
            return type(v)(c * (Q @ v[0]), c * v[1], c * (R @ v[2]))

        def tan_inv(v, c=c, Q=Q, R=R):
            return type(v)(Q.T @ v[0] / c, v[1] / c, R.T @ v[2] / c)

        out.append(Symmetry(
            "rotation" if c == 1 else "scaling", pt, pt_inv, tan, tan_inv,
            amb=lambda a, c=c, Q=Q, R=R: c * (Q @ a @ R.T),
            cov=lambda g, c=c, Q=Q, R=R: [Q @ g[0], g[1] / c, g[2] @ R.T],
            factor=c,
        ))
    return out


def product(s, rng):
    parts = []
    for f in s.factors:
        g = symmetries(f, rng, False)
        parts.append(g[int(rng.integers(len(g)))])
    each = lambda name, cast: (lambda x: cast(
        [getattr(g, name)(a) for g, a in zip(parts, x)]))
    plain, vec = list, s._cls()
    return [Symmetry(
        "+".join(g.label for g in parts), each("pt", plain),
        each("pt_inv", plain), each("tan", vec), each("tan_inv", vec),
        each("amb", plain), each("cov", plain),
        retracts=all(g.retracts for g in parts),
    )]


class M19(Base):
    """Rotated, permuted, rescaled, ... inputs give outputs that moved along.
    """

    QUICK, THOROUGH = 8, 120

    def space(self, ctx, s, rng):
        M = s.M
        for st, p in styles(ctx, s):
            B = s.basis(p)
            u, v = s.tangent(rng, p, B=B), s.tangent(rng, p, B=B)
            q = s.exp(p, s.random_scaled(
                rng, p, 0.4 * min(s.inj(p), 1.5), B=B))
            a = s.ambient(rng, p)
            cost = S.Cost(s, rng)
            G = cost.egrad(p)
            H = cost.ehess(p, s.emb(p, u)) if s.has_hess else None
            if type(s) in (S.PSDSpace, S.GrassmannSpace):
                # any representative will do
                q = s.rotate(rng, q)[0](q)
            tol = 1e-8 * max(1.0, s.cond(p), s.cond(q))
            for g in symmetries(s, rng):
                self.compare(ctx, s, g, tol, p, q, u, v, a, G, H)
                ctx.nontrivial(g.label, flatten_np(p), flatten_np(u))
        ctx.sample(space=s.name, symmetry=g.label, point=p, vector=u)

    def compare(self, ctx, s, g, tol, p, q, u, v, a, G, H):
        M, c = s.M, g.factor
        P, Q, U, V, A = g.pt(p), g.pt(q), g.tan(u), g.tan(v), g.amb(a)

        def call(op, *args):
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return ctx.call(sig(s, op), getattr(M, op), *args)

        def judge(err, op, t=tol, **kw):
            ctx.leq(err, t, sig(s, f"symmetry:{op}"), symmetry=g.label,
                    point=p, moved=P, **kw)

        def number(op, moved, plain, factor, t=tol):
            x, y = call(op, *moved), call(op, *plain)
            judge(abs(x / factor - y) / (1 + abs(y)), op, t, got=x, plain=y)

        def point(op, moved, plain, t=tol):
            x, y = call(op, *moved), call(op, *plain)
            if ctx.ok(finite(x), sig(s, f"symmetry:{op}:finite"), got=x):
                judge(s.same(g.pt_inv(x), y), op, t, got=x, plain=y)

        def vector(op, moved, plain, factor=1.0, t=tol):
            x, y = call(op, *moved), call(op, *plain)
            if ctx.ok(finite(x), sig(s, f"symmetry:{op}:finite"), got=x):
                back = s.scale(g.tan_inv(x), factor)
                judge(vdiff(s, back, y), op, t, got=x, plain=y)

        number("inner_product", (P, U, V), (p, u, v), c * c)
        number("norm", (P, U), (p, u), c)
        vector("projection", (P, A), (p, a))
        vector("to_tangent_space", (P, U), (p, u))
        vector("zero_vector", (P,), (p,))
        if g.retracts:
            point("retraction", (P, U), (p, u))
        if s.has_exp:
            point("exp", (P, U), (p, u))
        arcs = max(tol, 1e-6)  # arc lengths of short arcs are lossy
        if s.has_dist:
            number("dist", (P, Q), (p, q), c, arcs)
        if s.has_log:
            vector("log", (P, Q), (p, q), t=arcs)
        if has_transport(s):
            vector("transport", (P, Q, U), (p, q, u))
        if s.has_pair_mean:
            point("pair_mean", (P, Q), (p, q))
        # the cost moves along: covectors transform contragrediently
        vector("euclidean_to_riemannian_gradient", (P, g.cov(G)), (p, G),
               c * c)
        if s.has_hess:
            vector("euclidean_to_riemannian_hessian",
                   (P, g.cov(G), g.cov(H), U), (p, G, H, u), c * c)
        if isinstance(s, S.ProductSpace):
            return
        x = ambient_of(s, call("embedding", P, U))
        y = g.amb(ambient_of(s, call("embedding", p, u)))
        judge(rel_err(_pl(x), _pl(y)), "embedding")

    REQUIRED = ["oracle:symmetry:projection", "oracle:symmetry:retraction",
                "oracle:symmetry:euclidean_to_riemannian_hessian"]


CHECKS = {"M19": M19()}
