"""Monitors for the geometry layer (properties M01..M17)."""

import copy
import warnings

import numpy as np

import spaces as S
from core import cflat, digest_of, finite, leaves, rel_err

TOL = 1e-9


class Base:
    """Cases are (space name, repetition)."""

    QUICK, THOROUGH = 12, 150
    RULE = (
        "distinct = digest of the concrete (point, tangent vector) inputs of "
        "an executed library call whose result an oracle judged; "
        "generic (non-zero, non-degenerate) inputs only"
    )
    ASSUMPTIONS = [
        "float64 arithmetic; tolerances scale with the condition number of "
        "the point",
        "zero-dimensional manifolds and numerically degenerate points "
        "(rank drop, ball boundary, cut locus) are outside the quantifier",
    ]
    names = None

    def select(self, space_name):
        return True

    def keys(self, tier):
        n = self.QUICK if tier == "quick" else self.THOROUGH
        return [
            (name, r)
            for r in range(n)
            for name in S.NAMES
            if self.select(name)
        ]

    def run(self, ctx, key):
        self.space(ctx, S.get(key[0]), ctx.rng)


def sig(s, what):
    return f"{S.family(s.name) if not s.name.startswith('product') else s.name}|{what}"


def tolof(s, p, base=TOL):
    return base * max(1.0, s.cond(p))


def membership(ctx, s, q, what, tol, **kw):
    """Oracle: finite, right shape, real where it must be, on the manifold."""
    if not ctx.ok(finite(q), sig(s, what + ":finite"), point=q, **kw):
        return False
    ctx.ok(point_real(s, q), sig(s, what + ":real"), point=q)
    try:
        r = s.point_res(q)
    except Exception as e:  # wrong structure
        ctx.violate(sig(s, what + ":structure"), error=str(e), point=q)
        return False
    return ctx.leq(r, tol, sig(s, what + ":on-manifold"), point=q, **kw)


def point_real(s, q):
    if isinstance(s, S.ProductSpace):
        return len(q) == len(s.factors) and all(
            point_real(f, a) for f, a in zip(s.factors, q)
        )
    return s.cplx or not any(np.iscomplexobj(a) for a in leaves(q))


def tangency(ctx, s, p, v, what, tol, **kw):
    if not ctx.ok(finite(v), sig(s, what + ":finite"), point=p, vector=v, **kw):
        return False
    if not ctx.ok(shape_ok(s, v), sig(s, what + ":shape"), vector=v):
        return False
    ctx.ok(s.real_ok(v), sig(s, what + ":real"), vector=v)
    return ctx.leq(
        s.tan_resid(p, v), tol, sig(s, what + ":tangent"), point=p, vector=v, **kw
    )


def shape_ok(s, v):
    try:
        return s.shape_ok(v)
    except TypeError:
        return False


def vdiff(s, a, b):
    return s.norm_diff(a, b) if hasattr(s, "norm_diff") else rel_err(
        _pl(a), _pl(b)
    )


def _pl(v):
    if isinstance(v, (list, tuple)):
        return [_pl(a) for a in v]
    return np.asarray(v)


def quiet(fn, *a):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a)


def styles(ctx, s):
    for st in s.POINT_STYLES:
        p = s.rand_point(ctx.rng, st)
        yield st, p


def pairs(ctx, s, p):
    """Second points: generic (within 0.6 inj), near, very near, identical."""
    rng = ctx.rng
    inj = s.inj(p)
    far = 0.6 * min(inj, 2.0)
    B = s.basis(p)
    out = []
    for label, d in (("far", far), ("near", 1e-3), ("close", 1e-7)):
        v = s.random_scaled(rng, p, d, B=B)
        out.append((label, s.exp(p, v), d))
    if np.isfinite(inj):
        v = s.random_scaled(rng, p, 0.93 * inj, B=B)
        out.append(("limit", s.exp(p, v), 0.93 * inj))
    out.append(("same", copy.deepcopy(p), 0.0))
    return out


# ---------------------------------------------------------------------------
class M01(Base):
    def space(self, ctx, s, rng):
        M = s.M
        for st in s.POINT_STYLES:
            if st == "lib":
                for _ in range(3):
                    p = ctx.call(sig(s, "random_point"), M.random_point)
                    membership(ctx, s, p, "random_point", 1e-9)
                p = s.rand_point(rng, "lib")
            else:
                p = s.rand_point(rng, st)
            B = s.basis(p)
            for ts in s.TAN_STYLES + ("zero",):
                v = s.zero(p) if ts == "zero" else s.tangent(rng, p, ts, B)
                tol = tolof(s, p)
                q = ctx.call(sig(s, "retraction"), M.retraction, p, v)
                membership(ctx, s, q, "retraction", tol, style=ts, at=st)
                ctx.nontrivial(p, v)
                if s.has_exp:
                    q = ctx.call(sig(s, "exp"), M.exp, p, v)
                    membership(ctx, s, q, "exp", tol, style=ts, at=st)
            self.far(ctx, s, p, B, st)
            self.short(ctx, s, p, B, st)
            if s.has_pair_mean:
                for label, q, _ in pairs(ctx, s, p):
                    m = ctx.call(sig(s, "pair_mean"), M.pair_mean, p, q)
                    membership(
                        ctx, s, m, "pair_mean", tolof(s, p), pair=label
                    )
        # long chains: errors must not accumulate
        for op in ("retraction", "exp"):
            if op == "exp" and not s.has_exp:
                continue
            p = s.rand_point(rng, "generic")
            f = getattr(M, op)
            n = 0
            for _ in range(40 if ctx.tier == "quick" else 120):
                # (library tangents amplify round-off off the manifold when
                # exp does not re-normalise, so exp chains use exact ones)
                v = (
                    M.random_tangent_vector(p)
                    if op == "retraction" and rng.random() < 0.5
                    else s.tangent(rng, p)
                )
                q = ctx.call(sig(s, op + "-chain"), f, p, v)
                if s.cond(q) > 1e5:
                    break
                p = q
                n += 1
            ctx.hit("chain-steps", n)
            membership(ctx, s, p, op + "-chain", tolof(s, p, 1e-8), steps=n)
        ctx.sample(space=s.name, point=p)

    def far(self, ctx, s, p, B, st):
        """Very long steps: rounding must not push points off the manifold."""
        length = float(10 ** ctx.rng.uniform(1, 4))
        v = s.random_scaled(ctx.rng, p, length, B=B)
        for op in ("retraction", "exp"):
            if op == "exp" and not s.has_exp:
                continue
            if not s.far_ok(op, length):
                continue
            q = ctx.call(sig(s, op + "-far"), getattr(s.M, op), p, v)
            ctx.hit("far-steps")
            membership(ctx, s, q, op + "-far", tolof(s, p) * length, at=st,
                       length=length)

    def short(self, ctx, s, p, B, st):
        """Short steps: second-order departures from the manifold show."""
        r0 = s.point_res(p)
        for length in 10.0 ** ctx.rng.uniform(-6, -1, 2):
            v = s.random_scaled(ctx.rng, p, float(length), B=B)
            for op in ("retraction", "exp"):
                if op == "exp" and not s.has_exp:
                    continue
                q = ctx.call(sig(s, op + "-short"), getattr(s.M, op), p, v)
                membership(ctx, s, q, op + "-short",
                           10 * r0 + tolof(s, p, 1e-13), at=st, length=length)

    REQUIRED = ["chain-steps", "oracle:pair_mean:on-manifold",
                "oracle:exp-chain:on-manifold", "far-steps",
                "oracle:retraction-short:on-manifold",
                "oracle:exp-short:on-manifold"]


class M02(Base):
    def space(self, ctx, s, rng):
        M = s.M
        for st, p in styles(ctx, s):
            tol = tolof(s, p)
            for _ in range(3):
                v = ctx.call(
                    sig(s, "random_tangent_vector"), M.random_tangent_vector, p
                )
                if tangency(ctx, s, p, v, "random_tangent_vector", tol, at=st):
                    ctx.leq(
                        abs(s.norm(p, v) - 1),
                        max(1e-8, tol),
                        sig(s, "random_tangent_vector:unit-norm"),
                        norm=s.norm(p, v),
                    )
                ctx.nontrivial(p, v)
            z = ctx.call(sig(s, "zero_vector"), M.zero_vector, p)
            if tangency(ctx, s, p, z, "zero_vector", tol):
                ctx.ok(
                    not np.any(s.coords(z)), sig(s, "zero_vector:is-zero"), z=z
                )
            B = s.basis(p)
            v = s.tangent(rng, p, B=B)
            a = s.ambient(rng, p)
            w = ctx.call(sig(s, "projection"), M.projection, p, a)
            tangency(ctx, s, p, w, "projection", tol, at=st)
            # re-tangentialisation of slightly and grossly wrong vectors
            for eps in (1e-6, 1.0):
                x = s.coords(v)
                noisy = s.uncoords(x + eps * rng.standard_normal(x.size), p)
                w = ctx.call(
                    sig(s, "to_tangent_space"), M.to_tangent_space, p, noisy
                )
                tangency(ctx, s, p, w, "to_tangent_space", tol, at=st)
                if eps < 1e-3:
                    ctx.leq(
                        vdiff(s, w, v),
                        1e-4 * max(1, s.cond(p)),
                        sig(s, "to_tangent_space:close"),
                    )
            w = ctx.call(sig(s, "to_tangent_space"), M.to_tangent_space, p, v)
            ctx.leq(
                vdiff(s, w, v), tol, sig(s, "to_tangent_space:fixes-tangents"),
                point=p, vector=v, got=w,
            )
            cost = S.Cost(s, rng)
            eg = cost.egrad(p)
            g = ctx.call(
                sig(s, "gradient"), M.euclidean_to_riemannian_gradient, p, eg
            )
            tangency(ctx, s, p, g, "gradient", tol, at=st)
            if s.has_hess:
                h = ctx.call(
                    sig(s, "hessian"), M.euclidean_to_riemannian_hessian,
                    p, eg, cost.ehess(p, s.emb(p, v)), v,
                )
                tangency(ctx, s, p, h, "hessian", tol, at=st)
            for label, q, d in pairs(ctx, s, p):
                if s.has_log:
                    w = ctx.call(sig(s, "log"), M.log, p, q)
                    tangency(
                        ctx, s, p, w, "log", max(1e-7, tolof(s, p)), pair=label
                    )
                w = ctx.call(sig(s, "transport"), M.transport, p, q, v) if (
                    has_transport(s)
                ) else None
                if w is not None:
                    tangency(
                        ctx, s, q, w, "transport",
                        max(tol, tolof(s, q)), pair=label,
                    )
        ctx.sample(space=s.name, point=p, vector=v)

    REQUIRED = ["oracle:log:tangent", "oracle:transport:tangent",
                "oracle:hessian:tangent", "oracle:gradient:tangent"]


def has_transport(s):
    if isinstance(s, S.ProductSpace):
        return all(has_transport(f) for f in s.factors)
    return not isinstance(s, S.BallSpace)


class M03(Base):
    def space(self, ctx, s, rng):
        M = s.M
        for st, p in styles(ctx, s):
            tol = tolof(s, p)
            a, b = s.ambient(rng, p), s.ambient(rng, p)
            if rng.random() < 0.3:
                a = s.ambient(rng, p, 1e3)
            pa = ctx.call(sig(s, "projection"), M.projection, p, a)
            pb = ctx.call(sig(s, "projection"), M.projection, p, b)
            ref = s.project(p, a)
            ctx.leq(
                vdiff(s, pa, ref), tol, sig(s, "projection:orthogonal"),
                point=p, ambient=a, got=pa, expected=ref, style=st,
            )
            ctx.nontrivial(p, a)
            if not isinstance(s, S.GroupSpace):
                # tangent vectors are fixed (group tangents use Lie algebra
                # coordinates: handled through emb below)
                pass
            v = s.tangent(rng, p)
            pv = ctx.call(
                sig(s, "projection"), M.projection, p, s.emb(p, v)
            )
            ctx.leq(
                vdiff(s, pv, v), tol, sig(s, "projection:fixes-tangents"),
                point=p, vector=v, got=pv,
            )
            again = ctx.call(
                sig(s, "projection"), M.projection, p, s.emb(p, pa)
            )
            ctx.leq(
                vdiff(s, again, pa), tol, sig(s, "projection:idempotent"),
            )
            c = 0.5 + rng.random()
            comb = _lin(a, c, b)
            pc = ctx.call(sig(s, "projection"), M.projection, p, comb)
            exp = s.uncoords(s.coords(pa) + c * s.coords(pb), p)
            ctx.leq(vdiff(s, pc, exp), tol, sig(s, "projection:linear"))
            if isinstance(s, S.FixedRankSpace):
                # the same ambient vector given as low-rank factors
                r = int(rng.integers(1, 5))
                U = rng.standard_normal((s.m, r))
                C = rng.standard_normal((r, r))
                V = rng.standard_normal((s.n, r))
                one = ctx.call(
                    sig(s, "projection"), M.projection, p, (U, C, V)
                )
                ctx.leq(
                    vdiff(s, one, s.project(p, U @ C @ V.T)), tol,
                    sig(s, "projection:factored-input"),
                )
        ctx.sample(space=s.name, point=p, ambient=a)

    REQUIRED = ["oracle:projection:orthogonal",
                "oracle:projection:factored-input"]


def _lin(a, c, b):
    if isinstance(a, (list, tuple)):
        return [_lin(x, c, y) for x, y in zip(a, b)]
    return a + c * b


class M04(Base):
    def space(self, ctx, s, rng):
        M = s.M
        for st, p in styles(ctx, s):
            B = s.basis(p)
            tol = tolof(s, p)
            u, v, w = (s.tangent(rng, p, t, B) for t in
                       ("generic", "generic", "sparse"))
            ip = lambda x, y: ctx.call(
                sig(s, "inner_product"), M.inner_product, p, x, y
            )
            for x, y in ((u, v), (u, w), (u, u)):
                got = ip(x, y)
                ok = ctx.ok(
                    np.ndim(got) == 0 and not np.iscomplexobj(got),
                    sig(s, "inner_product:real-scalar"),
                    value=repr(got),
                )
                ctx.leq(
                    abs(complex(got) - s.inner(p, x, y)) if np.ndim(got) == 0
                    else np.inf,
                    tol * (1 + s.norm(p, x) * s.norm(p, y)),
                    sig(s, "inner_product:metric"),
                    point=p, u=x, v=y, got=repr(got),
                    expected=s.inner(p, x, y),
                )
                if not ok:
                    return
            ctx.nontrivial(p, u, v)
            ctx.leq(
                abs(ip(u, v) - ip(v, u)), tol, sig(s, "inner_product:symmetric")
            )
            c = float(rng.standard_normal())
            lin = s.uncoords(s.coords(u) + c * s.coords(w), p)
            ctx.leq(
                abs(ip(lin, v) - ip(u, v) - c * ip(w, v)), 10 * tol,
                sig(s, "inner_product:bilinear"),
            )
            # vectors spanning many orders of magnitude
            for _ in range(3):
                al, be = 10.0 ** rng.uniform(-12, 9, 2)
                x, y = s.scale(u, al), s.scale(v, be)
                ctx.leq(
                    abs(ip(x, y) / (al * be) - s.inner(p, u, v)),
                    tol * (1 + s.norm(p, u) * s.norm(p, v)),
                    sig(s, "inner_product:scaled"), scales=[al, be],
                    point=p, u=x, v=y,
                )
                n = ctx.call(sig(s, "norm"), M.norm, p, x)
                ctx.leq(
                    abs(n / al / s.norm(p, u) - 1), tol,
                    sig(s, "norm:scaled"), scale=al, got=n,
                )
            # two nearly equal vectors are still two vectors
            de = 10.0 ** rng.uniform(-9, -3)
            x = s.uncoords(s.coords(u) + de * s.coords(w), p)
            ctx.leq(
                abs((ip(u, x) - ip(u, u)) / de - ip(u, w)),
                (1e-15 / de + 1e-9) * 1e2 * max(1.0, s.cond(p)),
                sig(s, "inner_product:nearly-equal"), delta=de, u=u, v=x,
            )
            same = s.uncoords(s.coords(u), p)  # equal value, distinct object
            ctx.leq(
                abs(ip(u, u) - ip(u, same)), tol,
                sig(s, "inner_product:same-object"),
            )
            for t in s.TAN_STYLES:
                x = s.tangent(rng, p, t, B)
                ctx.ok(
                    ip(x, x) > 0, sig(s, "inner_product:positive"), v=x
                )
                n = ctx.call(sig(s, "norm"), M.norm, p, x)
                ctx.ok(
                    np.ndim(n) == 0 and not np.iscomplexobj(n),
                    sig(s, "norm:real-scalar"), value=repr(n),
                )
                ctx.leq(
                    abs(n - s.norm(p, x)) / s.norm(p, x), tol,
                    sig(s, "norm:metric"), got=n, expected=s.norm(p, x),
                )
            n0 = ctx.call(sig(s, "norm"), M.norm, p, M.zero_vector(p))
            ctx.leq(abs(n0), 1e-300, sig(s, "norm:zero"))
        ctx.sample(space=s.name, point=p, u=u, v=v)


def documented_second_order(s):
    if isinstance(s, S.ProductSpace):
        return all(documented_second_order(f) for f in s.factors)
    if isinstance(s, (S.StiefelSpace, S.GroupSpace)):
        return s.retraction_order == 2
    if isinstance(s, S.SPDSpace):
        return not s.special
    return isinstance(
        s, (S.PositiveSpace, S.FixedRankSpace, S.Flat, S.BallSpace)
    )


class M05(Base):
    def space(self, ctx, s, rng):
        M = s.M
        R = lambda p, v: ctx.call(sig(s, "retraction"), M.retraction, p, v)
        for st, p in styles(ctx, s):
            B = s.basis(p)
            c = max(1.0, s.cond(p))
            z = M.zero_vector(p)
            ctx.leq(
                s.same(R(p, z), p), 1e-11 * c, sig(s, "retraction:zero-is-identity"),
                point=p,
            )
            for ts in ("generic", "sparse", "slice"):
                v = s.tangent(rng, p, ts, B)
                v = s.scale(v, 1.0 / s.norm(p, v))
                ctx.nontrivial(p, v)
                t = 1e-5
                a = s.same(R(p, s.scale(v, t)), s.exp(p, s.scale(v, t)))
                ctx.leq(
                    a, 3e-9 * c, sig(s, "retraction:first-order"),
                    point=p, vector=v, t=t, style=st,
                )
                if not s.quotient:
                    # steps too short for squares to matter move the point
                    # by the step, up to rounding of the point
                    t = 10.0 ** float(rng.uniform(-11, -7))
                    q = R(p, s.scale(v, t))
                    move = cflat(s.exp(p, s.scale(v, t))) - cflat(p)
                    ctx.leq(
                        np.linalg.norm(cflat(q) - cflat(p) - move),
                        1e-4 * np.linalg.norm(move)
                        + 4e-14 * c * (1 + np.linalg.norm(cflat(p))),
                        sig(s, "retraction:short-steps"),
                        point=p, vector=v, t=t, style=st,
                    )
                if documented_second_order(s):
                    t = 1e-3
                    a = s.same(R(p, s.scale(v, t)), s.exp(p, s.scale(v, t)))
                    ctx.leq(
                        a, 2e-9 * c, sig(s, "retraction:second-order"),
                        point=p, vector=v, t=t, style=st,
                    )
            if isinstance(s, S.FixedRankSpace):
                for ts in s.TAN_STYLES:
                    v = s.tangent(rng, p, ts, B)
                    q = R(p, v)
                    ctx.leq(
                        rel_err(s.canon(q), s.retraction_reference(p, v)),
                        1e-9 * c, sig(s, "retraction:metric-projection"),
                    )
        ctx.sample(space=s.name, point=p, vector=v)

    REQUIRED = ["oracle:retraction:second-order",
                "oracle:retraction:short-steps",
                "oracle:retraction:metric-projection"]


def arc(length, base=1e-10):
    """Accuracy of an arc length recovered from nearly equal points."""
    return base + 50 * 2.2e-16 / max(length, 1e-8)


def shortest_arc(s, v):
    """Length of the shortest arc that the library recovers separately (the
    columns, phases and factors; arccos loses eps / length of each)."""
    if isinstance(s, S.ProductSpace):
        return min(shortest_arc(f, w) for f, w in zip(s.factors, v))
    v = np.asarray(v)
    if isinstance(s, S.ObliqueSpace):
        return float(np.min(np.linalg.norm(v, axis=s.axis)))
    if isinstance(s, S.CircleSpace):
        return float(np.min(np.abs(v)))
    if isinstance(s, S.SphereSpace):
        return float(np.linalg.norm(v))
    return np.inf


def lengths(s, p, rng=None):
    inj = s.inj(p)
    out = [0.0, 1e-8, 1e-3, 0.5 * min(inj, 2.0)]
    if rng is not None:
        top = np.log10(0.5 * min(inj, 2.0))
        out += list(10.0 ** rng.uniform(-9, top, 2))
    out.append(0.9 * inj if np.isfinite(inj) else 3.0)
    if rng is not None and np.isinf(inj) and reaches(s):
        out.append(float(rng.uniform(4, 20)))
    return out


def rim_vector(s, rng, p, f):
    """Tangent vector that covers the fraction f of the way to the cut locus
    in every column, phase, rotation plane or principal angle at once (and in
    every factor that has a cut locus), or None without one."""
    if isinstance(s, S.ProductSpace):
        vs = [rim_vector(t, rng, q, f) for t, q in zip(s.factors, p)]
        if all(v is None for v in vs):
            return None
        return type(s.zero(p))(
            t.random_scaled(rng, q, 0.5 * min(t.inj(q), 1.4))
            if v is None else v
            for t, q, v in zip(s.factors, p, vs))
    if isinstance(s, S.ElliptopeSpace):
        return None
    if isinstance(s, (S.SphereSpace, S.ObliqueSpace)):
        axis = s.axis if isinstance(s, S.ObliqueSpace) else None
        v = s.tangent(rng, p)
        if axis is None:
            size = np.linalg.norm(v)
        else:
            size = np.linalg.norm(v, axis=axis, keepdims=True)
        if np.min(size) < 1e-3:
            return None
        return v / size * f * np.pi
    if isinstance(s, S.CircleSpace):
        return 1j * p * (f * np.pi * rng.choice([-1, 1], size=p.shape))
    if isinstance(s, S.GrassmannSpace):
        out = []
        for x in s.slices(p):
            n, k = x.shape
            w = np.linalg.svd(x, full_matrices=True)[0][:, k:]
            r = min(k, n - k)
            if r < 1:
                return None
            th = rng.uniform(0.1, 0.9, r) * np.pi / 2
            th[0] = f * np.pi / 2
            a = S.haar(rng, n - k, n - k, s.cplx)[:, :r]
            b = S.haar(rng, k, k, s.cplx)[:, :r]
            out.append(w @ (a * th) @ S._h(b))
        return s.stack(out)
    if isinstance(s, S.GroupSpace):
        if s.n < 2 and not s.cplx:
            return None
        out = []
        for x in s.slices(p):
            q = S.haar(rng, s.n, s.n, s.cplx)
            top = f * np.pi * rng.choice([-1, 1])
            if s.cplx:
                th = rng.uniform(-2.5, 2.5, s.n)
                th[0] = top
                out.append((q * (1j * th)) @ S._h(q))
            else:
                d = np.zeros((s.n, s.n))
                for i in range(0, s.n - 1, 2):
                    d[i + 1, i] = top if i == 0 else rng.uniform(-2.5, 2.5)
                out.append(q @ (d - d.T) @ q.T)
        return s.stack(out)
    return None


def reaches(s):
    """Spaces in which a long geodesic ends at an accurate point."""
    return isinstance(s, (S.BallSpace, S.Flat))


class M06(Base):
    def select(self, name):
        return not name.startswith("fixedrank")

    def space(self, ctx, s, rng):
        M = s.M
        if isinstance(s, S.ElliptopeSpace):
            return self.fallback(ctx, s, rng)
        if not s.has_exp:
            return
        for st, p in styles(ctx, s):
            B = s.basis(p)
            c = max(1.0, s.cond(p))
            for length in lengths(s, p, rng):
                v = s.random_scaled(rng, p, length, B=B)
                q = ctx.call(sig(s, "exp"), M.exp, p, v)
                e = s.exp(p, v)
                loss = arc(min(length, shortest_arc(s, v)))
                if isinstance(s, S.BallSpace):
                    # (coordinates crowd at the rim: measure the distance)
                    ctx.leq(
                        s.dist(q, e), 3e-14 * c * np.exp(length) + 1e-9,
                        sig(s, "exp:geodesic-rim"),
                        point=p, vector=v, got=q, length=length,
                    )
                ctx.leq(
                    s.same(q, e), 1e-11 * c * min(np.exp(length), 30),
                    sig(s, "exp:geodesic"),
                    point=p, vector=v, got=q, expected=e, length=length,
                )
                ctx.nontrivial(p, v)
                if s.has_log:
                    w = ctx.call(sig(s, "log"), M.log, p, e)
                    ctx.leq(
                        vdiff(s, w, v), loss * c * np.exp(length),
                        sig(s, "log:inverts-exp"),
                        point=p, vector=v, got=w, length=length,
                    )
                    if not finite(w):
                        continue
                    q2 = ctx.call(sig(s, "exp"), M.exp, p, w)
                    ctx.leq(
                        s.same(q2, e), loss * c * np.exp(length),
                        sig(s, "exp:inverts-log"), length=length,
                    )
                    if s.has_dist:
                        d = ctx.call(sig(s, "dist"), M.dist, p, e)
                        ctx.leq(
                            abs(d - s.norm(p, w)),
                            loss * c * np.exp(length),
                            sig(s, "log:norm-is-dist"), d=d,
                        )
                if s.has_dist:
                    d = ctx.call(sig(s, "dist"), M.dist, p, q)
                    ctx.leq(
                        abs(d - length), loss * c * np.exp(length),
                        sig(s, "exp:travels-norm"), d=d, length=length,
                    )
            self.near(ctx, s, p, B, c)
            self.edge(ctx, s, p)
            for ts in s.TAN_STYLES:
                v = s.tangent(rng, p, ts, B)
                q = ctx.call(sig(s, "exp"), M.exp, p, v)
                ctx.leq(
                    s.same(q, s.exp(p, v)), 1e-11 * c * 30,
                    sig(s, "exp:geodesic"), point=p, vector=v, style=ts,
                )
        ctx.sample(space=s.name, point=p, vector=v)

    def near(self, ctx, s, p, B, c):
        """Close points: the relative error of the vector found is judged, so
        that a first-order approximation is told from the logarithm."""
        if not s.has_log:
            return
        # arccos and angle differences lose eps / length of an arc length
        lossy = any(isinstance(f, (S.SphereSpace, S.ObliqueSpace,
                                   S.CircleSpace))
                    for f in getattr(s, "factors", [s]))
        low, base = (-3, 1e-6) if lossy else (-6, 1e-8)
        for length in 10.0 ** ctx.rng.uniform(low, low + 3, 2):
            length = min(length, 0.5 * s.inj(p))
            v = s.random_scaled(ctx.rng, p, float(length), B=B)
            q = s.exp(p, v)
            w = ctx.call(sig(s, "log"), s.M.log, p, q)
            if not ctx.ok(finite(w), sig(s, "log:near-finite"), got=w):
                continue
            size = np.linalg.norm(cflat(v))
            noise = 2.2e-16 * (1 + np.linalg.norm(cflat(q))) / size
            if lossy:
                base = 1e-6 + 2e-15 / max(shortest_arc(s, v), 1e-8) / size
            ctx.leq(
                np.linalg.norm(cflat(w) - cflat(v)) / size,
                base + 1e3 * noise * c, sig(s, "log:near"),
                point=p, vector=v, got=w, length=length,
            )

    def edge(self, ctx, s, p):
        """Just inside the cut locus.  The vector itself is ill-conditioned
        there; its length and the point it leads to are not."""
        if not s.has_log:
            return
        for gap in 10.0 ** ctx.rng.uniform((-4, -9), (-2, -5)):
            v = rim_vector(s, ctx.rng, p, 1 - gap)
            if v is None:
                return
            ctx.hit("edge")
            q = s.exp(p, v)
            w = ctx.call(sig(s, "log"), s.M.log, p, q)
            if not ctx.ok(finite(w) and s.real_ok(w), sig(s, "log:edge-kind"),
                          point=p, other=q, got=w, gap=gap):
                continue
            tol = 1e-6 + 1e-14 / gap
            tangency(ctx, s, p, w, "log:edge", tol)
            ctx.leq(abs(s.norm(p, w) - s.norm(p, v)), tol,
                    sig(s, "log:edge-length"), point=p, other=q, gap=gap)
            ctx.leq(s.same(s.exp(p, w), q), tol, sig(s, "log:edge-inverts"),
                    point=p, other=q, got=w, gap=gap)

    def fallback(self, ctx, s, rng):
        # No closed form: exp must announce itself and use the retraction.
        for st, p in styles(ctx, s):
            v = s.tangent(rng, p)
            with warnings.catch_warnings(record=True) as log:
                warnings.simplefilter("always")
                q = ctx.call(sig(s, "exp"), s.M.exp, p, v)
            ctx.ok(
                any(issubclass(w.category, RuntimeWarning) for w in log),
                sig(s, "exp:fallback-warns"),
            )
            ctx.leq(
                s.same(q, s.M.retraction(p, v)), 1e-12,
                sig(s, "exp:fallback-is-retraction"), point=p, vector=v,
            )

    REQUIRED = ["oracle:log:inverts-exp", "oracle:exp:geodesic",
                "oracle:exp:fallback-warns"]


class M07(Base):
    def select(self, name):
        return not name.startswith(("elliptope", "fixedrank", "stiefel"))

    def space(self, ctx, s, rng):
        M = s.M
        if not s.has_dist:
            return
        D = lambda a, b: ctx.call(sig(s, "dist"), M.dist, a, b)
        for st, p in styles(ctx, s):
            c = max(1.0, s.cond(p))
            others = pairs(ctx, s, p)
            others.append(("random", s.rand_point(rng, "generic"), None))
            if isinstance(s, S.SphereSpace):
                others.append(("antipodal", -p, np.pi))
            if isinstance(s, S.ObliqueSpace):
                others.append(("antipodal", -p, None))
            if isinstance(s, S.CircleSpace):
                others.append(("antipodal", -p, None))
            for label, f in (("cut", 1.0),
                             ("edge", 1 - 10.0 ** rng.uniform(-9, -5))):
                v = rim_vector(s, rng, p, f)
                if v is not None:
                    ctx.hit(label)
                    others.append((label, s.exp(p, v), None))
            for label, q, d0 in others:
                d = D(p, q)
                if not ctx.ok(
                    np.ndim(d) == 0 and not np.iscomplexobj(d)
                    and np.isfinite(d),
                    sig(s, f"dist:finite-real:{label}"),
                    a=p, b=q, value=repr(d),
                ):
                    continue
                ctx.ok(d >= 0, sig(s, "dist:nonnegative"), d=d)
                c2 = max(c, s.cond(q))
                ref = s.dist(p, q)
                ctx.leq(
                    abs(d - ref), arc(s.dist_slack(p, q)) * c2 * (1 + ref),
                    sig(s, f"dist:geodesic-distance:{label}"),
                    a=p, b=q, got=d, expected=ref,
                )
                ctx.leq(
                    abs(d - D(q, p)),
                    arc(s.dist_slack(p, q)) * c2 * (1 + ref),
                    sig(s, "dist:symmetric"), a=p, b=q,
                )
                ctx.nontrivial(p, q)
            ctx.leq(D(p, p), 1e-6 * c, sig(s, "dist:zero-on-identical"), p=p)
            # separation of distinct points
            q = others[1][1]
            ctx.ok(D(p, q) > 1e-4, sig(s, "dist:separates"), d=D(p, q))
            a, b = s.rand_point(rng, "generic"), s.rand_point(rng, "generic")
            ctx.leq(
                D(a, b) - D(a, p) - D(p, b), 1e-6 * c,
                sig(s, "dist:triangle"),
            )
        if isinstance(s, S.BallSpace):
            self.rim(ctx, s, rng, D)
        ctx.sample(space=s.name, a=p, b=q)

    def rim(self, ctx, s, rng, D):
        """Points close to the boundary of the ball are far apart."""
        for _ in range(6):
            a, b = s.rim_point(rng), s.rim_point(rng)
            if rng.random() < 0.5:
                b = s.rand_point(rng, "generic")
            ref = s.dist(a, b)
            if ref < 0.5:
                continue
            lam = max(np.max(s._lam(a)), np.max(s._lam(b)))
            for x, y in ((a, b), (b, a)):
                ctx.leq(
                    abs(D(x, y) - ref), 1e-10 * (1 + ref) + 1e-14 * lam,
                    sig(s, "dist:near-boundary"), a=x, b=y, expected=ref,
                )
            ctx.nontrivial(a, b)

    REQUIRED = ["oracle:dist:near-boundary", "oracle:dist:separates"]


class M08(Base):
    def space(self, ctx, s, rng):
        M = s.M
        if not s.has_pair_mean:
            return
        for st, p in styles(ctx, s):
            c = max(1.0, s.cond(p))
            others = pairs(ctx, s, p)
            for gap in (0.05, 10.0 ** rng.uniform(-5, -2)):
                v = rim_vector(s, rng, p, 1 - gap)
                if v is not None and s.exact_pair_mean:
                    ctx.hit("edge")
                    others.append(("edge", s.exp(p, v), None))
            for label, q, d in others:
                m = ctx.call(sig(s, "pair_mean"), M.pair_mean, p, q)
                if not ctx.ok(
                    finite(m), sig(s, f"pair_mean:finite:{label}"), a=p, b=q
                ):
                    continue
                da, db = s.dist(p, m), s.dist(m, q)
                ctx.leq(
                    abs(da - db), 1e-6 * c, sig(s, "pair_mean:equidistant"),
                    a=p, b=q, m=m, da=da, db=db,
                )
                ctx.leq(
                    s.same(m, s.midpoint(p, q)), 1e-6 * c,
                    sig(s, "pair_mean:on-geodesic"), a=p, b=q, m=m,
                )
                ctx.nontrivial(p, q)
                n = ctx.call(sig(s, "pair_mean"), M.pair_mean, q, p)
                ctx.leq(
                    s.same(m, n), 1e-6 * c, sig(s, "pair_mean:symmetric")
                )
        ctx.sample(space=s.name, a=p, b=q)

    def select(self, name):
        return S.get(name).has_pair_mean


class M09(Base):
    def select(self, name):
        return not name.startswith("ball") and has_transport(S.get(name))

    def space(self, ctx, s, rng):
        M = s.M
        T = lambda a, b, v: ctx.call(sig(s, "transport"), M.transport, a, b, v)
        for st, p in styles(ctx, s):
            tol = tolof(s, p)
            B = s.basis(p)
            u, v = s.tangent(rng, p, B=B), s.tangent(rng, p, B=B)
            ctx.leq(
                vdiff(s, T(p, p, u), u), tol, sig(s, "transport:identity"),
                point=p, vector=u,
            )
            others = [o for o in pairs(ctx, s, p) if o[0] != "same"] if (
                s.name.startswith(("fixedrank",)) is False
            ) else []
            if not others:
                others = [
                    ("near", s.exp(p, s.random_scaled(rng, p, 1e-3, B=B)), 1e-3),
                    ("far", s.exp(p, s.random_scaled(rng, p, 0.5, B=B)), 0.5),
                ]
            others += shared(s, rng, p)
            for label, q, d in others:
                tol2 = max(tol, tolof(s, q))
                tu, tv = T(p, q, u), T(p, q, v)
                tangency(ctx, s, q, tu, "transport", tol2, pair=label)
                c = float(rng.standard_normal())
                comb = s.uncoords(s.coords(u) + c * s.coords(v), p)
                exp = s.uncoords(s.coords(tu) + c * s.coords(tv), q)
                ctx.leq(
                    vdiff(s, T(p, q, comb), exp), tol2,
                    sig(s, "transport:linear"), a=p, b=q,
                )
                ctx.nontrivial(p, q, u)
                z = T(p, q, s.zero(p))
                ctx.ok(
                    np.linalg.norm(s.coords(z)) < 1e-12,
                    sig(s, "transport:zero"),
                )
                if label in ("near", "close") and not isinstance(
                    s, S.FixedRankSpace
                ):
                    # continuity: close points barely change the vector
                    # (for FixedRank the (U,M,V) gauge may jump)
                    sc = max(s.cond(p), s.cond(q)) * (
                        30 if s.quotient else 10
                    )
                    if not s.quotient:
                        ctx.leq(
                            vdiff(s, tu, u), sc * d + tol2,
                            sig(s, "transport:continuous"), d=d, pair=label,
                        )
                nu, nt = s.norm(p, u), s.norm(q, tu)
                if s.transport_isometric:
                    ctx.leq(
                        abs(nt - nu), tol2 * (1 + nu),
                        sig(s, "transport:isometry"), before=nu, after=nt,
                    )
                elif s.embedded and not has_special(s):
                    ctx.leq(
                        nt - nu, tol2 * (1 + nu),
                        sig(s, "transport:non-expansive"), before=nu, after=nt,
                    )
                if s.embedded and not s.transport_isometric and not (
                    isinstance(s, S.ProductSpace)
                ):
                    # documented projection-based transport
                    ref = s.project(q, s.emb(p, u))
                    ctx.leq(
                        vdiff(s, tu, ref), tol2,
                        sig(s, "transport:projection"), a=p, b=q, v=u,
                    )
        ctx.sample(space=s.name, a=p, b=q, v=u)


def shared(s, rng, p):
    """Destinations which agree with the point in some of their parts."""
    if isinstance(s, S.ProductSpace):
        i = int(rng.integers(len(s.factors)))
        q = list(copy.deepcopy(p))
        q[i] = s.factors[i].rand_point(rng, "generic")
        return [("shared", q, None)]
    if isinstance(s, S.FixedRankSpace):
        o = s.rand_point(rng, "generic")
        return [("shared", type(p)(*(b if i in take else copy.deepcopy(a)
                                     for i, (a, b) in enumerate(zip(p, o)))),
                 None)
                for take in ((0, 2), (0,), (2,), (1,))]
    if s.k > 1:
        o = s.rand_point(rng, "generic")
        q = np.array(p, dtype=np.result_type(p, o))
        i = int(rng.integers(s.k))
        q[i] = o[i]
        return [("shared", q, None)]
    if isinstance(s, S.SphereSpace) and s.W is not None:
        return []
    if isinstance(s, (S.SphereSpace, S.BallSpace, S.StiefelSpace,
                      S.GrassmannSpace)):
        # the same entries elsewhere, or of the other sign
        return [("shared", p[::-1].copy(), None), ("shared", -p, None)]
    if isinstance(s, S.ObliqueSpace) and not s.quotient:
        q = p[::-1].copy() if s.axis == 0 else p[:, ::-1].copy()
        return [("shared", q, None)]
    return []


def has_special(s):
    if isinstance(s, S.ProductSpace):
        return any(has_special(f) for f in s.factors)
    return not s.embedded


class M10(Base):
    def space(self, ctx, s, rng):
        M = s.M
        for st, p in styles(ctx, s):
            tol = tolof(s, p, 1e-8)
            B = s.basis(p)
            for rep in range(2):
                cost = S.Cost(s, rng)
                eg = cost.egrad(p)
                zg = cost.zgrad(p)
                g = ctx.call(
                    sig(s, "gradient"),
                    M.euclidean_to_riemannian_gradient, p, eg,
                )
                ctx.nontrivial(p, eg)
                if not tangency(ctx, s, p, g, "gradient", tol):
                    continue
                scale = 1 + s.norm(p, g)
                for v in list(B) if len(B) < 12 else [
                    s.tangent(rng, p, "generic", B) for _ in range(6)
                ] + [s.tangent(rng, p, "sparse", B) for _ in range(6)]:
                    # directional derivative by the chain rule through z
                    df = pair_z(s, p, zg, v)
                    ctx.leq(
                        abs(s.inner(p, g, v) - df),
                        tol * scale * (1 + s.norm(p, v)),
                        sig(s, "gradient:directional-derivative"),
                        point=p, egrad=eg, direction=v,
                        got=s.inner(p, g, v), expected=df, style=st,
                    )
                # linear in the Euclidean gradient
                eg2 = S.Cost(s, rng).egrad(p)
                c = 0.3 + rng.random()
                lhs = ctx.call(
                    sig(s, "gradient"), M.euclidean_to_riemannian_gradient,
                    p, _lin(eg, c, eg2),
                )
                g2 = M.euclidean_to_riemannian_gradient(p, eg2)
                exp = s.uncoords(s.coords(g) + c * s.coords(g2), p)
                ctx.leq(vdiff(s, lhs, exp), tol, sig(s, "gradient:linear"))
                # in whatever unit the cost is measured
                c = float(10.0 ** rng.uniform(-30, 30))
                ctx.leq(vdiff(s, s.scale(ctx.call(
                    sig(s, "gradient"), M.euclidean_to_riemannian_gradient,
                    p, scaled(eg, c)), 1 / c), g), tol,
                    sig(s, "gradient:homogeneous"), point=p, unit=c)
                # finite-difference confirmation of the harness' own numbers
                v = s.tangent(rng, p, "generic", B)
                h = 1e-4
                fd = (
                    cost.f(s.exp(p, s.scale(v, h)))
                    - cost.f(s.exp(p, s.scale(v, -h)))
                ) / (2 * h)
                ctx.leq(
                    abs(s.inner(p, g, v) - fd),
                    1e-5 * max(1, s.cond(p)) * scale,
                    sig(s, "gradient:finite-difference"),
                    got=s.inner(p, g, v), expected=fd,
                )
        ctx.sample(space=s.name, point=p, egrad=eg)


def scaled(e, c):
    if isinstance(e, (list, tuple)):
        return type(e)(*[scaled(a, c) for a in e]) if hasattr(
            e, "_fields") else type(e)([scaled(a, c) for a in e])
    return c * e


def pair_z(s, p, zg, v):
    """Re <zgrad, dz[emb v]> for a tangent vector ``v``."""
    if isinstance(s, S.ProductSpace):
        return sum(pair_z(f, q, g, w)
                   for f, q, g, w in zip(s.factors, p, zg, v))
    if isinstance(s, S.FixedRankSpace):
        return S.rdot(zg, s.emb(p, v))
    return S.rdot(zg, s.dz(p, s.emb(p, v)))


class M11(Base):
    def select(self, name):
        return S.get(name).has_hess

    def space(self, ctx, s, rng):
        M = s.M
        for st, p in styles(ctx, s):
            if st == "big":
                continue
            c = max(1.0, s.cond(p))
            B = s.basis(p)
            cost = S.Cost(s, rng)
            eg = cost.egrad(p)

            def H(v):
                return ctx.call(
                    sig(s, "hessian"), M.euclidean_to_riemannian_hessian,
                    p, eg, cost.ehess(p, s.emb(p, v)), v,
                )

            u, v = s.tangent(rng, p, B=B), s.tangent(rng, p, B=B)
            hu, hv = H(u), H(v)
            ctx.nontrivial(p, u, v)
            if not (
                tangency(ctx, s, p, hu, "hessian", tolof(s, p))
                and tangency(ctx, s, p, hv, "hessian", tolof(s, p))
            ):
                continue
            scale = 1 + s.norm(p, hu) + s.norm(p, hv)
            ctx.leq(
                abs(s.inner(p, hu, v) - s.inner(p, u, hv)), 1e-8 * c * scale,
                sig(s, "hessian:symmetric"),
                point=p, u=u, v=v, uHv=s.inner(p, u, hv),
                vHu=s.inner(p, hu, v), style=st,
            )
            k = float(rng.standard_normal())
            comb = s.uncoords(s.coords(u) + k * s.coords(v), p)
            exp = s.uncoords(s.coords(hu) + k * s.coords(hv), p)
            ctx.leq(
                vdiff(s, H(comb), exp), 1e-8 * c, sig(s, "hessian:linear")
            )
            # homogeneous in the units of the cost and in the direction
            for a, b in ((10.0 ** float(rng.uniform(-14, 8)), 1.0),
                         (1.0, 10.0 ** float(rng.uniform(-12, 6)))):
                w = s.scale(v, b)
                eh = cost.ehess(p, s.emb(p, w))
                got = ctx.call(
                    sig(s, "hessian"), M.euclidean_to_riemannian_hessian,
                    p, _sc(eg, a), _sc(eh, a), w)
                ctx.leq(
                    vdiff(s, s.scale(got, 1 / a / b), hv), 1e-8 * c,
                    sig(s, "hessian:homogeneous"), units=a, length=b,
                    point=p, direction=v)
            dirs = [u, s.tangent(rng, p, "sparse", B), comb]
            if len(B) <= 6:
                dirs += B
            for w in dirs:
                w = s.scale(w, 1.0 / s.norm(p, w))
                hw = H(w)
                h = 4e-3 / np.sqrt(min(c, 1e4))
                f = lambda t: cost.f(s.exp(p, s.scale(w, t)))
                fd = (
                    -f(2 * h) + 16 * f(h) - 30 * f(0.0) + 16 * f(-h)
                    - f(-2 * h)
                ) / (12 * h * h)
                ctx.leq(
                    abs(s.inner(p, hw, w) - fd),
                    (2e-6 * c + 1e-14 * (1 + abs(f(0.0))) / h**2) * scale,
                    sig(s, "hessian:second-derivative"),
                    point=p, direction=w, got=s.inner(p, hw, w), expected=fd,
                    style=st,
                )
        ctx.sample(space=s.name, point=p, u=u)

    REQUIRED = ["oracle:hessian:second-derivative",
                "oracle:hessian:homogeneous"]


class M12(Base):
    QUICK, THOROUGH = 4, 40

    def select(self, name):
        # (the recorded dim defect of HPD would show up again in the sum)
        return name != "product-complex"

    def space(self, ctx, s, rng):
        M = s.M
        d = None
        for st, p in styles(ctx, s):
            d = len(s.basis(p))
            ctx.ok(
                M.dim == d,
                sig(s, f"dim-is-tangent-rank:{s.name}:{int(M.dim)}!={d}"),
                dim=int(M.dim), rank=d, space=s.name,
            )
            ctx.ok(
                isinstance(M.dim, (int, np.integer)), sig(s, "dim:integer")
            )
            ctx.nontrivial(s.name, p)
            # rank of the library's own tangent vectors
            n = d + 5
            A = np.array(
                [s.coords(ctx.call(sig(s, "random_tangent_vector"),
                                   M.random_tangent_vector, p))
                 for _ in range(n)]
            )
            sv = np.linalg.svd(A, compute_uv=False)
            r = int(np.sum(sv > 1e-9 * sv[0]))
            ctx.ok(
                r == d, sig(s, "dim:random-tangents-span"), rank=r, expected=d
            )
        t = ctx.call(sig(s, "typical_dist"), lambda: M.typical_dist)
        ctx.ok(
            np.ndim(t) == 0 and not np.iscomplexobj(t) and np.isfinite(t)
            and t > 0,
            sig(s, "typical_dist:positive"), value=repr(t),
        )
        if isinstance(s, S.ProductSpace):
            ref = np.sqrt(sum(f.M.typical_dist**2 for f in s.factors))
            ctx.leq(abs(t - ref), 1e-12 * ref, sig(s, "typical_dist:product"))
            ctx.ok(
                M.dim == sum(f.M.dim for f in s.factors),
                sig(s, "dim:product-sum"),
            )
        lay = M.point_layout
        ctx.ok(
            (tuple(lay) if isinstance(lay, (list, tuple)) else lay) == s.layout,
            sig(s, "point_layout"), got=repr(lay),
        )
        want = sum(s.layout) if isinstance(s.layout, tuple) else s.layout
        ctx.ok(M.num_values == want, sig(s, "num_values"), got=M.num_values)
        flatlen = len(list(leaves(p)))
        ctx.ok(M.num_values == flatlen, sig(s, "num_values:actual"))
        ctx.ok(isinstance(str(M), str) and len(str(M)) > 0, sig(s, "str"))
        # compactness scale: no two points are further apart than the
        # documented scale allows for bounded manifolds
        ctx.sample(space=s.name, dim=int(M.dim), rank=d)


# ---------------------------------------------------------------------------
def single(name):
    """The k=1 sibling of a stacked space."""
    import re

    return re.sub(r"-k\d+", "-k1", name)


def make_single(s):
    cls = type(s)
    if isinstance(s, S.Flat):
        M = type(s.M)(s.shape[-1])
        return S.Flat("x-k1", M, s.shape[1:], s.cplx, s.kind)
    M = type(s.M)
    if isinstance(s, S.StiefelSpace) or isinstance(s, S.GrassmannSpace):
        kw = {}
        if type(s) is S.StiefelSpace:
            r = "polar" if s.retraction_order == 2 else "qr"
            return S.StiefelSpace(
                "x-k1", M(s.n, s.p, retraction=r), s.n, s.p, 1, r
            )
        return cls("x-k1", M(s.n, s.p), s.n, s.p, 1, s.cplx)
    if isinstance(s, S.GroupSpace):
        r = "polar" if s.retraction_order == 2 else "qr"
        return cls("x-k1", M(s.n, retraction=r), s.n, 1, s.cplx, r)
    if isinstance(s, S.SPDSpace):
        return cls("x-k1", M(s.n), s.n, 1, s.cplx, s.special)
    if isinstance(s, S.PositiveSpace):
        m, n = s.shape[-2:]
        return cls(
            "x-k1", M(m, n, use_parallel_transport=s.transport_isometric),
            m, n, 1, s.transport_isometric,
        )
    if isinstance(s, S.BallSpace):
        return cls("x-k1", M(s.n), s.n, 1)
    raise TypeError(type(s))


class M13(Base):
    """A stack of k objects behaves like k independent objects."""

    QUICK, THOROUGH = 20, 250

    def select(self, name):
        import re

        return bool(re.search(r"-k[23]", name)) and not name.startswith(
            "product"
        )

    def space(self, ctx, s, rng):
        M, one = s.M, make_single(s)
        m = one.M
        k = s.k
        for st in ("generic", "canonical", "lib"):
            P, Q = s.rand_point(rng, st), s.rand_point(rng, "generic")
            B = s.basis(P)
            U, V = s.tangent(rng, P, B=B), s.tangent(rng, P, "slice", B)
            Qn = s.exp(P, s.random_scaled(rng, P, 0.5 * min(s.inj(P), 1.5)))
            c = max(1.0, s.cond(P), s.cond(Qn))
            tol = 1e-8 * c
            ctx.nontrivial(P, U, V)
            cost = S.Cost(s, rng)
            eg = cost.egrad(P)
            eh = cost.ehess(P, s.emb(P, U)) if s.has_hess else None
            A = s.ambient(rng, P)

            def per(op, *args):
                f = getattr(M, op)
                big = ctx.call(sig(s, op), f, *args)
                small = [
                    ctx.call(sig(s, op + ":k1"), getattr(m, op),
                             *[a[i] for a in args])
                    for i in range(k)
                ]
                return big, small

            ops = [
                ("projection", (P, A)),
                ("to_tangent_space", (P, U)),
                ("retraction", (P, U)),
                ("retraction", (P, V)),
                ("exp", (P, U)),
                ("exp", (P, V)),
                ("euclidean_to_riemannian_gradient", (P, eg)),
                ("zero_vector", (P,)),
            ]
            if s.has_hess:
                ops.append(
                    ("euclidean_to_riemannian_hessian", (P, eg, eh, U))
                )
            if s.has_log:
                ops.append(("log", (P, Qn)))
            if has_transport(s):
                ops.append(("transport", (P, Qn, U)))
            if s.has_pair_mean:
                ops.append(("pair_mean", (P, Qn)))
            ops.append(("embedding", (P, U)))
            for op, args in ops:
                big, small = per(op, *args)
                if s.quotient and op in ("retraction", "exp"):
                    for i in range(k):
                        ctx.leq(
                            one.same(big[i], small[i]), tol,
                            sig(s, f"slices:{op}"),
                        )
                    continue
                ctx.leq(
                    rel_err(np.asarray(big), np.stack(small)), tol,
                    sig(s, f"slices:{op}"), args=list(args), got=big,
                )
            for op, args in (("inner_product", (P, U, V)), ):
                big, small = per(op, *args)
                ctx.leq(
                    abs(complex(big) - complex(sum(small))), tol,
                    sig(s, f"slices:{op}"),
                )
            for op, args in [("norm", (P, U))] + (
                [("dist", (P, Qn)), ("dist", (P, Q))] if s.has_dist else []
            ):
                big, small = per(op, *args)
                ref = float(np.linalg.norm(np.abs(small)))
                ctx.leq(
                    abs(complex(big) - ref), max(tol, 1e-6),
                    sig(s, f"slices:{op}"), got=repr(big), expected=ref,
                )
            ctx.ok(M.dim == k * m.dim, sig(s, "slices:dim"))
            ctx.leq(
                abs(M.typical_dist / m.typical_dist - np.sqrt(k)), 1e-9,
                sig(s, "slices:typical_dist"),
            ) if not isinstance(s, S.BallSpace) else None
            for obj, what in (
                (M.random_point(), "random_point"),
                (M.random_tangent_vector(P), "random_tangent_vector"),
            ):
                ctx.ok(
                    np.shape(obj) == tuple(s.shape),
                    sig(s, f"slices:{what}-shape"), got=np.shape(obj),
                )
                # slices must be drawn independently, not repeated
                ctx.ok(
                    all(
                        not np.allclose(obj[i], obj[j], rtol=0, atol=1e-14)
                        for i in range(k) for j in range(i)
                    ) or (one.M.dim == 0) or rigid(s),
                    sig(s, f"slices:{what}-independent"),
                )
        ctx.sample(space=s.name, point=P, u=U)

    REQUIRED = ["oracle:slices:exp", "oracle:slices:dist"]


def rigid(s):
    # SO(1) is a single point
    return isinstance(s, (S.GroupSpace,)) and s.n == 1 and not s.cplx


class M14(Base):
    """The product manifold acts factor by factor with the summed metric."""

    QUICK, THOROUGH = 20, 250

    def select(self, name):
        return name.startswith("product")

    def space(self, ctx, s, rng):
        M = s.M
        fs = s.factors
        ctx.ok(M.dim == sum(f.M.dim for f in fs), sig(s, "factors:dim"),
               dim=repr(M.dim))
        ctx.ok(tuple(M.point_layout) == tuple(f.M.point_layout for f in fs)
               and M.num_values == sum(f.M.num_values for f in fs),
               sig(s, "factors:layout"), layout=repr(M.point_layout))
        ref = np.sqrt(sum(f.M.typical_dist**2 for f in fs))
        ctx.leq(abs(M.typical_dist - ref), 1e-12 * ref,
                sig(s, "factors:typical_dist"))
        for st in ("generic", "canonical", "lib"):
            P, Q = s.rand_point(rng, st), s.rand_point(rng, "generic")
            B = s.basis(P)
            U, V = s.tangent(rng, P, B=B), s.tangent(rng, P, "factor", B)
            R = s.exp(P, s.random_scaled(
                rng, P, 0.5 * min(s.inj(P), 1.0), B=B))
            c = max(1.0, s.cond(P), s.cond(R))
            tol = 1e-8 * c
            A = s.ambient(rng, P)
            cost = S.Cost(s, rng)
            eg = cost.egrad(P)
            ctx.nontrivial(flatten_np(P), flatten_np(U))
            ops = [
                ("projection", (P, A), True),
                ("to_tangent_space", (P, U), True),
                ("retraction", (P, U), False),
                ("retraction", (P, V), False),
                ("euclidean_to_riemannian_gradient", (P, eg), True),
                ("zero_vector", (P,), True),
            ]
            if s.has_hess:
                ops.append((
                    "euclidean_to_riemannian_hessian",
                    (P, eg, cost.ehess(P, s.emb(P, U)), U), True))
            if s.has_exp:
                ops.append(("exp", (P, U), False))
            if s.has_log:
                ops.append(("log", (P, R), True))
            if has_transport(s):
                ops.append(("transport", (P, R, U), True))
            if s.has_pair_mean:
                ops.append(("pair_mean", (P, R), False))
            for op, args, tangent in ops:
                got = ctx.call(sig(s, op), getattr(M, op), *args)
                want = [
                    getattr(f.M, op)(*[a[i] for a in args])
                    for i, f in enumerate(fs)
                ]
                ctx.leq(
                    rel_err(_pl(got), _pl(want)), tol, sig(s, f"factors:{op}"),
                    got=got, expected=want,
                )
                if tangent:
                    two = ctx.call(
                        sig(s, f"factors:{op}:arith"),
                        lambda: 2.0 * got + got - got / 2.0,
                    )
                    ctx.leq(
                        rel_err(_pl(two), [_sc(w, 2.5) for w in want]), tol,
                        sig(s, f"factors:{op}:vector-space"),
                    )
            ip = ctx.call(sig(s, "inner_product"), M.inner_product, P, U, V)
            want = sum(
                np.real(f.M.inner_product(P[i], U[i], V[i]))
                for i, f in enumerate(fs)
            )
            ctx.leq(abs(ip - want), tol, sig(s, "factors:inner_product"))
            n = ctx.call(sig(s, "norm"), M.norm, P, U)
            want = np.sqrt(
                sum(f.M.norm(P[i], U[i]) ** 2 for i, f in enumerate(fs))
            )
            ctx.leq(abs(n - want), tol, sig(s, "factors:norm"))
            if s.has_dist:
                d = ctx.call(sig(s, "dist"), M.dist, P, Q)
                want = np.sqrt(
                    sum(f.M.dist(P[i], Q[i]) ** 2 for i, f in enumerate(fs))
                )
                ctx.leq(abs(d - want), max(tol, 1e-6), sig(s, "factors:dist"))
            t = M.random_tangent_vector(P)
            for i, f in enumerate(fs):
                ctx.leq(
                    f.tan_resid(P[i], t[i]), tol,
                    sig(s, "factors:random_tangent_vector"),
                )
                ctx.leq(
                    abs(f.norm(P[i], t[i]) - len(fs) ** -0.5), max(tol, 1e-8),
                    sig(s, "factors:random_tangent_balanced"),
                )
            p = M.random_point()
            for i, f in enumerate(fs):
                membership(ctx, f, p[i], "factors:random_point", 1e-9)
            # ambient representation of a tangent vector
            e = ctx.call(sig(s, "embedding"), M.embedding, P, U)
            for i, f in enumerate(fs):
                if f.layout == 1:
                    ctx.leq(
                        rel_err(np.asarray(e[i]), f.emb(P[i], U[i])), tol,
                        sig(s, "factors:embedding"), factor=f.name,
                    )
        ctx.sample(space=s.name, dim=int(M.dim))


def flatten_np(v):
    return [np.asarray(a) for a in leaves(v)]


def _sc(w, c):
    if isinstance(w, (list, tuple)):
        return [_sc(a, c) for a in w]
    return np.asarray(w) * c


class M15(Base):
    """Results do not depend on the chosen representative."""

    QUICK, THOROUGH = 20, 250

    def select(self, name):
        return name.startswith(
            ("grassmann", "cgrassmann", "psd", "cpsd", "elliptope", "fixedrank")
        )

    def space(self, ctx, s, rng):
        if isinstance(s, S.FixedRankSpace):
            return self.fixed_rank(ctx, s, rng)
        M = s.M
        for st, p in styles(ctx, s):
            act, Q = s.rotate(rng, p)
            c = max(1.0, s.cond(p))
            tol = 1e-8 * c
            B = s.basis(p)
            u, v = s.tangent(rng, p, B=B), s.tangent(rng, p, B=B)
            u = s.scale(u, 0.3)
            ctx.nontrivial(p, u, Q)
            pq = act(p)
            call = lambda op, *a: ctx.call(sig(s, op), getattr(M, op), *a)
            ctx.leq(
                s.same(call("retraction", pq, act(u)),
                       call("retraction", p, u)),
                tol, sig(s, "representative:retraction"), p=p, Q=Q,
            )
            if s.has_exp:
                ctx.leq(
                    s.same(call("exp", pq, act(u)), call("exp", p, u)),
                    tol, sig(s, "representative:exp"),
                )
            ctx.leq(
                abs(call("inner_product", pq, act(u), act(v))
                    - call("inner_product", p, u, v)),
                tol, sig(s, "representative:inner_product"),
            )
            ctx.leq(
                abs(call("norm", pq, act(u)) - call("norm", p, u)), tol,
                sig(s, "representative:norm"),
            )
            a = s.ambient(rng, p)
            ctx.leq(
                rel_err(call("projection", pq, act(a)),
                        act(call("projection", p, a))),
                tol, sig(s, "representative:projection"),
            )
            # vertical directions (along the fibre) project to nothing
            W = rng.standard_normal(Q.shape)
            if s.cplx:
                W = W + 1j * rng.standard_normal(Q.shape)
            vert = p @ ((W - S._h(W)) / 2)
            ctx.leq(
                np.linalg.norm(call("projection", p, vert)),
                tol * (1 + np.linalg.norm(vert)),
                sig(s, "representative:vertical-is-null"), p=p, vertical=vert,
            )
            cost = S.Cost(s, rng)
            ctx.leq(
                rel_err(
                    call("euclidean_to_riemannian_gradient", pq,
                         cost.egrad(pq)),
                    act(call("euclidean_to_riemannian_gradient", p,
                             cost.egrad(p))),
                ),
                tol, sig(s, "representative:gradient"),
            )
            ctx.leq(
                rel_err(
                    call("euclidean_to_riemannian_hessian", pq,
                         cost.egrad(pq), cost.ehess(pq, act(u)), act(u)),
                    act(call("euclidean_to_riemannian_hessian", p,
                             cost.egrad(p), cost.ehess(p, u), u)),
                ),
                tol, sig(s, "representative:hessian"),
            )
            b = s.exp(p, s.random_scaled(
                rng, p, 0.4 * min(s.inj(p), 2.0), B=B))
            act2, _ = s.rotate(rng, b)
            bq = act2(b)
            if s.has_dist:
                d = call("dist", p, b)
                for x, y in ((pq, b), (p, bq), (pq, bq)):
                    ctx.leq(
                        abs(call("dist", x, y) - d), 1e-6 * c,
                        sig(s, "representative:dist"), d=d,
                    )
                ctx.leq(
                    call("dist", p, pq), 1e-6 * c,
                    sig(s, "representative:dist-within-class"),
                )
            if s.has_log:
                w = call("log", p, b)
                ctx.leq(
                    rel_err(call("log", p, bq), w), 1e-6 * c,
                    sig(s, "representative:log-target"),
                )
                ctx.leq(
                    rel_err(call("log", pq, b), act(w)), 1e-6 * c,
                    sig(s, "representative:log-base"),
                )
        ctx.sample(space=s.name, point=p, Q=Q)

    def fixed_rank(self, ctx, s, rng):
        M = s.M
        for st, p in styles(ctx, s):
            d = np.sign(rng.standard_normal(s.rank))
            u, sv, vt = p
            q = type(p)(u * d, sv, d[:, None] * vt)
            c = max(1.0, s.cond(p))
            v = s.scale(s.tangent(rng, p), 0.5)
            w = type(v)(v[0] * d, d[:, None] * v[1] * d, v[2] * d)
            ctx.nontrivial(flatten_np(p), flatten_np(v), d)
            call = lambda op, *a: ctx.call(sig(s, op), getattr(M, op), *a)
            ctx.leq(
                s.same(call("retraction", q, w), call("retraction", p, v)),
                1e-8 * c, sig(s, "representative:retraction"),
            )
            ctx.leq(
                abs(call("norm", q, w) - call("norm", p, v)), 1e-9 * c,
                sig(s, "representative:norm"),
            )
            a = s.ambient(rng, p)
            ctx.leq(
                rel_err(s.emb(q, call("projection", q, a)),
                        s.emb(p, call("projection", p, a))),
                1e-8 * c, sig(s, "representative:projection"),
            )
            cost = S.Cost(s, rng)
            ctx.leq(
                rel_err(
                    s.emb(q, call("euclidean_to_riemannian_gradient", q,
                                  cost.egrad(q))),
                    s.emb(p, call("euclidean_to_riemannian_gradient", p,
                                  cost.egrad(p))),
                ),
                1e-7 * c, sig(s, "representative:gradient"),
            )
            b = s.exp(p, s.random_scaled(rng, p, 0.3))
            ctx.leq(
                rel_err(s.emb(b, call("transport", q, b, w)),
                        s.emb(b, call("transport", p, b, v))),
                1e-8 * c, sig(s, "representative:transport"),
            )


class M16(Base):
    """Tangent vectors form a vector space; embedding is linear."""

    def space(self, ctx, s, rng):
        M = s.M
        for st, p in styles(ctx, s):
            if st == "big":
                continue
            B = s.basis(p)
            libu = M.random_tangent_vector(p)
            pool = {
                "own": s.tangent(rng, p, B=B),
                "random": libu,
                "projected": M.projection(p, s.ambient(rng, p)),
                "gradient": M.euclidean_to_riemannian_gradient(
                    p, S.Cost(s, rng).egrad(p)),
            }
            pool["retangentialised"] = M.to_tangent_space(p, pool["own"])
            pool["zero"] = M.zero_vector(p)
            near = s.exp(p, s.random_scaled(
                rng, p, 0.3 * min(s.inj(p), 1.5), B=B))
            if s.has_log:
                pool["log"] = M.log(p, near)
            if has_transport(s):
                pool["transport"] = M.transport(near, p, s.tangent(rng, near))
            if s.has_hess:
                cost = S.Cost(s, rng)
                u = s.tangent(rng, p, B=B)
                pool["hessian"] = M.euclidean_to_riemannian_hessian(
                    p, cost.egrad(p), cost.ehess(p, s.emb(p, u)), u)
            for name, v in pool.items():
                ctx.hit("source:" + name)
            tol = 1e-11 * max(1.0, s.cond(p))
            names = list(pool)
            for name in names:
                v = pool[name]
                w = pool[names[int(rng.integers(len(names)))]]
                x, y = s.coords(v), s.coords(w)
                c = float(rng.standard_normal()) + 2.0
                forms = {
                    "add": (lambda: v + w, x + y),
                    "sub": (lambda: v - w, x - y),
                    "neg": (lambda: -v, -x),
                    "rmul": (lambda: c * v, c * x),
                    "mul": (lambda: v * c, c * x),
                    "div": (lambda: v / c, x / c),
                    "np-rmul": (lambda: np.float64(c) * v, c * x),
                    "np-mul": (lambda: v * np.float64(c), c * x),
                    "int-rmul": (lambda: 3 * v, 3 * x),
                    "np-div": (lambda: v / np.float64(c), x / c),
                    "chain": (
                        lambda: -(v + np.float64(c) * w) / 2.0 - v,
                        -(x + c * y) / 2 - x,
                    ),
                    "zero": (lambda: M.zero_vector(p) + v, x),
                    "zero2": (lambda: v - M.zero_vector(p), x),
                }
                for form, (fn, want) in forms.items():
                    got = ctx.call(sig(s, "arith-" + form), fn)
                    if not ctx.ok(
                        shape_ok(s, got), sig(s, f"arith-{form}:shape"),
                        got=got, source=name,
                    ):
                        continue
                    ctx.leq(
                        rel_err(s.coords(got), want), tol,
                        sig(s, f"arith-{form}"), source=name,
                    )
                    # the result is usable as a tangent vector again
                    h = ctx.call(sig(s, "arith-of-arith"),
                                 lambda: -(0.5 * got) + got / 2 - got)
                    if ctx.ok(shape_ok(s, h), sig(s, f"arith-{form}:again")):
                        ctx.leq(rel_err(s.coords(h), -want), tol,
                                sig(s, f"arith-{form}:again"), source=name)
                    n = ctx.call(sig(s, "norm-of-arith"), M.norm, p, got)
                    ctx.leq(
                        abs(n - s.norm(p, got)), 1e-8 * max(1, s.cond(p)) * (
                            1 + s.norm(p, got)),
                        sig(s, f"arith-{form}:usable"),
                    )
                ctx.ok(
                    rel_err(s.coords(v), x) == 0, sig(s, "arith:operands-kept")
                )
                ctx.nontrivial(flatten_np(p), x, y)
            # embedding is linear and equals the documented ambient vector
            u, v = s.tangent(rng, p, B=B), s.tangent(rng, p, B=B)
            if not isinstance(s, S.ProductSpace):
                eu = ambient_of(s, ctx.call(sig(s, "embedding"),
                                            M.embedding, p, u))
                ctx.leq(
                    rel_err(eu, s.emb(p, u)), tol, sig(s, "embedding:value"),
                    p=p, u=u,
                )
        ctx.sample(space=s.name, point=p, u=u)


def ambient_of(s, e):
    if isinstance(s, S.FixedRankSpace):
        U, C, V = e
        return U @ C @ V.T
    return e


class M17(Base):
    """Operations leave their inputs alone and keep no state."""

    def space(self, ctx, s, rng):
        M = s.M
        for st in s.POINT_STYLES:
            p = s.rand_point(rng, st)
            B = s.basis(p)
            q = s.exp(p, s.random_scaled(rng, p, 0.3 * min(s.inj(p), 1.5), B=B))
            u, v = s.tangent(rng, p, B=B), s.tangent(rng, p, B=B)
            a = s.ambient(rng, p)
            cost = S.Cost(s, rng)
            eg = cost.egrad(p)
            ops = [
                ("inner_product", (p, u, v)), ("norm", (p, u)),
                ("projection", (p, a)), ("to_tangent_space", (p, u)),
                ("retraction", (p, u)), ("zero_vector", (p,)),
                ("euclidean_to_riemannian_gradient", (p, eg)),
                ("embedding", (p, u)),
            ]
            if s.has_hess:
                ops.append(("euclidean_to_riemannian_hessian",
                            (p, eg, cost.ehess(p, s.emb(p, u)), u)))
            if s.has_exp:
                ops.append(("exp", (p, u)))
            if s.has_log:
                ops.append(("log", (p, q)))
            if s.has_dist:
                ops.append(("dist", (p, q)))
            if has_transport(s):
                ops.append(("transport", (p, q, u)))
            if s.has_pair_mean:
                ops.append(("pair_mean", (p, q)))
            first = {}
            order = rng.permutation(len(ops))
            for i in order:
                op, args = ops[i]
                before = digest_of([flatten_np(x) for x in args])
                r = ctx.call(sig(s, op), getattr(M, op), *args)
                first[i] = copy.deepcopy(r)
                ctx.ok(
                    digest_of([flatten_np(x) for x in args]) == before,
                    sig(s, f"pure:{op}:inputs-unchanged"), args=list(args),
                )
                ctx.nontrivial(op, flatten_np(p), flatten_np(u))
            # same answers again, in another order, after unrelated work,
            # with read-only and differently laid out copies of the inputs
            M.random_point()
            M.random_tangent_vector(p)
            for i in rng.permutation(len(ops)):
                op, args = ops[i]
                for mode in ("again", "readonly", "fortran"):
                    alt = [relayout(x, mode) for x in args]
                    r = ctx.call(
                        sig(s, f"{op}:{mode}"), getattr(M, op), *alt
                    )
                    tol = 1e-9 * max(1.0, s.cond(p))
                    if s.quotient and op in ("retraction", "exp"):
                        e = s.same(r, first[i])
                    else:
                        e = rel_err(_pl(r), _pl(first[i]))
                    if mode == "again":
                        tol = 0.0
                        ctx.ok(
                            digest_of(flatten_np(r))
                            == digest_of(flatten_np(first[i])),
                            sig(s, f"pure:{op}:repeatable"), op=op,
                        )
                        continue
                    ctx.leq(
                        e, max(tol, 1e-6 if op in ("dist", "log") else 0),
                        sig(s, f"pure:{op}:{mode}"),
                    )
            # results belong to the caller: scribbling over one must not
            # show up in later results
            for i in rng.permutation(len(ops)):
                op, args = ops[i]
                r = ctx.call(sig(s, op), getattr(M, op), *args)
                if scribble(r, args):
                    r = ctx.call(sig(s, op), getattr(M, op), *args)
                    ctx.ok(
                        digest_of(flatten_np(r))
                        == digest_of(flatten_np(first[i])),
                        sig(s, f"pure:{op}:result-not-shared"), op=op,
                    )
            # the returned point is not a live view of library state
            x = M.random_point()
            keep = copy.deepcopy(x)
            M.random_point()
            M.retraction(x, M.random_tangent_vector(x))
            ctx.ok(
                rel_err(_pl(x), _pl(keep)) == 0, sig(s, "pure:random_point:stable")
            )
            # fresh randomness
            y = M.random_point()
            ctx.ok(
                rel_err(_pl(x), _pl(y)) > 0 or rigid(s)
                or discrete(s), sig(s, "pure:random_point:fresh"),
            )
        ctx.sample(space=s.name, point=p, u=u)


def scribble(r, args):
    """Overwrite the arrays of a result that are not (parts of) the inputs."""
    mine = [x for a in args for x in leaves(a) if isinstance(x, np.ndarray)]
    done = False
    for x in leaves(r):
        if (
            isinstance(x, np.ndarray) and x.size and x.flags.writeable
            and not any(np.may_share_memory(x, y) for y in mine)
        ):
            x[...] = 7.25
            done = True
    return done


def discrete(s):
    return int(s.M.dim) == 0


def relayout(x, mode):
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return type(x)(*[relayout(a, mode) for a in x])
    if isinstance(x, tuple):
        return tuple(relayout(a, mode) for a in x)
    if isinstance(x, list):
        return type(x)([relayout(a, mode) for a in x])
    x = np.asarray(x)
    if mode == "fortran":
        return np.asfortranarray(x)
    y = x.copy()
    if mode == "readonly":
        y.flags.writeable = False
    return y


class M18(Base):
    """Random points and tangent vectors are unit, symmetric, full rank, Haar."""

    QUICK, THOROUGH = 1, 8
    DRAWS = 400
    RULE = (
        "distinct = digest of the first sampled point and vector of a space "
        "whose sample statistics an oracle judged"
    )
    REQUIRED = [
        "oracle:random-vector:unit-norm", "oracle:random-vector:spans",
        "oracle:random-vector:symmetric", "oracle:random-point:distinct",
        "oracle:random-point:mean", "oracle:random-point:covariance",
        "oracle:random-point:subspace-mean", "oracle:random-point:independent",
    ]
    ASSUMPTIONS = Base.ASSUMPTIONS + [
        "statistical oracles use a threshold of 6.5 standard errors",
    ]

    def run(self, ctx, key):
        s = S.get(key[0])
        self.vectors(ctx, s, ctx.rng)
        self.points(ctx, s, ctx.rng)
        self.copies(ctx, s)

    def copies(self, ctx, s):
        """The copies of a stack and the factors of a product are drawn
        independently: neither the entries of two of them nor their squares
        are correlated."""
        product = isinstance(s.M, S.pm.Product)
        if not product and getattr(s, "k", 1) < 2 or rigid(s):
            return
        n = 2500
        X = []
        for _ in range(n):
            x = ctx.call(sig(s, "random-point"), s.M.random_point)
            if not product and (not isinstance(x, np.ndarray)
                                or x.shape[0] != s.k):
                return
            X.append([np.concatenate([
                f(b).ravel()[:16] for b in flatten_np(a)
                for f in (np.real, np.imag)]) for a in x])
        if len(X[0]) < 2:
            return
        Z = []
        for j in range(len(X[0])):
            a = np.array([x[j] for x in X])
            a = a[:, a.std(0) > 1e-9]
            if a.shape[1] == 0:
                continue
            a = (a - a.mean(0)) / a.std(0)
            a = np.concatenate([np.tanh(a), np.tanh(a ** 2)], 1)
            a = a[:, a.std(0) > 1e-3]
            Z.append((a - a.mean(0)) / a.std(0))
        worst = 0.0
        for i in range(len(Z)):
            for j in range(i):
                worst = max(worst, np.max(np.abs(Z[i].T @ Z[j])) / np.sqrt(n))
        ctx.leq(worst, 6.5, sig(s, "random-point:independent"))

    def vectors(self, ctx, s, rng):
        M = s.M
        p = s.rand_point(rng, "generic")
        B = s.basis(p)
        n = max(self.DRAWS, 8 * len(B))
        coords = []
        for _ in range(n):
            v = ctx.call(sig(s, "random-vector"), M.random_tangent_vector, p)
            if not shape_ok(s, v):
                ctx.violate(sig(s, "random-vector:shape"), vector=v)
                return
            ctx.leq(abs(float(np.real(s.norm(p, v))) - 1), 1e-8 * s.cond(p),
                    sig(s, "random-vector:unit-norm"))
            coords.append([float(np.real(s.inner(p, b, v))) for b in B])
        C = np.array(coords)
        C = C / np.sqrt(np.mean(C ** 2, 0) + 1e-300)
        sv = np.linalg.svd(C, compute_uv=False)
        ctx.ok(sv[-1] > 1e-6 * sv[0], sig(s, "random-vector:spans"),
               singular=sv)
        # every direction is as likely as its opposite
        ctx.leq(np.max(np.abs(C.mean(0))) * np.sqrt(n), 6.5,
                sig(s, "random-vector:symmetric"))
        seen = {digest_of(np.round(c, 6)) for c in C}
        ctx.ok(len(seen) >= 2 if len(B) == 1 else len(seen) > 0.9 * n,
            sig(s, "random-vector:distinct"), distinct=len(seen))
        ctx.nontrivial(s.name, p, C[0])
        ctx.sample(space=s.name, vectors=n)

    def points(self, ctx, s, rng):
        if discrete(s) or rigid(s):
            return
        M = s.M
        base = s.name.split("-")[0]
        n = 3000 if base in HAAR else 30
        X = [ctx.call(sig(s, "random-point"), M.random_point) for _ in range(n)]
        seen = {digest_of(flatten_np(x)) for x in X}
        few = base == "sphere" and int(M.dim) == 0
        ctx.ok(few or len(seen) == n, sig(s, "random-point:distinct"),
               distinct=len(seen), draws=n)
        if base not in HAAR:
            return
        if base in ("grassmann", "cgrassmann"):
            x = np.array([np.asarray(a).reshape(-1, s.n, s.p) for a in X])
            P = x @ np.conj(np.swapaxes(x, -1, -2))
            z = P.reshape(n, -1)
            z = np.concatenate([z.real, z.imag], 1)
            expected = np.tile(np.eye(s.n) * s.p / s.n, (x.shape[1], 1, 1))
            expected = np.concatenate([expected.ravel(), 0 * expected.ravel()])
            self.zscore(ctx, z, expected, sig(s, "random-point:subspace-mean"))
            return
        z = np.array([np.concatenate([
            np.real(a).ravel(), np.imag(a).ravel()
        ]) if s.cplx else np.asarray(a).ravel() for a in X])
        self.zscore(ctx, z, 0.0, sig(s, "random-point:mean"))
        if base in ("spherein", "sphereout"):
            W = s.W
            cov = W @ W.T / W.shape[1]
        elif base == "so" and s.n == 2:
            a = z.reshape(n, -1, 4)
            c, t = a[:, :, 0], a[:, :, 2]
            self.zscore(ctx, np.concatenate([c * c - t * t, c * t], 1), 0.0,
                        sig(s, "random-point:covariance"))
            return
        else:
            # entries are uncorrelated and have the same variance
            total = np.mean(np.sum(z ** 2, 1))
            cov = np.eye(z.shape[1]) * total / z.shape[1]
        i, j = np.triu_indices(z.shape[1])
        self.zscore(ctx, z[:, i] * z[:, j], cov[i, j],
                    sig(s, "random-point:covariance"))

    def zscore(self, ctx, z, expected, what):
        n = len(z)
        se = z.std(0) / np.sqrt(n)
        d = np.abs(z.mean(0) - expected)
        ctx.leq(np.max(d / (se + 1e-9)), 6.5, what)


# ---------------------------------------------------------------------------
def recast(x, how):
    """The same values in another numerical type."""
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return type(x)(*[recast(a, how) for a in x])
    if isinstance(x, tuple):
        return tuple(recast(a, how) for a in x)
    if isinstance(x, list):
        return type(x)([recast(a, how) for a in x])
    x = np.asarray(x)
    if how == "single":
        return x.astype(np.complex64 if np.iscomplexobj(x) else np.float32)
    r = np.real(x)
    if np.any(r != x):
        return x
    if how == "real":
        return r.copy()
    if np.any(np.round(r) != r) or np.max(np.abs(r), initial=0) > 2**30:
        return x
    return r.astype(np.int32 if how == "int32" else np.int64)


def whole(s, rng, x):
    """Round the entries of a vector (or of its parts) to integers if it
    stays tangent, which is for the caller to find out."""
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return type(x)(*[whole(s, rng, a) for a in x])
    if isinstance(x, (list, tuple)):
        return type(x)([whole(s, rng, a) for a in x])
    return np.round(3 * np.asarray(x)) + 0.0


class M20(Base):
    """Results do not depend on the numerical type of equal inputs."""

    QUICK, THOROUGH = 6, 80
    RULE = (
        "distinct = digest of the inputs of an operation that was executed "
        "for equal inputs of two numerical types"
    )
    REQUIRED = ["type:int64", "type:int32", "type:real", "type:single",
                "oracle:all-integers", "oracle:exp:int64",
                "oracle:retraction:real"]

    def space(self, ctx, s, rng):
        M = s.M
        for st in s.POINT_STYLES:
            p = s.rand_point(rng, st)
            q = s.rand_point(rng, st)
            B = s.basis(p)
            vs = []
            for _ in range(2):
                v = s.tangent(rng, p, B=B)
                if B and rng.random() < 0.5:
                    v = float(rng.choice([1, -1, 2])) * B[
                        int(rng.integers(len(B)))]
                w = whole(s, rng, v)
                try:
                    if s.norm(p, w) > 0 and s.tan_resid(p, w) == 0 and (
                            rng.random() < 0.8):
                        v = w
                except Exception:
                    pass
                vs.append(v)
            u, v = vs
            a = s.ambient(rng, p)
            if rng.random() < 0.5:
                a = whole(s, rng, a)
            cost = S.Cost(s, rng)
            eg = cost.egrad(p)
            eh = cost.ehess(p, s.emb(p, u)) if s.has_hess else None
            if rng.random() < 0.5:
                eg, eh = whole(s, rng, eg), s.has_hess and whole(s, rng, eh)
            ops = [
                ("inner_product", (p, u, v)), ("norm", (p, u)),
                ("projection", (p, a)), ("to_tangent_space", (p, u)),
                ("retraction", (p, u)), ("zero_vector", (p,)),
                ("euclidean_to_riemannian_gradient", (p, eg)),
                ("embedding", (p, u)),
            ]
            if s.has_hess:
                ops.append(("euclidean_to_riemannian_hessian",
                            (p, eg, eh, u)))
            if s.has_exp:
                ops.append(("exp", (p, u)))
            if s.has_log:
                ops.append(("log", (p, q)))
            if s.has_dist:
                ops.append(("dist", (p, q)))
            if has_transport(s):
                ops.append(("transport", (p, q, u)))
            if s.has_pair_mean:
                ops.append(("pair_mean", (p, q)))
            for op, args in ops:
                ref = ctx.call(sig(s, op), getattr(M, op), *args)
                if not finite(ref):
                    continue
                for how in ("int64", "int32", "real", "single"):
                    alt = [recast(x, how) for x in args]
                    same = [x.dtype == y.dtype for x, y in zip(
                        leaves(alt), leaves(list(args)))]
                    if all(same):
                        continue
                    if how == "single":
                        # compare with the value at the rounded arguments
                        if st not in ("generic", "canonical") or op in (
                                "log", "dist"):
                            continue
                        tol = 1e-3
                    else:
                        tol = 1e-6 if op in ("log", "dist") else 1e-9
                        if not any(same):
                            ctx.hit("oracle:all-integers")
                    ctx.hit("type:" + how)
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        r = ctx.call(sig(s, f"{op}:{how}"), getattr(M, op),
                                     *alt)
                    e = (s.same(r, ref)
                         if s.quotient and op in ("retraction", "exp",
                                                  "pair_mean")
                         else rel_err(_pl(r), _pl(ref)))
                    ctx.leq(e, tol * max(1.0, s.cond(p)),
                            sig(s, f"{op}:{how}"), args=list(args), got=r,
                            expected=ref)
                    ctx.nontrivial(op, how, flatten_np(list(args)))
        ctx.sample(space=s.name, point=p, u=u)


HAAR = {"sphere", "spherein", "sphereout", "oblique", "circle", "stiefel",
        "grassmann", "cgrassmann", "so", "u"}


CHECKS = {f"M{i:02d}": globals()[f"M{i:02d}"]()
          for i in [*range(1, 19), 20]}
