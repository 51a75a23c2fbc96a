"""Monitors for the optimizers (properties O01..O12)."""

import contextlib
import copy
import io
import re
import warnings

import numpy as np

import opt as O
import spaces as S
from core import CaseAbort, StepBudget, digest_of, finite, flat, leaves, rel_err
from check_manifolds import point_real, shape_ok, vdiff

OPTS = ("SD", "CG", "TR", "NM", "PSO")
NAMES = {"SD": "SteepestDescent", "CG": "ConjugateGradient",
         "TR": "TrustRegions", "NM": "NelderMead", "PSO": "ParticleSwarm"}


def sg(opt, what):
    return f"{NAMES[opt]}|{what}"


class OBase:
    QUICK, THOROUGH = 3, 40
    opts = OPTS
    LEVEL = "exploration"
    CASE_TIMEOUT = 120
    RULE = (
        "distinct = digest of (manifold, optimizer, parameters, start, cost) "
        "of a run that performed at least one step and was judged"
    )
    ASSUMPTIONS = [
        "costs are deterministic, never NaN, smooth on the manifold and "
        "bounded below; +inf outside a neighbourhood is allowed",
        "user callbacks do not modify their arguments",
        "no hooks: runs are observed through the cost, gradient, Hessian and "
        "preconditioner callbacks, wrapped manifold methods, line searcher "
        "objects and the returned result",
    ]

    def keys(self, tier):
        n = self.QUICK if tier == "quick" else self.THOROUGH
        return [
            (opt, name, r)
            for r in range(n)
            for opt in self.opts
            for name in O.spaces_for(opt)
            if self.select(opt, name)
        ]

    def select(self, opt, name):
        return small(opt, name)

    def run(self, ctx, key):
        opt, name, rep = key
        self.one(ctx, opt, S.get(name), ctx.rng)


BIG = ("fixedrank-6", "fixedrank-4-6", "elliptope-6")


def small(opt, name):
    """Simplex and swarm methods only on low-dimensional manifolds."""
    if opt == "NM" and name.startswith(("so-", "u-")):
        return name in ("so-2-k1-qr", "so-3-k1-qr", "u-1-k1-qr", "u-2-k1-qr")
    if opt in ("NM", "PSO"):
        return S.get(name).M.dim <= 10
    return True


def make(ctx, opt, space, rng, *, kind=None, kw=None, style=None, precon=None,
         **mkw):
    """A random monitored set-up: (monitored problem, optimizer kwargs, run
    kwargs)."""
    kind = kind or O.OptCost.KINDS[int(rng.integers(5))]
    scale = float(rng.choice([1.0, 1.0, 1e-3, 1e3]))
    cost = O.OptCost(space, rng, kind, scale)
    if opt in ("CG", "TR") and precon is None and rng.random() < 0.4:
        precon = O.make_precon(
            space, rng, str(rng.choice(["scalar", "rank-one"]))
        )
    mon = O.Monitored(space, cost, precon=precon or None, **mkw)
    kw = O.configure(opt, rng) if kw is None else kw
    run_kw = O.run_options(opt, rng)
    style = style or str(rng.choice(["generic", "canonical", "lib", "none"]))
    if style != "none":
        with O.paused(mon.rec):
            run_kw["initial_point"] = O.initial(opt, space, rng, kw, style)
    return mon, kw, run_kw


def start_costs(mon, opt, run_kw):
    """Costs of the supplied start (or of the first evaluated points)."""
    x0 = run_kw.get("initial_point")
    if x0 is None:
        costs = [e[2] for e in mon.rec.of("cost")]
        if opt in ("SD", "CG", "TR"):
            return costs[:1]
        return costs
    pts = x0 if opt in ("NM", "PSO") else [x0]
    return [mon.cost.f(p) for p in pts]


def probe(mon, opt, kw, log=None):
    """Replace the line searcher by a recording wrapper around it."""
    inner = kw.get("line_searcher")
    if inner is None:
        inner = (O.BackTrackingLineSearcher if opt == "SD"
                 else O.AdaptiveLineSearcher)()
    p = O.Probe(inner, mon.rec, log)
    kw["line_searcher"] = p
    return p


def execute(ctx, opt, mon, kw, run_kw, what="run"):
    optimizer = O.OPTIMIZERS[opt](**kw)
    res = ctx.call(sg(opt, what), mon.run, optimizer, **run_kw)
    return optimizer, res


def saturated(s, p):
    """Numerical boundary of a non-compact manifold: a ball point rounded to
    norm one, a definite matrix conditioned beyond double precision."""
    if isinstance(s, S.ProductSpace):
        return any(saturated(f, q) for f, q in zip(s.factors, p))
    if not finite(p):
        return False
    if isinstance(s, S.BallSpace):
        return any(abs(np.linalg.norm(r) - 1) < 1e-9 for r in s._rows(p))
    if isinstance(s, (S.SPDSpace, S.PositiveSpace, S.PSDSpace)):
        with np.errstate(all="ignore"):
            c = s.cond(p)
        return not c < 1e10 or max(np.abs(a).max() for a in leaves(p)) > 1e8
    return max(np.abs(a).max() for a in leaves(p)) > 1e10


# ---------------------------------------------------------------------------
class O01(OBase):
    """Every iterate is a finite point, every direction a tangent vector."""

    REQUIRED = ["oracle:search-direction:tangent", "oracle:cost-at-point:on-manifold", "oracle:result:cost-finite", "oracle:preconditioner-argument:tangent", "integer-quadratics"]

    def one(self, ctx, opt, s, rng):
        mon, kw, run_kw = make(ctx, opt, s, rng)
        if opt in ("SD", "CG"):
            probe(mon, opt, kw)
        _, res = execute(ctx, opt, mon, kw, run_kw)
        self.judge(ctx, opt, s, mon, res)
        ctx.nontrivial(s.name, opt, repr(sorted(kw.items(), key=str)),
                       res.point)
        ctx.sample(optimizer=opt, space=s.name, events=len(mon.rec.events))
        if opt in ("SD", "CG", "TR"):
            self.exact(ctx, opt, rng)

    def exact(self, ctx, opt, rng):
        """Costs with small integer coefficients from integer points: the
        degenerate cases (orthogonal directions, no curvature, vanishing
        denominators) occur exactly instead of up to rounding."""
        import pymanopt
        import pymanopt.manifolds as PM

        n = int(rng.integers(1, 4))
        split = rng.random() < 0.7
        M = (PM.Product([PM.Euclidean(1) for _ in range(n)]) if split
             else PM.Euclidean(n))
        H = np.zeros((n, n))
        for _ in range(int(rng.integers(0, 2 * n + 1))):
            i, j = rng.integers(0, n, 2)
            H[i, j] = H[j, i] = rng.integers(-2, 3)
        if rng.random() < 0.4:
            H[0, 0] = 0.0
        g = np.zeros(n)
        g[0 if rng.random() < 0.6 else rng.integers(n)] = rng.choice(
            [-2, -1, 1, 2])
        if rng.random() < 0.3:
            g = g + rng.integers(-1, 2, n)

        pack = ((lambda v: [v[i:i + 1] for i in range(n)]) if split
                else (lambda v: v))
        join = np.concatenate if split else (lambda a: a[0])

        @pymanopt.function.numpy(M)
        def cost(*x):
            x = join(x)
            return float(g @ x + x @ H @ x / 2)

        @pymanopt.function.numpy(M)
        def egrad(*x):
            return pack(g + H @ join(x))

        @pymanopt.function.numpy(M)
        def ehess(*args):
            return pack(H @ join(args[len(args) // 2:]))

        kw = dict(verbosity=0, log_verbosity=1,
                  max_iterations=int(rng.integers(2, 9)))
        run_kw = {}
        if opt == "CG":
            kw["beta_rule"] = str(rng.choice(
                ["FletcherReeves", "PolakRibiere", "HestenesStiefel",
                 "HagerZhang", "LiuStorey"]))
        if opt == "TR":
            run_kw = dict(Delta_bar=float(rng.choice([1, 4])))
        if opt != "TR" and rng.random() < 0.5:
            kw["line_searcher"] = O.BackTrackingLineSearcher()
        start = rng.integers(-1, 2, n).astype(float)
        if rng.random() < 0.5:
            start = np.zeros(n)
        problem = pymanopt.Problem(M, cost, euclidean_gradient=egrad,
                                   euclidean_hessian=ehess)
        optimizer = O.OPTIMIZERS[opt](**kw)
        info = dict(gradient=g, hessian=H, start=start, kw=repr(kw))
        with np.errstate(all="ignore"):
            res = ctx.call(
                sg(opt, "integer-quadratic:run"), optimizer.run, problem,
                initial_point=pack(start), **run_kw)
        history = res.log["iterations"]
        ctx.hit("integer-quadratics")
        for p, c in zip(history["point"] + [res.point],
                        list(history["cost"]) + [res.cost]):
            if not ctx.ok(finite(p) and np.isfinite(c),
                          sg(opt, "integer-quadratic:finite"), point=p,
                          cost=c, **info):
                return
        costs = np.array(history["cost"], dtype=float)
        slack = 1e-9 * (1 + np.abs(costs[1:])) if opt == "TR" else 0
        ctx.ok(bool(np.all(np.diff(costs) <= slack)),
               sg(opt, "integer-quadratic:never-increases"), costs=costs,
               **info)

    def judge(self, ctx, opt, s, mon, res):
        seen = set()

        def point(p, what):
            d = digest_of(p)
            if d in seen:
                return True
            seen.add(d)
            if not ctx.ok(finite(p), sg(opt, what + ":finite"), point=p,
                          space=s.name):
                return False
            ctx.ok(point_real(s, p), sg(opt, what + ":real"), point=p)
            try:
                r = s.point_res(p)
            except Exception as e:
                ctx.violate(sg(opt, what + ":structure"), error=str(e), point=p)
                return False
            return ctx.leq(r, 1e-6, sg(opt, what + ":on-manifold"), point=p,
                           space=s.name)

        def tangent(p, v, what):
            d = digest_of([p, v])
            if d in seen:
                return
            seen.add(d)
            if not ctx.ok(finite(v), sg(opt, what + ":finite"), point=p,
                          vector=v, space=s.name):
                return
            if not ctx.ok(shape_ok(s, v), sg(opt, what + ":shape"), vector=v):
                return
            # rounding in v is relative to the vectors it was built from
            ctx.leq(
                s.tan_resid(p, v), (1e-6 + noise) * max(1.0, s.cond(p)),
                sg(opt, what + ":tangent"), point=p, vector=v, space=s.name,
            )

        noise = 0.0
        for e in mon.rec.events:
            k = e[0]
            p = e[1][0] if k.startswith("M.") and e[1] else e[1]
            if k not in ("M.random_point",) and saturated(s, p):
                ctx.hit("skipped:numerical-boundary")
                return
            if k == "search":
                # direction cancelled down to rounding noise: its components
                # carry no information, so nothing to judge
                g = mon.rgrad(e[1])
                garbage = s.norm(e[1], e[2]) < 1e-7 * s.norm(e[1], g)
                # the gradient is known to rounding relative to the Euclidean
                # gradient only; a line search may scale that up again
                noise = min(0.1, 1e-12 * mon.cost.scale / (
                    1e-300 + float(np.linalg.norm(flat(e[2])))))
                if garbage:
                    # a line search scales it to any length, so what follows
                    # is off by as much; it has to stay finite all the same
                    ctx.hit("skipped:cancelled-direction")
                    ctx.ok(finite(res.point) and np.isfinite(res.cost),
                           sg(opt, "result:finite"), space=s.name)
                    return
                tangent(e[1], e[2], "search-direction")
            elif k in ("cost", "grad"):
                if not point(e[1], k + "-at-point"):
                    return
            elif k == "precon":
                tangent(e[1], e[2], "preconditioner-argument")
            elif k == "M.retraction" or k == "M.exp":
                tangent(e[1][0], e[1][1], "step-direction")
            elif k == "M.transport":
                tangent(e[1][0], e[1][2], "transport-argument")
            elif k == "M.inner_product":
                tangent(e[1][0], e[1][1], "inner-product-argument")
                tangent(e[1][0], e[1][2], "inner-product-argument")
        point(res.point, "result")
        ctx.ok(np.isfinite(res.cost), sg(opt, "result:cost-finite"))



# -- views of the event log ---------------------------------------------------
def steps_of(opt, mon, log=None):
    """Steps of a gradient-based run: (base point, index of first event)."""
    if opt in ("SD", "CG"):
        return [(e["x"], e["start"]) for e in log]
    out, events = [], mon.rec.events
    for i, e in enumerate(events):
        if e[0] == "M.retraction":
            # the step began where the previous cost evaluation ended
            out.append((e[1][0], i))
    return out


def costs_before(mon, index):
    return sum(1 for e in mon.rec.events[:index] if e[0] == "cost")


def wall_for(ctx, space, x0, target, rng):
    a = S.zvec(space, space.z(x0))
    b = S.zvec(space, space.z(target))
    return O.Wall(
        space, x0, float(np.linalg.norm(a - b) * rng.uniform(0.3, 1.5) + 0.05)
    )


def setup(ctx, opt, s, rng, wall=0.0, **mkw):
    """make() plus, for a share of the cases, an infinite-cost region."""
    mon, kw, run_kw = make(ctx, opt, s, rng, **mkw)
    if wall and rng.random() < wall and run_kw.get("initial_point") is not None:
        x0 = run_kw["initial_point"]
        x0 = x0 if opt in ("SD", "CG", "TR") else x0[0]
        old = mon
        with O.paused(old.rec):
            hook = wall_for(ctx, s, x0, old.cost.target, rng)
        O.unmonitor(s.M)
        mon = O.Monitored(s, old.cost, precon=old.precon, cost_hook=hook, **{
            k: v for k, v in mkw.items()
            if k in ("clock", "tick", "budget", "record_manifold")})
    log = None
    if opt in ("SD", "CG"):
        log = probe(mon, opt, kw).log
    return mon, kw, run_kw, log


class O02(OBase):
    """Monotone descent; derivative-free methods return the best point."""

    QUICK, THOROUGH = 2, 40

    REQUIRED = ["oracle:cost-never-increases", "oracle:returns-best-evaluated",
                "runs-with-infinite-cost-region", "runs-with-offset",
                "runs-with-wrong-derivatives"]

    def one(self, ctx, opt, s, rng):
        mon, kw, run_kw, log = setup(ctx, opt, s, rng, wall=0.35)
        if mon.cost_hook is not None:
            ctx.hit("runs-with-infinite-cost-region")
        # descent must hold for costs with a large constant part and even if
        # the user's derivatives point the wrong way
        if rng.random() < 0.4:
            mon.cost.offset = float(
                mon.cost.scale * rng.choice([-1, 1]) * 10 ** rng.uniform(0, 6))
            ctx.hit("runs-with-offset")
        if opt not in ("NM", "PSO") and rng.random() < 0.3:
            mon.cost.__class__ = O.MisleadingCost
            if rng.random() < 0.5:
                mon.cost.noise = rng.standard_normal(mon.cost.dimension())
            if opt == "TR" and rng.random() < 0.6:
                n = mon.cost.dimension()
                mon.cost.sign = float(rng.choice([1.0, 1.0, -1.0]))
                mon.cost.noise = None
                mon.cost.wild = (
                    rng.standard_normal((n, n)) / np.sqrt(n),
                    rng.standard_normal(n) * float(rng.choice([0, 1, 5])))
                ctx.hit("runs-with-nonlinear-hessian")
            ctx.hit("runs-with-wrong-derivatives")
        _, res = execute(ctx, opt, mon, kw, run_kw)
        detail = dict(space=s.name, kw=kw)
        costs = [e[2] for e in mon.rec.of("cost")]
        if opt in ("NM", "PSO"):
            best = min(costs)
            ctx.ok(res.cost == best, sg(opt, "returns-best-evaluated"),
                   got=res.cost, best=best, **detail)
            n = len(costs)
        else:
            steps = steps_of(opt, mon, log)
            values = [mon.value(x) for x, _ in steps] + [mon.value(res.point)]
            if log:
                for e in log:
                    ctx.ok(e["f0"] == mon.value(e["x"]),
                           sg(opt, "search-starts-from-current-cost"), **detail)
            n = 0
            for a, b in zip(values, values[1:]):
                slack = 1e-12 * abs(a)
                if opt == "TR":
                    slack += max(1, abs(a)) * np.spacing(1) * 1.01e3
                ctx.leq(b - a if b != a else 0.0, slack + 1e-300,
                        sg(opt, "cost-never-increases"), before=a, after=b,
                        **detail)
                n += b < a
            f0 = (mon.value(run_kw["initial_point"])
                  if "initial_point" in run_kw else costs[0])
            ctx.leq(res.cost - f0 if res.cost != f0 else 0.0,
                    1e-300 + 1e-12 * abs(f0)
                    + (len(values) * max(1, abs(f0)) * 2.3e-13 * (opt == "TR")),
                    sg(opt, "no-worse-than-start"), **detail)
        if n:
            ctx.nontrivial(s.name, opt, repr(sorted(kw.items(), key=str)),
                           res.point)
        ctx.sample(optimizer=opt, space=s.name, evaluations=len(costs),
                   start=costs[0], end=res.cost)


class O03(OBase):
    """The result describes the returned point and the run truthfully."""

    QUICK, THOROUGH = 2, 40

    REQUIRED = ["oracle:gradient-norm-matches-point", "oracle:cost-evaluations-count", "oracle:time-not-understated", "oracle:step-size-is-last-step"]

    def one(self, ctx, opt, s, rng):
        clock = O.FakeClock()
        tick = float(rng.choice([0.01, 1.0, 7.0]))
        mon, kw, run_kw, log = setup(ctx, opt, s, rng, wall=0.2, clock=clock,
                                     tick=tick)
        kw["max_time"] = float(rng.choice([1e9, 40 * tick]))
        if rng.random() < 0.1 and opt in ("SD", "CG", "TR"):
            kw["min_gradient_norm"] = 1e30  # stops before the first step
        with clock:
            t0 = clock.now
            optimizer, res = execute(ctx, opt, mon, kw, run_kw)
            elapsed = clock.now - t0
        d = dict(space=s.name, kw=kw, result=res.__dict__)
        ev = mon.rec.events
        costs = [e for e in ev if e[0] == "cost"]
        ctx.ok(isinstance(res, O.OptimizerResult), sg(opt, "result-type"))
        v = mon.value(res.point)
        ctx.ok(res.cost == v, sg(opt, "cost-matches-point"), value=v, **d)
        dg = digest_of(res.point)
        ctx.ok(any(digest_of(e[1]) == dg for e in costs),
               sg(opt, "point-was-evaluated"), **d)
        ctx.ok(res.cost_evaluations == len(costs),
               sg(opt, "cost-evaluations-count"), observed=len(costs), **d)
        ctx.ok(isinstance(res.stopping_criterion, str)
               and res.stopping_criterion.strip() != "",
               sg(opt, "states-a-reason"), **d)
        # figures quoted in the reason agree with the result
        quoted = re.search(r"(\d+) iteration", res.stopping_criterion)
        if quoted:
            ctx.ok(int(quoted[1]) == res.iterations,
                   sg(opt, "reason-quotes-iterations"), **d)
        quoted = re.search(r"([\d.]+) seconds", res.stopping_criterion)
        if quoted:
            ctx.leq(abs(float(quoted[1]) - res.time), 0.0051 + 1e-9 * res.time,
                    sg(opt, "reason-quotes-time"), **d)
        if opt in ("SD", "CG", "TR"):
            g = mon.gnorm(res.point)
            gscale = mon.cost.scale
            ctx.leq(abs(res.gradient_norm - g), 1e-7 * (gscale + g),
                    sg(opt, "gradient-norm-matches-point"), expected=g, **d)
            steps = steps_of(opt, mon, log)
            n = len(steps)
            first = steps[0][1] if steps else len(ev)
            ctx.ok(n <= res.iterations <= n + 1,
                   sg(opt, "iterations-match-steps"), steps=n, **d)
            if log:
                ctx.ok(res.step_size == log[-1]["step"],
                       sg(opt, "step-size-is-last-step"), last=log[-1]["step"],
                       **d)
        elif opt == "PSO":
            pop = len(run_kw["initial_point"]) if "initial_point" in run_kw \
                else kw["population_size"]
            n = (len(costs) - pop) / pop
            ctx.ok(n == int(n) and n <= res.iterations <= n + 1,
                   sg(opt, "iterations-match-steps"), steps=n, **d)
            first = None
        else:
            dim = int(s.M.dim)
            n = len(costs) - dim - 1
            # one iteration takes 1 .. dim+2 evaluations
            ctx.ok(n <= res.iterations * (dim + 2) and n >= res.iterations - 1,
                   sg(opt, "iterations-match-steps"), extra_evaluations=n, **d)
            first = None
        ctx.leq(res.time - elapsed, 1e-5, sg(opt, "time-not-overstated"),
                elapsed=elapsed, **d)
        # everything after the first step happened while the run was timed
        if first is None:
            later = len(costs) - (pop if opt == "PSO" else int(s.M.dim) + 1)
        else:
            later = sum(1 for e in ev[first:] if e[0] in ("cost", "grad"))
        ctx.leq(later * tick - res.time, 1e-5, sg(opt, "time-not-understated"),
                at_least=later * tick, **d)
        if n:
            ctx.nontrivial(s.name, opt, repr(sorted(kw.items(), key=str)),
                           res.point)
        ctx.sample(optimizer=opt, space=s.name, iterations=res.iterations,
                   evaluations=len(costs))


REASONS = {
    "time": r"max\w*[ _-]*(run)?[ _-]*time",
    "iterations": r"max\w*[ _-]*iter",
    "gradient": r"grad\w*[ _-]*norm",
    "step": r"step[ _-]*size",
    "evaluations": r"cost[ _-]*(function[ _-]*)?eval",
}


def classify(reason):
    r = reason.lower()
    found = [k for k, v in REASONS.items() if re.search(v, r)]
    return found[0] if len(found) == 1 else None


class O04(OBase):
    """Stopping criteria are honest and every run terminates."""

    QUICK, THOROUGH = 2, 40
    MODES = ("iterations", "gradient", "step", "evaluations", "time", "mixed")

    REQUIRED = ["reason:iterations", "reason:gradient", "reason:step", "reason:evaluations", "reason:time"]

    def one(self, ctx, opt, s, rng):
        mode = str(rng.choice(self.MODES))
        if opt == "TR" and mode == "step":
            mode = "gradient"
        if opt in ("NM", "PSO") and mode in ("gradient", "step"):
            mode = "evaluations"
        clock = O.FakeClock()
        tick = float(rng.choice([1.0, 1e-3, 300.0]))
        budget = {"NM": 60000, "PSO": 60000}.get(opt, 60000)
        kw = O.configure(opt, rng)
        n0 = int(s.M.dim) + 1 if opt == "NM" else kw.get("population_size", 1)
        kw.update(max_iterations=60, max_time=1e12, min_gradient_norm=1e-300,
                  min_step_size=1e-300, max_cost_evaluations=10**7)
        if opt in ("NM", "PSO"):
            kw["max_iterations"] = 25
        if mode in ("iterations", "mixed"):
            kw["max_iterations"] = int(rng.integers(1, 20))
        if mode in ("gradient", "mixed"):
            kw["min_gradient_norm"] = None  # set below, relative to the start
        if mode in ("step", "mixed"):
            kw["min_step_size"] = float(10 ** rng.uniform(-6, 0))
        if mode in ("evaluations", "mixed"):
            kw["max_cost_evaluations"] = int(rng.integers(1, 40)) + n0 - 1
        if mode in ("time", "mixed"):
            kw["max_time"] = tick * float(rng.uniform(0.5, 60))
        mon, kw, run_kw, log = setup(
            ctx, opt, s, rng, wall=0.15, kw=kw, clock=clock, tick=tick,
            budget=budget)
        if kw["min_gradient_norm"] is None:
            kw["min_gradient_norm"] = mon.cost.scale * float(
                10 ** rng.uniform(-4, 0.5))
        # adapt the scale of the gradient threshold for the safe default
        with clock:
            t0 = clock.now
            _, res = execute(ctx, opt, mon, kw, run_kw)
        d = dict(space=s.name, kw=kw, reason=res.stopping_criterion)
        ctx.hit("mode:" + mode)
        kind = classify(res.stopping_criterion)
        if kind is None:
            ctx.hit("unclassified-reason")
        else:
            ctx.hit("reason:" + kind)
        ev = mon.rec.events
        ncost = len(mon.rec.of("cost"))
        pop = len(run_kw["initial_point"]) if (
            opt == "PSO" and "initial_point" in run_kw) else n0
        if kind == "iterations":
            ctx.ok(res.iterations >= kw["max_iterations"],
                   sg(opt, "reason-true:iterations"), got=res.iterations, **d)
        if kind == "gradient":
            ctx.ok(opt in ("SD", "CG", "TR")
                   and mon.gnorm(res.point)
                   <= kw["min_gradient_norm"] * (1 + 1e-7)
                   + 1e-9 * mon.cost.scale,
                   sg(opt, "reason-true:gradient"), **d)
        if kind == "step":
            ctx.ok(log and log[-1]["step"] < kw["min_step_size"],
                   sg(opt, "reason-true:step"), **d)
        if kind == "evaluations":
            ctx.ok(ncost >= kw["max_cost_evaluations"],
                   sg(opt, "reason-true:evaluations"), observed=ncost, **d)
        if kind == "time":
            ctx.ok(clock.now - t0 >= kw["max_time"] - 1e-6,
                   sg(opt, "reason-true:time"), elapsed=clock.now - t0, **d)
        # no step is started once a criterion holds
        n = 1
        if opt in ("SD", "CG", "TR"):
            steps = steps_of(opt, mon, log)
            n = len(steps)
            ctx.ok(n <= kw["max_iterations"], sg(opt, "bound:iterations"),
                   steps=n, **d)
            tol = 1e-7 * (mon.cost.scale + kw["min_gradient_norm"])
            for x, _ in steps:
                ctx.ok(mon.gnorm(x) >= kw["min_gradient_norm"] - tol,
                       sg(opt, "bound:gradient"), got=mon.gnorm(x), **d)
            if log:
                for e in log[:-1]:
                    ctx.ok(e["step"] >= kw["min_step_size"] * (1 - 1e-9),
                           sg(opt, "bound:step"), step=e["step"], **d)
            for x, i in steps:
                ctx.ok(costs_before(mon, i) < kw["max_cost_evaluations"],
                       sg(opt, "bound:evaluations"),
                       before=costs_before(mon, i), **d)
            starts = [i for _, i in steps]
        else:
            per = pop if opt == "PSO" else int(s.M.dim) + 2
            first = pop if opt == "PSO" else int(s.M.dim) + 1
            ctx.ok(
                ncost <= max(first, kw["max_cost_evaluations"] - 1 + per),
                sg(opt, "bound:evaluations"), observed=ncost, **d)
            if opt == "PSO":
                rounds = (ncost - pop) / pop
            else:
                rounds = (ncost - first) / per
            ctx.ok(rounds <= kw["max_iterations"], sg(opt, "bound:iterations"),
                   steps=rounds, **d)
            # events at which a new round begins, at least
            idx = [i for i, e in enumerate(ev) if e[0] == "cost"]
            starts = idx[first::per]
        if starts:
            def ticks(upto):
                return sum(
                    tick for e in ev[:upto] if e[0] in ("cost", "grad", "hess"))
            base = ticks(starts[0])
            late = sum(
                1 for i in starts if ticks(i) - base >= kw["max_time"] + tick)
            ctx.ok(late <= 1, sg(opt, "bound:time"), steps_after_deadline=late,
                   **d)
        if n:
            ctx.nontrivial(s.name, opt, mode, repr(sorted(kw.items(), key=str)),
                           res.point)
        ctx.sample(optimizer=opt, space=s.name, mode=mode,
                   reason=res.stopping_criterion)


class O05(OBase):
    """The log is a faithful record of the run."""

    QUICK, THOROUGH = 2, 40

    REQUIRED = ["oracle:entries-are-the-iterates", "oracle:no-entries-at-verbosity-0", "oracle:log-survives-next-run", "oracle:best-cost-nonincreasing"]

    def one(self, ctx, opt, s, rng):
        clock = O.FakeClock(per_read=1e-3)
        mon, kw, run_kw, log = setup(ctx, opt, s, rng, wall=0.2, clock=clock,
                                     tick=0.5)
        kw["log_verbosity"] = int(rng.choice([0, 1, 1, 2]))
        with clock:
            t0 = clock.now
            optimizer, res = execute(ctx, opt, mon, kw, run_kw)
            t1 = clock.now
        d = dict(space=s.name, kw=kw)
        L = res.log
        ctx.ok(L["optimizer"] == str(optimizer), sg(opt, "log-names-optimizer"))
        sc = L["stopping_criteria"]
        for k in ("max_iterations", "min_gradient_norm", "min_step_size",
                  "max_cost_evaluations"):
            if k in kw:
                ctx.ok(sc[k] == kw[k], sg(opt, "log-parameters:" + k), **d)
        if opt == "CG":
            op = L["optimizer_parameters"]
            ctx.ok(op["beta_rule"] == kw["beta_rule"]
                   and op["orth_value"] == kw["orth_value"],
                   sg(opt, "log-parameters:cg"), got=op, **d)
        it = L["iterations"]
        if kw["log_verbosity"] == 0:
            ctx.ok(it is None, sg(opt, "no-entries-at-verbosity-0"), **d)
            return
        if not ctx.ok(it is not None and len(it.get("iteration", [])) > 0,
                      sg(opt, "entries-present"), **d):
            return
        n = len(it["iteration"])
        keys = ["time", "iteration", "point", "cost"]
        if opt in ("SD", "CG", "TR"):
            keys.append("gradient_norm")
        for k in keys:
            if not ctx.ok(len(it.get(k, [])) == n,
                          sg(opt, "one-value-per-entry:" + k), **d):
                return
        ks = list(it["iteration"])
        ctx.ok(ks == list(range(ks[0], ks[0] + n)) and ks[0] in (0, 1),
               sg(opt, "entries-consecutive"), got=ks[:20], **d)
        ctx.ok(ks[-1] == res.iterations, sg(opt, "last-entry-is-result:iteration"),
               got=ks[-1], iterations=res.iterations, **d)
        times = list(it["time"])
        ctx.ok(all(a <= b for a, b in zip(times, times[1:])),
               sg(opt, "times-nondecreasing"), **d)
        ctx.ok(t0 <= times[0] and times[-1] <= t1, sg(opt, "times-in-run"), **d)
        evaluated = {digest_of(e[1]) for e in mon.rec.of("cost")}
        for j in range(n):
            p, c = it["point"][j], it["cost"][j]
            ctx.ok(mon.value(p) == c, sg(opt, "entry-cost-matches-point"),
                   entry=j, logged=c, value=mon.value(p), **d)
            ctx.ok(digest_of(p) in evaluated, sg(opt, "entry-point-evaluated"),
                   **d)
            if "gradient_norm" in keys:
                g = mon.gnorm(p)
                ctx.leq(abs(it["gradient_norm"][j] - g),
                        1e-7 * (mon.cost.scale + g),
                        sg(opt, "entry-gradient-norm-matches-point"), **d)
        ctx.ok(O.same_bits(it["point"][-1], res.point)
               and it["cost"][-1] == res.cost,
               sg(opt, "last-entry-is-result"), **d)
        if log is not None:
            bases = [digest_of(e["x"]) for e in log]
            ctx.ok(bases == [digest_of(p) for p in it["point"][:-1]],
                   sg(opt, "entries-are-the-iterates"), **d)
        elif opt == "TR":
            bases = [digest_of(x) for x, _ in steps_of(opt, mon)]
            ctx.ok(bases == [digest_of(p) for p in it["point"][:-1]],
                   sg(opt, "entries-are-the-iterates"), **d)
        else:
            cs = it["cost"]
            ctx.ok(all(a >= b for a, b in zip(cs, cs[1:])),
                   sg(opt, "best-cost-nonincreasing"), **d)
        # a later run must not rewrite the earlier log
        before = (n, digest_of(list(it["cost"])))
        with clock:
            kw2 = dict(run_kw)
            if mon.cost_hook is None:  # a start of infinite cost is invalid
                kw2.pop("initial_point", None)
            ctx.call(sg(opt, "second-run"), mon.run, optimizer, **kw2)
        ctx.ok((len(res.log["iterations"]["iteration"]),
                digest_of(list(res.log["iterations"]["cost"]))) == before,
               sg(opt, "log-survives-next-run"), **d)
        if n > 1:
            ctx.nontrivial(s.name, opt, repr(sorted(kw.items(), key=str)),
                           res.point)
        ctx.sample(optimizer=opt, space=s.name, entries=n)


def outcome(res):
    """Everything deterministic a result carries, bit for bit."""
    strip = re.sub(r"[\d.]+ seconds", "", res.stopping_criterion)
    log = res.log["iterations"]
    logged = None
    if log is not None:
        logged = digest_of(
            [[list(log["iteration"]), list(log["cost"])], list(log["point"])])
    return dict(
        point=digest_of(res.point), cost=res.cost, iterations=res.iterations,
        evaluations=res.cost_evaluations, step=repr(res.step_size),
        gradient=repr(res.gradient_norm), reason=strip, log=logged,
    )


class Nested:
    """A line searcher which keeps its state in other objects."""

    def __init__(self, inner):
        self.parts = [inner]
        self.seen = {"searches": 0}

    def search(self, *args):
        self.seen["searches"] += 1
        return self.parts[0].search(*args)


class O06(OBase):
    """Runs are pure functions of problem, start, parameters and seed."""

    QUICK, THOROUGH = 1, 30
    CASE_TIMEOUT = 240

    REQUIRED = ["interleaved-other-problem", "oracle:initial-population-unmodified", "oracle:line-searcher-unmodified", "oracle:first-reuse-is-fresh:point", "start:int64", "start:real", "start:first-step", "nested-line-searcher", "long-run"]

    def one(self, ctx, opt, s, rng):
        mon, kw, run_kw = make(ctx, opt, s, rng, record_manifold=False)
        if opt in ("NM", "PSO") and rng.random() < 0.4:
            kw.pop("max_cost_evaluations")
            if rng.random() < 0.5 and opt == "PSO":
                kw.pop("population_size")
                run_kw.pop("initial_point", None)
        if kw["max_iterations"] > 12:
            kw["max_iterations"] = 12
        long = (opt in ("PSO", "NM") and s.M.dim <= 3 and rng.random() < 0.15
                and (opt == "NM" or kw.get("population_size", 99) <= 8)
                and not isinstance(s, S.ProductSpace))
        if long:
            # states which change slowly
            kw["max_iterations"] = (int(rng.integers(55, 110))
                                    if opt == "PSO" else 30)
            kw.pop("max_cost_evaluations", None)
            ctx.hit("long-run")
        searcher = kw.get("line_searcher")
        if searcher is not None and rng.random() < 0.4:
            ctx.hit("nested-line-searcher")
            searcher = kw["line_searcher"] = Nested(searcher)

        def state_of(x):
            if isinstance(x, Nested):
                return [vars(x.parts[0]).copy(), dict(x.seen)]
            return copy.deepcopy(vars(x))

        state = state_of(searcher) if searcher is not None else None
        start = O.deep(run_kw.get("initial_point"))
        ids = ([id(p) for p in run_kw["initial_point"]]
               if opt in ("NM", "PSO") and start is not None else None)
        seed = int(rng.integers(2**31))
        d = dict(space=s.name, kw=kw)

        def go(optimizer, problem_mon, what, **rk):
            np.random.seed(seed)
            return ctx.call(sg(opt, what), problem_mon.run, optimizer, **rk)

        make_opt = lambda: O.OPTIMIZERS[opt](**kw)
        first = make_opt()
        params = {k: repr(v) for k, v in vars(first).items()
                  if not k.startswith("_log") and k != "line_searcher"}
        r1 = go(first, mon, "run", **run_kw)
        o1 = outcome(r1)
        p1 = O.deep(r1.point)
        if start is not None:
            ctx.ok(O.same_bits(start, run_kw["initial_point"]),
                   sg(opt, "initial-point-unmodified"), **d)
            if ids is not None:
                ctx.ok(ids == [id(p) for p in run_kw["initial_point"]],
                       sg(opt, "initial-population-unmodified"), **d)
        if searcher is not None:
            ctx.ok(state_of(searcher) == state,
                   sg(opt, "line-searcher-unmodified"), before=state,
                   after=state_of(searcher), **d)
        r2 = go(make_opt(), mon, "run-again", **run_kw)
        for k, v in outcome(r2).items():
            ctx.ok(v == o1[k], sg(opt, "same-seed-same-result:" + k),
                   first=o1[k], second=v, **d)
        # the same instance, after solving something else in between
        if rng.random() < 0.7 and not long:
            names = [n for n in O.spaces_for(opt) if small(opt, n)]
            other = S.get(str(rng.choice(names)))
            m2, _, rk2 = make(ctx, opt, other, rng, kw=kw,
                              record_manifold=False, style="none")
            ctx.hit("interleaved-other-problem")
            try:
                m2.run(first, **rk2)
            except Exception:
                ctx.hit("interleaved-run-failed")
        r3 = go(first, mon, "run-reused", **run_kw)
        for k, v in outcome(r3).items():
            ctx.ok(v == o1[k], sg(opt, "reused-instance-same-result:" + k),
                   first=o1[k], second=v, **d)
        ctx.ok(O.same_bits(p1, r1.point), sg(opt, "earlier-result-unmodified"),
               **d)
        if opt in ("SD", "CG"):
            r4 = go(make_opt(), mon, "run-reuse-flag", reuse_line_searcher=True,
                    **run_kw)
            for k, v in outcome(r4).items():
                ctx.ok(v == o1[k], sg(opt, "first-reuse-is-fresh:" + k), **d)
        if r1.iterations > 1:
            ctx.nontrivial(s.name, opt, repr(sorted(kw.items(), key=str)),
                           r1.point)
        ctx.sample(optimizer=opt, space=s.name, **o1)
        self.types(ctx, opt, s, mon, kw, run_kw, seed, rng)

    def types(self, ctx, opt, s, mon, kw, run_kw, seed, rng):
        """Starts with equal values in another numerical type."""
        from check_manifolds import recast

        if "initial_point" not in run_kw:
            return
        single = opt in ("SD", "CG", "TR")
        n = 1 if single else len(run_kw["initial_point"])
        starts = [s.rand_point(rng, "canonical" if rng.random() < 0.8
                               else "generic") for _ in range(n)]
        how = str(rng.choice(["int64", "int32", "real"]))
        other = [recast(p, how) for p in starts]
        if not any(a.dtype != b.dtype for p, q in zip(starts, other)
                   for a, b in zip(leaves(p), leaves(q))):
            return
        few = dict(kw, max_iterations=min(3, kw["max_iterations"]))
        out = []
        for pts in (starts, other):
            rk = dict(run_kw, initial_point=pts[0] if single else pts)
            np.random.seed(seed)
            mon.rec.events.clear()
            ctx.call(sg(opt, "run:start:" + how), mon.run,
                     O.OPTIMIZERS[opt](**few), **rk)
            out.append([e[2] for e in mon.rec.events if e[0] == "cost"])
        ctx.hit("start:" + how)
        # the costs of the start and, unless it is (close to) critical, of
        # the first trial step
        k = n
        if opt in ("SD", "CG") and mon.rnorm(
                starts[0], mon.rgrad(starts[0])) > 1e-3 * mon.cost.scale:
            ctx.hit("start:first-step")
            k = 2
        if not ctx.ok(len(out[0]) >= n and len(out[1]) >= n,
                      sg(opt, "start:evaluated"), space=s.name):
            return
        k = min(k, len(out[0]), len(out[1]))
        a, b = np.array(out[0][:k], float), np.array(out[1][:k], float)
        if not np.all(np.isfinite(a)):
            return
        ctx.leq(float(np.max(np.abs(a - b), initial=0.0)),
                1e-6 * (mon.cost.scale + np.max(np.abs(a), initial=0.0)),
                sg(opt, "start:" + how), costs=a, other=b, space=s.name,
                start=starts)



# ---------------------------------------------------------------------------
class O07(OBase):
    """Line searches: trial steps, Armijo acceptance, rejection, evaluations."""

    QUICK, THOROUGH = 12, 200
    opts = ("back", "adapt")
    RULE = (
        "distinct = digest of (searcher parameters, point, direction) of a "
        "search whose trials were replayed"
    )

    REQUIRED = ["accepted", "rejected", "gave-up", "fresh-searcher", "guess-from-last-decrease", "guess-from-last-step", "zero-direction", "accepted-equal-cost"]

    def keys(self, tier):
        n = self.QUICK if tier == "quick" else self.THOROUGH
        return [(k, name, r) for r in range(n) for k in self.opts
                for name in O.spaces_for("SD")]

    def one(self, ctx, kind, s, rng):
        M = s.M
        cost = O.OptCost(s, rng, O.OptCost.KINDS[int(rng.integers(5))],
                         float(rng.choice([1.0, 1e-3, 1e3, 1e-12, 1e8])))
        x = s.rand_point(rng, str(rng.choice(["generic", "canonical", "lib"])))
        hook = None
        u = rng.random()
        if u < 0.3:
            hook = wall_for(ctx, s, x, cost.target, rng)
        elif u < 0.45:
            hook = O.Steps(cost.scale * float(10 ** rng.uniform(-3, 1)))
        mon = O.Monitored(s, cost, cost_hook=hook)
        par = dict(
            contraction_factor=float(rng.choice([0.2, 0.5, 0.7])),
            sufficient_decrease=float(rng.choice([1e-4, 0.1, 0.5, 0.9])),
            max_iterations=int(rng.choice([0, 1, 3, 10, 25])),
            initial_step_size=float(rng.choice([1e-3, 0.1, 1, 5, 30])),
        )
        if kind == "back":
            par["optimism"] = float(rng.choice([1, 1.1, 2, 4]))
            searcher = O.BackTrackingLineSearcher(**par)
        else:
            searcher = O.AdaptiveLineSearcher(**par)
        if rng.random() < 0.15:
            searcher = type(searcher)()
            if kind == "back":
                par = dict(contraction_factor=0.5, optimism=2,
                           sufficient_decrease=1e-4, max_iterations=25,
                           initial_step_size=1)
            else:
                par = dict(contraction_factor=0.5, sufficient_decrease=0.5,
                           max_iterations=10, initial_step_size=1)
        name = {"back": "BackTracking", "adapt": "Adaptive"}[kind]
        sig = lambda w: name + "|" + w
        old = None  # (f0, last alpha, number of evaluations)
        try:
            for k in range(int(rng.integers(1, 6))):
                with O.paused(mon.rec):
                    if saturated(s, x):
                        ctx.hit("skipped:numerical-boundary")
                        return
                    g = mon.rgrad(x)
                    d = self.direction(s, x, g, rng)
                    df0 = mon.inner(x, g, d)
                f0 = mon.value(x)
                if not np.isfinite(f0):
                    return
                old = self.search(ctx, s, mon, searcher, par, kind, sig, x, d,
                                  f0, df0, old, k)
                if old is None:
                    return
                x = old.pop("x")
                if rng.random() < 0.15:
                    x = s.rand_point(rng, "generic")  # reused elsewhere
        finally:
            O.unmonitor(M)

    def direction(self, s, x, g, rng):
        M = s.M
        u = rng.random()
        if u < 0.5:
            return -g
        if u < 0.6:
            return float(10 ** rng.uniform(-4, 4)) * -g
        if 0.95 < u:
            return float(10 ** rng.uniform(-13, 13)) * -g
        n = s.norm(x, g)
        if u < 0.67:
            return 0 * g
        v = s.random_scaled(rng, x, max(n, 1e-12) * rng.uniform(0.2, 2.0))
        d = -g + v
        if s.inner(x, g, d) >= 0:
            d = -g
        return d

    def search(self, ctx, s, mon, searcher, par, kind, sig, x, d, f0, df0,
               old, k):
        M, rec = s.M, mon.rec
        start = len(rec.events)
        x0, d0 = O.deep(x), O.deep(d)
        step, newx = ctx.call(sig("search"), searcher.search,
                              mon.problem.cost, M, x, d, f0, df0)
        info = dict(space=s.name, par=par, f0=f0, df0=df0, search=k)
        ctx.ok(O.same_bits(x, x0) and O.same_bits(d, d0),
               sig("arguments-unmodified"), **info)
        ev = [e for e in rec.events[start:] if e[0] in ("cost", "M.retraction")]
        nd = mon.rnorm(x, d)
        if nd == 0:
            ctx.ok(step == 0 and O.same_bits(newx, x),
                   sig("zero-direction-rejected"), **info)
            ctx.hit("zero-direction")
            return dict(x=x, **(old or {}))
        trials, bad = [], False
        last = None
        for e in ev:
            if e[0] == "M.retraction":
                last = e
                continue
            if last is None or not O.same_bits(last[2], e[1]):
                bad = True
                break
            base, v = last[1]
            a = mon.inner(x, v, d) / nd**2
            trials.append(dict(alpha=a, f=e[2], x=e[1], base=base, v=v))
        if not ctx.ok(trials and not bad, sig("evaluates-retracted-points"),
                      trials=len(trials), **info):
            return None
        n = len(trials)
        ctx.hit("trials", n)
        ctx.ok(n <= par["max_iterations"] + 1, sig("evaluations-bounded"),
               evaluations=n, **info)
        for t in trials:
            ctx.ok(O.same_bits(t["base"], x), sig("retracts-from-start"), **info)
            r = (s.norm(x, t["v"] - t["alpha"] * d) if nd > 1e-9 else 0.0)
            ctx.leq(r, 1e-8 * max(1.0, abs(t["alpha"]) * nd),
                    sig("moves-along-direction"), **info)
            ctx.ok(np.isfinite(t["alpha"]) and t["alpha"] > 0,
                   sig("trial-step-positive"), alpha=t["alpha"], **info)
        # initial trial
        a0 = trials[0]["alpha"]
        fresh = par["initial_step_size"] / nd
        if old is None or "f0" not in old:
            want = fresh
            ctx.hit("fresh-searcher")
        elif kind == "back":
            want = fresh
            if old["f0"] > f0 and df0 != 0:
                w = 2 * (f0 - old["f0"]) / df0 * par["optimism"]
                want = w if w > 0 else fresh
                ctx.hit("guess-from-last-decrease")
        else:
            want = {2: old["alpha"]}.get(old["n"], 2 * old["alpha"])
            if not want > 0:
                want = fresh
            ctx.hit("guess-from-last-step")
        judged_first = df0 < 0  # the guess is specified for descent directions
        if judged_first:
            ctx.leq(abs(a0 - want), 1e-7 * want, sig("first-trial-step"),
                    got=a0, expected=want, **info)
        for a, b in zip(trials, trials[1:]):
            ctx.leq(abs(b["alpha"] - par["contraction_factor"] * a["alpha"]),
                    1e-8 * a["alpha"], sig("contracts-geometrically"), **info)

        def armijo(t):
            # decided unless within rounding of the threshold
            bound = f0 + par["sufficient_decrease"] * t["alpha"] * df0
            slack = 1e-13 * (abs(f0) + abs(bound)) + 1e-8 * abs(bound - f0)
            if t["f"] <= bound - slack:
                return True
            if t["f"] > bound + slack:
                return False
            return None

        for t in trials[:-1]:
            ctx.ok(armijo(t) is not True, sig("stops-at-first-acceptable"),
                   **info)
        end = trials[-1]
        if armijo(end) is False:
            ctx.ok(n > par["max_iterations"], sig("gives-up-only-at-limit"),
                   evaluations=n, **info)
            ctx.hit("gave-up")
        if end["f"] <= f0:
            ctx.ok(O.same_bits(newx, end["x"]), sig("returns-accepted-point"),
                   **info)
            ctx.leq(abs(step - end["alpha"] * nd), 1e-8 * end["alpha"] * nd,
                    sig("step-size-is-moved-length"), got=step, **info)
            ctx.hit("accepted")
            if end["f"] == f0:
                ctx.hit("accepted-equal-cost")
        else:
            ctx.ok(step == 0 and O.same_bits(newx, x),
                   sig("rejects-without-decrease"), got=step, **info)
            ctx.hit("rejected")
        ctx.ok(mon.value(newx) <= f0, sig("never-increases"), **info)
        ctx.nontrivial(s.name, repr(sorted(par.items())), x0, d0)
        ctx.sample(searcher=sig(""), space=s.name, trials=n, step=step)
        return dict(x=newx, f0=f0, n=n,
                    alpha=end["alpha"] if end["f"] <= f0 else 0.0)


# ---------------------------------------------------------------------------
class O08(OBase):
    """Search directions of steepest descent and conjugate gradients."""

    QUICK, THOROUGH = 8, 120
    opts = ("SD", "CG")
    RULE = (
        "distinct = digest of (manifold, rule, point, direction) of search "
        "directions compared with an independently computed one"
    )

    REQUIRED = ["rule:FletcherReeves", "rule:PolakRibiere", "rule:HestenesStiefel", "rule:HagerZhang", "rule:LiuStorey", "powell-restart", "ascent-restart", "nonzero-beta"]

    def one(self, ctx, opt, s, rng):
        kw = O.configure(opt, rng)
        kw["max_iterations"] = int(rng.choice([5, 12, 30]))
        precon = None
        if opt == "CG" and rng.random() < 0.25:
            precon = O.make_precon(s, rng, "scaled")
        mon, kw, run_kw, log = setup(ctx, opt, s, rng, wall=0.15, kw=kw,
                                     precon=precon)
        execute(ctx, opt, mon, kw, run_kw)
        M = s.M
        prev = None
        for i, e in enumerate(log):
            x, d, df0 = e["x"], e["d"], e["df0"]
            if saturated(s, x):
                ctx.hit("skipped:numerical-boundary")
                return
            g = mon.rgrad(x)
            with O.paused(mon.rec):
                Pg = mon.precon(x, g) if mon.precon else g
            ng = mon.rnorm(x, g)
            info = dict(space=s.name, rule=kw.get("beta_rule"), step=i)
            slack = mon.inner(x, g, d)
            ctx.leq(abs(df0 - slack), 1e-7 * (abs(slack) + ng * mon.rnorm(x, d)),
                    sg(opt, "directional-derivative"), got=df0, expected=slack,
                    **info)
            ctx.ok(df0 <= 0, sg(opt, "descent-direction"), df0=df0, **info)
            cur = dict(x=x, g=g, Pg=Pg, d=d, ng=ng, step=e["step"])
            if opt == "SD" or prev is None:
                self.same(ctx, s, mon, x, d, [-Pg], ng, opt,
                          "negative-gradient", info)
            else:
                self.cg(ctx, s, mon, kw, prev, cur, info)
            ctx.nontrivial(s.name, kw.get("beta_rule"), x, d)
            prev = cur
        ctx.sample(optimizer=opt, space=s.name, directions=len(log))

    def same(self, ctx, s, mon, x, d, candidates, size, opt, what, info,
             tol=1e-6):
        r = min(s.norm(x, d - c) for c in candidates)
        return ctx.leq(r, tol * size + 1e-300, sg(opt, what), got=d,
                       expected=candidates[0], **info)

    def cg(self, ctx, s, mon, kw, p, c, info):
        inner = lambda u, v: mon.inner(c["x"], u, v)
        with O.paused(mon.rec):
            Tg = s.M.transport(p["x"], c["x"], p["g"])
            TPg = s.M.transport(p["x"], c["x"], p["Pg"])
            Td = s.M.transport(p["x"], c["x"], p["d"])
        g, Pg = c["g"], c["Pg"]
        gPg = inner(g, Pg)
        old_gPg = mon.inner(p["x"], p["g"], p["Pg"])
        if not gPg > 0 or not old_gPg > 0:
            return
        orth = abs(inner(Tg, Pg)) / gPg
        powell = orth >= kw["orth_value"]
        unsure = abs(orth - kw["orth_value"]) <= 1e-6 * (1 + orth)
        diff = g - Tg
        rule = kw["beta_rule"]
        nd, nT = s.norm(c["x"], diff), s.norm(c["x"], Td)
        # differences cancelled to rounding noise decide nothing
        if s.norm(c["x"], diff) < 1e-5 * (c["ng"] + s.norm(c["x"], Tg)) \
                and rule != "FletcherReeves":
            ctx.hit("skipped:cancelled-difference")
            return
        noise = 0.0

        def quotient(num, scale, den, dscale):
            nonlocal noise
            if abs(den) < 1e-7 * dscale or den == 0:
                return None
            noise = max(noise, 1e-12 * scale / abs(den)
                        + 1e-12 * abs(num) * dscale / den**2)
            return num / den

        nP = s.norm(c["x"], Pg)
        if rule == "FletcherReeves":
            beta = gPg / old_gPg
        elif rule == "PolakRibiere":
            beta = max(0.0, inner(Pg, diff) / old_gPg)
        elif rule == "HestenesStiefel":
            q = quotient(inner(Pg, diff), nP * nd, inner(diff, Td), nd * nT)
            beta = None if q is None else max(0.0, q)
        elif rule == "HagerZhang":
            Pdiff = Pg - TPg
            den = inner(diff, Td)
            q = quotient(inner(diff, Pg), nP * nd, den, nd * nT)
            beta = None
            if q is not None:
                num = inner(diff, Pg) - 2 * inner(diff, Pdiff) * inner(
                    Td, g) / den
                scale = nd * nP + 2 * nd * s.norm(c["x"], Pdiff) * nT * c[
                    "ng"] / abs(den)
                quotient(num, scale, den, nd * nT)
                eta = -1 / (nT * min(0.01, p["ng"]))
                beta = max(num / den, eta)
                if beta == eta:
                    ctx.hit("hager-zhang-lower-bound")
        else:
            den = -inner(Tg, Td)
            q = quotient(inner(Pg, diff), nP * nd, den,
                         s.norm(c["x"], Tg) * nT)
            den2 = -mon.inner(p["x"], p["g"], p["d"])
            if q is None or abs(den2 - den) > 1e-6 * abs(den):
                # both the transported and the original pairing are in use
                q = None if q is None or den2 == 0 else q
            beta = None
            if q is not None:
                beta = max(0.0, min(q, gPg / den))
                if den2 != 0:
                    alt = max(0.0, min(inner(Pg, diff) / den2, gPg / den2))
                else:
                    alt = beta
        if beta is None:
            ctx.hit("skipped:vanishing-denominator")
            return
        combos = [beta] + ([alt] if rule == "LiuStorey" else [])
        cand = []
        for b in combos:
            comb = -Pg + b * Td
            s_comb = inner(g, comb)
            size = c["ng"] * s.norm(c["x"], comb)
            if s_comb <= 1e-8 * size:
                cand.append(comb)
            if s_comb >= -1e-8 * size:
                cand.append(-1.0 * Pg)
        size = nP + abs(beta) * nT
        if unsure:
            return
        ctx.hit("rule:" + rule)
        if powell:
            ctx.hit("powell-restart")
            self.same(ctx, s, mon, c["x"], c["d"], [-1.0 * Pg], nP, "CG",
                      "powell-restart", info)
            return
        if beta != 0:
            ctx.hit("nonzero-beta")
        if any(inner(g, -Pg + b * Td) >= 0 for b in combos):
            ctx.hit("ascent-restart")
        self.same(ctx, s, mon, c["x"], c["d"], cand, size, "CG",
                  "rule:" + rule, info, tol=1e-6 + noise * nT / size * 10)


# ---------------------------------------------------------------------------
class O09(OBase):
    """Trust regions: radius bound, acceptance, model decrease, inner limits."""

    QUICK, THOROUGH = 15, 200
    opts = ("TR",)
    RULE = (
        "distinct = digest of (manifold, base point, step) of trust-region "
        "steps whose radius, model and acceptance were reconstructed"
    )

    REQUIRED = ["inner:residual-rule", "inner:boundary", "radius-shrunk", "radius-grown", "radius-decided", "accepted", "rejected"]

    def one(self, ctx, opt, s, rng):
        kw = O.configure(opt, rng)
        kw["max_iterations"] = int(rng.choice([5, 15, 40]))
        precon = False
        kind = "none"
        cost_kind = O.OptCost.KINDS[int(rng.integers(5))]
        if rng.random() < 0.4:
            kind = "scalar"
            c = float(10 ** rng.uniform(-1, 1))
            precon = lambda p, v: c * v
        else:
            c = 1.0
            precon = None
        cost = O.OptCost(s, rng, cost_kind,
                         float(rng.choice([1.0, 1e-3, 1e3])))
        run_kw = O.run_options("TR", rng)
        run_kw["initial_point"] = s.rand_point(
            rng, str(rng.choice(["generic", "canonical", "lib"])))
        hook = None
        if rng.random() < 0.2:
            hook = wall_for(ctx, s, run_kw["initial_point"], cost.target, rng)
        # the user's own Riemannian Hessian sees the solver's directions
        supply = ("egrad", "rhess") if rng.random() < 0.5 else (
            "egrad", "ehess")
        self.directions = "rhess" in supply
        if rng.random() < 0.1:  # tiny regions around a critical point
            size = 10 ** rng.uniform(-7, -2)
            run_kw["Delta_bar"] = float(size * rng.choice([0.1, 0.5, 3.0]))
            run_kw.pop("Delta0", None)
            run_kw["initial_point"] = s.exp(
                cost.target, s.random_scaled(rng, cost.target, size))
        mon = O.Monitored(s, cost, precon=precon, cost_hook=hook,
                          supply=supply)
        with O.paused(mon.rec):
            try:
                bar = run_kw.get("Delta_bar", float(s.M.typical_dist))
            except NotImplementedError:
                bar = float(np.sqrt(s.M.dim))
        execute(ctx, opt, mon, kw, run_kw)
        self.judge(ctx, s, mon, kw, run_kw, bar, c)

    def judge(self, ctx, s, mon, kw, run_kw, bar, c):
        ev = mon.rec.events
        maxinner = run_kw.get("maxinner") or int(s.M.dim)
        mininner = run_kw.get("mininner", 1)
        radii = {run_kw.get("Delta0", bar / 8)}
        rand = kw["use_rand"]
        pc = 1.0 if rand else c
        idx = [i for i, e in enumerate(ev) if e[0] == "M.retraction"]
        x = run_kw["initial_point"]
        begin = 0
        for n, i in enumerate(idx):
            base, eta = ev[i][1]
            prop = ev[i][2]
            info = dict(space=s.name, kw=kw, run=run_kw, step=n, c=pc)
            if not ctx.ok(O.same_bits(base, x), sg("TR", "steps-from-iterate"),
                          **info):
                return
            if saturated(s, x) or saturated(s, prop):
                ctx.hit("skipped:numerical-boundary")
                return
            after = [e for e in ev[i + 1:idx[n + 1] if n + 1 < len(idx)
                                   else len(ev)] if e[0] == "cost"]
            if not ctx.ok(len(after) == 1 and O.same_bits(after[0][1], prop),
                          sg("TR", "evaluates-proposal-once"), **info):
                return
            fprop = after[0][2]
            hess = [e for e in ev[begin:i] if e[0] == "hess"]
            begin = i + 1
            f = mon.value(x)
            g = mon.rgrad(x)
            ng = mon.rnorm(x, g)
            # radius: <eta, P^-1 eta>^(1/2)
            ne = mon.rnorm(x, eta) / np.sqrt(pc)
            top, low = max(radii), min(radii)
            # the randomized variant starts from a vector of length 1e-6
            # and the recurrences for the length lose digits on stiff models
            ctx.leq(ne, top * (1 + 2e-3) + 5e-6 * rand,
                    sg("TR", "step-within-radius"),
                    radius=top, **info)
            # inner iterations
            limit = maxinner + (2 if rand else 0)
            ctx.ok(len(hess) <= limit, sg("TR", "inner-iterations-bounded"),
                   used=len(hess), limit=limit, **info)
            if ng < 1e-9 * s.cond(x) * max(mon.cost.scale, abs(f)):
                # gradient at rounding level: the model carries no digits
                ctx.hit("converged-to-rounding")
                return
            # model
            H = lambda v: mon.rhess(x, v)
            Heta = H(eta)
            lin, quad = mon.inner(x, g, eta), mon.inner(x, eta, Heta)
            model = lin + 0.5 * quad
            noise = 1e-9 * (abs(lin) + abs(quad)) + 1e-9 * ng * ne * 1e-3
            if rand:
                noise += 1e-14 * (1 + abs(f))
            ctx.leq(model, noise + 1e-300, sg("TR", "model-does-not-increase"),
                    **info)
            # Cauchy point of the (preconditioned) model for the smallest radius
            direction = -pc * g
            a_max = low / (np.sqrt(pc) * ng) if ng > 0 else 0.0
            curv = mon.inner(x, direction, H(direction))
            slope = mon.inner(x, g, direction)
            a = a_max if curv <= 0 else min(a_max, -slope / curv)
            cauchy = a * slope + 0.5 * a * a * curv
            tol = 1e-6 * abs(cauchy) + noise
            if rand:
                tol += 1e-5 * ng * max(1.0, ne)
                tol += 0.5 * abs(cauchy)
            ctx.leq(model - cauchy, tol, sg("TR", "beats-cauchy-point"),
                    model=model, cauchy=cauchy, **info)
            inside = ne < low * (1 - 2e-3)
            if inside and not rand and len(hess) < maxinner:
                # stopped by the residual rule, so it must hold (or the model
                # could not be decreased any further in floating point)
                res = s.norm(x, g + Heta)
                target = ng * min(ng ** kw["theta"], kw["kappa"])
                ctx.leq(res, target * (1 + 1e-5) + 2e-7 * ng
                        + 1e-14 * s.cond(x) * mon.cost.scale,
                        sg("TR", "inner-residual-rule"), **info)
                if res > 1e-7 * ng:
                    ctx.ok(len(hess) >= min(mininner + 1, maxinner),
                           sg("TR", "minimum-inner-iterations"),
                           used=len(hess), **info)
                ctx.hit("inner:residual-rule")
            elif not inside:
                ctx.hit("inner:boundary")
            if self.directions and not rand:
                self.inner(ctx, s, mon, x, g, H, eta, hess, kw, mininner, pc,
                           info)
            # ratio test
            reg = max(1, abs(f)) * np.spacing(1) * 1e3
            num, den = f - fprop + reg, -model + reg
            err_n = 4e-16 * (abs(f) + (abs(fprop) if np.isfinite(fprop) else 0))
            err_d = 1e-9 * (abs(lin) + abs(quad)) + (1e-8 * ng * ne if rand
                                                     else 0)
            with np.errstate(all="ignore"):
                if np.isinf(fprop):
                    lo = hi = -np.inf
                elif den - err_d <= 0:
                    lo, hi = -np.inf, np.inf
                else:
                    r = [(num + a * err_n) / (den + b * err_d)
                         for a in (-1, 1) for b in (-1, 1)]
                    lo, hi = min(r), max(r)
            lo -= 1e-7 * abs(lo) if np.isfinite(lo) else 0
            hi += 1e-7 * abs(hi) if np.isfinite(hi) else 0
            nxt = set()
            for r in radii:
                if lo < 0.25:
                    nxt.add(r / 4)
                if hi >= 0.25:
                    hit_edge = ne >= r * (1 - 2e-3)
                    grow = hi > 0.75 and (hit_edge or rand)
                    # exactly at the edge; in between it may have stopped on
                    # either side of noticing it
                    sure_edge = abs(ne - r) <= 1e-9 * r
                    if grow:
                        nxt.add(min(2 * r, bar))
                    if lo <= 0.75 or rand or not sure_edge:
                        nxt.add(r)
            if lo == hi or lo > 0.25 or hi < 0.25:
                ctx.hit("radius-decided")
            if hi < 0.25:
                ctx.hit("radius-shrunk")
            if lo > 0.75 and not inside:
                ctx.hit("radius-grown")
            # discard radii that cannot have produced this step
            radii = {float(f"{r:.12g}") for r in nxt}
            if len(radii) > 64:
                ctx.hit("skipped:ambiguous-radius")
                return
            nextx = ev[idx[n + 1]][1][0] if n + 1 < len(idx) else None
            if nextx is not None:
                moved = O.same_bits(nextx, prop)
                stayed = O.same_bits(nextx, x)
                if not ctx.ok(moved or stayed, sg("TR", "next-iterate"), **info):
                    return
                if hi < kw["rho_prime"] and not O.same_bits(prop, x):
                    ctx.ok(stayed, sg("TR", "rejects-poor-steps"), rho=hi,
                           **info)
                    ctx.hit("rejected")
                if lo > kw["rho_prime"]:
                    ctx.ok(moved, sg("TR", "accepts-good-steps"), rho=lo, **info)
                    ctx.hit("accepted")
                x = nextx
            ctx.nontrivial(s.name, x, eta)
        ctx.sample(space=s.name, steps=len(idx), Delta_bar=bar)


    def inner(self, ctx, s, mon, x, g, H, eta, hess, kw, mininner, pc, info):
        """Replay of the truncated conjugate gradients from the directions
        the Hessian was asked for."""
        ng = mon.rnorm(x, g)
        target = ng * min(ng ** kw["theta"], kw["kappa"])
        if not target > 1e-7 * ng:
            return
        total, r = 0 * g, g
        last = None
        for k, e in enumerate(hess):
            d = type(g)(e[2]) if isinstance(s, S.ProductSpace) else e[2]
            nd, nr = s.norm(x, d), s.norm(x, r)
            if nd == 0 or nr < 1e-6 * ng:
                return
            if k == 0:
                ctx.leq(s.norm(x, d + pc * g), 1e-9 * pc * ng,
                        sg("TR", "first-inner-direction"), **info)
            elif last is not None:
                Hd, nHd = last
                ctx.leq(abs(mon.inner(x, d, Hd)), 1e-5 * nd * nHd,
                        sg("TR", "inner-directions-conjugate"), at=k, **info)
                ctx.hit("inner:conjugate")
            Hd = H(d)
            curv = mon.inner(x, d, Hd)
            if k == len(hess) - 1:
                break
            if not ctx.ok(curv > 0, sg("TR", "continues-only-on-convex-models"),
                          at=k, curvature=curv, **info):
                return
            a = float(-mon.inner(x, r, d) / curv)
            total = total + a * d
            r = r + a * Hd
            last = (Hd, s.norm(x, Hd))
            if s.norm(x, r) < 1e-14 * ng:
                return  # solved up to rounding: the residual is noise
            if k >= mininner:
                ctx.ok(s.norm(x, r) >= target * (1 - 1e-4),
                       sg("TR", "inner-solver-stops-at-target"), at=k,
                       residual=s.norm(x, r), target=target, **info)
                ctx.hit("inner:continues")
        # the last move is along the last direction
        rest = eta - total
        if nd > 0:
            rest = rest - float(s.inner(x, d, rest) / nd**2) * d
        ctx.leq(s.norm(x, rest), 1e-6 * (s.norm(x, eta) + s.norm(x, total)),
                sg("TR", "step-along-inner-directions"), **info)

# ---------------------------------------------------------------------------
class O10(OBase):
    """Nelder-Mead: replay of the simplex decision table from the event log."""

    QUICK, THOROUGH = 2, 60
    opts = ("NM",)
    RULE = (
        "distinct = digest of (manifold, simplex) of iterations whose moves "
        "were replayed against the Nelder-Mead decision table"
    )

    REQUIRED = ["move:reflection", "move:expansion", "move:outside-contraction", "move:inside-contraction", "move:shrink", "oracle:centroid-is-the-mean", "tied-costs"]

    def one(self, ctx, opt, s, rng):
        kw = O.configure(opt, rng)
        kw["max_iterations"] = int(rng.choice([3, 12, 25]))
        kw["max_cost_evaluations"] = 10**6
        mon, kw, run_kw = make(ctx, opt, s, rng, kw=kw)
        if rng.random() < 0.3:  # plateaus: equal costs decide comparisons
            O.unmonitor(s.M)
            mon = O.Monitored(
                s, mon.cost,
                cost_hook=O.Steps(mon.cost.scale * 10 ** rng.uniform(-3, 0)))
        _, res = execute(ctx, opt, mon, kw, run_kw)
        self.ratios = []
        try:
            self.replay(ctx, s, mon, kw, run_kw, res)
        finally:
            # single centroids may stop early (15 inner iterations from a
            # random point); the typical one must be the mean of the others
            if len(self.ratios) >= 5:
                ctx.leq(float(np.median(self.ratios)), 0.1,
                        sg("NM", "typical-centroid-is-the-mean"),
                        ratios=self.ratios, space=s.name)
        self.direct(ctx, s, rng, mon)

    def direct(self, ctx, s, rng, mon):
        from pymanopt.optimizers.nelder_mead import compute_centroid

        ratios = []
        for _ in range(5):
            n = int(rng.integers(2, 6))
            pts = O.initial("PSO", s, rng, dict(population_size=n))
            keep = O.deep(pts)
            c = ctx.call(sg("NM", "compute_centroid"), compute_centroid, s.M,
                         pts)
            ctx.ok(O.same_bits(keep, pts), sg("NM", "centroid-arguments"))
            if not ctx.ok(finite(c), sg("NM", "centroid-finite"),
                          space=s.name, points=pts):
                return
            logs = [s.M.log(c, p) for p in pts]
            total = logs[0]
            for v in logs[1:]:
                total = total + v
            ratios.append(s.norm(c, total) / n
                          / (1e-300 + max(s.norm(c, v) for v in logs)))
        ctx.leq(float(np.median(ratios)), 0.1,
                sg("NM", "centroid-is-the-mean"), ratios=ratios, space=s.name)

    def replay(self, ctx, s, mon, kw, run_kw, res):
        ev = mon.rec.events
        dim = int(s.M.dim)
        sig = lambda w: sg("NM", w)
        idx = [i for i, e in enumerate(ev) if e[0] == "cost"]
        info = dict(space=s.name, kw=kw, dim=dim)
        if not ctx.ok(len(idx) >= dim + 1, sig("evaluates-initial-simplex"),
                      **info):
            return
        simplex = [[ev[i][2], ev[i][1]] for i in idx[:dim + 1]]
        if "initial_point" in run_kw:
            given = sorted(digest_of(p) for p in run_kw["initial_point"])
            ctx.ok(given == sorted(digest_of(p) for _, p in simplex),
                   sig("uses-initial-simplex"), **info)
        simplex.sort(key=lambda t: t[0])
        moves = idx[dim + 1:]
        pos = 0
        iteration = 0

        def move(pos):
            """(coefficient, base) of the candidate evaluated at event."""
            i = moves[pos]
            e = ev[i]
            for j in range(i - 1, -1, -1):
                if ev[j][0] == "M.retraction":
                    if O.same_bits(ev[j][2], e[1]):
                        return ev[j][1][0], ev[j][1][1]
                    return None
                if ev[j][0] in ("cost",):
                    return None
            return None

        def mean_of(pos, start, taken):
            """Arguments of the mean evaluated at moves[pos], in a shrink
            whose evaluations begin at moves[start]; every mean counts once
            (`taken`), in whatever order means and costs are interleaved."""
            i = moves[pos]
            first = moves[start - 1] if start else 0
            for j in range(i - 1, first, -1):
                if (ev[j][0] == "M.pair_mean" and j not in taken
                        and O.same_bits(ev[j][2], ev[i][1])):
                    taken.add(j)
                    return ev[j][1]
            return None

        def candidate(pos, base, worst, coefficient, what):
            m = move(pos) if pos < len(moves) else None
            if not ctx.ok(m is not None, sig("expected:" + what), at=iteration,
                          **info):
                raise CaseAbort
            if base is not None:
                ctx.ok(O.same_bits(m[0], base), sig("same-centroid"), **info)
            with O.paused(mon.rec):
                v = s.M.log(m[0], worst)
            ctx.leq(
                s.norm(m[0], m[1] - coefficient * v),
                1e-7 * (1e-9 + s.norm(m[0], v)) * max(1.0, s.cond(m[0])) + 1e-13,
                sig("move:" + what), at=iteration, **info)
            ctx.hit("move:" + what)
            return m[0], ev[moves[pos]][1], ev[moves[pos]][2]

        while pos < len(moves):
            iteration += 1
            simplex.sort(key=lambda t: t[0])
            costs = [t[0] for t in simplex]
            if any(saturated(s, t[1]) for t in simplex):
                ctx.hit("skipped:numerical-boundary")
                return
            # equal costs leave the order of vertices open: the worst one is
            # the one that was reflected
            tied = [i for i, c in enumerate(costs) if c == costs[-1]]
            if len(tied) > 1:
                ctx.hit("tied-costs")
                m = move(pos)
                if m is not None:
                    with O.paused(mon.rec):
                        off = [s.norm(m[0], m[1] + kw["reflection"]
                                      * s.M.log(m[0], simplex[i][1]))
                               for i in tied]
                    i = tied[int(np.argmin(off))]
                    simplex.append(simplex.pop(i))
            best, worst = simplex[0], simplex[-1]
            second = costs[-2]
            base, xr, fr = candidate(
                pos, None, worst[1], -kw["reflection"], "reflection")
            pos += 1
            self.centroid(ctx, s, mon, base, [t[1] for t in simplex[:-1]],
                          info)
            ctx.nontrivial(s.name, [t[1] for t in simplex])
            new = None
            if fr < best[0]:
                _, xe, fe = candidate(
                    pos, base, worst[1], -kw["expansion"], "expansion")
                pos += 1
                new = [fe, xe] if fe < fr else [fr, xr]
            elif fr < second:
                new = [fr, xr]
            elif fr < worst[0]:
                _, xc, fc = candidate(
                    pos, base, worst[1], -kw["contraction"],
                    "outside-contraction")
                pos += 1
                if fc <= fr:
                    new = [fc, xc]
            else:
                _, xc, fc = candidate(
                    pos, base, worst[1], kw["contraction"],
                    "inside-contraction")
                pos += 1
                if fc <= worst[0]:
                    new = [fc, xc]
            if new is not None:
                simplex[-1] = new
                continue
            # shrink every vertex but the best towards the best
            ctx.hit("move:shrink")
            firsts = [i for i, c in enumerate(costs) if c == costs[0]]
            if len(firsts) > 1:
                seen = set()
                used = [mean_of(q, pos, seen)
                        for q in range(pos, min(pos + dim, len(moves)))]
                used = [{digest_of(p) for p in a} for a in used if a]
                fit = [i for i in firsts
                       if all(digest_of(simplex[i][1]) in u for u in used)]
                if fit:
                    simplex.insert(0, simplex.pop(fit[0]))
                best = simplex[0]
            left = [digest_of(t[1]) for t in simplex[1:]]
            out, start, taken = [best], pos, set()
            for _ in range(dim):
                a = (mean_of(pos, start, taken) if pos < len(moves)
                     else None)
                if not ctx.ok(a is not None, sig("expected:shrink"),
                              at=iteration, **info):
                    return
                keys = [digest_of(p) for p in a]
                other = keys[1] if keys[0] == digest_of(best[1]) else keys[0]
                if not ctx.ok(digest_of(best[1]) in keys and other in left,
                              sig("shrinks-towards-best"), **info):
                    return
                left.remove(other)
                out.append([ev[moves[pos]][2], ev[moves[pos]][1]])
                pos += 1
            simplex = out
        simplex.sort(key=lambda t: t[0])
        ctx.ok(res.cost == simplex[0][0]
               and any(O.same_bits(res.point, t[1]) for t in simplex
                       if t[0] == res.cost),
               sig("returns-best-vertex"), **info)
        ctx.ok(iteration <= res.iterations <= iteration + 1,
               sig("iterations-match-moves"), moves=iteration,
               got=res.iterations, **info)
        ctx.sample(space=s.name, iterations=iteration, evaluations=len(idx))

    def centroid(self, ctx, s, mon, base, points, info):
        """The centroid is a (near) stationary point of the sum of squared
        distances: checked where the points are close together."""
        with O.paused(mon.rec):
            logs = [s.M.log(base, p) for p in points]
        total = logs[0]
        for v in logs[1:]:
            total = total + v
        spread = max(s.norm(base, v) for v in logs)
        if spread == 0:
            return
        r = s.norm(base, total) / len(logs)
        ctx.hit("centroids")
        if 1e-3 < spread < 0.8:
            self.ratios.append(r / spread)


# ---------------------------------------------------------------------------
class O11(OBase):
    """Particle swarm: replay of the velocity and position updates."""

    QUICK, THOROUGH = 3, 60
    opts = ("PSO",)
    RULE = (
        "distinct = digest of (position, velocity) of particle updates that "
        "were decomposed into inertia, nostalgia and social parts"
    )

    REQUIRED = ["oracle:velocity-update", "coefficient-samples", "oracle:returns-global-best"]

    def one(self, ctx, opt, s, rng):
        kw = O.configure(opt, rng)
        kw["max_cost_evaluations"] = 10**6
        # the inertia schedule of long runs (small swarms may diverge to the
        # numerical boundary of noncompact manifolds)
        if rng.random() < 0.1 and not S.kinds(s.name) & {
                "spd", "sspd", "hpd", "shpd", "positive", "ball", "psd"}:
            kw["max_iterations"] = int(rng.choice([70, 150]))
            kw["population_size"] = 3
        mon, kw, run_kw = make(ctx, opt, s, rng, kw=kw)
        _, res = execute(ctx, opt, mon, kw, run_kw)
        self.replay(ctx, s, mon, kw, run_kw, res)

    def replay(self, ctx, s, mon, kw, run_kw, res):
        from scipy.optimize import lsq_linear

        ev = mon.rec.events
        sig = lambda w: sg("PSO", w)
        info = dict(space=s.name, kw=kw)
        n = (len(run_kw["initial_point"]) if "initial_point" in run_kw
             else kw["population_size"])
        cost_idx = [i for i, e in enumerate(ev) if e[0] == "cost"]
        if not ctx.ok(len(cost_idx) >= n and len(cost_idx) % n == 0,
                      sig("whole-rounds"), evaluations=len(cost_idx), **info):
            return
        x = [ev[i][1] for i in cost_idx[:n]]
        f = [ev[i][2] for i in cost_idx[:n]]
        if "initial_point" in run_kw:
            ctx.ok(all(O.same_bits(a, b)
                       for a, b in zip(x, run_kw["initial_point"])),
                   sig("uses-initial-population"), **info)
        v0 = [e for e in ev if e[0] == "M.random_tangent_vector"]
        v = [e[2] for e in v0] if len(v0) == n else None
        if v is not None and not all(
                O.same_bits(e[1][0], p) for e, p in zip(v0, x)):
            v = None
        xprev = list(x)
        y, fy = list(x), list(f)
        k = int(np.argmin(f))
        xb, fb = x[k], f[k]
        T = kw["max_iterations"]
        drawn = []
        rounds = len(cost_idx) // n - 1
        for it in range(1, rounds + 1):
            w = 0.4 + 0.5 * (1 - it / T)
            ci = cost_idx[it * n:(it + 1) * n]
            newv, newx, newf = [], [], []
            taken = set()
            for j, i in enumerate(ci):
                # in whatever order moves and costs are interleaved
                r = None
                for q in range(i - 1, cost_idx[it * n - 1], -1):
                    if (ev[q][0] == "M.retraction" and q not in taken
                            and O.same_bits(ev[q][2], ev[i][1])
                            and O.same_bits(ev[q][1][0], x[j])):
                        r = ev[q]
                        taken.add(q)
                        break
                if not ctx.ok(
                        r is not None,
                        sig("particle-moves-from-its-position"), round=it,
                        particle=j, **info):
                    return
                newv.append(r[1][1])
                newx.append(ev[i][1])
                newf.append(ev[i][2])
            for j in range(n):
                if v is None:
                    break
                if saturated(s, x[j]) or saturated(s, newx[j]) or saturated(
                        s, xb) or saturated(s, y[j]):
                    ctx.hit("skipped:numerical-boundary")
                    return
                with O.paused(mon.rec):
                    inertia = w * s.M.transport(xprev[j], x[j], v[j])
                    ly = s.M.log(x[j], y[j])
                    lb = s.M.log(x[j], xb)
                rest = newv[j] - inertia
                ny, nb = s.norm(x[j], ly), s.norm(x[j], lb)
                size = (s.norm(x[j], inertia) + kw["nostalgia"] * ny
                        + kw["social"] * nb)
                # cut locus: the logarithm is not unique
                A = np.stack([self.vec(s, x[j], ly), self.vec(s, x[j], lb)], 1)
                b = self.vec(s, x[j], rest)
                hi = [max(kw["nostalgia"], 1e-12), max(kw["social"], 1e-12)]
                unit = np.linalg.norm(A) + np.linalg.norm(b) + 1e-300
                sol = lsq_linear(A / unit, b / unit, bounds=([0, 0], hi),
                                 method="bvls", tol=1e-14)
                resid = np.linalg.norm(A @ sol.x - b)
                ctx.leq(resid, 1e-6 * size * np.sqrt(s.cond(x[j])) + 1e-12,
                        sig("velocity-update"), round=it, particle=j,
                        coefficients=sol.x, **info)
                ctx.hit("velocities")
                cosine = abs(A[:, 0] @ A[:, 1]) / (
                    1e-300 + np.linalg.norm(A[:, 0]) * np.linalg.norm(A[:, 1]))
                if ny > 1e-6 and nb > 1e-6 and cosine < 0.9 and (
                        kw["nostalgia"] and kw["social"]):
                    drawn.append((sol.x[0] / kw["nostalgia"],
                                  sol.x[1] / kw["social"]))
                ctx.nontrivial(s.name, x[j], newv[j])
            xprev, x, v, f = x, newx, newv, newf
            for j in range(n):
                if f[j] < fy[j]:
                    fy[j], y[j] = f[j], x[j]
                    if f[j] < fb:
                        fb, xb = f[j], x[j]
        ctx.ok(res.cost == fb, sig("returns-global-best"), **info)
        if len(drawn) >= 20:
            d = np.array(drawn)
            ctx.hit("coefficient-samples", len(d))
            # independent uniform draws: not constant and not identical
            ctx.ok(np.std(d[:, 0]) > 0.05 and np.std(d[:, 1]) > 0.05,
                   sig("coefficients-vary"), **info)
            ctx.ok(np.std(d[:, 0] - d[:, 1]) > 0.05,
                   sig("coefficients-independent"), **info)
        ctx.sample(space=s.name, rounds=rounds, particles=n)

    def vec(self, s, p, v):
        if not hasattr(self, "_b") or self._b[0] is not p:
            self._b = (p, s.basis(p))
        return np.array([s.inner(p, e, v) for e in self._b[1]])


# ---------------------------------------------------------------------------
def herm(A):
    return (A + np.conj(np.swapaxes(A, -1, -2))) / 2


def spectrum(rng, n, p=1, cplx=False):
    """Symmetric matrix with a clear gap after its p largest eigenvalues."""
    X = rng.standard_normal((n, n))
    if cplx:
        X = X + 1j * rng.standard_normal((n, n))
    q, _ = np.linalg.qr(X)
    lam = np.concatenate([rng.uniform(3, 5, p), rng.uniform(0, 2, n - p)])
    return (q * lam) @ np.conj(q.T), np.sort(lam)[::-1]


def well_conditioned(rng, n, cplx=False):
    X = rng.standard_normal((n, n))
    if cplx:
        X = X + 1j * rng.standard_normal((n, n))
    q, _ = np.linalg.qr(X)
    return (q * rng.uniform(0.7, 2.5, n)) @ np.conj(q.T)


def closed_form(name, rng):
    """(manifold, f, egrad, ehess, optimal value, scale, flat?)."""
    import pymanopt.manifolds as PM

    if name in ("eig-sphere", "eig-sphere-small"):
        n = 3 if name.endswith("small") else int(rng.integers(3, 8))
        A, lam = spectrum(rng, n)
        return (PM.Sphere(n), lambda x: -x @ A @ x, lambda x: -2 * A @ x,
                lambda x, v: -2 * A @ v, -lam[0], lam[0])
    if name in ("pca-grassmann", "pca-stiefel"):
        n, p = int(rng.integers(4, 7)), int(rng.integers(1, 4))
        A, lam = spectrum(rng, n, p)
        M = (PM.Grassmann if "grass" in name else PM.Stiefel)(n, p)
        return (M, lambda X: -np.trace(X.T @ A @ X) / 2, lambda X: -A @ X,
                lambda X, V: -A @ V, -np.sum(lam[:p]) / 2, np.sum(lam[:p]))
    if name == "pca-complex-grassmann":
        n, p = 5, 2
        A, lam = spectrum(rng, n, p, True)
        return (PM.ComplexGrassmann(n, p),
                lambda X: -np.real(np.trace(np.conj(X.T) @ A @ X)) / 2,
                lambda X: -A @ X, lambda X, V: -A @ V,
                -np.sum(lam[:p]) / 2, np.sum(lam[:p]))
    if name == "procrustes-unitary":
        n = int(rng.integers(2, 4))
        Z = rng.standard_normal((n, n)) + 1j * rng.standard_normal((n, n))
        B = herm(Z @ np.conj(Z.T)) / n + np.eye(n)
        Q, _ = np.linalg.qr(rng.standard_normal((n, n))
                            + 1j * rng.standard_normal((n, n)))
        C = Q @ B  # maximiser of Re tr(X^H C) is the polar factor Q
        return (PM.UnitaryGroup(n),
                lambda X: -np.real(np.trace(np.conj(X.T) @ C)),
                lambda X: -C, lambda X, V: 0 * V, -np.real(np.trace(B)),
                np.real(np.trace(B)))
    if name == "procrustes-so":
        n = int(rng.integers(2, 5))
        Z = rng.standard_normal((n, n))
        B = Z @ Z.T / n + np.eye(n)
        Q, _ = np.linalg.qr(rng.standard_normal((n, n)))
        if np.linalg.det(Q) < 0:
            Q[:, 0] *= -1
        C = Q @ B
        return (PM.SpecialOrthogonalGroup(n),
                lambda X: -np.trace(X.T @ C), lambda X: -C,
                lambda X, V: 0 * V, -np.trace(B), np.trace(B))
    if name in ("covariance-spd", "covariance-hpd"):
        cplx = name.endswith("hpd")
        n = int(rng.integers(1, 4))
        C = well_conditioned(rng, n, cplx)
        M = (PM.HermitianPositiveDefinite if cplx
             else PM.SymmetricPositiveDefinite)(n)
        inv = np.linalg.inv

        def f(X):
            return np.real(np.trace(inv(X) @ C)) + np.linalg.slogdet(X)[1]

        def g(X):
            I = inv(X)
            return I - I @ C @ I

        def h(X, V):
            I = inv(X)
            W = I @ V @ I
            return -W + W @ C @ I + I @ C @ W

        return (M, f, g, h, n + np.linalg.slogdet(C)[1], n)
    if name == "least-squares":
        n = int(rng.integers(1, 6))
        A = well_conditioned(rng, n)
        b = rng.standard_normal(n)
        H = A.T @ A
        return (PM.Euclidean(n), lambda x: np.sum((A @ x - b) ** 2) / 2,
                lambda x: A.T @ (A @ x - b), lambda x, v: H @ v, 0.0,
                1 + b @ b)
    if name in ("nearest-symmetric", "nearest-skew"):
        n = 3
        A = rng.standard_normal((n, n))
        sgn = 1 if "sym" in name else -1
        rest = (A - sgn * A.T) / 2
        M = PM.Symmetric(n) if sgn == 1 else PM.SkewSymmetric(n)
        return (M, lambda X: np.sum((X - A) ** 2) / 2, lambda X: X - A,
                lambda X, V: V, np.sum(rest**2) / 2, np.sum(A**2))
    if name == "low-rank":
        m, n, k = 5, 4, int(rng.integers(1, 4))
        U, _ = np.linalg.qr(rng.standard_normal((m, n)))
        V, _ = np.linalg.qr(rng.standard_normal((n, n)))
        sv = np.concatenate([rng.uniform(3, 5, k), rng.uniform(0, 1, n - k)])
        A = (U * sv) @ V.T
        M = PM.FixedRankEmbedded(m, n, k)

        def f(u, s, vt):
            return np.sum(((u * s) @ vt - A) ** 2) / 2

        def g(u, s, vt):
            R = (u * s) @ vt - A
            return (R @ vt.T * s, np.diag(u.T @ R @ vt.T).copy(),
                    (u * s).T @ R)

        return (M, f, g, None, np.sum(sv[k:] ** 2) / 2, np.sum(sv**2))
    if name == "psd-approximation":
        n, k = 5, int(rng.integers(1, 4))
        A, lam = spectrum(rng, n, k)
        return (PM.PSDFixedRank(n, k),
                lambda Y: np.sum((Y @ Y.T - A) ** 2) / 4,
                lambda Y: (Y @ Y.T - A) @ Y,
                lambda Y, V: (V @ Y.T + Y @ V.T) @ Y + (Y @ Y.T - A) @ V,
                np.sum(lam[k:] ** 2) / 4, np.sum(lam**2))
    if name == "positive":
        m, n = int(rng.integers(1, 3)), int(rng.integers(1, 3))
        a = rng.uniform(0.5, 2.0, (m, n))
        return (PM.Positive(m, n), lambda x: np.sum(x + a**2 / x),
                lambda x: 1 - a**2 / x**2, lambda x, v: 2 * a**2 / x**3 * v,
                2 * np.sum(a), np.sum(a))
    if name == "phases":
        n = int(rng.integers(1, 6))
        z = np.exp(2j * np.pi * rng.random(n))
        C = np.outer(z, np.conj(z))
        return (PM.ComplexCircle(n),
                lambda x: -np.real(np.conj(x) @ C @ x),
                lambda x: -2 * C @ x, lambda x, v: -2 * C @ v, -float(n**2),
                n**2)
    if name == "ball":
        n = int(rng.integers(1, 4))
        a = rng.standard_normal(n)
        a *= rng.uniform(0.1, 0.7) / np.linalg.norm(a)
        na = 1 - a @ a

        # squared chordal distance of the hyperboloid, minimal at a
        def f(x):
            return np.sum((x - a) ** 2) / ((1 - x @ x) * na)

        def g(x):
            m = 1 - x @ x
            return (2 * (x - a) / m + 2 * np.sum((x - a) ** 2) * x / m**2) / na

        def h(x, v):
            m, dm, r = 1 - x @ x, -2 * x @ v, x - a
            q, dq = r @ r, 2 * r @ v
            return (2 * v / m - 2 * r * dm / m**2 + 2 * dq * x / m**2
                    + 2 * q * v / m**2 - 4 * q * x * dm / m**3) / na

        return (PM.PoincareBall(n), f, g, h, 0.0, 1.0)
    if name == "oblique":
        m, n = 3, int(rng.integers(1, 4))
        A = rng.standard_normal((m, n))
        A *= rng.uniform(1, 2, n) / np.linalg.norm(A, axis=0)
        return (PM.Oblique(m, n), lambda X: np.sum((X - A) ** 2) / 2,
                lambda X: X - A, lambda X, V: V,
                np.sum((np.linalg.norm(A, axis=0) - 1) ** 2) / 2,
                np.sum(A**2))
    if name == "svd-product":
        m, n = 3, 3
        U, _ = np.linalg.qr(rng.standard_normal((m, m)))
        V, _ = np.linalg.qr(rng.standard_normal((n, n)))
        sv = np.array([rng.uniform(3, 4), rng.uniform(0, 1.5),
                       rng.uniform(0, 1)])
        A = (U * sv) @ V.T
        return (PM.Product([PM.Sphere(m), PM.Sphere(n)]),
                lambda u, v: -u @ A @ v, lambda u, v: (-A @ v, -A.T @ u),
                lambda u, v, du, dv: (-A @ dv, -A.T @ du), -sv[0], sv[0])
    if name == "mixed-product":
        b = rng.standard_normal(2)
        A, lam = spectrum(rng, 3)
        return (PM.Product([PM.Sphere(3), PM.Euclidean(2)]),
                lambda x, y: -x @ A @ x + np.sum((y - b) ** 2),
                lambda x, y: (-2 * A @ x, 2 * (y - b)),
                lambda x, y, dx, dy: (-2 * A @ dx, 2 * dy), -lam[0],
                lam[0] + b @ b)
    raise KeyError(name)


PROBLEMS = [
    "eig-sphere", "pca-grassmann", "pca-stiefel", "pca-complex-grassmann",
    "procrustes-unitary", "procrustes-so", "covariance-spd", "covariance-hpd",
    "least-squares", "nearest-symmetric", "nearest-skew", "low-rank",
    "psd-approximation", "positive", "phases", "ball", "oblique",
    "svd-product", "mixed-product",
]
DERIVATIVE_FREE = ["eig-sphere-small", "least-squares", "oblique", "phases",
                   "mixed-product", "svd-product"]


class O12(OBase):
    """Convergence to the known optimum on problems with a closed form."""

    QUICK, THOROUGH = 10, 150
    RULE = (
        "distinct = digest of (problem instance, optimizer, start) of a run "
        "whose final cost was compared with the closed-form optimum"
    )

    def keys(self, tier):
        n = self.QUICK if tier == "quick" else self.THOROUGH
        out = []
        for r in range(n):
            for opt in OPTS:
                for name in (DERIVATIVE_FREE if opt in ("NM", "PSO")
                             else PROBLEMS):
                    if opt == "CG" and name == "ball":
                        continue
                    if opt == "TR" and name == "low-rank":
                        continue
                    if opt in ("NM", "PSO") and r % 2:
                        continue
                    out.append((opt, name, r))
        return out

    @staticmethod
    def times(c, v):
        if isinstance(v, (list, tuple)):
            return type(v)(*[O12.times(c, a) for a in v]) if hasattr(
                v, "_fields") else [O12.times(c, a) for a in v]
        return c * v

    def run(self, ctx, key):
        import pymanopt

        opt, name, _ = key
        rng = ctx.rng
        M, f, g, h, best, scale = closed_form(name, rng)
        if opt in ("NM", "PSO") and M.dim > 6:
            M, f, g, h, best, scale = closed_form("eig-sphere-small", rng)
        w = pymanopt.function.numpy(M)
        # the unit the cost is measured in must not matter
        unit = float(rng.choice([1.0, 1.0, 1e-3, 1e-2, 1e2, 1e3]))
        best, scale = best * unit, scale * unit
        problem = pymanopt.Problem(
            M, w(lambda *a: unit * f(*a)),
            euclidean_gradient=w(lambda *a: O12.times(unit, g(*a))),
            euclidean_hessian=None if h is None else w(
                lambda *a: O12.times(unit, h(*a))))
        ctx.hit(f"unit:{unit:g}")
        kw = dict(verbosity=0, max_iterations=1500,
                  min_gradient_norm=1e-6 * unit)
        tol, gtol = 1e-9, 1e-6
        if opt == "CG":
            kw["beta_rule"] = O.BETAS[int(rng.integers(5))]
        if opt == "SD":
            kw["max_iterations"] = 4000
            tol = 1e-6
        if opt in ("NM", "PSO"):
            kw["max_iterations"] = 150 if opt == "NM" else 80
            kw["max_cost_evaluations"] = 4000
            tol = 0.05
        if opt == "PSO":
            kw["population_size"] = 20
        optimizer = O.OPTIMIZERS[opt](**kw)
        if kw.get("beta_rule") == "FletcherReeves":
            tol = 1e-5  # known to creep
        # heuristics may stall from an unlucky start (rejected line search,
        # collapsed simplex): not from three independent ones
        for attempt in range(1 if opt in ("SD", "TR") else 3):
            start = M.random_point() if opt in ("SD", "CG", "TR") else None
            res = ctx.call(sg(opt, "converges"), optimizer.run, problem,
                           initial_point=start)
            if res.cost - best <= tol * scale:
                break
            ctx.hit("stalled:" + opt)
        d = dict(problem=name, optimum=best, cost=res.cost, scale=scale,
                 unit=unit, reason=res.stopping_criterion, rule=kw.get("beta_rule"))
        ctx.leq(best - res.cost, 1e-9 * scale, sg(opt, "not-below-optimum"),
                **d)
        ctx.leq(res.cost - best, tol * scale, sg(opt, "reaches-optimum"), **d)
        ctx.hit("problem:" + name)
        ctx.nontrivial(name, opt, best, res.point)
        ctx.sample(optimizer=opt, **d)


CHECKS = {}
for _c in (O01, O02, O03, O04, O05, O06, O07, O08, O09, O10, O11, O12):
    CHECKS[_c.__name__] = _c()
