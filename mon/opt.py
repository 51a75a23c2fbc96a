"""Monitored optimizer runs: recorders, hostile costs, fake clock."""

import copy
import inspect
import itertools
import sys
import time as _time

import numpy as np

import pymanopt
from pymanopt.optimizers.optimizer import OptimizerResult
import spaces as S
from core import StepBudget, digest_of, leaves

from pymanopt.optimizers import (
    ConjugateGradient, NelderMead, ParticleSwarm, SteepestDescent,
    TrustRegions,
)
from pymanopt.optimizers.line_search import (
    AdaptiveLineSearcher, BackTrackingLineSearcher,
)

OPTIMIZERS = {
    "SD": SteepestDescent, "CG": ConjugateGradient, "TR": TrustRegions,
    "NM": NelderMead, "PSO": ParticleSwarm,
}
BETAS = ["FletcherReeves", "PolakRibiere", "HestenesStiefel", "HagerZhang",
         "LiuStorey"]


# -- structure helpers -------------------------------------------------------
def deep(v):
    """Deep copy of points / tangent vectors keeping their classes."""
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, tuple) and hasattr(v, "_fields"):
        return type(v)(*[deep(a) for a in v])
    if isinstance(v, (list, tuple)):
        return type(v)([deep(a) for a in v])
    if isinstance(v, (int, float, complex, str)) or v is None:
        return v
    return copy.deepcopy(v)


def factor_points(space, args):
    """Regroup the flat arguments a user function receives."""
    if isinstance(space, S.ProductSpace):
        out, i = [], 0
        for f in space.factors:
            if f.layout == 1:
                out.append(args[i])
            else:
                out.append(f.point_class(*args[i:i + f.layout]))
            i += f.layout
        assert i == len(args)
        return out
    if space.layout == 1:
        (p,) = args
        return p
    return space.point_class(*args)


def flatten(space, v):
    if isinstance(space, S.ProductSpace):
        out = []
        for f, a in zip(space.factors, v):
            out += [a] if f.layout == 1 else list(a)
        return out
    return v if space.layout == 1 else list(v)


def flat_vec(space, v):
    return list(leaves(v))


def same_bits(a, b):
    return digest_of(a) == digest_of(b)


# -- costs -------------------------------------------------------------------
class OptCost(S.Cost):
    """f(p) = h(z(p)); kinds give bounded-below, hostile landscapes."""

    KINDS = ("well", "stiff", "waves", "bumpy", "linearish")
    offset = 0.0

    def __init__(self, space, rng, kind="well", scale=1.0, target=None):
        self.space = space
        self.kind = kind
        self.scale = scale
        n = self.dimension()
        self.target = target
        if target is None:
            self.target = space.rand_point(rng, "generic")
        self.c = S.zvec(space, space.z(self.target))
        if kind == "stiff":
            d = 10.0 ** rng.uniform(-1.5, 1.5, n)
        else:
            d = rng.uniform(0.5, 2.0, n)
        self.d = d / n if kind != "waves" else 0 * d
        self.amp = {"well": 0.0, "stiff": 0.0, "waves": 1.0, "bumpy": 0.3,
                    "linearish": 0.0}[kind]
        self.b = rng.standard_normal((3, n)) / np.sqrt(n) * (
            3.0 if kind == "bumpy" else 1.0
        )
        self.lin = rng.standard_normal(n) / np.sqrt(n)
        self.calls = 0

    def _h(self, x):
        if self.kind == "linearish":
            q = self.lin @ x
            return np.sqrt(1 + q * q) + 1e-3 * (x - self.c) @ (x - self.c)
        r = x - self.c
        return 0.5 * np.sum(self.d * r * r) + self.amp * np.sum(
            np.sin(self.b @ x)
        )

    def _g(self, x):
        if self.kind == "linearish":
            q = self.lin @ x
            return self.scale * (
                q / np.sqrt(1 + q * q) * self.lin + 2e-3 * (x - self.c)
            )
        return self.scale * (
            self.d * (x - self.c)
            + self.amp * self.b.T @ np.cos(self.b @ x)
        )

    def _hv(self, x, dx):
        if self.kind == "linearish":
            q = self.lin @ x
            return self.scale * (
                (self.lin @ dx) / (1 + q * q) ** 1.5 * self.lin + 2e-3 * dx
            )
        return self.scale * (
            self.d * dx
            - self.amp * self.b.T @ (np.sin(self.b @ x) * (self.b @ dx))
        )

    def f(self, p):
        with np.errstate(all="ignore"):
            h = self._h(S.zvec(self.space, self.space.z(p)))
            return float(self.offset + self.scale * h)

    def ehess(self, p, w):
        s = self.space
        x = S.zvec(s, s.z(p))
        dx = S.zvec(s, s.dz(p, w))
        return s.pull_d(
            p, w, S.unzvec(s, self._g(x)), S.unzvec(s, self._hv(x, dx))
        )


class MisleadingCost(OptCost):
    """The user's derivatives are wrong: reversed or unrelated."""

    sign = -1.0
    noise = None
    wild = None  # an unsymmetric, nonlinear operator instead of the Hessian

    def _hv(self, x, dx):
        if self.wild is None:
            return super()._hv(x, dx)
        A, b = self.wild
        return self.scale * (A @ dx + np.linalg.norm(dx) * b)

    def egrad(self, p):
        s = self.space
        g = self._g(S.zvec(s, s.z(p)))
        if self.noise is not None:
            g = self.noise * self.scale
        return s.pull(p, S.unzvec(s, self.sign * g))


class ConstantCost(OptCost):
    """Every point is a critical point."""

    def _h(self, x):
        return 1.25

    def _g(self, x):
        return 0.0 * x

    def _hv(self, x, dx):
        return 0.0 * dx


# -- recorders ---------------------------------------------------------------
class Recorder:
    """Append-only event log of one run (arguments and results are copied)."""

    def __init__(self, budget=200000):
        self.events = []
        self.enabled = True
        self.depth = 0
        self.budget = budget
        self.listeners = []

    def add(self, kind, *payload):
        if not self.enabled:
            return
        if len(self.events) >= self.budget:
            raise StepBudget(f"more than {self.budget} events")
        self.events.append((kind,) + tuple(deep(p) for p in payload))

    def of(self, *kinds):
        return [e for e in self.events if e[0] in kinds]


class paused:
    def __init__(self, rec):
        self.rec = rec

    def __enter__(self):
        self.was, self.rec.enabled = self.rec.enabled, False

    def __exit__(self, *a):
        self.rec.enabled = self.was


MANIFOLD_OPS = (
    "retraction", "exp", "log", "transport", "pair_mean", "random_point",
    "random_tangent_vector", "inner_product", "norm", "zero_vector",
    "to_tangent_space",
)


# entered for nesting depth only
PASSIVE_OPS = set(MANIFOLD_OPS) | {
    "dist", "projection", "embedding", "weingarten",
    "euclidean_to_riemannian_gradient", "euclidean_to_riemannian_hessian",
}


def monitor_manifold(M, rec, ops=MANIFOLD_OPS):
    """Record outermost calls of the manifold's public operations."""
    for name in sorted(PASSIVE_OPS | set(ops)):
        if not hasattr(M, name):
            continue
        original = getattr(M, name)
        signature = inspect.signature(original)

        def wrapper(
            *args, _name=name, _original=original, _sig=signature, **kwargs
        ):
            if rec.depth or not rec.enabled:
                return _original(*args, **kwargs)
            args = _sig.bind(*args, **kwargs).args
            kwargs = {}
            rec.depth += 1
            try:
                before = (
                    tuple(deep(a) for a in args) if _name in ops else None
                )
                out = _original(*args, **kwargs)
            finally:
                rec.depth -= 1
            if _name in ops:
                rec.add("M." + _name, before, out)
            return out

        setattr(M, name, wrapper)
    return M


def unmonitor(M, ops=MANIFOLD_OPS):
    for name in PASSIVE_OPS | set(ops):
        M.__dict__.pop(name, None)


class Monitored:
    """A problem on ``space`` whose every callback is recorded."""

    def __init__(self, space, cost, *, precon=None, record_manifold=True,
                 supply=("egrad", "ehess"), budget=200000, cost_hook=None,
                 clock=None, tick=0.0):
        self.space, self.cost = space, cost
        self.cost_hook, self.precon = cost_hook, precon
        self.rec = rec = Recorder(budget)
        self.clock, self.tick = clock, tick
        M = space.M
        self.M = M
        if record_manifold:
            monitor_manifold(M, rec)
        unwrap = lambda args: factor_points(space, args)

        def pause(fn, *a):
            with paused(rec):
                return fn(*a)

        @pymanopt.function.numpy(M)
        def f(*args):
            p = unwrap(args)
            value = pause(cost.f, p)
            if cost_hook is not None:
                value = cost_hook(self, p, value)
            if clock is not None:
                clock.advance(tick)
            rec.add("cost", p, value)
            return value

        @pymanopt.function.numpy(M)
        def egrad(*args):
            p = unwrap(args)
            out = flatten(space, pause(cost.egrad, p))
            if clock is not None:
                clock.advance(tick)
            rec.add("grad", p, out)
            return out

        @pymanopt.function.numpy(M)
        def rgrad(*args):
            p = unwrap(args)
            out = pause(self.rgrad, p)
            if isinstance(space, S.ProductSpace):
                out = flatten(space, out)
            rec.add("grad", p, out)
            return out

        @pymanopt.function.numpy(M)
        def ehess(*args):
            n = len(args) // 2
            p, w = unwrap(args[:n]), unwrap(args[n:])
            out = flatten(space, pause(cost.ehess, p, w))
            if clock is not None:
                clock.advance(tick)
            rec.add("hess", p, w)
            return out

        @pymanopt.function.numpy(M)
        def rhess(*args):
            n = len(args) // 2
            p, v = unwrap(args[:n]), unwrap(args[n:])
            out = pause(self.rhess, p, v)
            if isinstance(space, S.ProductSpace):
                out = flatten(space, out)
            if clock is not None:
                clock.advance(tick)
            rec.add("hess", p, v)
            return out

        kw = {}
        if "rhess" in supply:
            kw["riemannian_hessian"] = rhess
        if "egrad" in supply:
            kw["euclidean_gradient"] = egrad
        if "rgrad" in supply:
            kw["riemannian_gradient"] = rgrad
        if "ehess" in supply:
            kw["euclidean_hessian"] = ehess
        if precon is not None:
            def preconditioner(p, v):
                with paused(rec):
                    out = precon(p, v)
                rec.add("precon", p, v, out)
                return out

            kw["preconditioner"] = preconditioner
        self.problem = pymanopt.Problem(M, f, **kw)

    # reference derivatives in the harness, not recorded
    def rgrad(self, p):
        with paused(self.rec):
            return self.M.euclidean_to_riemannian_gradient(
                p, self.cost.egrad(p)
            )

    def rhess(self, p, v):
        with paused(self.rec):
            w = self.M.embedding(p, v)
            return self.M.euclidean_to_riemannian_hessian(
                p, self.cost.egrad(p), self.cost.ehess(p, w), v
            )

    def value(self, p):
        """Cost the user function returns at ``p``."""
        with paused(self.rec):
            v = self.cost.f(p)
        return v if self.cost_hook is None else self.cost_hook(self, p, v)

    def rnorm(self, p, v):
        with paused(self.rec):
            return float(np.real(self.M.norm(p, v)))

    def inner(self, p, v, w):
        with paused(self.rec):
            return float(np.real(self.M.inner_product(p, v, w)))

    def gnorm(self, p):
        return self.rnorm(p, self.rgrad(p))

    def run(self, optimizer, **kw):
        try:
            return optimizer.run(self.problem, **kw)
        finally:
            unmonitor(self.M)


class Wall:
    """Infinite cost outside a neighbourhood (barrier functions)."""

    def __init__(self, space, center, radius):
        self.space, self.radius = space, radius
        self.c = S.zvec(space, space.z(center))

    def __call__(self, mon, p, value):
        with np.errstate(all="ignore"):
            r = np.linalg.norm(S.zvec(self.space, self.space.z(p)) - self.c)
        return value if r <= self.radius else np.inf


class Steps:
    """Plateaus: the cost is reported in multiples of a quantum."""

    def __init__(self, quantum):
        self.quantum = quantum

    def __call__(self, mon, p, value):
        if not np.isfinite(value):
            return value
        return float(np.floor(value / self.quantum) * self.quantum)


class Probe:
    """Line searcher wrapper: records every search, survives deepcopy."""

    def __init__(self, inner, rec, log=None):
        self.inner, self.rec = inner, rec
        self.log = [] if log is None else log

    def __deepcopy__(self, memo):
        return Probe(copy.deepcopy(self.inner, memo), self.rec, self.log)

    def search(self, objective, manifold, x, d, f0, df0):
        start = len(self.rec.events)
        x0, d0 = deep(x), deep(d)
        self.rec.add("search", x, d, float(f0), float(df0))
        out = self.inner.search(objective, manifold, x, d, f0, df0)
        self.log.append(
            dict(
                x=x0, d=d0, f0=float(f0), df0=float(df0),
                step=float(out[0]), newx=deep(out[1]), start=start,
                end=len(self.rec.events),
                mutated=not (same_bits(x, x0) and same_bits(d, d0)),
            )
        )
        return out


class FakeClock:
    """Virtual time: every source of time the library could use."""

    NAMES = ("time", "monotonic", "perf_counter", "process_time")

    def __init__(self, start=1.0e6, per_read=0.0):
        self.now, self.per_read = start, per_read
        self.reads = 0

    def advance(self, dt):
        self.now += dt

    def __enter__(self):
        self.saved = []

        def read():
            self.reads += 1
            self.now += self.per_read
            return self.now

        def read_ns():
            return int(read() * 1e9)

        originals = {}
        for n in self.NAMES:
            originals[n] = getattr(_time, n)
            originals[n + "_ns"] = getattr(_time, n + "_ns")
        by_id = {}
        for n, o in originals.items():
            by_id[id(o)] = read_ns if n.endswith("_ns") else read
        for mod in [_time] + [
            m for k, m in list(sys.modules.items())
            if k.startswith("pymanopt") and m is not None
        ]:
            for attr, val in list(vars(mod).items()):
                if id(val) in by_id and callable(val):
                    self.saved.append((mod, attr, val))
                    setattr(mod, attr, by_id[id(val)])
        return self

    def __exit__(self, *a):
        for mod, attr, val in self.saved:
            setattr(mod, attr, val)


# -- workload generators -----------------------------------------------------
def no_transport(name):
    return "ball" in S.kinds(name)


def spaces_for(opt):
    out = []
    for name in S.NAMES:
        if opt in ("CG", "PSO") and no_transport(name):
            continue
        if opt == "TR" and not S.get(name).has_hess:
            continue
        if opt == "NM" and not S.get(name).has_pair_mean:
            continue
        if opt in ("NM", "PSO") and any(
            t in S.kinds(name) for t in ("stiefel", "elliptope", "fixedrank")
        ):
            continue
        out.append(name)
    return out


def line_searcher(rng, kind=None):
    kind = kind or ["default", "back", "adapt"][int(rng.integers(3))]
    if kind == "back":
        return BackTrackingLineSearcher(
            contraction_factor=float(rng.choice([0.3, 0.5, 0.7])),
            optimism=float(rng.choice([1.1, 2, 4])),
            sufficient_decrease=float(rng.choice([1e-4, 0.1, 0.3])),
            max_iterations=int(rng.choice([3, 10, 25])),
            initial_step_size=float(rng.choice([0.1, 1, 5])),
        )
    if kind == "adapt":
        return AdaptiveLineSearcher(
            contraction_factor=float(rng.choice([0.3, 0.5, 0.7])),
            sufficient_decrease=float(rng.choice([1e-4, 0.1, 0.5])),
            max_iterations=int(rng.choice([3, 10, 25])),
            initial_step_size=float(rng.choice([0.1, 1, 5])),
        )
    return None


def make_precon(space, rng, kind):
    """Symmetric positive definite operators on tangent spaces."""
    M = space.M
    if kind == "scalar":
        c = float(rng.uniform(0.2, 4.0))
        return lambda p, v: c * v
    if kind == "scaled":  # units of the preconditioner are the user's choice
        c = float(10 ** rng.uniform(-5, 7))
        return lambda p, v: c * v
    if kind == "rank-one":
        A = space.ambient(rng, space.rand_point(rng, "generic"))
        a = float(rng.uniform(0.5, 3.0))

        def precon(p, v):
            w = space.project(p, A)
            n = space.inner(p, w, w)
            return v + (a * space.inner(p, w, v) / (1 + n)) * w

        return precon
    return None


def configure(opt, rng, **over):
    """Random but valid optimizer parameters."""
    kw = dict(
        verbosity=0,
        log_verbosity=int(rng.integers(2)),
        max_iterations=int(rng.choice([1, 2, 5, 12, 30])),
        min_gradient_norm=float(rng.choice([1e-6, 1e-9, 1e-2])),
        min_step_size=float(rng.choice([1e-10, 1e-14])),
    )
    if opt in ("SD", "CG"):
        kw["line_searcher"] = line_searcher(rng)
    if opt == "CG":
        kw["beta_rule"] = BETAS[int(rng.integers(len(BETAS)))]
        kw["orth_value"] = float(rng.choice([np.inf, 10.0, 0.5, 0.1]))
    if opt == "TR":
        kw["use_rand"] = bool(rng.random() < 0.3)
        kw["rho_prime"] = float(rng.choice([0.0, 0.1, 0.2]))
        kw["kappa"] = float(rng.choice([0.1, 0.01, 0.5]))
        kw["theta"] = float(rng.choice([1.0, 0.5]))
    if opt == "NM":
        kw["reflection"] = float(rng.choice([1.0, 0.8, 1.3]))
        kw["expansion"] = float(rng.choice([2.0, 2.5]))
        kw["contraction"] = float(rng.choice([0.5, 0.3]))
        kw["max_cost_evaluations"] = int(rng.choice([40, 200]))
        kw["max_iterations"] = int(rng.choice([2, 8, 25]))
    if opt == "PSO":
        kw["population_size"] = int(rng.choice([3, 6, 10]))
        kw["nostalgia"] = float(rng.choice([1.4, 0.7, 0.0]))
        kw["social"] = float(rng.choice([1.4, 0.7, 0.0]))
        kw["max_cost_evaluations"] = int(rng.choice([60, 300]))
        kw["max_iterations"] = int(rng.choice([2, 6, 15]))
    kw.update(over)
    return kw


def run_options(opt, rng):
    kw = {}
    if opt == "TR":
        if rng.random() < 0.5:
            kw["Delta_bar"] = float(rng.choice([0.05, 0.5, 3.0]))
        if rng.random() < 0.3:
            kw["Delta0"] = kw.get("Delta_bar", 0.5) * 0.5
        if rng.random() < 0.4:
            kw["maxinner"] = int(rng.choice([1, 2, 5]))
        if rng.random() < 0.3:
            kw["mininner"] = int(rng.choice([0, 1, 3]))
    return kw


def initial(opt, space, rng, kw, style="generic", spread=0.5):
    """Start point / simplex / swarm drawn by the harness."""
    if opt in ("SD", "CG", "TR"):
        return space.rand_point(rng, style)
    n = {"NM": int(space.M.dim) + 1, "PSO": kw.get("population_size")}[opt]
    center = space.rand_point(rng, style)
    B = space.basis(center)
    spread = min(spread, 0.4 * space.inj(center))
    return [
        space.exp(
            center,
            space.random_scaled(rng, center, spread * rng.uniform(0.3, 1), B=B),
        )
        for _ in range(n)
    ]
