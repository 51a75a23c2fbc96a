"""Core of the runtime monitor: recorder, verdicts, known findings, evidence.

A *check* is a list of case keys plus a function ``run(ctx, key)``.  Running a
case drives the real library code (imported from a scratch copy of /repo/src)
and lets oracles observe what it did.  Verdicts are three valued:

* violated      exit 1 and ``VIOLATION property=<id> replay=<path>``
* held          exit 0 (on what was observed; the counters are in the evidence)
* inconclusive  exit 2 (a required monitor was never reached, watchdog, ...)
"""

import fnmatch
import hashlib
import json
import multiprocessing
import os
import pickle
import random
import re
import signal
import subprocess
import sys
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class CaseAbort(Exception):
    """A library call failed in a way already recorded; skip the rest."""


class StepBudget(Exception):
    """Raised from monitored user callbacks when a logical bound is passed."""


class CaseTimeout(Exception):
    pass


def stable_seed(*parts):
    digest = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(digest[:4], "little")


def describe(value, limit=12):
    """Short, JSON-able description of an argument for witnesses."""
    if isinstance(value, np.ndarray):
        flat = value.ravel()
        head = [str(v) for v in flat[:limit]]
        return {
            "shape": list(value.shape),
            "dtype": str(value.dtype),
            "head": head,
        }
    if isinstance(value, (list, tuple)):
        return [describe(v, limit) for v in value[:8]]
    if isinstance(value, dict):
        return {str(k): describe(v, limit) for k, v in value.items()}
    if isinstance(value, (int, float, str, bool)) or value is None:
        return value
    return repr(value)[:200]


def digest_of(value, h=None):
    top = h is None
    if top:
        h = hashlib.sha1()
    if isinstance(value, np.ndarray) or np.isscalar(value):
        a = np.asarray(value)
        h.update(str(a.shape).encode())
        h.update(str(a.dtype).encode())
        h.update(np.ascontiguousarray(a).tobytes())
    elif isinstance(value, (list, tuple)):
        h.update(b"[%d" % len(value))
        for v in value:
            digest_of(v, h)
    else:
        h.update(repr(value).encode())
    return h.hexdigest() if top else None


def load_known():
    """Known findings: lines ``known: property=ID key=<glob> -- text``."""
    known = []
    if not os.path.exists(KNOWN):
        return known
    with open(KNOWN) as f:
        for line in f:
            m = re.match(
                r"known:\s+property=(\S+)\s+key=(\S+)\s+--\s+(.*)", line
            )
            if m:
                known.append(m.groups())
    return known


def oracle_name(sig):
    """Counter name of a signature: the mechanism without its specifics."""
    return re.sub(r":[^:]*!=.*$", "", sig.split("|")[-1])


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.reset()

    def reset(self):
        self.counts = {}
        self.violations = []
        self.evaluations = 0
        self.digests = set()
        self.samples = []
        self.key = None
        self.worst = {}

    # -- case handling -----------------------------------------------------
    def begin(self, key):
        self.key = key
        s = stable_seed(self.seed, self.prop, key)
        np.random.seed(s)
        self.rng = np.random.default_rng(s)
        return self.rng

    def hit(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def nontrivial(self, *inputs):
        self.digests.add(digest_of(inputs)[:16])

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append(
                {"case": list(self.key) if self.key else None, **describe(kw)}
            )

    # -- verdicts ----------------------------------------------------------
    def violate(self, sig, **detail):
        """``sig``: stable mechanism signature, no random values."""
        if sum(1 for v in self.violations if v["sig"] == sig) >= 3:
            return
        self.violations.append(
            {
                "property": self.prop,
                "sig": sig.replace(" ", "_"),
                "case": list(self.key) if self.key is not None else None,
                "seed": self.seed,
                "tier": self.tier,
                "detail": describe(detail),
            }
        )

    def ok(self, cond, sig, **detail):
        self.evaluations += 1
        self.hit("oracle:" + oracle_name(sig))
        if not bool(cond):
            self.violate(sig, **detail)
            return False
        return True

    def leq(self, value, tol, sig, **detail):
        """Oracle ``value <= tol``; NaN counts as a violation."""
        self.evaluations += 1
        name = oracle_name(sig)
        self.hit("oracle:" + name)
        value = float(value)
        if value == value and tol > 0:
            self.worst[name] = max(self.worst.get(name, 0.0), value / tol)
        if not (value <= tol):
            self.violate(sig, residual=value, tolerance=tol, **detail)
            return False
        return True

    def close(self, a, b, tol, sig, **detail):
        """|a-b| <= tol*(1+|b|), shapes equal, structure-aware."""
        r = rel_err(a, b)
        return self.leq(r, tol, sig, got=a, expected=b, **detail)

    def call(self, sig, fn, *args, **kwargs):
        """Call library code; an unexpected exception is a violation."""
        self.hit("call:" + sig.split("|")[-1])
        try:
            return fn(*args, **kwargs)
        except (StepBudget, CaseTimeout, CaseAbort):
            raise
        except Exception as e:
            self.violate(
                sig + ":raised:" + type(e).__name__,
                error=str(e)[:300],
                trace=traceback.format_exc()[-1500:],
                args=[describe(a) for a in args],
            )
            raise CaseAbort from e

    def raises(self, exc, sig, fn, *args, **kwargs):
        """Library must raise one of ``exc``."""
        self.evaluations += 1
        self.hit("oracle:" + oracle_name(sig))
        try:
            out = fn(*args, **kwargs)
        except exc:
            return True
        except (StepBudget, CaseTimeout, CaseAbort):
            raise
        except Exception as e:
            self.violate(
                sig + ":wrong-exception:" + type(e).__name__, error=str(e)[:300]
            )
            return False
        self.violate(sig + ":accepted", returned=out)
        return False

    def export(self):
        return {
            "counts": self.counts,
            "violations": self.violations,
            "evaluations": self.evaluations,
            "digests": self.digests,
            "samples": self.samples,
            "worst": self.worst,
        }


def leaves(v):
    if isinstance(v, (list, tuple)):
        for w in v:
            yield from leaves(w)
    else:
        yield np.asarray(v)


def flat(v):
    """Real vector of all entries (real and imaginary parts)."""
    out = []
    for a in leaves(v):
        if np.iscomplexobj(a):
            out.append(np.real(a).ravel())
            out.append(np.imag(a).ravel())
        else:
            out.append(np.asarray(a, dtype=float).ravel())
    return np.concatenate(out) if out else np.zeros(0)


def cflat(v):
    """Complex vector of all entries, independent of real/complex dtype."""
    out = [np.asarray(a).astype(complex).ravel() for a in leaves(v)]
    return np.concatenate(out) if out else np.zeros(0, complex)


def same_structure(a, b):
    if isinstance(b, (list, tuple)):
        return (
            isinstance(a, (list, tuple))
            and len(a) == len(b)
            and all(same_structure(x, y) for x, y in zip(a, b))
        )
    return np.shape(a) == np.shape(b)


def rel_err(a, b):
    if not same_structure(a, b):
        return float("inf")
    fa, fb = cflat(a), cflat(b)
    if fa.size == 0:
        return 0.0
    with np.errstate(all="ignore"):
        d = np.linalg.norm(fa - fb) / (1 + np.linalg.norm(fb))
    return float(d)


def finite(v):
    return bool(all(np.all(np.isfinite(a)) for a in leaves(v)))


# ---------------------------------------------------------------------------
_STATE = {}


def _alarm(signum, frame):
    raise CaseTimeout()


def _run_one(index):
    ctx = _STATE["ctx"]
    run = _STATE["run"]
    key = _STATE["keys"][index]
    ctx.reset()
    ctx.begin(key)
    status = "ok"
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(_STATE["case_timeout"])
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            run(ctx, key)
    except CaseAbort:
        ctx.hit("case-aborted")
    except CaseTimeout:
        status = "timeout"
    except StepBudget as e:
        ctx.violate("step-budget|" + str(e))
    except Exception as e:
        where = library_frame(e)
        if where:
            # every call made here has valid arguments, so an exception that
            # escapes from the library is a violation of the property
            ctx.violate(
                "unexpected-exception:" + type(e).__name__ + "@" + where,
                error=str(e)[:300],
                trace=traceback.format_exc()[-1500:],
            )
            out = ctx.export()
            out["status"] = "ok"
            return out
        status = "error"
        out = ctx.export()
        out["status"] = status
        out["error"] = f"case {key!r}\n" + traceback.format_exc()
        return out
    finally:
        signal.alarm(0)
    out = ctx.export()
    out["status"] = status
    return out


def library_frame(error):
    """Innermost frame inside the staged library, if the error came from it."""
    found = None
    for frame, _ in traceback.walk_tb(error.__traceback__):
        name = frame.f_code.co_filename
        if "/pymanopt-mon-" in name and "/src/pymanopt/" in name:
            found = os.path.basename(name) + ":" + frame.f_code.co_name
    return found


def _run_chunk(indices):
    return [_run_one(i) for i in indices]


def run_shard(prop, check, tier, seed, backend, index, count, out):
    """Run every count-th case of one backend and pickle the results."""
    keys = shard_keys([tuple(k) for k in check.keys(tier)], backend, index, count)
    if os.environ.get("MON_KEY"):
        keys = [tuple(json.loads(os.environ["MON_KEY"]))]
    _STATE.update(
        ctx=Ctx(prop, tier, seed), run=check.run, keys=keys,
        case_timeout=getattr(check, "CASE_TIMEOUT", 120),
    )
    results = []
    for i in range(len(keys)):
        results.append(_run_one(i))
    with open(out + ".part", "wb") as f:
        pickle.dump(results, f)
    os.rename(out + ".part", out)


def shard_keys(keys, backend, index, count):
    keys = [k for k in keys if k[0] == backend]
    if os.environ.get("MON_FILTER"):
        keys = [k for k in keys if os.environ["MON_FILTER"] in repr(k)]
    return keys[index::count]


def sharded(prop, check, tier, seed, keys, only_key, limit, scratch):
    """One subprocess per shard: the autodiff frameworks neither survive a
    fork nor share a process well.  Returns (results, watchdog)."""
    t0 = time.time()
    shards = dict(check.SHARDS)
    env = dict(os.environ, TF_CPP_MIN_LOG_LEVEL="3", JAX_PLATFORMS="cpu",
               OMP_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="-1",
               TF_NUM_INTRAOP_THREADS="1", TF_NUM_INTEROP_THREADS="1",
               VERIF_TIER=tier, VERIF_SEED=str(seed))
    if only_key is not None:
        shards = {only_key[0]: 1}
        env["MON_KEY"] = json.dumps(list(only_key))
    main = os.path.join(os.path.dirname(os.path.abspath(__file__)), "main.py")
    jobs = []
    for backend, count in shards.items():
        for i in range(count):
            if only_key is None and not shard_keys(keys, backend, i, count):
                continue
            out = os.path.join(scratch, f"{backend}-{i}.pickle")
            log = open(out + ".log", "w")
            jobs.append((backend, i, out, subprocess.Popen(
                [sys.executable, main, prop, "--shard", backend, str(i),
                 str(count), scratch, out], env=env, stdout=log, stderr=log)))
    results, watchdog = [], False
    for backend, i, out, process in jobs:
        try:
            process.wait(timeout=max(1.0, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            watchdog = True
            process.kill()
            process.wait()
            continue
        if not os.path.exists(out):
            with open(out + ".log") as f:
                log = f.read()[-3000:]
            empty = Ctx(prop, tier, seed).export()
            empty.update(status="error", error=f"shard {backend}-{i} died\n{log}")
            if "/src/pymanopt/" in log and "Error" in log:
                empty["status"] = "ok"
                empty["violations"] = [{
                    "property": prop, "case": [backend], "seed": seed,
                    "tier": tier, "sig": f"{backend}|library-import-failed",
                    "detail": {"log": log[-1500:]}}]
            results.append(empty)
            continue
        with open(out, "rb") as f:
            results += pickle.load(f)
    return results, watchdog


def execute(prop, module, tier, seed, only_key=None, workers=8, scratch=None):
    """Run every case of ``module``'s check for ``prop``; return exit code."""
    t0 = time.time()
    check = module
    ctx = Ctx(prop, tier, seed)
    keys = [tuple(k) for k in check.keys(tier)]
    if only_key is not None:
        keys = [tuple(only_key)]
    if os.environ.get("MON_FILTER"):
        keys = [k for k in keys if os.environ["MON_FILTER"] in repr(k)]
    # thorough repeats the whole case list under several derived seeds
    _STATE.update(
        ctx=ctx,
        run=check.run,
        keys=keys,
        case_timeout=getattr(check, "CASE_TIMEOUT", 120),
    )
    if hasattr(check, "prepare"):
        check.prepare(tier)
    limit = float(os.environ.get("MON_WATCHDOG", 780 if tier == "quick" else 7200))
    results = []
    watchdog = False
    if hasattr(check, "SHARDS"):
        results, watchdog = sharded(
            prop, check, tier, seed, keys, only_key, limit, scratch)
    elif workers <= 1 or len(keys) == 1 or getattr(check, "SERIAL", False):
        for i in range(len(keys)):
            results.append(_run_one(i))
            if time.time() - t0 > limit:
                watchdog = True
                break
    else:
        mp = multiprocessing.get_context("fork")
        with mp.Pool(workers, maxtasksperchild=None) as pool:
            size = max(1, min(40, len(keys) // (workers * 12)))
            order = list(range(len(keys)))
            random.Random(7).shuffle(order)  # spreads the expensive cases
            chunks = [
                order[i:i + size] for i in range(0, len(keys), size)
            ]
            it = pool.imap_unordered(_run_chunk, chunks)
            for _ in chunks:
                left = max(1.0, limit - (time.time() - t0))
                try:
                    results += it.next(timeout=left)
                except multiprocessing.TimeoutError:
                    watchdog = True
                    break
            if watchdog:
                pool.terminate()
    return conclude(prop, check, tier, seed, keys, results, watchdog, t0)


def conclude(prop, check, tier, seed, keys, results, watchdog, t0):
    counts, worst = {}, {}
    violations, samples, errors = [], [], []
    digests = set()
    evaluations = 0
    timeouts = 0
    for r in results:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in r["worst"].items():
            worst[k] = max(worst.get(k, 0.0), v)
        violations += r["violations"]
        evaluations += r["evaluations"]
        digests |= r["digests"]
        if len(samples) < 4:
            samples += r["samples"][:1]
        if r["status"] == "timeout":
            timeouts += 1
        if r["status"] == "error":
            errors.append(r["error"])
    known = [(k, d) for p, k, d in load_known() if p == prop]
    fresh, seen_known = [], {}
    for v in violations:
        for pattern, text in known:
            if fnmatch.fnmatchcase(v["sig"], pattern):
                seen_known.setdefault((pattern, text), 0)
                seen_known[(pattern, text)] += 1
                break
        else:
            fresh.append(v)
    for (pattern, text), n in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={prop} {text} [key={pattern}, seen {n}x]")
    required = getattr(check, "REQUIRED", [])
    missing = [r for r in required if not any(fnmatch.fnmatchcase(c, r) for c in counts)]
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(check, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(digests),
            "rule": getattr(check, "RULE", ""),
            "samples": samples or [{"note": "no case completed"}],
            "cases": len(results),
            "monitor_counts": dict(sorted(counts.items())),
            "closest_to_tolerance": {
                k: float(f"{v:.3g}")
                for k, v in sorted(worst.items(), key=lambda kv: -kv[1])[:12]
            },
            "known_findings_observed": sum(seen_known.values()),
            "case_timeouts": timeouts,
        },
        "assumptions": getattr(check, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not os.environ.get("MON_NO_EVIDENCE"):
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1, default=str)
            f.write("\n")
    print(
        f"[{prop}] tier={tier} seed={seed} cases={len(results)}/{len(keys)} "
        f"oracle evaluations={evaluations} distinct={len(digests)} "
        f"wall={time.time() - t0:.1f}s"
    )
    if fresh:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        shown = set()
        for v in fresh:
            if v["sig"] in shown or len(shown) >= 8:
                continue
            shown.add(v["sig"])
            name = f"{prop}-{hashlib.sha1(v['sig'].encode()).hexdigest()[:8]}.json"
            path = os.path.join(rdir, name)
            with open(path, "w") as f:
                json.dump(v, f, indent=1, default=str)
            print(f"VIOLATION property={prop} replay={path} what={v['sig']}")
            print("   ", json.dumps(v["detail"], default=str)[:600])
        for e in errors[:1]:
            print("note: harness error as well:", e[-1500:])
        return 1
    if errors:
        print(f"ERROR: {len(errors)} case(s) failed in the harness")
        for e in errors[:3]:
            print(e)
        return 2
    if watchdog:
        print("INCONCLUSIVE: watchdog fired before all cases finished")
        return 2
    if timeouts:
        print(f"INCONCLUSIVE: {timeouts} case(s) hit the per-case wall clock")
        return 2
    if missing or evaluations == 0 or not digests:
        print(f"INCONCLUSIVE: monitors never reached: {missing}")
        return 2
    print(f"HELD property={prop} on {len(results)} executions")
    return 0
