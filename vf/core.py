"""Core of the harness: facets, violations, the Hypothesis driver, counting and replay.

A *facet* is one executable statement of (part of) a property: a Hypothesis strategy that
generates JSON-able cases and a `check(case, ctx)` function that runs the real code on the case
and raises `Violation` when an explicit oracle disagrees.  Hypothesis generates and shrinks; the
shrunk case is written to a replay file, which `python -m vf.run <ID> --replay FILE` re-runs
without the library.
"""
from __future__ import annotations

import hashlib
import io
import json
import math
import os
import sys
import time
import traceback
from contextlib import redirect_stdout, redirect_stderr
import dataclasses
from dataclasses import dataclass, field
from typing import Any, Callable

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
REPO_SRC = os.path.join(REPO, "src")


class Violation(Exception):
    """The code under test contradicts the property on the current case."""


class HarnessError(Exception):
    """The harness itself could not judge the case."""


@dataclass
class Facet:
    name: str
    check: Callable[[Any, "Ctx"], None]
    strategy: Callable[[], Any]  # returns a hypothesis strategy
    quick: int = 10  # number of Hypothesis examples in the quick tier (per shard)
    thorough: int = 100
    shards: int = 1  # parallel shards with different seeds
    thorough_shards: int = 4
    x64: bool = True
    rule: str = ""
    doc: str = ""
    quick_budget: float = 240.0  # seconds after which a shard stops starting new cases
    thorough_budget: float = 2400.0


def in_single_precision(facets, quick: dict, **kw):
    """Copies of some facets run in JAX's default (single) precision."""
    out = []
    for f in facets:
        if f.name in quick:
            q = quick[f.name]
            out.append(dataclasses.replace(f, name=f.name + "_single", x64=False, quick=q, shards=1, thorough=max(3 * q, f.thorough // 4), thorough_shards=1,
                                           rule=f.rule + " (single precision)", **kw))
    assert len(out) == len(quick)
    return out


class Ctx:
    """Collects what a case exercised."""

    def __init__(self):
        self.labels: dict[str, int] = {}
        self.inner = 0  # elementary comparisons made
        self.nontrivial_flag = False
        self.findings: dict[str, str] = {}

    def label(self, name: str, n: int = 1):
        self.labels[name] = self.labels.get(name, 0) + int(n)

    def count(self, n: int = 1):
        self.inner += int(n)

    def nontrivial(self, flag: bool = True):
        if flag:
            self.nontrivial_flag = True

    def finding(self, fid: str, text: str):
        """An occurrence of an already known, recorded finding."""
        self.findings[fid] = text


# ------------------------------------------------------------------ oracle helpers
def fail(msg: str):
    raise Violation(msg)


def require(cond, msg: str):
    if not bool(cond):
        raise Violation(msg)


def arr(x) -> np.ndarray:
    return np.asarray(x)


def require_shape(x, shape, what: str):
    s = tuple(np.shape(x))
    if s != tuple(shape):
        raise Violation(f"{what}: shape {s}, expected {tuple(shape)}")


def require_equal(a, b, what: str):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape} != {b.shape}")
    same = (a == b) | ((a != a) & (b != b))
    if not np.all(same):
        i = tuple(int(v[0]) for v in np.nonzero(~np.atleast_1d(same)))
        raise Violation(
            f"{what}: differ at {i}: got {np.atleast_1d(a)[i]!r}, expected {np.atleast_1d(b)[i]!r}"
            f" ({int((~same).sum())} of {same.size} entries)"
        )


def require_close(a, b, what: str, rtol=1e-9, atol=1e-9, mask=None):
    """Elementwise comparison; non-finite entries must agree exactly."""
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        raise Violation(f"{what}: shape {a.shape} != {b.shape}")
    a, b = np.atleast_1d(a), np.atleast_1d(b)
    with np.errstate(all="ignore"):
        ok = np.abs(a - b) <= np.asarray(atol) + np.asarray(rtol) * np.abs(b)
        ok &= np.isfinite(a) & np.isfinite(b)
        ok |= a == b
        ok |= (a != a) & (b != b)
    if mask is not None:
        ok |= ~np.broadcast_to(np.asarray(mask, bool), ok.shape)
    if not ok.all():
        i = tuple(int(v[0]) for v in np.nonzero(~ok))
        raise Violation(
            f"{what}: differ at {i}: got {a[i]!r}, expected {b[i]!r}"
            f" ({int((~ok).sum())} of {ok.size} entries)"
        )


# statistical helpers: every threshold is far in the tail so that a fixed-seed run on correct
# code cannot plausibly fail, and the run is deterministic for a given VERIF_SEED.
Z_MAX = 6.5


def ks_uniform(u, what: str, zmax=Z_MAX):
    """One-sample Kolmogorov-Smirnov test for U(0,1) with a DKW bound at the zmax level."""
    u = np.sort(np.asarray(u, dtype=np.float64).ravel())
    n = len(u)
    if n == 0:
        raise HarnessError("no samples for KS test")
    if not np.isfinite(u).all():
        raise Violation(f"{what}: non-finite draws")
    cdf_hi = np.arange(1, n + 1) / n
    cdf_lo = np.arange(0, n) / n
    d = max(np.max(cdf_hi - u), np.max(u - cdf_lo))
    alpha = 2e-10 if zmax >= 6.3 else 1e-8
    thr = math.sqrt(math.log(2.0 / alpha) / (2.0 * n))
    require(d <= thr, f"{what}: not uniform (KS distance {d:.4g} > {thr:.4g}, n={n})")


def ks_normal(z, what: str):
    from scipy.stats import norm

    ks_uniform(norm.cdf(np.asarray(z, dtype=np.float64)), what)


def corr_zero(a, b, what: str, zmax=Z_MAX):
    """Rank correlation of two samples must vanish."""
    a = np.argsort(np.argsort(np.asarray(a).ravel())).astype(float)
    b = np.argsort(np.argsort(np.asarray(b).ravel())).astype(float)
    n = len(a)
    r = np.corrcoef(a, b)[0, 1]
    require(
        abs(r) * math.sqrt(n - 1) <= zmax,
        f"{what}: correlated draws (rank correlation {r:.3g}, n={n})",
    )


def mean_close(x, mu, what: str, zmax=Z_MAX, slack=0.0):
    x = np.asarray(x, dtype=np.float64)
    n = x.shape[0]
    m = x.mean(0)
    se = x.std(0, ddof=1) / math.sqrt(n) + 1e-300
    z = (np.abs(m - mu) - slack) / se
    require(
        np.all(z <= zmax),
        f"{what}: mean {m} differs from {mu} by {float(np.max(z)):.1f} standard errors (n={n})",
    )


def moments_normal(z, what: str, zmax=Z_MAX):
    """z (n,d) should be iid standard normal: first, second moments, cross moments, KS."""
    z = np.asarray(z, dtype=np.float64)
    n, d = z.shape
    mean_close(z, np.zeros(d), what + ": mean", zmax)
    zz = (z[:, :, None] * z[:, None, :]).reshape(n, d * d)
    mean_close(zz, np.eye(d).reshape(-1), what + ": covariance", zmax)
    for i in range(d):
        ks_normal(z[:, i], what + f": coordinate {i}")
        tails_normal(z[:, i], what + f": coordinate {i}")


def tails_normal(z, what: str, p_min=1e-11):
    """Binomial tests of the tail counts, which a KS distance does not see."""
    from scipy.stats import binom, norm

    z = np.asarray(z, dtype=np.float64).ravel()
    n = len(z)
    for t in (2.0, 3.0, 4.0, 5.0):
        for side in (z > t, z < -t):
            k, q = int(side.sum()), norm.sf(t)
            p = min(binom.cdf(k, n, q), binom.sf(k - 1, n, q))
            require(p >= p_min, f"{what}: {k} of {n} draws beyond {t} standard deviations, expected {n * q:.1f}")


def distinct_values(z, what: str):
    """Continuous draws in double precision do not repeat."""
    z = np.asarray(z).ravel()
    v, c = np.unique(z, return_counts=True)
    i = int(np.argmax(c))
    require(c[i] <= 2, f"{what}: the value {v[i]!r} occurs {c[i]} times in {len(z)} draws")


# ------------------------------------------------------------------ running one facet shard
def case_hash(case) -> str:
    return hashlib.sha1(
        json.dumps(case, sort_keys=True, default=str).encode()
    ).hexdigest()[:16]


def classify_exception(exc: BaseException) -> str:
    """'lib' when the library is on the call stack of the exception, otherwise 'harness'."""
    for fr in traceback.extract_tb(exc.__traceback__):
        if fr.filename.startswith(REPO_SRC):
            return "lib"
    return "harness"


class _Quiet(io.TextIOBase):
    def write(self, s):
        return len(s)


def release_compiled(limit_maps=20000):
    """Every compiled program keeps memory mappings, of which a process may have some 65000: drop them
    well before that, and once the process has grown large."""
    import gc

    try:
        maps = sum(1 for _ in open("/proc/self/maps"))
        rss = int(open("/proc/self/statm").read().split()[1]) * os.sysconf("SC_PAGE_SIZE")
    except OSError:
        return
    if maps > limit_maps or rss > 3 << 30:
        import jax

        jax.clear_caches()
        gc.collect()


EXHAUSTED = ("Failed to materialize symbols", "RESOURCE_EXHAUSTED", "Cannot allocate memory", "Out of memory")


def run_case(facet: Facet, case, ctx: Ctx):
    """Run the check on one case; library exceptions become violations."""
    try:
        with redirect_stdout(_Quiet()):
            try:
                facet.check(case, ctx)
            except Exception as e:  # noqa: BLE001
                if isinstance(e, (Violation, HarnessError)) or not any(t in str(e) for t in EXHAUSTED):
                    raise
                release_compiled(0)  # the compiler ran out of memory, not the library: judge the case anew
                facet.check(case, ctx)
    except Violation:
        raise
    except (KeyboardInterrupt, SystemExit, MemoryError, HarnessError):
        raise
    except Exception as e:  # noqa: BLE001
        if classify_exception(e) == "lib":
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if f.filename.startswith(REPO_SRC)][-1]
            first = (str(e).strip().splitlines() or [""])[0][:300]
            raise Violation(
                f"library raised {type(e).__name__} at "
                f"{os.path.relpath(where.filename, REPO)}:{where.lineno} ({where.name}): {first}"
            ) from e
        raise


@dataclass
class ShardResult:
    prop: str
    facet: str
    shard: int
    evaluations: int = 0
    inner: int = 0
    nontrivial: int = 0
    labels: dict = field(default_factory=dict)
    samples: list = field(default_factory=list)
    hashes: list = field(default_factory=list)
    violation: dict | None = None
    error: str | None = None
    findings: dict = field(default_factory=dict)
    skipped_budget: int = 0
    wall: float = 0.0


def run_shard(prop: str, facet: Facet, shard: int, seed: int, tier: str) -> ShardResult:
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    t0 = time.time()
    res = ShardResult(prop, facet.name, shard)
    budget = facet.quick_budget if tier == "quick" else facet.thorough_budget
    n = facet.quick if tier == "quick" else facet.thorough
    seen: set[str] = set()
    state = {"viol": None, "viol_case": None, "t_first": None}
    shard_seed = int.from_bytes(
        hashlib.sha256(f"{prop}/{facet.name}/{shard}/{seed}".encode()).digest()[:6], "big"
    )

    class _Found(Exception):
        pass

    def body(case):
        now = time.time()
        if state["viol"] is None and now - t0 > budget:
            res.skipped_budget += 1
            return
        if state["t_first"] is not None and now - state["t_first"] > 90:
            return  # shrinking budget used up: report the smallest failure so far
        ctx = Ctx()
        try:
            run_case(facet, case, ctx)
        except Violation as v:
            if state["t_first"] is None:
                state["t_first"] = time.time()
            state["viol"] = str(v)
            state["viol_case"] = case
            raise _Found() from None
        finally:
            state["ran"] = state.get("ran", 0) + 1
            if state["ran"] % 4 == 0:
                release_compiled()
            if state["t_first"] is None:
                res.evaluations += 1
                res.inner += ctx.inner
                for k, v in ctx.labels.items():
                    res.labels[k] = res.labels.get(k, 0) + v
                res.findings.update(ctx.findings)
                h = case_hash(case)
                if ctx.nontrivial_flag and h not in seen:
                    seen.add(h)
                    res.nontrivial += 1
                    if len(res.samples) < 3:
                        res.samples.append(case)

    test = given(facet.strategy())(body)
    test = settings(
        max_examples=n,
        database=None,
        deadline=None,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
        print_blob=False,
        report_multiple_bugs=False,
    )(test)
    test = hypothesis.seed(shard_seed)(test)
    try:
        with redirect_stderr(_Quiet()):
            test()
    except _Found:
        pass
    except BaseException as e:  # noqa: BLE001
        if state["viol"] is None:
            res.error = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:]
    if state["viol"] is not None:
        res.violation = {"message": state["viol"], "case": state["viol_case"]}
    res.hashes = sorted(seen)
    res.wall = time.time() - t0
    return res
