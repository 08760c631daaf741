"""C01: local kernels are exact Metropolis-Hastings updates.

The accept decision of a kernel call is probed without assuming how it draws random numbers: the
target is shifted by a constant c everywhere but at the starting point, which shifts the log
acceptance ratio by c and changes nothing else.  Bisecting the c at which the decision flips
reveals (log u - log ratio) for that key.  Doing the same on a flat target, whose ratio is 0 for
these reversible proposals, reveals log u itself, hence the log ratio the kernel used, which is
compared with the ratio computed independently in numpy.  A large c reveals the proposal."""
import functools

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from vf.common import (SEED, fl, keys, logfl, np_grad, np_logp, probe_logp, rng, target_params, to_jax)
from vf.core import (Facet, corr_zero, distinct_values, fail, ks_uniform, mean_close, moments_normal, require,
                     require_close, require_equal, require_shape)

N = 48
BIG = 1e7


def data_with(p, x0, c):
    d = to_jax({k: np.asarray(v, float) for k, v in p.items()})
    d["x0"] = x0
    d["c"] = c
    return d


@eqx.filter_jit
def step_many(kernel, ks, xs, p, cs):
    """One kernel call per (key, position, shift)."""

    def one(k, x, c):
        d = dict(p, x0=x, c=c)
        lp = probe_logp(x, d)
        return kernel.kernel(k, x, lp, probe_logp, d)

    return jax.vmap(one)(ks, xs, cs)


@eqx.filter_jit
def thresholds(kernel, ks, xs, p):
    """Smallest shift at which each update is accepted."""

    def one(k, x):
        def acc(c):
            d = dict(p, x0=x, c=c)
            return kernel.kernel(k, x, probe_logp(x, d), probe_logp, d)[2]

        def body(_, lohi):
            lo, hi = lohi
            mid = 0.5 * (lo + hi)
            a = acc(mid)
            return jnp.where(a, lo, mid), jnp.where(a, mid, hi)

        lo, hi = jax.lax.fori_loop(0, 80, body, (-BIG * jnp.ones(()), BIG * jnp.ones(())))
        return hi

    return jax.vmap(one)(ks, xs)


def flat(d):
    return dict(m=np.zeros(d), P=np.zeros((d, d)), a=0.0, b=0.0, w=np.ones(d), offset=0.0)


def jp(p):
    return to_jax({k: np.asarray(v, float) for k, v in p.items()})


def forced(kernel, ks, xs, p, what):
    """Positions after an accepted update, i.e. the proposals."""
    y, lp, acc = step_many(kernel, ks, xs, jp(p), jnp.full(xs.shape[0], BIG))
    return np.asarray(y), np.asarray(lp), np.asarray(acc)


def positions(seed, d, n, scale, p):
    g = rng(seed, 11)
    x = p["m"] + g.normal(size=(n, d)) * scale
    return x


# ----------------------------------------------------------------------------- random walk / MALA
def step_value(kind, d, s, seed):
    g = rng(seed, 13)
    vec = s * g.uniform(0.3, 2.0, size=d)
    if kind == "scalar":
        return jnp.asarray(s), np.full(d, s)
    if kind == "vector":
        return jnp.asarray(vec), vec
    return jnp.asarray(np.diag(vec)), vec  # diagonal matrix


def unit_step(kind, d):
    if kind == "scalar":
        return jnp.asarray(1.0)
    if kind == "vector":
        return jnp.ones(d)
    return jnp.eye(d)


def compare_ratio(thr, thr_flat, ref, scale, what, ctx):
    """thr = log u - ratio; thr_flat = log u."""
    got = thr_flat - thr
    ok = np.isfinite(ref) & (np.abs(ref) < 1e6)
    ctx.count(ok.sum())
    require_close(got[ok], ref[ok], what + ": log acceptance ratio", rtol=0,
                  atol=1e-7 + 1e-9 * scale[ok])
    return ok


def far_decisions(ker, ks, xj, p, tf, ref, scale, seed, what, ctx, rounds=3):
    """Decisions anywhere, not only next to the threshold the bisection found."""
    g = rng(seed, 29)
    for _ in range(rounds):
        c = g.choice([-1.0, 1.0], size=N) * 10 ** g.uniform(-1, 5, size=N)
        a = np.asarray(step_many(ker, ks, xj, jp(p), jnp.asarray(c))[2]).astype(bool)
        with np.errstate(invalid="ignore"):
            sel = np.abs(tf - ref - c) > 1e-6 * scale
        ctx.count(sel.sum())
        require_equal(a[sel], (tf < ref + c)[sel], f"{what}: accept decision with the target at the proposal shifted")


def gauss_case(kernel_name):
    kinds = ["scalar", "vector"] if kernel_name == "grw" else ["scalar", "diag"]
    return st.fixed_dictionaries(dict(
        d=st.sampled_from([1, 2, 3, 5, 11, 24]), kind=st.sampled_from(kinds), target=st.sampled_from([0, 1, 2, 3, 1, 2, 3, 3]),
        step=logfl(-4, 1.3), seed=SEED, scale=st.sampled_from([1.0, 0.3, 3.0, 10.0, 1.0, 2.0, 300.0]),
        unit=st.sampled_from([0, 0, -3, 3, -6, 6]), offset=st.sampled_from([0.0, -50.0, 300.0, 2e4, -3e5])))


def get_kernel(kernel_name, step):
    if kernel_name == "grw":
        from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk

        return GaussianRandomWalk(step)
    from flowMC.resource.kernel.MALA import MALA

    return MALA(step)


def check_gauss(kernel_name, case, ctx):
    d, seed = case["d"], case["seed"]
    un = 10.0 ** case["unit"]
    p = target_params(seed, d, case["target"], case["offset"], un)
    step, vec = step_value(case["kind"], d, case["step"] * un, seed)
    ker, unit = get_kernel(kernel_name, step), get_kernel(kernel_name, unit_step(case["kind"], d))
    ks = keys(seed, N)
    x = positions(seed, d, N, case["scale"] * un, p)
    xj = jnp.asarray(x)
    z, _, zacc = forced(unit, ks, jnp.zeros((N, d)), flat(d), kernel_name)
    require(zacc.all(), f"{kernel_name}: an update that raises the density by e^1e7 was rejected")
    y, lp, acc = forced(ker, ks, xj, p, kernel_name)
    drift = 0.5 * vec**2 * np_grad(x, p) if kernel_name == "mala" else 0.0
    yref = x + drift + vec * z
    lx, ly = np_logp(x, p), np_logp(yref, p)
    ref = ly - lx
    if kernel_name == "mala":
        back = yref + 0.5 * vec**2 * np_grad(yref, p)
        fwd = x + drift
        ref = ref - 0.5 * np.sum(((x - back) / vec) ** 2, -1) + 0.5 * np.sum(((yref - fwd) / vec) ** 2, -1)
    # updates whose ratio is astronomically small cannot be forced and are left out
    finite = np.isfinite(ly) & (np.abs(ly) < 1e6) & (np.abs(np.nan_to_num(ref, nan=1e9)) < 1e6)
    require(acc[finite].all(), f"{kernel_name}: an update that raises the density by e^1e7 was rejected")
    require_close(y[finite] / un, yref[finite] / un, f"{kernel_name}: proposal (in units of {un:g})", rtol=1e-9,
                  atol=1e-10 * (1 + np.abs(drift).max() / un))
    ctx.count(2 * finite.sum())
    ref = np.where(finite, ref, np.nan)
    scale = np.abs(lx) + np.abs(ly) + np.abs(np.where(np.isfinite(ref), ref, 0)) + 1
    thr = np.asarray(thresholds(ker, ks, xj, jp(p)))
    tf = np.asarray(thresholds(unit, ks, jnp.zeros((N, d)), jp(flat(d))))
    ok = compare_ratio(thr, tf, ref, scale, kernel_name, ctx)
    # the plain decision (no shift) agrees with u and the ratio
    y0, lp0, a0 = step_many(ker, ks, xj, jp(p), jnp.zeros(N))
    margin = np.abs(tf - ref) > 1e-6 * scale
    sel = ok & margin
    far_decisions(ker, ks, xj, p, tf, ref, np.where(sel, scale, np.nan), seed, kernel_name, ctx)
    require_equal(np.asarray(a0)[sel].astype(bool), (tf < ref)[sel], f"{kernel_name}: accept decision")
    ctx.label(f"d={d}")
    ctx.label("step " + case["kind"])
    ctx.label("accepted", int(np.asarray(a0).sum()))
    ctx.label("rejected", int((~np.asarray(a0).astype(bool)).sum()))
    ctx.nontrivial(ok.sum() >= 5 and case["target"] > 0 and np.ptp(ref[ok]) > 1e-3)


# ----------------------------------------------------------------------------- HMC
def metric_of(kind, d, seed):
    g = rng(seed, 17)
    if kind == "default":
        return None, np.eye(d)
    if kind == "scalar":
        v = float(g.uniform(0.3, 3.0))
        return jnp.asarray(v), v * np.eye(d)
    if kind == "diag":
        v = g.uniform(0.3, 3.0, size=d)
        return jnp.asarray(np.diag(v)), np.diag(v)
    A = g.normal(size=(d, d)) * 0.6
    M = A @ A.T + np.diag(g.uniform(0.3, 1.5, size=d))
    return jnp.asarray(M), M


def hmc_kernel(metric, step, L):
    from flowMC.resource.kernel.HMC import HMC

    if metric is None:
        return HMC(step_size=step, n_leapfrog=L)
    return HMC(condition_matrix=metric, step_size=step, n_leapfrog=L)


def leapfrog(x, p0, M, eps, k, tp):
    """k position updates, standard kick-drift-kick leapfrog."""
    x, p = x.copy(), p0 + 0.5 * eps * np_grad(x, tp)
    for i in range(k):
        x = x + eps * p @ M
        p = p + (eps if i < k - 1 else 0.5 * eps) * np_grad(x, tp)
    return x, p


HMC_SHAPES = [(1, 1), (1, 4), (2, 1), (2, 3), (3, 2), (3, 8), (5, 5), (2, 25), (12, 4), (24, 12)]


def check_hmc(case, ctx):
    d, L = HMC_SHAPES[case["shape"]]
    seed = case["seed"]
    un = 10.0 ** case["unit"]
    p = target_params(seed, d, case["target"], case["offset"], un)
    metric, M = metric_of(case["metric"], d, seed)
    eps = un * case["step"] / max(1.0, np.sqrt(np.linalg.norm(M, 2)))
    ker = hmc_kernel(metric, jnp.asarray(eps), L)
    ks = keys(seed, N)
    x = positions(seed, d, N, case["scale"] * un, p)
    xj = jnp.asarray(x)
    disp, _, zacc = forced(ker, ks, jnp.zeros((N, d)), flat(d), "hmc")
    require(zacc.all(), "hmc: an update that raises the density by e^1e7 was rejected")
    y, lp, acc = forced(ker, ks, xj, p, "hmc")
    Minv = np.linalg.inv(M)
    best = None
    for k in (L + 1, L):
        p0 = disp / (eps * k) @ Minv
        yk, pk = leapfrog(x, p0, M, eps, k, p)
        finite = np.isfinite(np_logp(yk, p)) & (np.abs(np_logp(yk, p)) < 1e5) & np.isfinite(pk).all(-1)
        err = np.abs(y - yk).max(-1) if np.isfinite(y).all() else np.where(np.isfinite(y).all(-1), np.abs(np.nan_to_num(y) - yk).max(-1), np.inf)
        good = (err <= 1e-6 * (un + np.abs(yk).max(-1))) & finite
        if best is None or good.sum() > best[0]:
            best = (good.sum(), k, p0, yk, pk, finite, err)
    _, k, p0, yk, pk, finite, err = best
    lx, ly = np_logp(x, p), np_logp(yk, p)
    ref = ly - lx + 0.5 * np.einsum("ni,ij,nj->n", p0, M, p0) - 0.5 * np.einsum("ni,ij,nj->n", pk, M, pk)
    # trajectories that amplify rounding too much, or that cannot be forced, are left out
    y2, p2 = leapfrog(x + 1e-9 * un, p0, M, eps, k, p)
    amp = (np.abs(y2 - yk).max(-1) / un + np.abs(p2 - pk).max(-1)) / 1e-9
    stable = finite & (np.abs(yk - x).max(-1) < 1e3 * un) & (amp < 1e4) & (np.abs(np.nan_to_num(ref, nan=1e9)) < 1e5)
    require(acc[stable].all(), "hmc: an update that raises the density by e^1e7 was rejected")
    require_close(y[stable] / un, yk[stable] / un, f"hmc: proposal vs leapfrog reference (in units of {un:g})", rtol=1e-6, atol=1e-6)
    ctx.count(stable.sum())
    ref = np.where(stable, ref, np.nan)
    scale = np.abs(lx) + np.abs(ly) + (pk**2).sum(-1) * np.abs(M).max() + 1
    thr = np.asarray(thresholds(ker, ks, xj, jp(p)))
    tf = np.asarray(thresholds(ker, ks, jnp.zeros((N, d)), jp(flat(d))))
    got = tf - thr
    ok = np.isfinite(ref) & (scale < 1e6)
    ctx.count(ok.sum())
    require_close(got[ok], ref[ok], "hmc: log acceptance ratio", rtol=0, atol=1e-6 + 1e-7 * scale[ok])
    far_decisions(ker, ks, xj, p, tf, ref, np.where(ok, scale, np.nan), seed, "hmc", ctx)
    ctx.label(f"metric {case['metric']}")
    ctx.label(f"d={d} L={L}")
    ctx.nontrivial(ok.sum() >= 5 and case["target"] > 0 and np.ptp(ref[ok]) > 1e-4)


hmc_case = lambda: st.fixed_dictionaries(dict(
    shape=st.integers(0, len(HMC_SHAPES) - 1),
    metric=st.sampled_from(["default", "scalar", "diag", "dense", "dense"]),
    target=st.sampled_from([0, 1, 2, 3, 1, 2, 3, 3]), step=logfl(-3.5, 0.3), seed=SEED,
    scale=st.sampled_from([1.0, 0.3, 1.0, 2.0, 30.0]), unit=st.sampled_from([0, 0, -3, 3, -6, 6]), offset=st.sampled_from([0.0, 100.0, -100.0, 2e4, -3e5])))


# ----------------------------------------------------------------------------- the random draws
def check_draws(case, ctx):
    """Noise ~ N(0, I) (momentum drift ~ N(0, M)), accept uniform ~ U(0,1), all independent."""
    d, n, seed = case["d"], 20000, case["seed"]
    ks = keys(seed, n)
    x0 = jnp.zeros((n, d))
    if case["kernel"] == "hmc":
        metric, M = metric_of(case["metric"], d, seed)
        L, eps = 2, 0.1
        ker = hmc_kernel(metric, jnp.asarray(eps), L)
        disp, _, acc = forced(ker, ks, x0, flat(d), "hmc")
        require(acc.all(), "hmc: flat target rejected")
        Lc = np.linalg.cholesky(M)
        zs = [np.linalg.solve(Lc, (disp / (eps * k)).T).T for k in (L + 1, L)]
        # whichever number of drifts the trajectory has, the scale must be one of the two
        z = min(zs, key=lambda v: abs(np.mean(v**2) - 1))
    else:
        ker = get_kernel(case["kernel"], unit_step("scalar", d))
        z, _, acc = forced(ker, ks, x0, flat(d), case["kernel"])
        require(acc.all(), f"{case['kernel']}: flat target rejected")
    what = f"{case['kernel']} noise"
    moments_normal(z, what)
    # a larger sample of the noise alone
    nb = 300000
    kb, xb = keys(seed + 1, nb), jnp.zeros((nb, d))
    zb, _, acc = forced(ker, kb, xb, flat(d), case["kernel"])
    require(acc.all(), f"{case['kernel']}: flat target rejected")
    if case["kernel"] == "hmc":
        zb = min((np.linalg.solve(Lc, (zb / (eps * k)).T).T for k in (L + 1, L)), key=lambda v: abs(np.mean(v**2) - 1))
    moments_normal(zb, what)
    for i in range(d):
        distinct_values(zb[:, i], f"{what} {i}")
    u = np.exp(np.minimum(np.asarray(thresholds(ker, ks, x0, jp(flat(d)))), 0.0))
    ks_uniform(u, f"{case['kernel']} accept draw")
    for i in range(d):
        corr_zero(u, z[:, i], f"{case['kernel']}: accept draw and noise {i}")
        corr_zero(u, np.abs(z[:, i]), f"{case['kernel']}: accept draw and |noise {i}|")
    corr_zero(u, (z**2).sum(-1), f"{case['kernel']}: accept draw and noise length")
    ctx.count(n)
    ctx.label(case["kernel"])
    ctx.nontrivial()


draw_case = lambda k: lambda: st.fixed_dictionaries(dict(
    kernel=st.just(k), d=st.sampled_from([1, 2, 3, 9]),
    metric=st.sampled_from(["default", "dense"]), seed=SEED))


# ----------------------------------------------------------------------------- stationarity (float32)
def check_stationary(case, ctx):
    """Chains started exactly in the target are still exactly in it after a few updates."""
    from flowMC.resource.buffers import Buffer
    from flowMC.resource.logPDF import LogPDF
    from flowMC.resource.states import State
    from flowMC.strategy.take_steps import TakeSerialSteps

    d, n, seed = case["d"], 20000, case["seed"]
    g = rng(seed, 23)
    A = g.normal(size=(d, d)) * 0.6
    cov = A @ A.T + np.diag(g.uniform(0.3, 1.5, size=d))
    Lc = np.linalg.cholesky(cov)
    m = g.normal(size=d)
    if case["kernel"] == "hmc":
        metric, _ = metric_of(case["metric"], d, seed)
        ker = hmc_kernel(metric, case["step"] * 0.5, 3)
    else:
        ker = get_kernel(case["kernel"], case["step"])
    P = jnp.asarray(np.linalg.inv(cov))

    def logp(x, data):
        t = x - data["m"]
        return -0.5 * t @ data["P"] @ t

    x = m + g.normal(size=(n, d)) @ Lc.T
    res = dict(logpdf=LogPDF(logp, n_dims=d), k=ker, state=State(dict(p="p", l="l", a="a")),
               p=Buffer("p", (n, 4, d), 1), l=Buffer("l", (n, 4), 1), a=Buffer("a", (n, 4), 1))
    strat = TakeSerialSteps("logpdf", "k", "state", ["p", "l", "a"], 4)
    _, res, last = strat(keys(seed, 2)[1], res, jnp.asarray(x), dict(m=jnp.asarray(m), P=P))
    z = np.linalg.solve(Lc, (np.asarray(last, float) - m).T).T
    rate = float(np.asarray(res["a"].data).mean())
    moments_normal(z, f"{case['kernel']} after 4 updates (acceptance {rate:.2f})")
    ctx.count(n)
    ctx.label(case["kernel"])
    ctx.label("mixed accept/reject", int(0.02 < rate < 0.98))
    ctx.nontrivial(rate > 0.02)


stat_case = lambda k: lambda: st.fixed_dictionaries(dict(
    kernel=st.just(k), d=st.sampled_from([1, 2, 3, 8]),
    metric=st.sampled_from(["default", "dense", "diag"]), step=st.sampled_from([0.3, 0.7, 1.0, 1.4]), seed=SEED))

FACETS = [
    Facet("grw", functools.partial(check_gauss, "grw"), lambda: gauss_case("grw"), quick=60, thorough=1500,
          rule="48 keyed updates per case; non-trivial when >=5 updates of a non-flat target were compared and their ratios differ"),
    Facet("mala", functools.partial(check_gauss, "mala"), lambda: gauss_case("mala"), quick=60, thorough=1500,
          rule="as grw, with the Langevin proposal"),
    Facet("hmc", check_hmc, hmc_case, quick=45, thorough=1200, shards=2,
          rule="48 keyed trajectories per case against a numpy leapfrog; non-trivial when >=5 compared and ratios differ"),
] + [
    Facet(f"draws_{k}", check_draws, draw_case(k), quick=5, thorough=40,
          rule="20000 keys per case; every case non-trivial") for k in ("grw", "mala", "hmc")
] + [
    Facet(f"stationary_{k}", check_stationary, stat_case(k), quick=4, thorough=40, x64=False,
          rule="20000 chains per case started in the target; non-trivial when more than 2% of updates accept")
    for k in ("grw", "mala", "hmc")
]
ASSUMPTIONS = [
    "the noise and accept draw of an update depend on its key only, not on the target or position",
    "step sizes are scalars, vectors (random walk) or diagonal matrices (Langevin); a trajectory makes n_leapfrog or n_leapfrog+1 position updates",
    "statistical facets use thresholds beyond 6.3 standard errors on fixed seeds",
]
