"""C08: base distributions are normalised densities consistent with their samples."""
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from vf.common import SEED, by_precision, key_of, np_gauss_logpdf, rng
from vf.core import Facet, in_single_precision, corr_zero, moments_normal, require, require_close, require_equal, require_shape


def mostly_distinct(s, what):
    """All samples differ (in single precision, up to the few equal ones that rounding makes)."""
    n, u = len(s), len(np.unique(s, axis=0))
    require(u == n or u >= by_precision(n, 0.98 * n), f"{what}: {n - u} of {n} are repeats")


@eqx.filter_jit
def logps(dist, xs):
    return jax.vmap(dist.log_prob)(xs)


@eqx.filter_jit
def calls(dist, xs):
    return jax.vmap(dist)(xs)


@eqx.filter_jit
def sample(dist, key, n, per=0):
    """n samples, in one call or `per` at a time."""
    if per == 0:
        return dist.sample(key, n)
    return jax.vmap(lambda k: dist.sample(k, per))(jax.random.split(key, n // per)).reshape(n, -1)


def gauss_params(seed, d, scale, corr, mixed=False):
    g = rng(seed, 71)
    mean = g.normal(size=d) * scale * 2
    sd = scale * np.exp(g.normal(size=d))
    if mixed:  # coordinates in very different units
        u = 10 ** rng(seed, 75).uniform(-5, 5, size=d)
        mean, sd = mean * u, sd * u
    A = g.normal(size=(d, d))
    C = np.eye(d) + (A @ A.T if corr else 0)
    C = C / np.sqrt(np.outer(np.diag(C), np.diag(C)))
    return mean, C * np.outer(sd, sd)


def check_density(case, ctx):
    from scipy.stats import multivariate_normal

    from flowMC.resource.model.common import Gaussian

    d = case["d"]
    mean, cov = gauss_params(case["seed"], d, case["scale"], case["corr"], case["mixed"])
    dist = Gaussian(jnp.asarray(mean), jnp.asarray(cov), learnable=case["learnable"])
    g = rng(case["seed"], 72)
    x = mean + (g.normal(size=(30, d)) * g.choice([0.1, 1.0, 10.0, 300.0], size=(30, 1))) @ np.linalg.cholesky(cov).T
    x[0] = mean
    mean, cov, x = (np.asarray(jnp.asarray(v), float) for v in (mean, cov, x))
    sd = np.sqrt(np.diag(cov))
    cond = np.linalg.cond(cov / np.outer(sd, sd))
    if cond > by_precision(np.inf, 1e3):
        return
    ref = np_gauss_logpdf(x, mean, cov)
    lp = np.asarray(logps(dist, jnp.asarray(x)))
    require_shape(lp, (30,), "Gaussian log_prob")
    tol = by_precision(1e-9, 2e-6) * (1 + cond) * (1 + np.abs(ref)) * (1 + by_precision(0, 1) * np.abs(mean / sd).max())
    require_close(lp, ref, "Gaussian log_prob vs numpy", rtol=0, atol=tol)
    sp = multivariate_normal(mean / sd, cov / np.outer(sd, sd), allow_singular=True).logpdf(x / sd) - np.log(sd).sum()
    require_close(ref, np.atleast_1d(sp), "reference vs scipy", rtol=1e-6, atol=1e-6 * (1 + cond))
    require_close(np.asarray(calls(dist, jnp.asarray(x))), ref, "Gaussian called as a function", rtol=0, atol=tol)
    require_equal(np.asarray(dist.mean), mean, "Gaussian mean")
    require_equal(np.asarray(dist.cov), cov, "Gaussian covariance")
    # a single point
    require_close(float(dist.log_prob(jnp.asarray(x[1]))), ref[1], "Gaussian log_prob of one point", rtol=0, atol=tol[1])
    ctx.count(60)
    ctx.label(f"d={d}")
    ctx.nontrivial(cond < 1e6)


def check_samples(case, ctx):
    from flowMC.resource.model.common import Gaussian

    d, n = case["d"], 20000
    mean, cov = gauss_params(case["seed"], d, case["scale"], case["corr"], case["mixed"])
    mean, cov = (np.asarray(jnp.asarray(v), float) for v in (mean, cov))
    sd = np.sqrt(np.diag(cov))
    if np.linalg.cond(cov / np.outer(sd, sd)) > by_precision(np.inf, 1e3) or np.abs(mean / sd).max() > by_precision(np.inf, 50):
        return
    dist = Gaussian(jnp.asarray(mean), jnp.asarray(cov), learnable=case["learnable"])
    key = key_of(case["seed"])
    per = case["per"]
    s = np.asarray(sample(dist, key, n, per), float)
    require_shape(s, (n, d), "Gaussian samples")
    mostly_distinct(s, "Gaussian samples")
    z = np.linalg.solve(np.linalg.cholesky(cov), (s - mean).T).T
    moments_normal(z, "standardised Gaussian samples")
    t = np.asarray(sample(dist, jax.random.split(key)[1], n, per), float)
    for i in range(d):
        corr_zero(z[:, i], t[:, i], "Gaussian samples of two keys")
        for lag in (1, n // 2):
            corr_zero(z[lag:, i], z[:-lag, i], f"Gaussian samples {lag} apart")
    require_equal(np.asarray(sample(dist, key, n, per), float), s, "Gaussian samples of one key")
    for k in (1, 2, 7):
        require_shape(dist.sample(key, k), (k, d), f"{k} Gaussian samples")
    ctx.count(n)
    ctx.nontrivial()


# ------------------------------------------------------------------ gradients
def _obj(dist, xs):
    return jnp.sum(jax.vmap(dist.log_prob)(xs))


@eqx.filter_jit
def param_grads(dist, xs):
    return eqx.filter_grad(_obj)(dist, xs)


def check_grad(case, ctx):
    from flowMC.resource.model.common import Gaussian
    from flowMC.resource.model.nf_model.realNVP import RealNVP

    d = case["d"]
    mean, cov = gauss_params(case["seed"], d, 1.0, case["corr"])
    g = rng(case["seed"], 73)
    x = mean + g.normal(size=(5, d)) @ np.linalg.cholesky(cov).T * 1.5
    dist = Gaussian(jnp.asarray(mean), jnp.asarray(cov), learnable=case["learnable"])
    gr = param_grads(dist, jnp.asarray(x))
    lv = [np.asarray(l) for l in jax.tree.leaves(gr)]
    gm = [l for l in lv if l.shape == (d,)]
    gc = [l for l in lv if l.shape == (d, d)]
    P = np.linalg.inv(cov)
    t = x - mean
    true_m = (t @ P).sum(0)
    true_c = sum(0.5 * (np.outer(P @ v, P @ v) - P) for v in t)
    if case["learnable"]:
        require_close(gm[0], true_m, "gradient of the log-density in the mean", rtol=1e-7, atol=1e-7 * (1 + np.abs(true_m).max()))
        c = gc[0]
        require_close(0.5 * (c + c.T), true_c, "gradient of the log-density in the covariance", rtol=1e-6, atol=1e-6 * (1 + np.abs(true_c).max()))
    else:
        for l in lv:
            require(np.all(l == 0), f"a non-learnable Gaussian passes gradient {l} to its parameters")
    # with respect to the point the gradient is the same either way
    gx = np.asarray(jax.vmap(jax.grad(dist.log_prob))(jnp.asarray(x)))
    require_close(gx, -(t @ P), "gradient of the log-density in the point", rtol=1e-7, atol=1e-7)
    # and inside a flow
    m = RealNVP(d, 1, 3, key_of(case["seed"]), base_dist=dist)
    gf = param_grads(m, jnp.asarray(x))
    b = [np.asarray(l) for l in jax.tree.leaves(gf.base_dist)]
    if case["learnable"]:
        require(max(np.abs(l).max() for l in b) > 1e-8, "a flow with a learnable base passes no gradient to it")
    else:
        require(all(np.all(l == 0) for l in b), "a flow passes gradient to a base that is not learnable")
    ctx.count(3 * d)
    ctx.label("learnable" if case["learnable"] else "fixed")
    ctx.nontrivial()


# ------------------------------------------------------------------ compositions
def check_composable(case, ctx):
    from flowMC.resource.model.common import Composable, Gaussian

    dims, seed = case["dims"], case["seed"]
    g = rng(seed, 74)
    gap = case["gap"]
    names = [f"p{i}" if not case["odd_names"] else ["zeta", "alpha", "mid", "beta"][i] for i in range(len(dims))]
    dists, parts, ref, par = [], {}, [], []
    pos = 0
    order = list(range(len(dims)))
    if case["shuffled"]:
        order = list(g.permutation(len(dims)))
    starts = {}
    for i in order:  # slices are laid out in this order, declared in the natural one
        pos += gap
        starts[i] = pos
        pos += dims[i]
    for i, d in enumerate(dims):
        mean, cov = gauss_params(seed + i, d, 1.0, True)
        par.append((mean, cov))
        dists.append(Gaussian(jnp.asarray(mean), jnp.asarray(cov)))
        parts[names[i]] = (starts[i], starts[i] + d)
    comp = Composable(dists, parts)
    x = g.normal(size=(20, pos + case["tail"])) * 2
    ref = sum(np_gauss_logpdf(x[:, a:b], m, c) for (m, c), (a, b) in zip(par, parts.values()))
    lp = np.asarray(logps(comp, jnp.asarray(x)))
    require_close(lp, ref, "composition log_prob vs sum over its parts", rtol=1e-7, atol=1e-7 * (1 + np.abs(ref).max()))
    require_close(np.asarray(calls(comp, jnp.asarray(x))), ref, "composition called as a function", rtol=1e-7, atol=1e-7 * (1 + np.abs(ref).max()))
    n = case["n"]
    s = comp.sample(key_of(seed), n)
    require(sorted(s) == sorted(parts), f"composition samples have parts {sorted(s)}, expected {sorted(parts)}")
    zs = []
    for (m, c), nm in zip(par, names):
        v = np.asarray(s[nm], float)
        require_shape(v, (n, len(m)), f"samples of part {nm}")
        z = np.linalg.solve(np.linalg.cholesky(c), (v - m).T).T
        zs.append(z)
        if n > 1000:
            moments_normal(z, f"samples of part {nm}")
    if n > 1000:
        for i in range(len(zs)):
            for j in range(i):
                for a in range(zs[i].shape[1]):
                    for b in range(zs[j].shape[1]):
                        corr_zero(zs[i][:, a], zs[j][:, b], f"samples of parts {names[i]} and {names[j]}")
    ctx.count(20 + n)
    ctx.label(f"{len(dims)} parts")
    ctx.label("sampled", n > 1000)
    ctx.nontrivial(len(dims) > 1)


DEN = lambda: st.fixed_dictionaries(dict(d=st.sampled_from([2, 1, 3, 6, 14]), scale=st.sampled_from([1.0, 1e-3, 0.1, 30.0, 1e4, 1e-6]), mixed=st.booleans(),
                                         corr=st.booleans(), learnable=st.booleans(), seed=SEED))
COMP = lambda n: lambda: st.fixed_dictionaries(dict(
    dims=st.one_of(st.lists(st.integers(1, 3), min_size=2, max_size=4), st.lists(st.integers(1, 3), min_size=1, max_size=3)), gap=st.sampled_from([0, 0, 1]), tail=st.sampled_from([0, 0, 2]),
    shuffled=st.booleans(), odd_names=st.booleans(), n=st.sampled_from(n), seed=SEED))
FACETS = [
    Facet("density", check_density, DEN, quick=80, thorough=1500, rule="30 points per case vs numpy and scipy; non-trivial when the covariance is not near singular"),
    Facet("samples", check_samples, lambda: st.tuples(DEN(), st.sampled_from([0, 1, 4])).map(lambda t: {**t[0], "per": t[1]}), quick=8, thorough=120, shards=2, rule="20000 samples; every case non-trivial"),
    Facet("gradients", check_grad, DEN, quick=20, thorough=300, shards=2, rule="every case non-trivial"),
    Facet("composition", check_composable, COMP([3, 1]), quick=30, thorough=400, shards=2, rule="non-trivial with at least two parts"),
    Facet("composition_samples", check_composable, COMP([20000]), quick=6, thorough=60, rule="non-trivial with at least two parts"),
]
FACETS += in_single_precision(FACETS, dict(density=30, samples=4))
ASSUMPTIONS = ["covariances are symmetric positive definite; parts of a composition are matched to partitions by position"]
