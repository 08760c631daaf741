"""C07: a flow's log-density is normalised and is the density of the samples it draws.

Three independent oracles: the change-of-variables identity with an automatic-differentiation
Jacobian of the data-to-latent map and a numpy base density; quadrature over data space; and the
distribution of the model's samples (mapped to the latent space, and against cell probabilities
integrated from the reported density)."""
import functools

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from vf.common import SEED, by_precision, base_params, flow_forward, flow_inverse, flow_logq, key_of, make_flow, np_gauss_logpdf, perturb, rng
from vf.core import Facet, in_single_precision, HarnessError, Violation, corr_zero, ks_uniform, moments_normal, require, require_close, require_shape


@eqx.filter_jit
def latent_and_jac(m, xs, mean, std):
    def T(x):
        return m.forward((x - mean) / std)[0]

    return jax.vmap(T)(xs), jax.vmap(jax.jacfwd(T))(xs)


@eqx.filter_jit
def draw(m, key, n, per=None):
    """n samples, in one call or `per` at a time."""
    if per is None:
        return m.sample(key, n)
    return jax.vmap(lambda k: m.sample(k, per))(jax.random.split(key, n // per)).reshape(n, -1)


def build(kind, case, scale=None):
    """The flow, its data mean and standard deviations."""
    from flowMC.resource.model.common import Gaussian

    m, mean, std, bm, bc = build_narrow(kind, case, scale)
    wide = case.get("wide", 1.0)
    if wide != 1:
        bm, bc = bm * wide, bc * wide**2
        dt = m._data_mean.dtype
        m = eqx.tree_at(lambda t: t.base_dist, m, Gaussian(jnp.asarray(bm, dt), jnp.asarray(bc, dt), learnable=m.base_dist.learnable))
    return m, mean, std, bm, bc


def build_narrow(kind, case, scale=None):
    from flowMC.resource.model.common import Gaussian

    d, seed = case["d"], case["seed"]
    scale = case["scale"] if scale is None else scale
    unit = 10.0 ** (case.get("units", 0) * rng(seed, 6).uniform(-1, 1, size=d))  # features in different physical units
    if case.get("via") == "constructor":
        g = rng(seed, 5)
        A = g.normal(size=(d, d)) * 0.7
        mean, cov = g.normal(size=d) * 3, A @ A.T + np.diag(g.uniform(0.05, 3.0, size=d))
        mean, cov = mean * unit, cov * np.outer(unit, unit)
        bm, bc = g.normal(size=d) * 0.5, np.diag(g.uniform(0.3, 1.5, size=d)) + 0.1
        kw = dict(base_dist=Gaussian(jnp.asarray(bm), jnp.asarray(bc), learnable=bool(seed % 2)), data_mean=jnp.asarray(mean), data_cov=jnp.asarray(cov))
        if kind == "rqs":
            from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline

            m = MaskedCouplingRQSpline(d, case.get("layers", 2), [6], case.get("bins", 4), key_of(seed), spline_range=(-case.get("edge", 4.0), case.get("edge", 4.0)), **kw)
            m = eqx.tree_at(lambda t: t.layers, m, perturb(m.layers, scale, seed))
        else:
            from flowMC.resource.model.nf_model.realNVP import RealNVP

            m = RealNVP(d, case.get("layers", 2), 6, key_of(seed), **kw)
            m = eqx.tree_at(lambda t: t.affine_coupling, m, perturb(m.affine_coupling, scale, seed))
        return m, mean, np.sqrt(np.diag(cov)), bm, bc
    m = make_flow(kind, d, case.get("layers", 2), seed, scale, stats=case.get("via") != "defaults", base=case.get("via") != "defaults",
                  bins=case.get("bins", 4), rng_range=(-case.get("edge", 4.0), case.get("edge", 4.0)))
    if case.get("via") != "defaults":
        m = eqx.tree_at(lambda t: (t._data_mean, t._data_cov), m, (m._data_mean * jnp.asarray(unit), m._data_cov * jnp.asarray(np.outer(unit, unit))))
    if d == 1 and case.get("zero_d"):  # training on one feature leaves a 0-d covariance
        m = eqx.tree_at(lambda t: t._data_cov, m, jnp.reshape(m._data_cov, ()))
    mean, std = np.asarray(m.data_mean, float), np.sqrt(np.diag(np.atleast_2d(np.asarray(m.data_cov, float))))
    bm, bc = base_params(m)
    return m, mean, std, bm, bc


def case_for(d, scales=(0.5, 0.2, 1.0)):
    return st.fixed_dictionaries(dict(d=st.just(d), scale=st.sampled_from(list(scales)), zero_d=st.booleans(), units=st.sampled_from([4, 0, 2, 6]),
                                      via=st.sampled_from(["fields", "constructor", "fields", "defaults"]), seed=SEED))


def big_case():
    """Other architectures than the small default one."""
    return st.tuples(case_for(2, (0.5, 0.2)), st.fixed_dictionaries(dict(
        d=st.sampled_from([7, 3]), layers=st.sampled_from([5, 1, 3]), bins=st.sampled_from([10, 2]), edge=st.sampled_from([10.0, 1.5]), wide=st.sampled_from([1.0, 20.0])))).map(lambda t: {**t[0], **t[1]})


def check_density(kind, case, ctx):
    m, mean, std, bm, bc = build(kind, case)
    d, n = case["d"], 60
    g = rng(case["seed"], 61)
    w = g.normal(size=(n, d)) * g.choice([0.5, 2.0, 6.0], size=(n, 1))
    x = mean + std * w
    x[:3] = mean + std * np.array([-4.0, 4.0, 0.0])[:, None]
    x = np.asarray(jnp.asarray(x), float)
    u, j = latent_and_jac(m, jnp.asarray(x), jnp.asarray(mean), jnp.asarray(std))
    u, j = np.asarray(u), np.asarray(j)
    ld = np.linalg.slogdet(j)[1]
    ref = np_gauss_logpdf(u, bm, bc) + ld
    got = flow_logq(m, x)
    require_shape(got, (n,), f"{kind}: log_prob")
    scale = 1 + np.abs(ref) + np.abs(np_gauss_logpdf(u, bm, bc))
    tol = 1e-7 * scale
    if by_precision(0, 1):
        # rounding of the standardised point, seen through the map's slope, and of the determinant
        jw = j * std
        du = np.abs(jw).max((1, 2)) * (1 + np.abs((x - mean) / std).max(-1) + np.abs(mean / std).max())
        tol = 1e-5 * (scale + np.linalg.cond(jw) * d + (1 + np.abs(u).max(-1)) * du / np.linalg.eigvalsh(np.atleast_2d(bc))[0])
        ctx.label("points too ill-conditioned to judge", int((tol > 0.1 * scale).sum()))
    require_close(got, ref, f"{kind} log_prob vs base density plus log-determinant of the data-to-latent map (d={d}, {case['via']})",
                  rtol=0, atol=tol)
    ctx.count(n)
    ctx.label(case["via"])
    ctx.nontrivial(np.abs(ld + np.log(std).sum()).max() > 1e-3)


def check_quad1(kind, case, ctx):
    m, mean, std, bm, bc = build(kind, case)
    s = float(np.sqrt(np.atleast_2d(bc)[0, 0]))
    u = np.linspace(bm[0] - 9 * s, bm[0] + 9 * s, 8001)[:, None]
    x = np.asarray(flow_inverse(m, jnp.asarray(u))[0])[:, 0] * std[0] + mean[0]
    x = np.unique(np.concatenate([x, np.linspace(x.min(), x.max(), 8001)]))
    p = np.exp(flow_logq(m, x[:, None]))
    total = float(np.sum(0.5 * (p[1:] + p[:-1]) * np.diff(x)))
    require(abs(total - 1) < 2e-3, f"{kind}: one-dimensional density integrates to {total:.5f}")
    # the samples follow that very density
    key = key_of(case["seed"])
    sm = np.asarray(draw(m, key, 20000), float)
    require_shape(sm, (20000, 1), f"{kind}: samples")
    cdf = np.concatenate([[0], np.cumsum(0.5 * (p[1:] + p[:-1]) * np.diff(x))])
    ks_uniform(np.clip(np.interp(sm[:, 0], x, cdf / cdf[-1]), 0, 1), f"{kind}: samples vs integrated density")
    ctx.count(len(x) + 20000)
    ctx.label(case["via"])
    ctx.nontrivial()


def check_quad2(kind, case, ctx):
    m, mean, std, bm, bc = build(kind, case)
    n = 40000
    sm = np.asarray(draw(m, key_of(case["seed"]), n), float)
    lo, hi = sm.min(0), sm.max(0)
    w = hi - lo
    lo, hi = lo - 0.3 * w, hi + 0.3 * w
    G = 500
    ax = [np.linspace(lo[i], hi[i], G + 1) for i in range(2)]
    mid = [0.5 * (a[1:] + a[:-1]) for a in ax]
    X = np.stack(np.meshgrid(mid[0], mid[1], indexing="ij"), -1).reshape(-1, 2)
    p = np.exp(flow_logq(m, X)).reshape(G, G) * (ax[0][1] - ax[0][0]) * (ax[1][1] - ax[1][0])
    total = p.sum()
    require(abs(total - 1) < 0.02, f"{kind}: two-dimensional density integrates to {total:.4f}")
    # counts in 10x10 cells against the integrated density
    B = 10
    cell = p.reshape(B, G // B, B, G // B).sum((1, 3)) / total
    idx = [np.clip(((sm[:, i] - lo[i]) / (hi[i] - lo[i]) * B).astype(int), 0, B - 1) for i in range(2)]
    cnt = np.zeros((B, B))
    np.add.at(cnt, (idx[0], idx[1]), 1)
    ex = n * cell
    # quadrature of a kinked density is good to about half a percent
    z = (np.abs(cnt - ex) - 0.02 * ex - 2) / np.sqrt(np.maximum(ex, 1))
    require(z.max() < 6.5, f"{kind}: samples do not follow the reported density: cell {np.unravel_index(z.argmax(), z.shape)} holds "
            f"{cnt.flat[z.argmax()]:.0f} of {n} samples, expected {ex.flat[z.argmax()]:.0f}")
    ctx.count(G * G + n)
    ctx.nontrivial((ex > 20).sum() > 10)


def check_samples(kind, case, ctx):
    m, mean, std, bm, bc = build(kind, case)
    d, n = case["d"], 20000
    key = key_of(case["seed"])
    per = case["per"] or None
    sm = np.asarray(draw(m, key, n, per), float)
    require_shape(sm, (n, d), f"{kind}: samples")
    require(np.isfinite(sm).all(), f"{kind}: non-finite samples")
    require(len(np.unique(sm, axis=0)) == n, f"{kind}: repeated samples")
    lat = np.asarray(flow_forward(m, jnp.asarray((sm - mean) / std))[0])
    z = np.linalg.solve(np.linalg.cholesky(np.atleast_2d(bc)), (lat - bm).T).T
    moments_normal(z, f"{kind} samples mapped to the latent space (d={d})")
    other = np.asarray(draw(m, jax.random.split(key)[0], n, per), float)
    for i in range(d):
        corr_zero(sm[:, i], other[:, i], f"{kind}: samples of two keys")
        for lag in (1, 2, n // 2):
            corr_zero(z[lag:, i], z[:-lag, i], f"{kind}: samples {lag} apart")
    ctx.count(n)
    ctx.label(case["via"])
    ctx.nontrivial()


def samples_case(d):
    """Drawn in one call, or a few at a time by many calls."""
    return st.tuples(case_for(d), st.sampled_from([0, 1, 4]), st.sampled_from([1.0, by_precision(25.0, 1.0)])).map(lambda t: {**t[0], "per": t[1], "wide": t[2]})


FACETS = [
    Facet(f"density_{k}_{d}d", functools.partial(check_density, k), functools.partial(case_for, d), quick=40, thorough=600,
          rule="60 points per case; non-trivial when the log-determinant of the unwhitened map is not zero")
    for k in ("rqs", "nvp") for d in (1, 2, 4)
] + [
    Facet(f"quadrature1_{k}", functools.partial(check_quad1, k), functools.partial(case_for, 1), quick=25, thorough=250,
          rule="16000-node integral plus 20000 samples; every case non-trivial") for k in ("rqs", "nvp")
] + [
    Facet(f"quadrature2_{k}", functools.partial(check_quad2, k), functools.partial(case_for, 2, (0.2, 0.3)), quick=10, thorough=60,
          rule="250000-cell integral plus 40000 samples in 100 cells; non-trivial when over 10 cells are populated") for k in ("rqs", "nvp")
] + [
    Facet(f"density_{k}_big", functools.partial(check_density, k), big_case, quick=10, thorough=150,
          rule="60 points per case on flows of 1 to 5 layers, 2 or 10 bins, ranges 1.5 and 10") for k in ("rqs", "nvp")
] + [
    Facet(f"samples_{k}_{d}d", functools.partial(check_samples, k), functools.partial(samples_case, d), quick=8, thorough=100,
          rule="20000 samples; every case non-trivial") for k in ("rqs", "nvp") for d in (1, 3)
]
FACETS += in_single_precision(FACETS, dict(density_rqs_2d=8, density_nvp_2d=8, density_rqs_4d=6, density_nvp_4d=6, density_rqs_1d=5, density_nvp_1d=5,
                                         samples_rqs_3d=3, samples_nvp_3d=3))
ASSUMPTIONS = ["the data-to-latent map is the model's forward map after standardising with data_mean and the diagonal of data_cov",
               "statistical thresholds beyond 6.3 standard errors on fixed seeds"]
