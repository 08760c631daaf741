"""Shared building blocks: generated targets with independent numpy references, perturbed flows,
kernels used as instruments."""
from __future__ import annotations

import functools

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from vf.core import HarnessError, Violation, fail, require

SEED = st.integers(0, 2**31 - 1)


def real_type():
    """The precision of this process: double, or JAX's default single."""
    return np.float64 if jax.config.jax_enable_x64 else np.float32


def real(x):
    with np.errstate(over="ignore"):
        return np.asarray(x, real_type())


def by_precision(double, single):
    return double if jax.config.jax_enable_x64 else single



def rng(*ints) -> np.random.Generator:
    """numpy generator that is a pure function of integers chosen by Hypothesis."""
    return np.random.default_rng([int(i) & 0xFFFFFFFF for i in ints])


def keys(seed: int, n: int):
    return jax.random.split(jax.random.PRNGKey(int(seed) & 0x7FFFFFFF), n)


def key_of(seed: int):
    return jax.random.PRNGKey(int(seed) & 0x7FFFFFFF)


def fl(lo, hi, digits=4):
    """Floats with few digits: readable, shrinkable."""
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=32).map(
        lambda v: float(round(float(v), digits))
    )


def logfl(lo_exp, hi_exp):
    """10**e with e uniform-ish."""
    return st.integers(int(lo_exp * 10), int(hi_exp * 10)).map(lambda e: float(f"{10 ** (e / 10):.3g}"))


# ------------------------------------------------------------------ targets
# log p(x) = -1/2 (x-m)^T P (x-m) - a/4 sum (x-m)^4 + b sum sin(w x) + offset
def target_params(seed: int, d: int, kind: int, offset: float = 0.0, unit: float = 1.0) -> dict:
    g = rng(seed, d, 77)
    m = g.normal(size=d) * 2
    A = g.normal(size=(d, d)) * 0.6
    P = A @ A.T + np.eye(d) * g.uniform(0.1, 2.0)
    a, b, w = 0.0, 0.0, np.ones(d)
    if kind == 0:
        P = np.zeros((d, d))
    if kind >= 2:
        a = float(g.uniform(0.05, 0.5))
    if kind >= 3:
        b = float(g.uniform(0.2, 1.5))
        w = g.uniform(0.5, 3.0, size=d)
    return dict(m=m * unit, P=P / unit**2, a=a / unit**4, b=b, w=w / unit, offset=offset)


def target_logp(x, data):
    t = x - data["m"]
    return (
        -0.5 * jnp.dot(t, jnp.dot(data["P"], t))
        - 0.25 * data["a"] * jnp.sum(t**4)
        + data["b"] * jnp.sum(jnp.sin(data["w"] * x))
        + data["offset"]
    )


def np_logp(x, p):
    x = np.asarray(x)
    t = x - p["m"]
    return (
        -0.5 * np.einsum("...i,ij,...j->...", t, p["P"], t)
        - 0.25 * p["a"] * np.sum(t**4, -1)
        + p["b"] * np.sum(np.sin(p["w"] * x), -1)
        + p["offset"]
    )


def np_grad(x, p):
    t = np.asarray(x) - p["m"]
    return (
        -np.einsum("ij,...j->...i", p["P"], t)
        - p["a"] * t**3
        + p["b"] * p["w"] * np.cos(p["w"] * x)
    )


def to_jax(tree):
    return jax.tree.map(lambda v: jnp.asarray(v), tree)


def probe_logp(x, data):
    """Target plus a constant `c` everywhere except at the starting point `x0`.  The constant has
    zero gradient, so it shifts only the acceptance ratio and never the proposal."""
    return target_logp(x, data) + data["c"] * jnp.any(x != data["x0"]).astype(x.dtype)


# ------------------------------------------------------------------ flows
def perturb(tree, scale, seed, shrink_first=None):
    """Add N(0, scale^2) noise (fan-in scaled for matrices) to every inexact array leaf."""
    dyn, static = eqx.partition(tree, eqx.is_inexact_array)
    leaves, td = jax.tree.flatten(dyn)
    g = rng(seed, 991)
    out = []
    for l in leaves:
        s = scale
        if l.ndim >= 3:  # stacked linear weights (layers, out, in)
            s = scale / np.sqrt(l.shape[-1])
        elif l.ndim == 2 and l.shape[-1] > 1:
            s = scale / np.sqrt(l.shape[-1]) if l.shape[-1] < 64 else scale
        out.append(l + jnp.asarray(g.normal(size=l.shape) * s, dtype=l.dtype))
    return eqx.combine(jax.tree.unflatten(td, out), static)


@functools.lru_cache(maxsize=None)
def _rqs(d, layers, hidden, bins, lo, hi):
    from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline

    return MaskedCouplingRQSpline(d, layers, list(hidden), bins, jax.random.PRNGKey(3), spline_range=(lo, hi))


@functools.lru_cache(maxsize=None)
def _nvp(d, layers, hidden):
    from flowMC.resource.model.nf_model.realNVP import RealNVP

    return RealNVP(d, layers, hidden, jax.random.PRNGKey(4))


def make_flow(kind: str, d: int, layers: int, seed: int, scale: float, stats=True, base=True,
              bins: int = 4, rng_range=(-4.0, 4.0), as_is: bool = False):
    """A flow with generated parameters, data statistics and base distribution.  `layers` etc. are
    taken from small sets so that compiled code is shared between cases."""
    from flowMC.resource.model.common import Gaussian

    m = _rqs(d, layers, (6,), bins, *rng_range) if kind == "rqs" else _nvp(d, layers, 6)
    sub = "layers" if kind == "rqs" else "affine_coupling"
    if not as_is:
        m = eqx.tree_at(lambda t: getattr(t, sub), m, perturb(getattr(m, sub), scale, seed))
    g = rng(seed, 5)
    dt = m._data_mean.dtype
    if stats:
        A = g.normal(size=(d, d)) * 0.7
        cov = A @ A.T + np.diag(g.uniform(0.05, 3.0, size=d))
        m = eqx.tree_at(lambda t: (t._data_mean, t._data_cov), m,
                        (jnp.asarray(g.normal(size=d) * 3, dt), jnp.asarray(cov, dt)))
    if base:
        A = g.normal(size=(d, d)) * 0.5
        cov = A @ A.T + np.diag(g.uniform(0.3, 1.5, size=d))
        m = eqx.tree_at(lambda t: t.base_dist, m,
                        Gaussian(jnp.asarray(g.normal(size=d) * 0.5, dt), jnp.asarray(cov, dt)))
    return m


def np_gauss_logpdf(x, mean, cov):
    x = np.atleast_2d(np.asarray(x, float))
    cov = np.atleast_2d(np.asarray(cov, float))
    L = np.linalg.cholesky(cov)
    z = np.linalg.solve(L, (x - mean).T).T
    return -0.5 * (z**2).sum(-1) - np.log(np.diag(L)).sum() - 0.5 * x.shape[-1] * np.log(2 * np.pi)


def base_params(model):
    return np.asarray(model.base_dist.mean, float), np.asarray(model.base_dist.cov, float)


def leaves_equal(a, b) -> bool:
    la, ta = jax.tree.flatten(a)
    lb, tb = jax.tree.flatten(b)
    if len(la) != len(lb):
        return False
    for x, y in zip(la, lb):
        if eqx.is_array(x) or eqx.is_array(y) or isinstance(x, (float, int)):
            x, y = np.asarray(x), np.asarray(y)
            if x.shape != y.shape or not np.array_equal(x, y, equal_nan=x.dtype.kind == "f"):
                return False
    return True


def arrays_of(tree):
    return [np.asarray(l) for l in jax.tree.leaves(eqx.filter(tree, eqx.is_array))]


# compiled once per architecture and shape; the model is an argument
@eqx.filter_jit
def _flow_logq(m, x):
    return jax.vmap(m.log_prob)(x)


@eqx.filter_jit
def flow_forward(m, x):
    return jax.vmap(m.forward)(x)


@eqx.filter_jit
def flow_inverse(m, x):
    return jax.vmap(m.inverse)(x)


def flow_logq(m, x):
    return np.asarray(_flow_logq(m, jnp.atleast_2d(jnp.asarray(x))), float)
