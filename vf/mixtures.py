"""Mixtures of Gaussians: exact draws, exact distributions of projections, tests that points follow one."""
import jax
import jax.numpy as jnp
import numpy as np
from scipy.special import ndtr

from vf.core import Z_MAX, require


def gen_mixture(g, d, K, unit=1.0, lo=0.4, hi=1.6, shift=1.0):
    S, m = [], []
    for _ in range(K):
        Q = np.linalg.qr(g.normal(size=(d, d)))[0]
        S.append((Q * g.uniform(lo, hi, size=d)) @ Q.T * unit**2)
        m.append(g.normal(size=d) * shift * unit)
    w = g.uniform(0.5, 1.5, size=K)
    return dict(w=w / w.sum(), m=np.array(m), S=np.array(S), P=np.linalg.inv(np.array(S)), ld=np.array([np.linalg.slogdet(s)[1] for s in S]))


def mix_logp(x, data):
    p = data["mix"]
    t = x - p["m"]
    return jax.scipy.special.logsumexp(jnp.log(p["w"]) - 0.5 * jnp.einsum("ki,kij,kj->k", t, p["P"], t) - 0.5 * p["ld"]) + data["offset"]


def mix_draw(g, p, n):
    k = g.choice(len(p["w"]), size=n, p=p["w"])
    return np.stack([g.multivariate_normal(p["m"][i], p["S"][i], method="cholesky") for i in k])


def projections(g, d):
    return np.concatenate([np.eye(d), g.normal(size=(4, d))])


def uniforms(x, p, V):
    """The exact distribution function of every projection of the mixture at x: uniform if x follows it."""
    y = x @ V.T
    mk = p["m"] @ V.T
    sk = np.sqrt(np.einsum("pi,kij,pj->kp", V, p["S"], V))
    return (p["w"][:, None] * ndtr((y[..., None, :] - mk) / sk)).sum(-2)


def scores(x, p, V):
    """Five orthonormal functions of each projection, mean zero and variance one under the mixture."""
    u = uniforms(x, p, V)
    return np.sqrt(2) * np.cos(np.pi * np.arange(1, 6)[:, None] * u[..., None, :])


def follows(x, p, V, what):
    """x (n, d): independent draws of the mixture?"""
    require(np.isfinite(x).all(), f"{what}: not finite")
    z = scores(x, p, V).mean(0) * np.sqrt(len(x))
    i = np.unravel_index(np.argmax(np.abs(z)), z.shape)
    require(np.abs(z).max() <= Z_MAX, f"{what} do not follow the target: along {np.round(V[i[1]], 3)} the score is {z[i]:.1f} standard errors from zero ({len(x)} chains)")


def follows_on_average(x, p, V, what):
    """x (n, slots, d): independent chains, each stationary."""
    c = scores(x, p, V).mean(1)
    z = c.mean(0) * np.sqrt(len(c)) / np.maximum(c.std(0), 1e-9)
    i = np.unravel_index(np.argmax(np.abs(z)), z.shape)
    require(np.abs(z).max() <= Z_MAX, f"{what} do not follow the target: along {np.round(V[i[1]], 3)} the score averaged over {x.shape[1]} records is {z[i]:.1f} standard errors from zero")
