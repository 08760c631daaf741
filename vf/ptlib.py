"""Running the parallel-tempering strategy, eagerly (histories) or inside one compiled function."""
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np


def resources(kernel, tempered, temps, loglike, logprior, d, training, data_temps_name="temps"):
    from flowMC.resource.buffers import Buffer
    from flowMC.resource.logPDF import TemperedPDF
    from flowMC.resource.states import State

    K = temps.shape[0]
    tb = Buffer("tp", tempered.shape, 2)
    tb.data = jnp.asarray(tempered)
    lb = Buffer("temps", (K,), 0)
    lb.data = jnp.asarray(temps)
    return dict(t=TemperedPDF(loglike, logprior, n_dims=d, n_temps=K), k=kernel, tp=tb, temps=lb, s=State({"training": training}))


def strategy(n_steps, verbose=False):
    from flowMC.strategy.parallel_tempering import ParallelTempering

    return ParallelTempering(n_steps, "t", "k", ["tp", "temps"], "s", verbose=verbose)


def call(kernel, loglike, logprior, training, n_steps, key, x, tp, temps, data):
    """One call: (cold positions, tempered positions, temperatures)."""
    res = resources(kernel, tp, temps, loglike, logprior, x.shape[-1], training)
    key, res, last = strategy(n_steps)(key, res, x, data)
    return last, res["tp"].data, res["temps"].data


@eqx.filter_jit
def jcall(kernel, loglike, logprior, training, n_steps, key, x, tp, temps, data):
    return call(kernel, loglike, logprior, training, n_steps, key, x, tp, temps, data)


@eqx.filter_jit
def swap_thresholds(kernel, logprior, training, key, x0, x1, temps, span):
    """With log-likelihood x[0] for the first coordinate, the largest delta = L1 - L2 at which each
    chain's two replicas still swap (cold likelihood varied, hot one fixed)."""
    loglike = lambda x, data: x[0]

    def swapped(delta):
        cold = x0.at[:, 0].set(x1[:, 0] + delta)
        last, _, _ = call(kernel, loglike, logprior, training, 1, key, cold, x1[:, None], temps, {})
        return last[:, 1] == x1[:, 1]

    def body(_, lohi):
        lo, hi = lohi  # swaps at lo, not at hi
        mid = 0.5 * (lo + hi)
        s = swapped(mid)
        return jnp.where(s, mid, lo), jnp.where(s, hi, mid)

    n = x0.shape[0]
    lo, hi = jax.lax.fori_loop(0, 60, body, (-jnp.ones(n), span * jnp.ones(n)))
    return lo, swapped(-1e-9), swapped(span)
