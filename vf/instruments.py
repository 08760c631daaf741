"""Kernels and models used as measuring instruments (subclasses of the library's public bases)."""
import equinox as eqx
import jax
import jax.numpy as jnp

from flowMC.resource.kernel.base import ProposalBase


class _Instrument(ProposalBase):
    def print_parameters(self):
        pass

    def save_resource(self, path):
        raise NotImplementedError

    def load_resource(self, path):
        raise NotImplementedError


class CountKernel(_Instrument):
    """Every update adds one to every coordinate; the accept flag is a function of the position.  An
    error in the log-probability it is handed is passed on, so it shows up in the records."""

    period: int

    def __init__(self, period=3):
        self.period = period

    def kernel(self, rng_key, position, log_prob, logpdf, data):
        new = position + 1.0
        carried = jnp.where(jnp.abs(log_prob - logpdf(position, data)) <= 1e-9 * (1 + jnp.abs(log_prob)), 0.0, log_prob - logpdf(position, data))
        return new, logpdf(new, data) + carried, (jnp.mod(new[0], self.period) >= 1.0)


class CountGroupKernel(_Instrument):
    """The grouped analogue: n_steps consecutive counts at once."""

    period: int

    def __init__(self, period=4):
        self.period = period

    def kernel(self, rng_key, position, log_prob, logpdf, data):
        n = data["n_steps"]
        new = position[None, :] + 1.0 + jnp.arange(n, dtype=position.dtype)[:, None]
        lp = jax.vmap(lambda x: logpdf(x, data))(new)
        off = log_prob - logpdf(position, data)
        lp = lp + jnp.where(jnp.abs(off) <= 1e-9 * (1 + jnp.abs(log_prob)), 0.0, off)
        return new, lp, (jnp.mod(new[:, 0], self.period) >= 1.0)


class FrozenKernel(_Instrument):
    """Never moves."""

    def __init__(self):
        pass

    def kernel(self, rng_key, position, log_prob, logpdf, data):
        return position, log_prob, jnp.zeros((), bool)


class GradKernel(_Instrument):
    """Deterministic ascent on whatever density it is given: reveals that density's gradient, and
    turns into nan when the carried log-probability is not the density at the position."""

    rate: float

    def __init__(self, rate):
        self.rate = rate

    def kernel(self, rng_key, position, log_prob, logpdf, data):
        v, g = jax.value_and_grad(lambda x: logpdf(x, data))(position)
        ok = jnp.abs(v - log_prob) <= 1e-6 * (1 + jnp.abs(v))
        new = jnp.where(ok, position + self.rate * g, jnp.nan)
        return new, logpdf(new, data), jnp.ones((), bool)


from flowMC.resource.model.nf_model.base import NFModel  # noqa: E402


class ScriptedModel(NFModel):
    """A model whose k-th training step reports the loss table[k] whatever the data, and records
    which examples (numbered by their first feature) that step saw in used[k].  The loss has slope
    -1 in `count` and -1/batch in used[k, example], so plain gradient descent does the recording."""

    count: jax.Array
    used: jax.Array
    table: jax.Array

    def __init__(self, d, n, table):
        self._n_features = d
        self._data_mean = jnp.zeros(d) + 0.5
        self._data_cov = jnp.eye(d) * 2.0
        self.count = jnp.zeros(())
        self.used = jnp.zeros((len(table), n))
        self.table = jnp.asarray(table)

    def log_prob(self, x):
        sg = jax.lax.stop_gradient
        k = jnp.clip(jnp.round(sg(self.count)).astype(int), 0, self.table.shape[0] - 1)
        u = self.used[k, jnp.round(x[0]).astype(int)]
        return -sg(self.table[k]) + (self.count - sg(self.count)) + (u - sg(u))

    def sample(self, rng_key, n_samples):
        return jnp.zeros((n_samples, self._n_features))

    def forward(self, x, key=None):
        return x, 0.0

    def inverse(self, x):
        return x, 0.0

    def print_parameters(self):
        pass


class SpyModel(NFModel):
    """Records what it is asked to train on and returns a marked copy and scripted losses."""

    tag: int = eqx.field(static=True)
    log: object = eqx.field(static=True)

    def __init__(self, d, log, tag=0):
        self._n_features = d
        self._data_mean = jnp.zeros(d)
        self._data_cov = jnp.eye(d)
        self.tag = tag
        self.log = log

    def train(self, rng, data, optim, state, num_epochs, batch_size, verbose=True):
        tag = self.tag + 1
        losses = jnp.arange(num_epochs, dtype=float) * 0.5 + 100.0 * tag
        self.log.append(dict(rng=rng, data=data, optim=optim, state=state, num_epochs=num_epochs,
                             batch_size=batch_size, verbose=verbose, tag=self.tag, losses=losses))
        return rng, SpyModel(self._n_features, self.log, tag), ("state", tag), losses

    def log_prob(self, x):
        return jnp.zeros(())

    def sample(self, rng_key, n_samples):
        return jnp.zeros((n_samples, self._n_features))

    def forward(self, x, key=None):
        return x, 0.0

    def inverse(self, x):
        return x, 0.0

    def print_parameters(self):
        pass
