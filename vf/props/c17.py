"""C17: flow-matching density, samples, paths and training agree with the velocity field."""
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import diffrax
import optax
from hypothesis import strategies as st

from vf.common import SEED, arrays_of, by_precision, key_of, real, rng
from vf.core import Facet, in_single_precision, corr_zero, ks_uniform, moments_normal, require, require_close, require_equal, require_shape
from vf.props.c09 import SHAPES, make_table

from flowMC.resource.model.common import MLP
from flowMC.resource.model.flowmatching.base import CondOTScheduler, FlowMatchingModel, Path, Scheduler, Solver


# ------------------------------------------------------------------ networks
def tanh_net(d, hidden, seed, scale):
    net = MLP([d + 1, *hidden, d], key=key_of(2), activation=jnp.tanh)
    g = rng(seed, 171)

    def w(l):
        fan = l.shape[-1] if l.ndim == 2 else 1
        return jnp.asarray(g.normal(size=l.shape) * scale / np.sqrt(fan))

    return jax.tree.map(lambda l: w(l) if eqx.is_array(l) else l, net)


def linear_net(A, b, c):
    """v(x, t) = A x + b t + c"""
    d = len(c)
    net = MLP([d + 1, d], key=key_of(2))
    return eqx.tree_at(lambda n: (n.layers[0].weight, n.layers[0].bias), net, (jnp.asarray(np.concatenate([A, b[:, None]], 1)), jnp.asarray(c)))


METHODS = dict(Dopri5=diffrax.Dopri5, Tsit5=diffrax.Tsit5, Dopri8=diffrax.Dopri8)


def make_model(net, g, d, stats, unit=1.0, method=None):
    mean = cov = None
    if stats:
        B = g.normal(size=(d, d)) * 0.7
        u = unit ** g.uniform(0, 1, size=d) if unit != 1 else np.ones(d)
        mean, cov = jnp.asarray(g.normal(size=d) * 3 * u), jnp.asarray((B @ B.T + np.diag(g.uniform(0.05, 3, size=d))) * np.outer(u, u))
    m = FlowMatchingModel(Solver(net) if method is None else Solver(net, METHODS[method]()), Path(CondOTScheduler()), data_mean=mean, data_cov=cov)
    return m, (np.zeros(d) if mean is None else np.asarray(mean)), (np.ones(d) if cov is None else np.sqrt(np.diag(np.asarray(cov))))


@eqx.filter_jit
def lib_logp(m, x):
    return jax.vmap(m.log_prob)(x)


@eqx.filter_jit
def lib_solver_logp(s, x, dt):
    return jax.vmap(lambda y: s.log_prob(y, dt))(x)


@eqx.filter_jit
def lib_sample(m, key, n, per=0):
    """n samples, in one call or `per` at a time."""
    if per == 0:
        return m.sample(key, n)
    return jax.vmap(lambda k: m.sample(k, per))(jax.random.split(key, n // per)).reshape(n, -1)


@eqx.filter_jit
def lib_solver_sample(s, key, n, dt):
    return s.sample(key, n, dt)


# ------------------------------------------------------------------ independent integration (classical Runge-Kutta)
@eqx.filter_jit
def ref_pull_back(net, y, steps=400):
    """Latent point and integral of the divergence along the trajectory ending in y at time one."""
    def f(x, t):
        v = lambda q: net(jnp.concatenate([q, jnp.reshape(t, (1,))]))
        return v(x), jnp.trace(jax.jacfwd(v)(x))

    h = -1.0 / steps

    def one(x):
        def body(i, c):
            x, l = c
            t = 1.0 + i * h
            k1, d1 = f(x, t)
            k2, d2 = f(x + 0.5 * h * k1, t + 0.5 * h)
            k3, d3 = f(x + 0.5 * h * k2, t + 0.5 * h)
            k4, d4 = f(x + h * k3, t + h)
            return x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4), l + h / 6 * (d1 + 2 * d2 + 2 * d3 + d4)

        return jax.lax.fori_loop(0, steps, body, (x, jnp.zeros(())))

    return jax.vmap(one)(y)


def ref_logp(net, x, mean, std):
    z, l = ref_pull_back(net, jnp.asarray((x - mean) / std))
    z, l = np.asarray(z), np.asarray(l)
    return -0.5 * (z**2).sum(-1) - 0.5 * x.shape[-1] * np.log(2 * np.pi) + l - np.log(std).sum(), z


def points(g, n, mean, std):
    return mean + std * g.normal(size=(n, len(mean))) * g.choice([0.3, 1.0, 2.5], size=(n, 1))


# ------------------------------------------------------------------ densities
def check_density(case, ctx):
    d, n = case["d"], 40
    g = rng(case["seed"], 172)
    net = tanh_net(d, case["hidden"], case["seed"], case["scale"])
    m, mean, std = make_model(net, g, d, case["stats"], case.get("unit", 1.0), case.get("method"))
    x = points(g, n, mean, std)
    lp = np.asarray(lib_logp(m, jnp.asarray(x)))
    require(lp.size == n, f"log-densities of {n} points have shape {lp.shape}")
    want, z = ref_logp(net, x, mean, std)
    tol = 2e-4 * (1 + np.abs(z).max()) * (1 + case["scale"]) ** 3
    require_close(lp.reshape(n), want, f"log-density of a {d}-dimensional flow (weights {case['scale']}) against an independent integration of its network", rtol=0, atol=tol)
    fine = np.asarray(lib_solver_logp(m.solver, jnp.asarray((x - mean) / std), 0.02)).reshape(n) - np.log(std).sum()
    tol = by_precision(tol, 50 * tol)
    require_close(fine, want, "log-density integrated in steps of 0.02", rtol=0, atol=tol / 50)
    ctx.count(2 * n)
    move = float(np.abs(z - (x - mean) / std).max())
    ctx.label("moved by more than one", move > 1)
    ctx.nontrivial(move > 0.1)


def density_case():
    return st.fixed_dictionaries(dict(d=st.sampled_from([6, 2, 1, 3, 4]), hidden=st.sampled_from([[6], [5, 4]]), scale=st.sampled_from([1.0, 0.3, 1.5]), stats=st.booleans(), unit=st.sampled_from([1.0, 1e4, 1e-3]), method=st.sampled_from([None, "Tsit5", None, "Dopri8", "Dopri5"]), seed=SEED))


def check_linear(case, ctx):
    """v = A x + b t + c: the flow is Gaussian, and its moments are integrals of exp(A s)."""
    from scipy.linalg import expm

    d = case["d"]
    g = rng(case["seed"], 173)
    A, b, c = g.normal(size=(d, d)) * case["scale"], g.normal(size=d), g.normal(size=d)
    net = linear_net(A, b, c)
    m, mean, std = make_model(net, g, d, case["stats"], case.get("unit", 1.0), case.get("method"))
    # augmented system (x, t, 1)
    M = np.zeros((d + 2, d + 2))
    M[:d, :d], M[:d, d], M[:d, d + 1], M[d, d + 1] = A, b, c, 1.0
    E = expm(M)
    F, shift = E[:d, :d], E[:d, d + 1]
    mu, C = mean + std * shift, std[:, None] * (F @ F.T) * std
    x = points(g, 40, mu, np.sqrt(np.diag(C)))
    L = np.linalg.cholesky(C)
    z = np.linalg.solve(L, (x - mu).T).T
    want = -0.5 * (z**2).sum(-1) - np.log(np.diag(L)).sum() - 0.5 * d * np.log(2 * np.pi)
    lp = np.asarray(lib_logp(m, jnp.asarray(x))).reshape(-1)
    require_close(lp, want, f"log-density of a linear velocity field (Gaussian with mean {mu})", rtol=1e-4, atol=1e-3)
    N = 20000
    s = np.asarray(lib_sample(m, key_of(case["seed"]), N, case["per"]))
    require_shape(s, (N, d), "samples")
    moments_normal(np.linalg.solve(L, (s - mu).T).T, "samples of a linear velocity field, whitened by the exact moments")
    ctx.count(40 + N)
    ctx.nontrivial()


def linear_case():
    return st.fixed_dictionaries(dict(d=st.sampled_from([6, 2, 1, 3]), per=st.sampled_from([0, 1, 4]), scale=st.sampled_from([0.7, 0.2]), stats=st.booleans(), unit=st.sampled_from([1.0, 1e4, 1e-3]), method=st.sampled_from([None, "Tsit5", None, "Dopri8", "Dopri5"]), seed=SEED))


# ------------------------------------------------------------------ normalisation and samples
def check_normal1(case, ctx):
    g = rng(case["seed"], 174)
    net = tanh_net(1, [6], case["seed"], case["scale"])
    m, mean, std = make_model(net, g, 1, case["stats"], case.get("unit", 1.0), case.get("method"))
    N = 20000
    s = np.asarray(lib_sample(m, key_of(case["seed"]), N))
    require_shape(s, (N, 1), "samples")
    s = s[:, 0]
    lo, hi = s.min() - 4 * s.std(), s.max() + 4 * s.std()
    x = np.linspace(lo, hi, 4001)
    p = np.exp(np.asarray(lib_logp(m, jnp.asarray(x[:, None]))).reshape(-1))
    dx = x[1] - x[0]
    total = float((p[1:-1].sum() + 0.5 * (p[0] + p[-1])) * dx)
    require(abs(total - 1) < 2e-3, f"the density integrates to {total} over [{lo}, {hi}]")
    cdf = np.concatenate([[0.0], np.cumsum(0.5 * (p[1:] + p[:-1]) * dx)])
    u = np.interp(s, x, cdf)
    ks_uniform(u, "samples against the cumulative density")
    corr_zero(u[1:], u[:-1], "successive samples")
    s2 = np.asarray(lib_sample(m, key_of(case["seed"] + 1), N))[:, 0]
    corr_zero(s, s2, "samples of two keys")
    ctx.count(N)
    ctx.nontrivial(abs(np.mean(((s - mean) / std) ** 2) - 1) > 0.05)


def normal1_case():
    return st.fixed_dictionaries(dict(scale=st.sampled_from([1.0, 0.5, 1.5]), stats=st.booleans(), unit=st.sampled_from([1.0, 1e4, 1e-3]), method=st.sampled_from([None, "Tsit5", None, "Dopri8", "Dopri5"]), seed=SEED))


def check_samples(case, ctx):
    """Samples pulled back by an independent integration are standard normal."""
    d, N = case["d"], 20000
    g = rng(case["seed"], 175)
    net = tanh_net(d, case["hidden"], case["seed"], case["scale"])
    m, mean, std = make_model(net, g, d, case["stats"], case.get("unit", 1.0), case.get("method"))
    if case["direct"]:
        s = np.asarray(lib_solver_sample(m.solver, key_of(case["seed"]), N, case["dt"])) * std + mean
    else:
        s = np.asarray(lib_sample(m, key_of(case["seed"]), N, case["per"]))
    require_shape(s, (N, d), "samples")
    z = np.asarray(ref_pull_back(net, jnp.asarray((s - mean) / std), 100)[0])
    moments_normal(z, "samples pulled back to the latent space")
    for i in range(d):
        corr_zero(z[1:, i], z[:-1, i], "successive samples")
        for j in range(i):
            corr_zero(z[:, i], z[:, j], f"latent coordinates {i} and {j}")
    ctx.count(N)
    ctx.nontrivial()


def samples_case():
    return st.fixed_dictionaries(dict(d=st.sampled_from([2, 3, 5]), per=st.sampled_from([0, 1, 4]), unit=st.sampled_from([1.0, 1e4, 1e-3]), hidden=st.sampled_from([[6], [5, 4]]), scale=st.sampled_from([1.0, 0.3]), stats=st.booleans(), direct=st.booleans(), dt=st.sampled_from([0.1, 0.05]), seed=SEED))


# ------------------------------------------------------------------ paths
class Wiggle(Scheduler):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __call__(self, t):
        return t**self.a, self.a * t ** (self.a - 1), jnp.cos(self.b * t) * (1 - t), -self.b * jnp.sin(self.b * t) * (1 - t) - jnp.cos(self.b * t)


def check_path(case, ctx):
    g = rng(case["seed"], 176)
    n, d = case["n"], case["d"]
    sched = CondOTScheduler() if case["linear"] else Wiggle(int(g.integers(1, 4)), float(g.normal()))
    path = Path(sched)
    x0, x1 = g.normal(size=(n, d)) * case["size"], g.normal(size=(n, d)) * case["size"]
    t = g.uniform(0, 1, size=(n, 1))
    t[0] = 0.0
    t[-1] = 1.0
    xt, dxt = (np.asarray(v) for v in path.sample(jnp.asarray(x0), jnp.asarray(x1), jnp.asarray(t)))
    require_shape(xt, (n, d), "path points")
    require_shape(dxt, (n, d), "path derivatives")
    tol = 1e-9 * case["size"] * 10
    for end, want in ((0.0, x0), (1.0, x1)):
        e, _ = path.sample(jnp.asarray(x0), jnp.asarray(x1), jnp.full((n, 1), end))
        require_close(np.asarray(e), want, f"path at time {end}", atol=tol)
    f = lambda q: path.sample(jnp.asarray(x0), jnp.asarray(x1), q)[0]
    _, num = jax.jvp(f, (jnp.asarray(t),), (jnp.ones((n, 1)),))
    require_close(dxt, np.asarray(num), "stated time derivative of the path against its actual one", atol=tol)
    if case["linear"]:
        require_close(xt, (1 - t) * x0 + t * x1, "points of the optimal-transport path", atol=tol)
        require_close(dxt, x1 - x0, "velocity of the optimal-transport path", atol=tol)
    for i in range(min(n, 3)):  # one point at a time, scalar time
        a, b = path.sample(jnp.asarray(x0[i]), jnp.asarray(x1[i]), float(t[i, 0]))
        require_close(np.asarray(a), xt[i], "path point for a scalar time", atol=tol)
        require_close(np.asarray(b), dxt[i], "path derivative for a scalar time", atol=tol)
    ctx.count(n)
    ctx.nontrivial(n > 2)


def path_case():
    return st.fixed_dictionaries(dict(n=st.one_of(st.integers(1, 6), st.sampled_from([40, 300])), d=st.one_of(st.integers(1, 3), st.just(12)), linear=st.booleans(), size=st.sampled_from([1.0, 100.0, 1e-3, 1e8, 1e-9]), seed=SEED))


# ------------------------------------------------------------------ training: which epoch, which batches
class ScriptedNet(eqx.Module):
    """A velocity network whose k-th training step has mean squared error table[k] whatever the data.
    With latent points zero the path velocity is x_t / t, and t numbers the examples; the error has
    slope -1/batch in used[k, example], so the gradient records which examples the step saw."""
    count: jax.Array
    used: jax.Array
    table: jax.Array
    d: int = eqx.field(static=True)
    n: int = eqx.field(static=True)

    n_input = property(lambda self: self.d + 1)
    n_output = property(lambda self: self.d)

    def __call__(self, x):
        sg = jax.lax.stop_gradient
        t = x[-1]
        i = jnp.round(t * (self.n + 1)).astype(int) - 1
        k = jnp.clip(jnp.round(sg(self.count)).astype(int), 0, self.table.shape[0] - 1)
        r = jnp.sqrt(sg(self.table[k]))
        u = self.used[k, i]
        return x[:-1] / t + r - (u - sg(u)) / (2 * r) + 0 * self.count


def recorder():
    def init(p):
        return jnp.zeros((), int)

    def update(g, s, p=None):
        up = jax.tree.map(jnp.zeros_like, g)
        up = eqx.tree_at(lambda m: (m.solver.model.count, m.solver.model.used), up, (jnp.ones(()), -jnp.nan_to_num(g.solver.model.used)))
        return up, s + 1

    return optax.GradientTransformation(init, update)


def check_scripted(case, ctx):
    n, B = SHAPES[case["shape"]]
    d, E = case["d"], case["epochs"]
    S = max(1, n // B)
    table = real(np.abs(make_table(case["seed"], E * S + 1, case["how"])) + 0.25)
    g = rng(case["seed"], 177)
    net = ScriptedNet(jnp.zeros(()), jnp.zeros((len(table), n)), jnp.asarray(table), d, n)
    m0 = FlowMatchingModel(Solver(net), Path(CondOTScheduler()), data_mean=jnp.asarray(g.normal(size=d)), data_cov=jnp.eye(d) * 2)
    before = arrays_of(m0)
    x1 = g.normal(size=(n, d)) * np.exp(g.normal(size=d)) + g.normal(size=d) * 5
    t = (np.arange(n)[:, None] + 1) / (n + 1)
    opt = recorder()
    key = key_of(case["seed"])
    k2, m, s, loss = m0.train(key, (jnp.zeros((n, d)), jnp.asarray(x1), jnp.asarray(t)), opt, opt.init(None), E, B, verbose=case["verbose"])
    what = f"flow-matching training of {E} epochs, {n} examples in batches of {B}, losses {case['how']}"
    for a, b in zip(arrays_of(m0), before):
        require_equal(a, b, f"{what}: the original model")
    require(not np.array_equal(np.asarray(k2), np.asarray(key)), f"{what}: the key handed on is the one received")
    loss = np.asarray(loss, float)
    require_shape(loss, (E,), f"{what}: losses")
    per = table[: E * S].reshape(E, S)
    degenerate = n == 1  # no covariance
    if degenerate:
        return
    for e in range(E):
        v = per[e][~np.isnan(per[e])]
        tol = by_precision(1e-7, 1e-3) * (1 + np.abs(v[np.isfinite(v)]).max(initial=0))
        ok = np.isnan(per[e]).any() if np.isnan(loss[e]) else len(v) > 0 and v.min() - tol <= loss[e] <= v.max() + tol
        require(ok or not np.isfinite(per[e]).all(), f"{what}: epoch {e} reports {loss[e]}, its batches had mean squared errors {per[e]}")
    valid = np.isfinite(loss)
    net1 = m.solver.model
    cnt = float(np.asarray(net1.count))
    if not valid.any():
        for a, b in zip(arrays_of(m), before):
            require_equal(a, b, f"{what}: no epoch has a valid loss, the original model should come back")
        require(int(s) == 0, f"{what}: no epoch has a valid loss, the original optimiser state should come back")
        ctx.label("no valid loss")
    else:
        lowest = loss[valid].min()
        best = np.flatnonzero(np.abs(loss - lowest) <= by_precision(1e-12, 1e-6) * abs(lowest))
        want = [int(S * (b + 1)) for b in best]
        require(cnt in want, f"{what}: returned model is the one after {cnt:.0f} updates; the lowest reported loss belongs to the epochs ending at {want} (losses {loss})")
        require(int(s) == int(cnt), f"{what}: model after {cnt:.0f} updates but optimiser state after {int(s)}")
        require_close(np.asarray(m.data_mean), x1.mean(0), f"{what}: data mean", rtol=by_precision(1e-12, 1e-5), atol=by_precision(1e-12, 1e-5))
        require_close(np.asarray(m.data_cov), np.atleast_2d(np.cov(x1.T)), f"{what}: data covariance", rtol=by_precision(1e-10, 1e-4), atol=by_precision(1e-10, 1e-3))
        fin = np.isfinite(per.ravel()[: int(cnt)])
        used = np.asarray(net1.used)[: int(cnt)] * min(n, B)
        require_close(used[fin], np.round(used[fin]), f"{what}: usage counts", rtol=0, atol=by_precision(1e-6, 1e-3))
        used = np.round(used).astype(int)
        for k in np.flatnonzero(fin):
            require(used[k].max() <= 1, f"{what}: step {k} uses an example {used[k].max()} times")
            require(used[k].sum() == min(n, B), f"{what}: step {k} uses {used[k].sum()} examples instead of {min(n, B)}")
        ep = used.reshape(-1, S, n)
        require(ep.sum(1).max() <= 1, f"{what}: batches of one epoch overlap")
        orders = {tuple(map(tuple, e)) for e in ep.tolist()} if fin.all() else set(range(len(ep)))
        if n >= 10 and S > 1 and len(ep) >= 4:
            require(len(orders) > 1, f"{what}: all epochs used the same batches in the same order")
        if n >= 20 and S > 1:  # below, a coincidence is not rare enough
            require(len(orders) == len(ep), f"{what}: two epochs used the same batches in the same order")
        ctx.label("best is not last", cnt < E * S)
    ctx.count(E * S)
    ctx.label(case["how"])
    ctx.nontrivial(E > 1)


def scripted_case():
    return st.fixed_dictionaries(dict(
        shape=st.integers(0, len(SHAPES) - 1), d=st.sampled_from([2, 1]), epochs=st.sampled_from([4, 1, 2, 7, 12]),
        how=st.sampled_from(["random", "ties", "nan", "all nan", "decreasing", "increasing", "late nan"]), verbose=st.booleans(), seed=SEED))


# ------------------------------------------------------------------ training: what is minimised
@eqx.filter_jit
def ref_step(net, x_t, t, dx, optim, state):
    def loss(q):
        return jnp.mean((jax.vmap(q)(jnp.concatenate([x_t, t], -1)) - dx) ** 2)

    v, gr = eqx.filter_value_and_grad(loss)(net)
    up, state = optim.update(gr, state, net)
    return v, eqx.apply_updates(net, up), state


def check_real(case, ctx):
    d, n, E = case["d"], 30, 6
    g = rng(case["seed"], 178)
    net = tanh_net(d, [6], case["seed"], 0.7)
    m0, _, _ = make_model(net, g, d, case["stats"], case.get("unit", 1.0), case.get("method"))
    x1 = g.normal(size=(n, d)) * np.exp(g.normal(size=d)) + g.normal(size=d) * 5
    x0, t = g.normal(size=(n, d)), g.uniform(size=(n, 1))
    opt = optax.adam(case["lr"])
    before = arrays_of(m0)
    _, m, s, loss = m0.train(key_of(case["seed"]), (jnp.asarray(x0), jnp.asarray(x1), jnp.asarray(t)), opt, opt.init(eqx.filter(m0, eqx.is_array)), E, case["batch"], verbose=False)
    for a, b in zip(arrays_of(m0), before):
        require_equal(a, b, "the original model after training")
    w = (x1 - x1.mean(0)) / np.sqrt(np.diag(np.atleast_2d(np.cov(x1.T))))
    x_t, dx = jnp.asarray((1 - t) * x0 + t * w), jnp.asarray(w - x0)
    r, rs = net, opt.init(eqx.filter(net, eqx.is_array))
    ref, hist = [], []
    for _ in range(E):
        v, r, rs = ref_step(r, x_t, jnp.asarray(t), dx, opt, rs)
        ref.append(float(v))
        hist.append(r)
    loss = np.asarray(loss, float)
    require_close(loss, np.array(ref), "per-epoch losses of a full-batch training against mean squared velocity errors on whitened data", rtol=1e-6, atol=1e-7)
    b = int(np.argmin(loss))
    for u, v in zip(arrays_of(m.solver.model), arrays_of(hist[b])):
        require_close(u, v, f"returned network vs the reference's after its best epoch {b}", rtol=1e-5, atol=1e-7)
    require_close(np.asarray(m.data_mean), x1.mean(0), "data mean after training", rtol=1e-12, atol=1e-12)
    require_close(np.asarray(m.data_cov), np.atleast_2d(np.cov(x1.T)), "data covariance after training", rtol=1e-10, atol=1e-10)
    ctx.count(E)
    ctx.label("best is not last", b < E - 1)
    ctx.nontrivial(np.ptp(loss) > 1e-4)


def real_case():
    return st.fixed_dictionaries(dict(d=st.sampled_from([2, 1, 3]), lr=st.sampled_from([1e-2, 1e-1, 0.5]), batch=st.sampled_from([31, 30, 1000]), stats=st.booleans(), seed=SEED))


def check_stats(case, ctx):
    from flowMC.resource.optimizer import Optimizer

    d, n = 2, 20
    g = rng(case["seed"], 179)
    m0, _, _ = make_model(tanh_net(d, [6], case["seed"], 0.7), g, d, False)
    x1 = g.normal(size=(n, d)) * [1.0, 5.0] + [100.0, -3.0]
    o = Optimizer(m0, learning_rate=case["lr"])
    _, m, _, _ = m0.train(key_of(case["seed"]), (jnp.asarray(g.normal(size=(n, d))), jnp.asarray(x1), jnp.asarray(g.uniform(size=(n, 1)))), o.optim, o.optim_state, case["epochs"], case["batch"], verbose=False)
    what = f"a model trained with the library's optimiser for {case['epochs']} epochs at rate {case['lr']}"
    require_close(np.asarray(m.data_mean), x1.mean(0), f"data mean of {what}", rtol=1e-12, atol=1e-12)
    require_close(np.asarray(m.data_cov), np.cov(x1.T), f"data covariance of {what}", rtol=1e-11, atol=1e-12)
    ctx.count()
    ctx.nontrivial()


def stats_case():
    return st.fixed_dictionaries(dict(lr=st.sampled_from([1e-1, 1e-3]), epochs=st.sampled_from([3, 10]), batch=st.sampled_from([20, 5]), seed=SEED))


FACETS = [
    Facet("density", check_density, density_case, quick=12, thorough=300, rule="log-density at 40 points vs an independent integration; non-trivial when the flow moves points"),
    Facet("linear", check_linear, linear_case, quick=8, thorough=150, rule="linear velocity fields vs matrix exponentials; every case non-trivial"),
    Facet("normalised", check_normal1, normal1_case, quick=6, thorough=100, rule="quadrature and 20000 samples in one dimension; non-trivial when the density is not the base density"),
    Facet("samples", check_samples, samples_case, quick=6, thorough=100, rule="20000 samples pulled back; every case non-trivial"),
    Facet("path", check_path, path_case, quick=60, thorough=1000, thorough_shards=1, rule="paths of two schedulers; non-trivial with three or more points"),
    Facet("scripted", check_scripted, scripted_case, quick=24, thorough=500, shards=2, rule="scripted loss tables; non-trivial with more than one epoch"),
    Facet("real", check_real, real_case, quick=6, thorough=100, rule="6 full-batch epochs vs an independent loop; non-trivial when the loss changes"),
    Facet("statistics", check_stats, stats_case, quick=4, thorough=40, thorough_shards=1, rule="every case non-trivial"),
]
FACETS += in_single_precision(FACETS, dict(density=8, linear=5, samples=4, scripted=12))
ASSUMPTIONS = ["the integrator's default step resolves the generated networks to the stated tolerance (calibrated; a fifty times tighter one holds for steps of 0.02)",
               "an epoch's reported loss lies between the losses of its batches"]
