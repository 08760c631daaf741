"""C16: the optimisation strategy climbs each chain independently within its bounds."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st
from scipy.stats import norm

from vf.common import SEED, by_precision, key_of, real, rng, target_logp, target_params, to_jax
from vf.core import Facet, in_single_precision, corr_zero, fail, ks_uniform, require, require_close, require_equal, require_shape

from flowMC.resource.states import State
from flowMC.strategy.optimization import AdamOptimization


def tgt(x, data):
    return target_logp(x, data["p"])


def np_target_grad(x, p):
    t = x - p["m"]
    return -t @ p["P"].T - p["a"] * t**3 + p["b"] * p["w"] * np.cos(p["w"] * x)


def np_target(x, p):
    x = np.asarray(x, float)
    t = x - p["m"]
    return (-0.5 * np.einsum("...i,ij,...j->...", t, p["P"], t) - 0.25 * p["a"] * (t**4).sum(-1)
            + p["b"] * np.sin(p["w"] * x).sum(-1) + p["offset"])


def make_bounds(g, d, style, x0, m, unit=1.0):
    """(array given to the strategy, lower (d,), upper (d,))"""
    rows = 1 if style.startswith("shared") else d
    c = np.median(x0, 0) if rows == d else np.array([np.median(x0)])
    lo = c - g.uniform(0.01, 2, size=rows) * unit
    hi = c + g.uniform(0.01, 2, size=rows) * unit
    if style == "none":
        return None, np.full(d, -np.inf), np.full(d, np.inf)
    if style.endswith("infinite"):
        lo[:], hi[:] = -np.inf, np.inf
    elif style.endswith("one-sided"):
        up = g.random(rows) < 0.5
        lo[up], hi[~up] = -np.inf, np.inf
    elif style.endswith("elsewhere"):  # the start is outside
        lo = c + 3 * unit
        hi = lo + g.uniform(0.1, 1, size=rows) * unit
    elif style.endswith("point"):
        hi = lo.copy()
    b = real(np.stack([lo, hi], -1))
    lo, hi = b.T
    return jnp.asarray(b), np.broadcast_to(lo, (d,)), np.broadcast_to(hi, (d,))


STYLES = ["none", "per dim", "shared", "per dim one-sided", "shared one-sided", "per dim infinite", "shared infinite", "per dim elsewhere", "shared elsewhere", "per dim point"]


def np_adam(x0, p, lo, hi, lr, n_steps):
    x0 = np.asarray(x0, float)
    x, m, v = x0.copy(), np.zeros_like(x0), np.zeros_like(x0)
    for t in range(1, n_steps + 1):
        gr = -np_target_grad(x, p)
        m, v = 0.9 * m + 0.1 * gr, 0.999 * v + 0.001 * gr**2
        x = np.clip(x - lr * (m / (1 - 0.9**t)) / (np.sqrt(v / (1 - 0.999**t)) + 1e-8), lo, hi)
    return x


def make(case, p, bounds):
    kw = dict(n_steps=case["n_steps"], learning_rate=case["lr"] * case["unit"], noise_level=case["noise"])
    if bounds is not None:
        kw["bounds"] = bounds
    return AdamOptimization(tgt, **kw)


def common(case, ctx, stream):
    d, n = case["d"], case["n"]
    g = rng(case["seed"], stream)
    unit = case["unit"]
    p = target_params(case["seed"], d, case["kind"], float(g.normal() * 10), unit)
    x0 = real(p["m"] + g.normal(size=(n, d)) * case["spread"] * unit)
    bounds, lo, hi = make_bounds(g, d, case["bounds"], x0, p["m"], unit)
    return g, p, x0, bounds, lo, hi


def call(s, key, x, p):
    """Through the strategy interface; everything else must pass through."""
    res = {"st": State({"a": 1}), "x": State({"b": "q"})}
    keep = dict(res)
    data = {"p": to_jax(p)}
    xk, kk = np.array(x), np.array(key)
    out = s(key, res, x, data)
    require(isinstance(out, tuple) and len(out) == 3, "the strategy does not return (key, resources, positions)")
    k2, r2, x2 = out
    require(r2 is res or (list(r2) == list(keep) and all(r2[a] is keep[a] for a in keep)), "resources did not pass through unchanged")
    require(list(res) == list(keep) and all(res[a] is keep[a] for a in keep) and res["st"].data == {"a": 1} and res["x"].data == {"b": "q"}, "the resources were changed")
    require_equal(np.asarray(x), xk, "the caller's starting positions")
    require(list(data) == ["p"], "the user's data were changed")
    require(not np.array_equal(np.asarray(k2), kk), "the key handed on is the one received")
    require_shape(x2, xk.shape, "returned positions")
    return np.asarray(x2)


def check_exact(case, ctx):
    case = {**case, "noise": 0.0}
    g, p, x0, bounds, lo, hi = common(case, ctx, 161)
    s = make(case, p, bounds)
    key = key_of(case["seed"])
    x = call(s, key, jnp.asarray(x0), p)
    lr = case["lr"] * case["unit"]
    want = np_adam(x0, p, lo, hi, lr, case["n_steps"])
    what = f"{case['n_steps']} noiseless Adam steps at rate {lr} within {case['bounds']} bounds"
    require(((x >= lo) & (x <= hi)).all(), f"{what}: positions outside the bounds [{lo}, {hi}]")
    # chains passing through a point of vanishing gradient amplify rounding; those whose path is unstable are not judged
    stable = np.ones(len(x0), bool)
    for sign in (1, -1):
        near = np_adam(x0 + sign * by_precision(1e-11, 3e-7) * case["unit"] * (1 + np.abs(x0) / case["unit"]), p, lo, hi, lr, case["n_steps"])
        stable &= (np.abs(near - want) <= by_precision(1e-7, 3e-3) * lr * case["n_steps"] + by_precision(1e-8, 1e-6) * np.abs(want)).all(-1)
    require_close(x, want, f"{what}: positions", rtol=by_precision(1e-7, 1e-5), atol=by_precision(1e-6, 1e-2) * lr * case["n_steps"], mask=stable[:, None])
    ctx.label("unstable chains", int((~stable).sum()))
    ctx.label("stable chains", int(stable.sum()))
    data = {"p": to_jax(p)}
    k3, x3, lp = s.optimize(key, lambda y, dd: -tgt(y, dd), jnp.asarray(x0), data)
    require_equal(np.asarray(x3), x, "positions of optimize() against those of the strategy")
    require_shape(lp, (len(x0),), "final log-probabilities")
    require_close(np.asarray(lp), np_target(x, p), f"{what}: returned log-probabilities against the target at the returned positions", rtol=by_precision(1e-9, 1e-4), atol=by_precision(1e-7, 1e-2))
    shift = 1.0 + abs(float(np.round(p["offset"])))  # the function climbed and the target may differ by a constant
    _, x4, lp4 = s.optimize(key, lambda y, dd: shift - tgt(y, dd), jnp.asarray(x0), data)
    require_close(np.asarray(x4), x, f"{what}: positions when the function climbed is the target less a constant", rtol=by_precision(1e-7, 1e-5), atol=by_precision(1e-6, 1e-2) * lr * case["n_steps"], mask=stable[:, None])
    require_close(np.asarray(lp4), np_target(np.asarray(x4), p), f"{what}: returned log-probabilities when the function climbed is the target less a constant", rtol=by_precision(1e-9, 1e-4), atol=by_precision(1e-7, 1e-2))
    ctx.count(x.size)
    ctx.label("clipped coordinates", int(((x == lo) | (x == hi)).sum()))
    ctx.label(case["bounds"])
    ctx.nontrivial(case["kind"] > 0 and case["n_steps"] > 1)


def exact_case():
    return st.fixed_dictionaries(dict(
        n=st.sampled_from([16, 1, 3, 130]), d=st.sampled_from([2, 1, 3, 9]), kind=st.sampled_from([1, 2, 3, 0]), n_steps=st.sampled_from([3, 1, 2, 10, 37, 150, 700]), unit=st.sampled_from([1.0, 1e-4, 1e3, 1e6]), lr=st.sampled_from([0.05, 0.01, 0.5, 0.001]),
        bounds=st.sampled_from(STYLES), spread=st.sampled_from([1.0, 3.0]), seed=SEED))


def check_noisy(case, ctx):
    """With noise: bounds, log-probabilities, chains independent of each other."""
    g, p, x0, bounds, lo, hi = common(case, ctx, 162)
    s = make(case, p, bounds)
    key = key_of(case["seed"])
    x = call(s, key, jnp.asarray(x0), p)
    what = f"{case['n_steps']} Adam steps with noise {case['noise']} within {case['bounds']} bounds"
    require(np.isfinite(x).all(), f"{what}: positions are not finite")
    require(((x >= lo) & (x <= hi)).all(), f"{what}: positions outside the bounds [{lo}, {hi}]: {x[~((x >= lo) & (x <= hi)).all(-1)][:2]}")
    i = int(g.integers(len(x0)))
    y0 = x0.copy()
    others = np.arange(len(x0)) != i
    y0[others] += g.normal(size=(others.sum(), x0.shape[1])) * 5 * case["unit"]
    y = call(s, key, jnp.asarray(y0), p)
    require_close(y[i], x[i], f"{what}: chain {i} after the other chains were started elsewhere", rtol=by_precision(1e-12, 1e-5), atol=by_precision(1e-12, 1e-5) * case["unit"])
    data = {"p": to_jax(p)}
    _, x3, lp = s.optimize(key, lambda z, dd: -tgt(z, dd), jnp.asarray(x0), data)
    require_close(np.asarray(lp), np_target(np.asarray(x3), p), f"{what}: returned log-probabilities", rtol=by_precision(1e-9, 1e-4), atol=by_precision(1e-7, 1e-2))
    ctx.count(x.size)
    ctx.label(case["bounds"])
    ctx.nontrivial(len(x0) > 1)


def noisy_case():
    return st.fixed_dictionaries(dict(
        n=st.sampled_from([16, 2, 5, 70]), d=st.sampled_from([2, 1, 3, 8]), kind=st.sampled_from([1, 2, 3]), n_steps=st.sampled_from([3, 1, 20, 200]), unit=st.sampled_from([1.0, 1e-4, 1e3]), lr=st.sampled_from([0.05, 0.5]),
        bounds=st.sampled_from(STYLES), spread=st.sampled_from([1.0, 3.0]), noise=st.sampled_from([10.0, 1.0, 0.1]), seed=SEED))


# ------------------------------------------------------------------ the gradient noise itself
def linear(x, data):
    return jnp.sum(data["slope"] * x)


def check_noise(case, ctx):
    """The first step on a slope of 1e-8 is lr * u / (|u| + 1) for a noisy slope u (in units of 1e-8),
    which reveals the noise; on a steep slope a step is lr times the sign."""
    n, d, s = 20000, case["d"], case["noise"]
    g = rng(case["seed"], 163)
    slope = g.choice([-1.0, 1.0], size=d) * g.uniform(0.5, 2, size=d)
    x0 = jnp.zeros((n, d))
    a = AdamOptimization(linear, n_steps=1, learning_rate=1.0, noise_level=s)
    key = key_of(case["seed"])
    _, _, x = a(key, {}, x0, {"slope": jnp.asarray(slope * 1e-8)})
    x = np.asarray(x)
    u = x / (1 - np.abs(x))
    z = (u / slope - 1) / s
    require(np.isfinite(z).all() and (np.abs(x) < 1).all(), "a first Adam step is at most the learning rate")
    for i in range(d):
        ks_uniform(norm.cdf(z[:, i]), f"multiplicative gradient noise of level {s}: implied normal draws")
    for lag in (1, 2, 3):
        corr_zero(z[lag:, 0], z[:-lag, 0], f"gradient noise of chains {lag} apart")
    mostly_distinct(z[:, 0], "the gradient noise of the chains")
    _, _, y = a(jax.random.split(key)[1], {}, x0, {"slope": jnp.asarray(slope * 1e-8)})
    y = np.asarray(y)
    corr_zero(x[:, 0], y[:, 0], "gradient noise of two keys")
    k2, _, _ = a(key, {}, x0, {"slope": jnp.asarray(slope * 1e-8)})
    _, _, y = a(k2, {}, x0, {"slope": jnp.asarray(slope * 1e-8)})
    corr_zero(x[:, 0], np.asarray(y)[:, 0], "gradient noise of successive calls")
    b = AdamOptimization(linear, n_steps=2, learning_rate=1.0, noise_level=s)
    _, _, x2 = b(key, {}, x0, {"slope": jnp.asarray(slope * 1e3)})
    two = np.abs(np.asarray(x2)[:, 0])
    same = (np.abs(two - 2) < 1e-6).mean()
    require(same < 0.05, f"{same:.1%} of the chains have the same noise in two successive steps")
    ctx.count(n * d)
    ctx.nontrivial()


def mostly_distinct(z, what):
    z = np.asarray(z).ravel()
    rep = len(z) - len(np.unique(z))
    require(rep <= 0.01 * len(z), f"{what}: {rep} of {len(z)} draws repeat another one")


def relay(x, data):
    """Coordinate k has slope data["slope"] only while it is at zero and coordinate k - 1 has left zero, so
    exactly one coordinate at a time sees its first gradient."""
    before = jnp.concatenate([jnp.ones(1, bool), x[:-1] != 0])
    return jnp.sum(jnp.where(before & (x == 0), data["slope"] * x, 0.0))


def check_noise_steps(case, ctx):
    """The noise of every step of a run: coordinate k receives a single gradient, at step k, and then
    coasts, so its displacement is a known increasing function of that gradient."""
    n, T = 6000, case["steps"]
    g = rng(case["seed"], 164)
    slope = g.choice([-1.0, 1.0], size=T) * g.uniform(0.5, 2, size=T)

    def moved(grad, k):
        x = np.zeros_like(grad)
        for j in range(k, T + 1):
            m, v = 0.1 * 0.9 ** (j - k) * grad, 0.001 * 0.999 ** (j - k) * grad**2
            x += m / (1 - 0.9**j) / (np.sqrt(v / (1 - 0.999**j)) + 1.0)
        return x

    def noise_of(key):
        a = AdamOptimization(relay, n_steps=T, learning_rate=1.0, noise_level=1.0)
        k2, _, x = a(key, {}, jnp.zeros((n, T)), {"slope": jnp.asarray(slope * 1e-8)})
        x, z = np.asarray(x, float), []
        for k in range(1, T + 1):
            lo, hi = np.full(n, -60.0), np.full(n, 60.0)
            for _ in range(70):
                mid = (lo + hi) / 2
                up = moved(mid, k) < x[:, k - 1]
                lo, hi = np.where(up, mid, lo), np.where(up, hi, mid)
            z.append((lo + hi) / 2 / slope[k - 1] - 1)
        return k2, np.stack(z, 1)

    key = key_of(case["seed"])
    k2, z = noise_of(key)
    _, y = noise_of(k2)
    for k in range(T):
        ks_uniform(norm.cdf(z[:, k]), f"gradient noise of step {k + 1} of {T}: implied normal draws")
        for l in range(k):
            corr_zero(z[:, l], z[:, k], f"gradient noise of steps {l + 1} and {k + 1} of {T}")
            corr_zero(z[1:, l], z[:-1, k], f"gradient noise of step {l + 1} and of the previous chain's step {k + 1}")
            corr_zero(z[:-1, l], z[1:, k], f"gradient noise of step {l + 1} and of the next chain's step {k + 1}")
    mostly_distinct(np.round(z, 9), f"the gradient noise of {n} chains in {T} steps")
    mostly_distinct(np.round(np.concatenate([z, y]), 9), "the gradient noise of two successive calls")
    ctx.count(z.size)
    ctx.nontrivial()


def noise_steps_case():
    return st.fixed_dictionaries(dict(steps=st.sampled_from([4, 2, 7]), seed=SEED))


def noise_case():
    return st.fixed_dictionaries(dict(d=st.sampled_from([1, 2, 5]), noise=st.just(1.0), seed=SEED))


# ------------------------------------------------------------------ bounds of the wrong shape
def check_shapes(case, ctx):
    d = case["d"]
    shape = tuple(case["shape"])
    good = len(shape) == 2 and shape[1] == 2 and shape[0] in (1, d)
    b = np.zeros(shape)
    b[..., -1:] = 1.0
    err = None
    try:
        s = AdamOptimization(linear, n_steps=2, learning_rate=0.1, noise_level=0.5, bounds=jnp.asarray(b))
        _, _, x = s(key_of(case["seed"]), {}, jnp.zeros((3, d)) + 0.5, {"slope": jnp.ones(d)})
    except ValueError as e:
        err = e
    except Exception as e:  # noqa: BLE001
        fail(f"bounds of shape {shape} for {d} dimensions: {type(e).__name__} instead of ValueError: {e}")
    if good:
        require(err is None, f"bounds of shape {shape} for {d} dimensions were rejected: {err}")
        require(((np.asarray(x) >= 0) & (np.asarray(x) <= 1)).all(), f"positions {x} outside [0, 1]")
        ctx.label("accepted")
    else:
        require(err is not None, f"bounds of shape {shape} for {d} dimensions were accepted")
        ctx.label("rejected")
    ctx.count()
    ctx.nontrivial()


def shapes_case():
    return st.fixed_dictionaries(dict(d=st.sampled_from([2, 1, 3, 4]), shape=st.one_of(st.lists(st.integers(1, 4), min_size=1, max_size=3), st.tuples(st.integers(1, 4), st.just(2)).map(list), st.tuples(st.just(1), st.integers(1, 3)).map(list)), seed=SEED))


FACETS = [
    Facet("exact", check_exact, exact_case, quick=22, thorough=500, shards=2, rule="noiseless runs against projected Adam in numpy; non-trivial with a curved target and several steps"),
    Facet("noisy", check_noisy, noisy_case, quick=16, thorough=300, shards=2, rule="noisy runs; non-trivial with several chains"),
    Facet("noise", check_noise, noise_case, quick=4, thorough=60, rule="20000 chains' gradient noise inverted from one step; every case non-trivial"),
    Facet("noise_steps", check_noise_steps, noise_steps_case, quick=3, thorough=60, rule="the noise of every step of 6000 chains, inverted; every case non-trivial"),
    Facet("shapes", check_shapes, shapes_case, quick=40, thorough=200, thorough_shards=1, rule="shapes of the bounds; every case non-trivial"),
]
FACETS += in_single_precision(FACETS, dict(exact=12, noisy=10, noise=2))
ASSUMPTIONS = ["Adam with the usual constants (0.9, 0.999, 1e-8) as in optax; the level of the noise is its standard deviation (tested at 1, where that equals its variance)"]
