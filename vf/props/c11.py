"""C11: replica exchange conserves replicas, swaps with exactly the right probability and keeps the
tempered ensemble invariant."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from vf.common import SEED, key_of, real, rng
from vf.core import Facet, in_single_precision, corr_zero, ks_uniform, moments_normal, require, require_close, require_equal
from vf.instruments import CountKernel, FrozenKernel
from vf import ptlib


# ------------------------------------------------------------------ conservation over histories
def ll_id(x, data):
    """A rugged likelihood of the replica's identity (first coordinate)."""
    return data["h"] * jnp.sin(37.0 * x[0]) + data["c"]


def prior_id(x, data):
    return data["q"] * jnp.cos(11.0 * x[0])


def check_history(case, ctx):
    n, K, d = case["n"], case["K"], case["d"]
    g = rng(case["seed"], 101)
    data = dict(h=jnp.asarray(case["height"]), c=jnp.asarray(case["offset"]), q=jnp.asarray(float(g.normal() * 5)))
    pos = np.floor(g.normal(size=(n, K, d)) * 50) + np.arange(n * K).reshape(n, K, 1) / 1024  # unique, exactly representable
    temps = np.concatenate([[1.0], 1 + np.cumsum(g.uniform(0.2, 3.0, size=K - 1))])
    kern = CountKernel(3) if case["kernel"] == "count" else FrozenKernel()
    res = ptlib.resources(kern, pos[:, 1:], temps, ll_id, prior_id, d, case["training"])
    strat = ptlib.strategy(case["n_steps"], case["verbose"])
    key = key_of(case["seed"])
    cold = jnp.asarray(pos[:, 0])
    model = pos.copy()
    moved_to_cold = 0
    for op in case["ops"]:
        if op == "toggle":
            res["s"].data["training"] = not res["s"].data["training"]
            continue
        if op == "ladder":
            T = np.concatenate([[1.0], 1 + np.cumsum(g.uniform(0.2, 3.0, size=K - 1))])
            res["temps"].data = jnp.asarray(T)
            continue
        if op == "move":  # a local sampler moved the chains in between
            c = np.array(cold) + np.floor(g.normal(size=(n, d)) * 50)
            model[:, 0] = c
            cold = jnp.asarray(c)
            continue
        training = res["s"].data["training"]
        c_in = np.array(cold)
        require_equal(np.asarray(res["tp"].data), model[:, 1:], "tempered replicas before a call")
        key, res, last = strat(key, res, cold, data)
        require_equal(np.asarray(cold), c_in, "the caller's positions")
        step = case["n_steps"] if case["kernel"] == "count" else 0
        want = model + step
        got = np.concatenate([np.asarray(last)[:, None], np.asarray(res["tp"].data)], 1)
        what = f"{'training' if training else 'production'} call with {K} temperatures"
        require(got.shape == want.shape, f"{what}: replicas have shape {got.shape}, expected {want.shape}")
        for i in range(n):
            a = sorted(map(tuple, got[i].tolist()))
            b = sorted(map(tuple, want[i].tolist()))
            require(a == b, f"{what}: chain {i} held replicas {b} and holds {a} afterwards")
        moved_to_cold += int((got[:, 0] != want[:, 0]).any(-1).sum())
        model, cold = got, last
        ctx.label("training calls" if training else "production calls")
        ctx.count(n * K)
    ctx.label("replicas brought to the chain", moved_to_cold)
    ctx.nontrivial(moved_to_cold > 0)


def history_case():
    op = st.sampled_from(["call", "call", "toggle", "move", "ladder"])
    return st.fixed_dictionaries(dict(
        n=st.one_of(st.integers(2, 5), st.just(1), st.just(33)), K=st.sampled_from([2, 3, 4, 6, 12]), d=st.sampled_from([2, 1, 3, 9]), kernel=st.sampled_from(["frozen", "count"]),
        n_steps=st.integers(1, 4), height=st.sampled_from([2.0, 0.0, 0.3, 50.0]), offset=st.sampled_from([0.0, -1000.0, 300.0, 1e6]), training=st.booleans(), verbose=st.booleans(),
        ops=st.lists(op, min_size=2, max_size=6).map(lambda l: l + ["call", "toggle", "call"]), seed=SEED))


# ------------------------------------------------------------------ the swap probability, exactly
def prior_any(x, data):
    return -3.0 * x[1] ** 2 + 20.0 * jnp.sin(x[2])


def prior_none(x, data):
    return jnp.zeros(()) * x[0]


def check_swap(case, ctx):
    n = 4000
    g = rng(case["seed"], 102)
    T1, T2 = case["T"]
    x0, x1 = real(g.normal(size=(n, 3))), real(g.normal(size=(n, 3)))
    x1[:, 0] = g.normal(size=n) * 30 + case["offset"]
    key = key_of(case["seed"])
    prior = prior_any if case["prior"] else prior_none
    temps = jnp.asarray([T1, T2])
    rate = 1 / T1 - 1 / T2
    span = 40.0 / rate
    dl, low, high = ptlib.swap_thresholds(FrozenKernel(), prior, case["training"], key, jnp.asarray(x0), jnp.asarray(x1), temps, span)
    require(np.asarray(low).all(), "a swap to a replica of higher likelihood was refused")
    require(not np.asarray(high).any(), "a swap with probability e^-40 was made")
    u = np.exp(-rate * np.asarray(dl))
    ks_uniform(u, f"swap decisions at temperatures {T1} and {T2} do not have probability min(1, exp((1/T2-1/T1)(L1-L2))): implied draws")
    for nm, v in (("hot log-likelihood", x1[:, 0]), ("cold position", x0[:, 1]), ("hot position", x1[:, 1])):
        corr_zero(u, v, f"swap draw and {nm}")
    for lag in (1, 2):
        corr_zero(u[lag:], u[:-lag], f"swap draws of chains {lag} apart")
    d2, _, _ = ptlib.swap_thresholds(FrozenKernel(), prior, case["training"], jax.random.split(key)[0], jnp.asarray(x0), jnp.asarray(x1), temps, span)
    corr_zero(u, np.exp(-rate * np.asarray(d2)), "swap draws of two keys")
    # impossible replicas
    for a, b, want in ((-np.inf, 0.0, True), (0.0, -np.inf, False)):
        y0, y1 = x0.copy(), x1.copy()
        y0[:, 0], y1[:, 0] = a, b
        last, tp, _ = ptlib.jcall(FrozenKernel(), ll_first, prior, case["training"], 1, key, jnp.asarray(y0), jnp.asarray(y1)[:, None], temps, {})
        s = np.asarray(last)[:, 1] == y1[:, 1]
        require(s.all() if want else not s.any(), f"log-likelihoods {a} (cold) and {b} (hot): {int(s.sum())} of {n} chains swapped")
    ctx.count(n)
    ctx.label("training" if case["training"] else "production")
    ctx.nontrivial()


def ll_first(x, data):
    return x[0]


def swap_case():
    return st.fixed_dictionaries(dict(T=st.sampled_from([[1.0, 2.0], [1.0, 1.25], [1.0, 20.0], [1.0, 5.0], [1.0, 1.02], [1.0, 500.0]]), prior=st.booleans(),
                                      training=st.booleans(), offset=st.sampled_from([0.0, -500.0, 2e4]), seed=SEED))


# ------------------------------------------------------------------ invariance of the product density
def gauss_ll(x, data):
    t = x - data["m"]
    return -0.5 * jnp.sum(data["pl"] * t * t) + data["off"]


def gauss_prior(x, data):
    return -0.5 * jnp.sum(data["pp"] * x * x)


def tempered_gauss(T, p):
    prec = p["pl"] / T + p["pp"]
    return p["pl"] * p["m"] / T / prec, 1 / np.sqrt(prec)


def check_invariant(case, ctx):
    n, K, d = 40000, case["K"], case["d"]
    g = rng(case["seed"], 103)
    p = dict(m=g.normal(size=d) * 2, pl=g.uniform(0.5, 3, size=d), pp=g.uniform(0.02, 1.0, size=d) * case["prior"] + 0.01, off=-7.0)
    temps = np.concatenate([[1.0], 1 + np.cumsum(g.uniform(0.3, 2.5, size=K - 1))])
    mom = [tempered_gauss(T, p) for T in temps]
    pos = np.stack([mu + sd * g.normal(size=(n, d)) for mu, sd in mom], 1)
    data = {k: jnp.asarray(v) for k, v in p.items()}
    cold, tp = jnp.asarray(pos[:, 0]), jnp.asarray(pos[:, 1:])
    for key in jax.random.split(key_of(case["seed"]), case["rounds"]):
        cold, tp, _ = ptlib.jcall(FrozenKernel(), gauss_ll, gauss_prior, False, 1, key, cold, tp, jnp.asarray(temps), data)
    al = np.concatenate([np.asarray(cold)[:, None], np.asarray(tp)], 1)
    z = np.stack([(al[:, k] - mu) / sd for k, (mu, sd) in enumerate(mom)], 1)
    swapped = [(al[:, k] != pos[:, k]).any(-1).mean() for k in range(K)]
    what = f"after {case['rounds']} exchange rounds at temperatures {np.round(temps, 2)}"
    for k in range(K):
        moments_normal(z[:, k], f"replicas at temperature {temps[k]:.2f} {what}")
        for j in range(k):
            for i in range(d):
                corr_zero(z[:, k, i], z[:, j, i], f"replicas at rungs {j} and {k} {what}")
                corr_zero(np.abs(z[:, k, i]), np.abs(z[:, j, i]), f"magnitudes of replicas at rungs {j} and {k} {what}")
    ctx.count(n * K)
    ctx.label(f"K={K}")
    ctx.nontrivial(min(swapped) > 0.05)


def invariant_case(K):
    return lambda: st.fixed_dictionaries(dict(K=st.just(K), d=st.sampled_from([1, 2]), prior=st.sampled_from([1.0, 0.0]),
                                              rounds=st.sampled_from([1, 3]), seed=SEED))


# ------------------------------------------------------------------ replicas of zero or undefined likelihood
def ll_first(x, data):
    return x[0]


def check_impossible(case, ctx):
    n, K = 64, case["K"]
    g = rng(case["seed"], 106)
    x = g.normal(size=(n, K, 3)) * 5
    x[..., 1] = np.arange(n * K).reshape(n, K)
    bad = g.random((n, K)) < case["share"]
    x[..., 0] = np.where(bad, g.choice(np.array(case["values"]), size=(n, K)), x[..., 0])
    temps = np.concatenate([[1.0], 1 + np.cumsum(g.uniform(0.2, 3.0, size=K - 1))])
    last, tp, _ = ptlib.jcall(FrozenKernel(), ll_first, prior_any if case["prior"] else prior_none, case["training"], 1, key_of(case["seed"]),
                              jnp.asarray(x[:, 0]), jnp.asarray(x[:, 1:]), jnp.asarray(temps), {})
    got = np.concatenate([np.asarray(last)[:, None], np.asarray(tp)], 1)
    require_equal(np.sort(got[..., 1], 1), np.sort(x[..., 1], 1), "replicas (by number) after an exchange with impossible ones")
    L, M = x[..., 0], got[..., 0]
    displaced = np.isfinite(L[:, 0]) & ~np.isfinite(M[:, 0])
    require(not displaced.any(), f"{int(displaced.sum())} chains were replaced by replicas of zero or undefined likelihood: {L[displaced][:2]} became {M[displaced][:2]}")
    freed = np.isneginf(L[:, 0]) & np.isfinite(L[:, 1])
    require((got[freed, 0, 1] == x[freed, 1, 1]).all(), "a chain of zero likelihood did not swap with a possible replica next to it")
    ctx.count(n)
    ctx.label("chains at impossible points freed", int(freed.sum()))
    ctx.label("chains next to impossible replicas", int((np.isfinite(L[:, 0]) & ~np.isfinite(L[:, 1])).sum()))
    ctx.nontrivial(bool(bad.any()))


def impossible_case():
    return st.fixed_dictionaries(dict(K=st.sampled_from([3, 2, 5, 9]), share=st.sampled_from([0.4, 0.1, 0.8]), values=st.sampled_from([[-np.inf, np.nan], [-np.inf], [np.nan]]).map(lambda v: [float(q) for q in v]),
                                      prior=st.booleans(), training=st.booleans(), seed=SEED))


# ------------------------------------------------------------------ every rung takes part
def check_certain(case, ctx):
    """Log-likelihoods that fall steeply along the ladder except for one neighbouring pair: whatever the order
    in which pairs are offered a swap, that pair swaps for certain and no other does."""
    K = case["K"]
    n = 3 * (K - 1)
    g = rng(case["seed"], 107)
    temps = np.concatenate([[1.0], 1 + np.cumsum(g.uniform(0.2, 3.0, size=K - 1))])
    rate = (1 / temps[:-1] - 1 / temps[1:]).min()
    x = g.normal(size=(n, K, 3))
    x[..., 0] = -np.cumsum(g.uniform(1, 2, size=(n, K)), 1) * (100 / rate) + case["offset"]
    x[..., 1] = np.arange(K)
    want = x.copy()
    for i in range(n):
        k = i % (K - 1)
        x[i, [k, k + 1]] = want[i, [k + 1, k]]
    x, want = real(x), real(want)
    last, tp, _ = ptlib.jcall(FrozenKernel(), ll_first, prior_any if case["prior"] else prior_none, case["training"], 1, key_of(case["seed"]),
                              jnp.asarray(x[:, 0]), jnp.asarray(x[:, 1:]), jnp.asarray(temps), {})
    got = np.concatenate([np.asarray(last)[:, None], np.asarray(tp)], 1)
    bad = np.flatnonzero((got[..., 1] != want[..., 1]).any(1))
    require(len(bad) == 0, f"{K} temperatures: a certain swap of rungs {[int(i) % (K - 1) for i in bad[:5]]} and the next was not made, or an impossible one was: "
            f"replicas {x[bad[:1], :, 1].tolist()} became {got[bad[:1], :, 1].tolist()}")
    require_equal(got, want, "replicas after one certain swap")
    ctx.count(n * K)
    ctx.label(f"K={K}")
    ctx.nontrivial()


def certain_case():
    return st.fixed_dictionaries(dict(K=st.sampled_from([12, 2, 5, 24, 3, 9]), prior=st.booleans(), training=st.booleans(),
                                      offset=st.sampled_from([0.0, 1e4]), seed=SEED))


FACETS = [
    Facet("certain", check_certain, certain_case, quick=10, thorough=150, thorough_shards=1, rule="each neighbouring pair of ladders of 2 to 24 temperatures in turn; every case non-trivial"),
    Facet("history", check_history, history_case, quick=8, thorough=250, shards=4, thorough_shards=8,
          rule="call histories with uniquely marked replicas, training and production, moved chains, changed ladders; non-trivial when a replica reached the chain"),
    Facet("impossible", check_impossible, impossible_case, quick=12, thorough=200, thorough_shards=1, rule="64 chains some of whose replicas have likelihood zero or nan; non-trivial when some have"),
    Facet("swap", check_swap, swap_case, quick=5, thorough=80, shards=2, rule="4000 chains' swap thresholds bisected; every case non-trivial"),
] + [
    Facet(f"invariant_{K}", check_invariant, invariant_case(K), quick=6, thorough=60,
          rule="40000 ensembles drawn from the exact product density; non-trivial when at least 5% of replicas moved at every rung") for K in (2, 3, 5)
]
FACETS += in_single_precision(FACETS, dict(history=6, impossible=6, swap=4, invariant_3=3))
ASSUMPTIONS = ["the uniform of a swap depends on the key, not on the likelihoods"]
