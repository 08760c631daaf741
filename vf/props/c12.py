"""C12: each temperature samples its own tempered density, on a well-formed ladder."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from vf.common import SEED, by_precision, key_of, np_grad, np_logp, real, rng, target_logp, target_params, to_jax
from vf.core import Facet, in_single_precision, corr_zero, fail, moments_normal, require, require_close, require_equal
from vf.instruments import FrozenKernel, GradKernel
from vf import ptlib
from vf.props.c11 import gauss_ll, gauss_prior, tempered_gauss


# ------------------------------------------------------------------ which density each rung steps on
def ll_t(x, data):
    return target_logp(x, data["like"])


def prior_t(x, data):
    return target_logp(x, data["prior"])


def gen_ladder(g, K, style):
    gaps = {"even": np.ones(K - 1), "random": g.uniform(0.2, 3.0, size=K - 1),
            "wide": 10 ** g.uniform(-1, 3, size=K - 1), "tiny": 10 ** g.uniform(-3, -1, size=K - 1)}[style]
    return real(np.concatenate([[1.0], 1 + np.cumsum(gaps)]))


def check_density(case, ctx):
    n, K, d, m = 16, case["K"], case["d"], case["n_steps"]
    g = rng(case["seed"], 121)
    like = target_params(case["seed"] + 1, d, case["kinds"][0], float(g.normal() * 100) + by_precision(case.get("lift", 0.0), 0.0))
    prior = target_params(case["seed"] + 2, d, case["kinds"][1], float(g.normal() * 10))
    temps = gen_ladder(g, K, case["ladder"])
    x = g.normal(size=(n, K, d)) * 2
    rate = case["rate"]
    data = to_jax(dict(like=like, prior=prior))
    last, tp, _ = ptlib.jcall(GradKernel(jnp.asarray(rate)), ll_t, prior_t, case["training"], m, key_of(case["seed"]),
                              jnp.asarray(x[:, 0]), jnp.asarray(x[:, 1:]), jnp.asarray(temps), data)
    got = np.concatenate([np.asarray(last)[:, None], np.asarray(tp)], 1)
    require(np.isfinite(got).all(), "the log-probability handed to the kernel was not the rung's tempered density at its position (or the position became invalid)")
    want = x.copy()
    for _ in range(m):
        want = want + rate * np.stack([np_grad_v(want[:, k], like) / temps[k] + np_grad_v(want[:, k], prior) for k in range(K)], 1)
    free = np.ones((n, K), bool)
    swapped = 0
    for i in range(n):
        for k in range(K):
            err = np.where(free[i], np.abs(got[i] - want[i, k]).max(-1) / (1 + np.abs(want[i, k]).max()), np.inf)
            j = int(np.argmin(err))
            if err[j] > by_precision(1e-8, 3e-4):
                fail(f"{m} updates of chain {i} at temperature {temps[k]:.4g} from {x[i, k]}: expected {want[i, k]} for the density L/T + prior, "
                     f"nearest replica afterwards is {got[i, j]} (relative distance {err[j]:.3g})")
            free[i, j] = False
            swapped += j != k
    ctx.count(n * K)
    ctx.label("replicas exchanged afterwards", swapped)
    ctx.label(f"{m} updates")
    ctx.nontrivial(case["kinds"] != [0, 0] and float(np.abs(want - x).max()) > 1e-3)


def np_grad_v(x, p):
    t = x - p["m"]
    return -t @ p["P"] - p["a"] * t**3 + p["b"] * p["w"] * np.cos(p["w"] * x)


def density_case():
    return st.fixed_dictionaries(dict(
        K=st.sampled_from([3, 2, 5, 10]), d=st.sampled_from([2, 1, 6]), n_steps=st.sampled_from([2, 1, 7, 25]), kinds=st.lists(st.integers(0, 3), min_size=2, max_size=2),
        ladder=st.sampled_from(["random", "even", "wide", "tiny"]), lift=st.sampled_from([0.0, -1e7, 0.0, 1e7]), rate=st.sampled_from([0.01, 0.003, 0.02]), training=st.booleans(), seed=SEED))


# ------------------------------------------------------------------ each rung's density is left invariant
def make_kernel(kind, d, g, scale):
    from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
    from flowMC.resource.kernel.HMC import HMC
    from flowMC.resource.kernel.MALA import MALA

    if kind == "grw":
        return GaussianRandomWalk(step_size=jnp.asarray(scale))
    if kind == "mala":
        return MALA(step_size=jnp.asarray(scale))
    return HMC(condition_matrix=jnp.eye(d), step_size=jnp.asarray(0.4 * scale), n_leapfrog=4)


def check_invariant(case, ctx):
    n, K, d = 20000, case["K"], case["d"]
    g = rng(case["seed"], 122)
    p = dict(m=g.normal(size=d) * 2, pl=g.uniform(0.5, 3, size=d), pp=g.uniform(0.02, 1.0, size=d), off=-7.0)
    temps = gen_ladder(g, K, "random")
    mom = [tempered_gauss(T, p) for T in temps]
    pos = np.stack([mu + sd * g.normal(size=(n, d)) for mu, sd in mom], 1)
    kern = make_kernel(case["kernel"], d, g, case["scale"])
    data = {k: jnp.asarray(v) for k, v in p.items()}
    last, tp, _ = ptlib.jcall(kern, gauss_ll, gauss_prior, case["training"], 3, key_of(case["seed"]),
                              jnp.asarray(pos[:, 0]), jnp.asarray(pos[:, 1:]), jnp.asarray(temps), data)
    al = np.concatenate([np.asarray(last)[:, None], np.asarray(tp)], 1)
    z = np.stack([(al[:, k] - mu) / sd for k, (mu, sd) in enumerate(mom)], 1)
    for k in range(K):
        what = f"rung {k} (T={temps[k]:.3g}) after a call of {case['kernel']} steps from the exact ensemble"
        moments_normal(z[:, k], what)
        for j in range(k):
            for i in range(d):
                corr_zero(z[:, k, i], z[:, j, i], f"{what} with rung {j}")
    dz = al - pos  # randomness of different rungs and neighbouring chains
    for k in range(1, K):
        corr_zero(dz[:, k, 0], np.roll(dz[:, k - 1, 0], 1), f"moves at rungs {k - 1} and {k} of neighbouring chains")
    ctx.count(n * K)
    ctx.label(case["kernel"])
    ctx.nontrivial(bool(((al != pos).any(-1).mean(0) > 0.2).all()))


def invariant_case(kind):
    return lambda: st.fixed_dictionaries(dict(kernel=st.just(kind), K=st.sampled_from([3, 2]), d=st.sampled_from([2, 1]), scale=st.sampled_from([0.8, 1.2, 0.4]),
                                              training=st.booleans(), seed=SEED))


# ------------------------------------------------------------------ the ladder
def sweeps(got_ids, K):
    """Which adjacent pairs swapped, from the ids (0..K-1) found at each rung after one sweep."""
    n = got_ids.shape[0]
    acc = np.zeros((n, K - 1), bool)
    for i in range(n):
        carry = 0
        for k in range(K - 1):
            r = got_ids[i, k]
            if r == k + 1:
                acc[i, k] = True
            elif r == carry:
                carry = k + 1
            else:
                return None
        if got_ids[i, K - 1] != carry:
            return None
    return acc


def documented(T, acc):
    """The adaptation the code documents; used only to tell the recorded findings apart."""
    rate = acc.mean(0)
    new = T.copy()
    with np.errstate(over="ignore"):
        for i in range(1, len(T) - 1):
            new[i] = new[i - 1] + (T[i] - T[i - 1]) * np.exp(100.0 / acc.shape[0] * (rate[i - 1] - rate[i]))
    return new


def judge_ladder(T, new, acc, training, ctx):
    K, n = len(T), acc.shape[0]
    what = f"ladder {T} with swap rates {acc.mean(0)} over {n} chains"
    if not training:
        require_equal(new, T, f"production: {what}")
        return
    require(new.shape == T.shape, f"{what}: shape became {new.shape}")
    require(new[0] == 1.0, f"{what}: the lowest temperature became {new[0]}")
    require(new[-1] == T[-1], f"{what}: the highest temperature became {new[-1]}")
    rate = acc.mean(0)
    for i in range(1, K - 1):
        diff = rate[i - 1] - rate[i]
        if not np.isfinite(new[i - 1: i + 1]).all():
            continue  # overflow, judged below
        old_gap, gap = T[i] - T[i - 1], new[i] - new[i - 1]
        tol = by_precision(1e-9, 1e-5) * max(abs(T[i]), abs(new[i]) if np.isfinite(new[i]) else 0)
        if abs(diff) < 1e-12:
            require(abs(gap - old_gap) <= tol, f"{what}: swaps {i - 1} and {i} succeed equally often, but rung {i} moved to {new}")
        elif diff > 0:
            require(gap > old_gap - tol, f"{what}: the easily crossed gap below rung {i} shrank from {old_gap} to {gap}")
        else:
            require(gap < old_gap + tol, f"{what}: the rarely crossed gap below rung {i} grew from {old_gap} to {gap}")
        if abs(diff) * 100 / n > 0.05 and abs(old_gap) > 1e-6 and tol < 0.01 * old_gap:
            require(abs(gap - old_gap) > 0, f"{what}: the ladder did not adapt: {new}")
            ctx.label("gaps adapted")
    if np.isfinite(new).all() and (new > 0).all() and (np.diff(new) > 0).all():
        ctx.label("well-formed ladders")
        return
    doc = documented(T, acc)
    doc = np.where(doc > 3e38, np.inf, doc)
    same = np.allclose(doc, new, rtol=1e-4, atol=1e-9, equal_nan=True)
    if same and (doc[:-1].max() >= doc[-1]):
        ctx.finding("ladder-overshoot", "an adapted rung reaches or passes the highest temperature, e.g. ladder [1, 2, 2.1], 2 chains, the first pair always swapping and the second never")
        ctx.label("known overshoots")
        return
    if same and (np.diff(doc) <= 0).any() and (np.diff(doc) >= 0).all():
        ctx.finding("ladder-collapse", "adapted rungs merge in rounding, e.g. ladder [1, 2, 10], 2 chains, the first pair never swapping and the second always")
        ctx.label("known collapses")
        return
    fail(f"{what}: the adapted ladder {new} is not positive and increasing")


def ll_table(x, data):
    return x[0]


def prior_flat(x, data):
    return 0.0 * x[0]


def forced_positions(g, T, acc):
    """Likelihoods that make exactly the given adjacent swaps happen (or not) in one upward sweep."""
    n, K = acc.shape[0], len(T)
    L = np.zeros((n, K))
    L[:, 0] = g.normal(size=n)
    carry = L[:, 0].copy()  # the replica being compared upwards
    for k in range(K - 1):
        step = (60 + g.uniform(0, 20, size=n)) / (1 / T[k] - 1 / T[k + 1])
        L[:, k + 1] = np.where(acc[:, k], carry + step, carry - step)
        carry = np.where(acc[:, k], carry, L[:, k + 1])
    return L


def check_ladder(case, ctx):
    n, K = case["n"], case["K"]
    g = rng(case["seed"], 123)
    T = gen_ladder(g, K, case["ladder"])
    training = case["training"]
    for it in range(case["calls"]):
        if not (np.diff(T) > 1e-6 * T[1:]).all() or not np.isfinite(T).all() or not (T > 0).all():
            T = gen_ladder(g, K, "random")
        if case["forced"] == "rates":  # nearly equal rates: gentle adaptation
            base = g.uniform(0, 1)
            acc = g.random((n, K - 1)) < np.clip(base + g.normal(size=K - 1) * case["spread"], 0, 1)
        elif case["forced"] == "pattern":
            acc = np.tile(g.random(K - 1) < 0.5, (n, 1))
        else:
            acc = None
        L = forced_positions(g, T, acc) if acc is not None else g.normal(size=(n, K)) * 3
        pos = np.stack([L, np.tile(np.arange(K, dtype=float), (n, 1)), np.tile(np.arange(n)[:, None], (1, K))], -1)
        last, tp, new = ptlib.jcall(FrozenKernel(), ll_table, prior_flat, training, 1, key_of(case["seed"] + it),
                                    jnp.asarray(pos[:, 0]), jnp.asarray(pos[:, 1:]), jnp.asarray(T), {})
        ids = np.concatenate([np.asarray(last)[:, None], np.asarray(tp)], 1)[..., 1].astype(int)
        seen = sweeps(ids, K)
        if seen is None:
            fail(f"replicas at rungs {ids.tolist()[:3]}...: not the result of one sweep of adjacent swaps")
        if acc is not None:
            require_equal(seen, acc, f"swaps between likelihoods {L[0]}... at temperatures {T}")
        new = np.asarray(new)
        judge_ladder(T, new, seen, training, ctx)
        ctx.count(n * K)
        T = new
        if seen.mean(0).std() > 0 and training:
            ctx.nontrivial()
    ctx.label("training" if training else "production")


def ladder_case():
    return st.fixed_dictionaries(dict(
        K=st.sampled_from([3, 2, 4, 6, 12]), n=st.sampled_from([100, 2, 7, 400, 1]), training=st.sampled_from([True, True, True, False]), calls=st.integers(1, 5),
        ladder=st.sampled_from(["random", "even", "wide"]), forced=st.sampled_from(["rates", "pattern", "free"]), spread=st.sampled_from([0.05, 0.3]), seed=SEED))


def check_recorded(case, ctx):
    """The inputs of the two recorded findings, always run."""
    for T, a in (([1.0, 2.0, 2.1], (True, False)), ([1.0, 2.0, 10.0], (False, True))):
        T, acc = real(T), np.tile(np.array(a), (2, 1))
        L = forced_positions(rng(case["seed"], 125), T, acc)
        pos = np.stack([L, np.tile(np.arange(3.0), (2, 1)), np.tile(np.arange(2.0)[:, None], (1, 3))], -1)
        last, tp, new = ptlib.jcall(FrozenKernel(), ll_table, prior_flat, True, 1, key_of(case["seed"]),
                                    jnp.asarray(pos[:, 0]), jnp.asarray(pos[:, 1:]), jnp.asarray(T), {})
        seen = sweeps(np.concatenate([np.asarray(last)[:, None], np.asarray(tp)], 1)[..., 1].astype(int), 3)
        if seen is None:
            fail("the replicas are not the result of one sweep of adjacent swaps")
        require_equal(seen, acc, f"swaps at temperatures {T}")
        judge_ladder(T, np.asarray(new), seen, True, ctx)
        ctx.count()
    ctx.nontrivial()


# ------------------------------------------------------------------ eager histories with phase switches
def check_phases(case, ctx):
    n, K, d = case["n"], case["K"], 3
    g = rng(case["seed"], 124)
    T = gen_ladder(g, K, "random")
    pos = np.stack([g.normal(size=(n, K)) * 2, np.tile(np.arange(K, dtype=float), (n, 1)), np.tile(np.arange(n)[:, None], (1, K))], -1)
    pos = real(pos)
    res = ptlib.resources(FrozenKernel(), pos[:, 1:], T, ll_table, prior_flat, d, case["phases"][0])
    strat = ptlib.strategy(1, case["verbose"])
    key, cold = key_of(case["seed"]), jnp.asarray(pos[:, 0])
    al = pos
    for phase in case["phases"]:
        res["s"].data["training"] = phase
        key, res, cold = strat(key, res, cold, {})
        new = np.concatenate([np.asarray(cold)[:, None], np.asarray(res["tp"].data)], 1)
        ids = np.zeros((n, K), int)
        for i in range(n):
            for k in range(K):
                ids[i, k] = np.flatnonzero((al[i] == new[i, k]).all(-1))[0] if (al[i] == new[i, k]).all(-1).any() else -1
        acc = sweeps(ids, K)
        if acc is None:
            fail("the replicas are not the result of one sweep of adjacent swaps")
        T_new = np.asarray(res["temps"].data)
        judge_ladder(T, T_new, acc, phase, ctx)
        require(res["s"].data["training"] is phase, "the state was changed")
        T, al = T_new, new
        ctx.count(n * K)
    ctx.nontrivial(True in case["phases"] and False in case["phases"] and K > 2)


def phases_case():
    return st.fixed_dictionaries(dict(n=st.sampled_from([20, 5]), K=st.sampled_from([3, 4, 2]), phases=st.lists(st.booleans(), min_size=1, max_size=4).map(lambda l: l + [True, False]),
                                      verbose=st.booleans(), seed=SEED))


FACETS = [
    Facet("density", check_density, density_case, quick=30, thorough=800, shards=2,
          rule="deterministic ascent on L/T + prior at every rung; non-trivial when the densities are not flat and replicas moved"),
    Facet("ladder", check_ladder, ladder_case, quick=60, thorough=2000, shards=2,
          rule="adaptation under forced or free swaps; non-trivial when pairs differ in their swap rates during training"),
    Facet("recorded", check_recorded, lambda: st.fixed_dictionaries(dict(seed=SEED)), quick=2, thorough=5, thorough_shards=1,
          rule="the ladders of the recorded findings; every case non-trivial"),
    Facet("phases", check_phases, phases_case, quick=6, thorough=150, rule="call histories across phases; non-trivial when both phases occur and a rung can adapt"),
] + [
    Facet(f"invariant_{k}", check_invariant, invariant_case(k), quick=5, thorough=60,
          rule="20000 ensembles from the exact product density; non-trivial when every rung moved") for k in ("grw", "mala", "hmc")
]
FACETS += in_single_precision(FACETS, dict(density=12, ladder=20, phases=3, invariant_mala=3))
ASSUMPTIONS = ["the order of the rungs' swaps within an exchange is one upward sweep of adjacent pairs"]
