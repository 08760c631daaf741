"""C05: chains evolve independently; batching and verbosity change nothing.

Metamorphic: change some chains' starting states (small, huge, not-a-number) and every other chain
must come out the same; change only the chain batch size or verbosity and everything must come out
the same.  Randomness reuse is looked for with a flat target, where a chain's displacements are its
noise: displacements of different chains, steps and calls must be distinct and uncorrelated."""
import functools

import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from vf.common import (SEED, flow_logq, key_of, make_flow, rng, target_logp, target_params, to_jax)
from vf.core import Facet, in_single_precision, corr_zero, moments_normal, require, require_close, require_equal


def flat_logp(x, data):
    return jnp.zeros(()) * jnp.sum(x)


def flow_target(x, data):
    return data["model"].log_prob(x)


def kernel_of(name, step, model=None, nb=4):
    if name == "grw":
        from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk

        return GaussianRandomWalk(step)
    if name == "mala":
        from flowMC.resource.kernel.MALA import MALA

        return MALA(step)
    if name == "hmc":
        from flowMC.resource.kernel.HMC import HMC

        return HMC(step_size=step, n_leapfrog=3)
    from flowMC.resource.kernel.NF_proposal import NFProposal

    return NFProposal(model, nb)


def run(name, kernel, x, data, T, key, calls=1, batch=0, verbose=False, logp=target_logp, strat=None):
    """Positions, log-probs, flags recorded and the last positions."""
    from flowMC.resource.buffers import Buffer
    from flowMC.resource.logPDF import LogPDF
    from flowMC.resource.states import State
    from flowMC.strategy.take_steps import TakeGroupSteps, TakeSerialSteps

    n, d = x.shape
    res = dict(logpdf=LogPDF(logp, n_dims=d), k=kernel, state=State(dict(p="p", l="l", a="a")),
               p=Buffer("p", (n, calls * T, d), 1), l=Buffer("l", (n, calls * T), 1), a=Buffer("a", (n, calls * T), 1))
    s = strat
    if s is None:
        s = (TakeGroupSteps if name == "nf" else TakeSerialSteps)("logpdf", "k", "state", ["p", "l", "a"], T,
                                                                 chain_batch_size=batch, verbose=verbose)
    last = jnp.asarray(x)
    for _ in range(calls):
        key, res, last = s(key, res, last, data)
    return [np.asarray(res[v].data) for v in "pla"] + [np.asarray(last)]


NAMES = ["positions", "log-probs", "flags", "last position"]


def setup(name, seed, d, n, off=1.0):
    g = rng(seed, 3)
    if name == "nf":
        m = make_flow("rqs" if seed % 2 else "nvp", d, 2, seed, 0.3)
        mean, sd = np.asarray(m.data_mean, float), np.sqrt(np.diag(np.asarray(m.data_cov, float)))
        p = target_params(seed, d, 1)
        p["m"] = mean
        p["P"] = p["P"] / np.outer(sd, sd)
        return m, to_jax({a: np.asarray(v, float) for a, v in p.items()}), mean + sd * g.normal(size=(n, d))
    p = target_params(seed, d, 3)
    return None, to_jax({a: np.asarray(v, float) for a, v in p.items()}), p["m"] + off * g.normal(size=(n, d))


# ------------------------------------------------------------------ perturbing other chains
def disturb(x, chains, how, g):
    y = np.array(x)
    for c in chains:
        if how == "small":
            y[c] += 0.05 * g.normal(size=y.shape[1:])
        elif how == "moved":
            y[c] += 3 * g.normal(size=y.shape[1:])
        elif how == "huge":
            y[c] = 1e150
        elif how == "nan":
            y[c] = np.nan
        elif how == "copy":  # start at another chain's position
            y[c] = y[(c + 1) % len(y)]
    return y


SIZES = [(5, 2, 6), (2, 1, 1), (33, 3, 4), (6, 6, 20)]  # chains, dimensions, steps
PT_SIZES = [(4, 2, 3, 3), (2, 1, 2, 1), (17, 3, 5, 2), (5, 2, 9, 6)]  # chains, dimensions, temperatures, steps


def check_perturb(name, case, ctx):
    n, d, T = SIZES[case.get("size", 0)]
    m, data, x = setup(name, case["seed"], max(2, d) if name == "nf" else d, n)
    ker = kernel_of(name, case["step"], m)
    g = rng(case["seed"], 9)
    moved = sorted(set(c % n for c in case["chains"]))[: n - 1]
    y = disturb(x, moved, case["how"], g)
    key = key_of(case["seed"])
    a = run(name, ker, x, data, T, key, calls=2, batch=case["batch"])
    b = run(name, ker, y, data, T, key, calls=2, batch=case["batch"])
    same = [c for c in range(n) if c not in moved]
    for u, v, nm in zip(a, b, NAMES):
        require_close(v[same], u[same], f"{name}: {nm} of chains {same} after moving the start of chains {moved} ({case['how']})",
                      rtol=1e-9, atol=1e-9)
    rate = a[2].mean()
    ctx.count(len(same) * 2 * T)
    ctx.label(case["how"])
    ctx.nontrivial(0 < rate)


def perturb_case():
    return st.fixed_dictionaries(dict(
        step=st.sampled_from([0.3, 0.8]), chains=st.lists(st.integers(0, 32), min_size=1, max_size=3), size=st.sampled_from([0, 0, 1, 2, 3]),
        how=st.sampled_from(["moved", "small", "huge", "nan", "copy"]), batch=st.sampled_from([0, 2]), seed=SEED))


# ------------------------------------------------------------------ batch sizes and verbosity
def check_batching(name, case, ctx):
    n, d, T = case["n"], 2, 5
    m, data, x = setup(name, case["seed"], d, n)
    ker = kernel_of(name, 0.6, m)
    key = key_of(case["seed"])
    a = run(name, ker, x, data, T, key, calls=2)
    b = run(name, ker, x, data, T, key, calls=2, batch=case["batch"], verbose=case["verbose"])
    for u, v, nm in zip(a, b, NAMES):
        require_close(v, u, f"{name}: {nm} with chain_batch_size={case['batch']}, verbose={case['verbose']} and {n} chains",
                      rtol=1e-8, atol=1e-8)
    ctx.count(2 * n * T)
    ctx.label("split", 1 < case["batch"] < n)
    ctx.label("remainder", case["batch"] > 1 and n % case["batch"] != 0)
    ctx.label("verbose", case["verbose"])
    ctx.nontrivial(0 < a[2].mean() < 1 and (case["verbose"] or case["batch"] > 0))


def batching_case():
    return st.tuples(st.one_of(st.integers(1, 7), st.integers(1, 7), st.sampled_from([16, 37])), st.integers(-3, 3), st.sampled_from([1, 2, 3, 100, 10, -1]), st.booleans(), SEED).map(
        lambda t: dict(n=t[0], batch=max(0, t[0] + t[1]) if t[2] == -1 else t[2], verbose=t[3], seed=t[4]))


# ------------------------------------------------------------------ no randomness is reused
def check_noise(name, case, ctx):
    n, d, T = 3000, 2, 3
    key = key_of(case["seed"])
    if name == "nf":
        m, _, _ = setup(name, case["seed"] | 1, d, 2)
        x = np.tile(np.asarray(m.data_mean, float), (n, 1))
        p, _, a, _ = run(name, kernel_of(name, 0, m, 2), x, dict(model=m), T, key, calls=2, batch=case["batch"], logp=flow_target)
        from vf.common import flow_forward

        sd = np.sqrt(np.diag(np.asarray(m.data_cov, float)))
        lat = np.asarray(flow_forward(m, jnp.asarray((p.reshape(-1, d) - np.asarray(m.data_mean)) / sd))[0]).reshape(n, 2 * T, d)
        bm, bc = np.asarray(m.base_dist.mean), np.asarray(m.base_dist.cov)
        z = (lat - bm) @ np.linalg.inv(np.linalg.cholesky(bc)).T
    else:
        x = np.tile(rng(case["seed"], 1).normal(size=d), (n, 1))
        p, _, a, _ = run(name, kernel_of(name, 1.0), x, {}, T, key, calls=2, batch=case["batch"], logp=flat_logp)
        z = np.diff(np.concatenate([x[:, None], p], 1), axis=1)
        if name == "hmc":
            z = z / 4.0 if abs(np.mean((z / 4) ** 2) - 1) < abs(np.mean((z / 3) ** 2) - 1) else z / 3.0
    require(np.all(a == 1), f"{name}: a proposal of ratio one was rejected")
    rounded = np.round(z.reshape(-1, d), 9)
    uniq = len(np.unique(rounded, axis=0))
    require(uniq == len(rounded), f"{name}: {len(rounded) - uniq} of {len(rounded)} noise vectors are repeats of others"
                                  f" (same-start chains, {T} steps, 2 calls, batch {case['batch']})")
    moments_normal(z.reshape(-1, d), f"{name} noise pooled over chains, steps and calls")
    for i in range(d):
        for s1 in range(2 * T):
            for s2 in range(s1):
                corr_zero(z[:, s1, i], z[:, s2, i], f"{name}: noise of steps {s1} and {s2} (two calls of {T})")
        for lag in {1, 2, n // 2, max(1, case["batch"])}:
            if lag < n:
                corr_zero(z[lag:, :, i], z[:-lag, :, i], f"{name}: noise of chains {lag} apart")
    ctx.count(n * 2 * T)
    ctx.label("batched", case["batch"] > 1)
    ctx.nontrivial()


def noise_case():
    return st.fixed_dictionaries(dict(batch=st.sampled_from([0, 1000, 700]), seed=SEED))


# ------------------------------------------------------------------ parallel tempering
def prior_logp(x, data):
    return -0.005 * jnp.sum(x**2)


def run_pt(kernel, x, tempered, temps, data, n_steps, training, key, calls=1, verbose=False, loglike=target_logp, prior=prior_logp, with_key=False):
    from flowMC.resource.buffers import Buffer
    from flowMC.resource.logPDF import TemperedPDF
    from flowMC.resource.states import State
    from flowMC.strategy.parallel_tempering import ParallelTempering

    n, d = x.shape
    K = len(temps)
    tb = Buffer("tp", tempered.shape, 2)
    tb.data = jnp.asarray(tempered)
    lb = Buffer("temps", (K,), 0)
    lb.data = jnp.asarray(temps)
    res = dict(t=TemperedPDF(loglike, prior, n_dims=d, n_temps=K), k=kernel, tp=tb, temps=lb, s=State(dict(training=training)))
    s = ParallelTempering(n_steps, "t", "k", ["tp", "temps"], "s", verbose=verbose)
    last = jnp.asarray(x)
    for _ in range(calls):
        key, res, last = s(key, res, last, data)
    out = np.asarray(last), np.asarray(res["tp"].data), np.asarray(res["temps"].data)
    return out + (key,) if with_key else out


def check_pt(case, ctx):
    n, d, K, T = PT_SIZES[case.get("size", 0)]
    _, data, x = setup(case["kernel"], case["seed"], d, n)
    g = rng(case["seed"], 21)
    tp = np.asarray(data["m"]) + 2 * g.normal(size=(n, K - 1, d))
    temps = np.geomspace(1.0, 5.0, K)
    moved = sorted(set(c % n for c in case["chains"]))[: n - 1]
    y, tq = x, tp
    if case["which"] != "tempered":
        y = disturb(x, moved, case["how"], g)
    if case["which"] != "cold":
        tq = disturb(tp, moved, case["how"], g)
    ker = kernel_of(case["kernel"], 0.5)
    key = key_of(case["seed"])
    calls = 1 if case["training"] else 2
    a = run_pt(ker, x, tp, temps, data, T, case["training"], key, calls)
    b = run_pt(ker, y, tq, temps, data, T, case["training"], key, calls, verbose=case["verbose"])
    same = [c for c in range(n) if c not in moved]
    for u, v, nm in zip(a[:2], b[:2], ["positions", "tempered positions"]):
        require_close(v[same], u[same], f"tempering ({case['kernel']}, training={case['training']}): {nm} of chains {same} "
                      f"after moving {case['which']} starts of chains {moved} ({case['how']})", rtol=1e-9, atol=1e-9)
    if case["verbose"]:
        c = run_pt(ker, x, tp, temps, data, T, case["training"], key, calls, verbose=True)
        for u, v, nm in zip(a, c, ["positions", "tempered positions", "temperatures"]):
            require_close(v, u, f"tempering: {nm} when verbose", rtol=1e-9, atol=1e-9)
    ctx.count(len(same) * K * T * calls)
    ctx.label(case["how"])
    ctx.label("training" if case["training"] else "production")
    ctx.nontrivial(not np.allclose(a[0], x))


def pt_case():
    return st.fixed_dictionaries(dict(
        kernel=st.sampled_from(["grw", "mala", "hmc"]), chains=st.lists(st.integers(0, 16), min_size=1, max_size=2), size=st.sampled_from([0, 0, 1, 2, 3]),
        which=st.sampled_from(["both", "cold", "tempered"]), how=st.sampled_from(["moved", "small", "huge", "nan", "copy"]),
        training=st.booleans(), verbose=st.booleans(), seed=SEED))


def check_pt_noise(case, ctx):
    """Flat densities: each replica's displacement is its noise; replicas are told apart by where
    they started, 1e4 apart."""
    n, d, K = 2000, 2, case["K"]
    zero = lambda x, data: jnp.zeros(()) * jnp.sum(x)
    start = np.arange(K)[None, :, None] * 1e4 + np.zeros((n, K, d))
    temps = np.linspace(1, case.get("top", 5.0), K)
    key = key_of(case["seed"])
    p, tp, _ = run_pt(kernel_of("grw", 1.0), start[:, 0], start[:, 1:], temps, {}, case["T"], case["training"], key, 1, loglike=zero, prior=zero)
    al = np.concatenate([p[:, None], tp], 1)
    rung = np.round(al[..., 0] / 1e4).astype(int)
    require_equal(np.sort(rung, 1), np.tile(np.arange(K), (n, 1)), "replicas present after a round on flat densities")
    order = np.argsort(rung, 1)
    z = (np.take_along_axis(al, order[..., None], 1) - start) / np.sqrt(case["T"])
    flat = np.round(z.reshape(-1, d), 7)
    require(len(np.unique(flat, axis=0)) == len(flat), f"replicas share their noise: {len(flat) - len(np.unique(flat, axis=0))} repeats among "
            f"{n} chains x {K} temperatures")
    moments_normal(z.reshape(-1, d), "tempering noise")
    for i in range(K):
        for j in range(i):
            corr_zero(z[:, i, 0], z[:, j, 0], f"noise of temperatures {i} and {j}")
        corr_zero(z[1:, i, 0], z[:-1, i, 0], f"noise of neighbouring chains at temperature {i}")
    ctx.count(n * K)
    ctx.nontrivial()


def pt_noise_case():
    return st.fixed_dictionaries(dict(K=st.sampled_from([2, 3, 5]), top=st.sampled_from([1.9, 5.0, 1.02, 1e4]), T=st.sampled_from([1, 2]), training=st.booleans(), seed=SEED))


def check_exchange_noise(case, ctx):
    """Long ladder, replicas that stand still, every chain at the same start: the pattern of a chain's swaps is
    then a function of its own randomness only, with dozens of random bits per round."""
    n, K = case["n"], 40
    g = rng(case["seed"], 31)
    betas = np.linspace(1.0, 0.2, K)
    lk = g.normal() * 30 - 25.0 * np.arange(K)  # the swap ratios are about 0.6, 0.6^2, ...: every swap is a toss-up
    start = np.tile(lk[:, None], (n, 1, 1))
    like = lambda x, data: jnp.sum(x)
    zero = lambda x, data: jnp.zeros(()) * jnp.sum(x)
    key = key_of(case["seed"])
    rows = []
    for _ in range(2):
        p, tp, _, key = run_pt(kernel_of("grw", 1e-12), start[:, 0], start[:, 1:], 1 / betas, {}, 1, False, key, 1, loglike=like,
                               prior=zero, with_key=True)
        al = np.concatenate([p[:, None], tp], 1)[..., 0]
        rows.append(np.argmin(np.abs(al[:, :, None] - lk[None, None, :]), -1))
    require_equal(np.sort(rows[0], 1), np.tile(np.arange(K), (n, 1)), "replicas present after a round in which nothing moves")
    both = np.concatenate(rows)
    ent = len(np.unique(both, axis=0))
    require(ent == len(both), f"{len(both) - ent} of {len(both)} exchange rounds ({n} chains from one start, 2 successive calls) repeat another's "
            f"whole pattern of {K - 1} random swaps")
    ctx.count(2 * n)
    ctx.nontrivial()


def exchange_noise_case():
    return st.fixed_dictionaries(dict(n=st.sampled_from([64, 65, 7, 20]), seed=SEED))


FACETS = [
    Facet(f"perturb_{k}", functools.partial(check_perturb, k), perturb_case, quick=q, thorough=150,
          rule="starts of a random subset of chains changed; non-trivial when some updates were accepted")
    for k, q in (("grw", 10), ("mala", 8), ("hmc", 8), ("nf", 8))
] + [
    Facet(f"batching_{k}", functools.partial(check_batching, k), batching_case, quick=q, thorough=150,
          rule="batch sizes around the number of chains and verbosity; non-trivial when updates are mixed and something was varied")
    for k, q in (("mala", 12), ("nf", 8))
] + [
    Facet(f"noise_{k}", functools.partial(check_noise, k), noise_case, quick=q, thorough=30,
          rule="3000 chains from one start, 2 calls of 3 steps; every case non-trivial")
    for k, q in (("grw", 3), ("mala", 3), ("hmc", 3), ("nf", 3))
] + [
    Facet("tempering", check_pt, pt_case, quick=10, thorough=150, shards=2,
          rule="cold and/or tempered starts of some chains changed; non-trivial when chains moved"),
    Facet("tempering_noise", check_pt_noise, pt_noise_case, quick=4, thorough=40,
          rule="2000 chains x K temperatures on flat densities; every case non-trivial"),
    Facet("exchange_noise", check_exchange_noise, exchange_noise_case, quick=3, thorough=30,
          rule="all chains at one start on a 40-rung ladder with standing replicas, two successive calls; every case non-trivial"),
]
FACETS += in_single_precision(FACETS, dict(perturb_grw=4, perturb_mala=4, perturb_hmc=4, perturb_nf=4, tempering=4))
ASSUMPTIONS = ["in training, a call's ladder adaptation (shared by all chains by design) takes effect in later calls only"]
