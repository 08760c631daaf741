"""C03: blocks of global steps are an exact independence Metropolis-Hastings sampler.

With the target equal to the flow density every ratio is 1, so every proposal is accepted and the
returned positions reveal the proposals of that key.  Adding a constant c to the target at exactly
one proposal shifts one ratio by c; bisecting c reveals that step's log-uniform.  With proposals
and uniforms known, the whole accept/reject history on any other target is replayed in numpy."""
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from vf.common import (SEED, flow_forward, flow_logq, key_of, keys, make_flow, np_gauss_logpdf, np_logp, rng, target_logp, target_params, to_jax)
from vf.mixtures import follows, follows_on_average, gen_mixture, mix_draw, mix_logp, projections
from vf.core import (Facet, HarnessError, in_single_precision, corr_zero, fail, ks_uniform, moments_normal, require, require_close,
                     require_equal, require_shape)


def probe_target(x, data):
    """alpha*log q(x) + beta*target(x) + c * [x is the selected proposal]"""
    q = data["model"].log_prob(x)
    hit = jnp.all(jnp.abs(x - data["sel"]) <= 1e-9 * (1 + jnp.abs(x)))
    return data["alpha"] * q + data["beta"] * target_logp(x, data["p"]) + jnp.where(hit, data["c"], 0.0)


@eqx.filter_jit
def run_block(kernel, key, x0, data, n_steps):
    d = dict(data, n_steps=n_steps)
    return kernel.kernel(key, x0, probe_target(x0, data), lambda x, _: probe_target(x, data), d)


@eqx.filter_jit
def uniforms(kernel, key, x0, data, props, n_steps):
    """log u of every step by bisection (one shift per step, all other ratios 1)."""

    def one(i):
        def acc(c):
            d = dict(data, sel=props[i], c=c)
            return kernel.kernel(key, x0, probe_target(x0, d), lambda x, _: probe_target(x, d), dict(d, n_steps=n_steps))[2][i]

        def body(_, lohi):
            lo, hi = lohi
            mid = 0.5 * (lo + hi)
            a = acc(mid)
            return jnp.where(a, lo, mid), jnp.where(a, mid, hi)

        return jax.lax.fori_loop(0, 50, body, (-60.0 * jnp.ones(()), jnp.ones(())))[1]

    return jax.lax.map(one, jnp.arange(n_steps))


@eqx.filter_jit
def many_uniforms(kernel, ks, x0, data, props, n_steps):
    return jax.lax.map(lambda kp: uniforms(kernel, kp[0], x0, data, kp[1], n_steps), (ks, props), batch_size=20)


# (n_steps, batch size): below, equal, dividing, not dividing, remainder 1, batch of one
BLOCKS = [(1, 4), (5, 8), (6, 6), (6, 3), (7, 3), (10, 3), (9, 4), (5, 1), (7, 6), (33, 8)]
FLOWS = [("rqs", 2), ("nvp", 2), ("rqs", 3), ("nvp", 3), ("rqs", 1), ("nvp", 1), ("nvp", 7), ("rqs", 6)]


def build(case):
    from flowMC.resource.kernel.NF_proposal import NFProposal

    kind, d = FLOWS[case["flow"]]
    n_steps, nb = BLOCKS[case["block"]]
    m = make_flow(kind, d, 2, case["seed"], case["w"])
    return m, NFProposal(m, nb), d, n_steps, nb


def check_block(case, ctx):
    m, ker, d, T, nb = build(case)
    seed = case["seed"]
    g = rng(seed, 51)
    mean, sd = np.asarray(m.data_mean, float), np.sqrt(np.diag(np.asarray(m.data_cov, float)))
    p = target_params(seed, d, case["target"], case["offset"])
    p["m"] = mean + sd * g.normal(size=d) * case["off"]
    p["P"] = np.asarray(p["P"]) / np.outer(sd, sd)
    p["a"] = float(p["a"] / np.max(sd) ** 4)
    pj = to_jax({k: np.asarray(v, float) for k, v in p.items()})
    far = jnp.full(d, 1e30)
    nchk = 0
    mixed = False
    for rep in range(case["reps"]):
        key = key_of(seed + 7919 * rep)
        x0 = jnp.asarray(mean + sd * g.normal(size=d) * case["x0"])
        q = dict(model=m, p=pj, alpha=jnp.ones(()), beta=jnp.zeros(()), sel=far, c=jnp.zeros(()))
        y, lp, acc = run_block(ker, key, x0, q, T)
        require_shape(y, (T, d), "positions of a block")
        require_shape(lp, (T,), "log-probs of a block")
        require_shape(acc, (T,), "flags of a block")
        y = np.asarray(y)
        require(np.asarray(acc).astype(bool).all(), "a proposal was rejected although target and flow agree everywhere")
        logq = flow_logq(m, y)
        require_close(lp, logq, "target values when the target is the flow itself", rtol=1e-8, atol=1e-8)
        require(len(np.unique(y, axis=0)) == T, "global proposals are repeated within a block")
        if not np.isfinite(logq).all():
            continue
        logu = np.asarray(uniforms(ker, key, x0, q, jnp.asarray(y), T))
        require((logu < 1e-9).all(), f"accept draw above one: {logu.max()}")
        # replay on the real target
        r = dict(q, alpha=jnp.zeros(()), beta=jnp.ones(()))
        yt, lt, at = map(np.asarray, run_block(ker, key, x0, r, T))
        tq = np.concatenate([flow_logq(m, x0), logq])
        tt = np.concatenate([[float(np_logp(np.asarray(x0), p))], np_logp(y, p)])
        xs = np.concatenate([np.asarray(x0)[None], y])
        cur = 0
        for t in range(T):
            ratio = (tt[t + 1] - tt[cur]) - (tq[t + 1] - tq[cur])
            tol = 1e-7 * (1 + np.abs(tt).max() + np.abs(tq).max())
            if abs(ratio - logu[t]) < tol:
                break  # too close to call
            want = logu[t] < ratio
            nchk += 1
            require(bool(at[t]) == want,
                    f"step {t} of {T} (batch {nb}): accept={bool(at[t])}, but log u={logu[t]:.6g} and the independence "
                    f"Metropolis-Hastings log ratio is {ratio:.6g}")
            if want:
                cur = t + 1
            require_close(yt[t], xs[cur], f"position after step {t}", rtol=1e-9, atol=1e-9)
            require_close(lt[t], tt[cur], f"log-prob after step {t}", rtol=1e-8, atol=1e-8)
        mixed |= 0 < at.sum() < T
        ctx.label("accepted", at.sum())
        ctx.label("rejected", T - at.sum())
    ctx.count(nchk)
    ctx.label(f"steps={T} batch={nb}")
    ctx.nontrivial(nchk > 0 and (mixed or T == 1))


# each group shares compiled code; together they cover every block shape and flow
GROUPS = {"a": ([0, 4], [0, 3]), "b": ([1, 6], [1, 4]), "c": ([2, 5], [2, 1]), "d": ([3, 8], [0, 5]), "e": ([7, 5], [3, 7]), "f": ([9], [6])}


def block_case(group):
    blocks, flows = GROUPS[group]
    return lambda: st.fixed_dictionaries(dict(
        flow=st.sampled_from(flows), block=st.sampled_from(blocks), target=st.sampled_from([1, 2, 3]),
        w=st.sampled_from([0.1, 0.5, 1.0]), off=st.sampled_from([0.0, 0.7, 1.5]), x0=st.sampled_from([1.5, 0.5, 4.0, 30.0]),
        offset=st.sampled_from([0.0, 0.0, -800.0, 3e4]),
        reps=st.just(3), seed=SEED))


# ------------------------------------------------------------------ distribution of the draws
def check_draws(case, ctx):
    m, ker, d, T, nb = build(case)
    n = 1200 if T > 1 else 6000
    ks = keys(case["seed"], n)
    mean = jnp.asarray(m.data_mean)
    q = dict(model=m, p=to_jax({k: np.asarray(v, float) for k, v in target_params(1, d, 1).items()}),
             alpha=jnp.ones(()), beta=jnp.zeros(()), sel=jnp.full(d, 1e30), c=jnp.zeros(()))
    y, lp, acc = eqx.filter_jit(lambda k, ks: jax.lax.map(lambda kk: run_block(k, kk, mean, q, T), ks, batch_size=100))(ker, ks)
    y = np.asarray(y)
    require(np.asarray(acc).astype(bool).all(), "a proposal was rejected although target and flow agree everywhere")
    std = np.sqrt(np.diag(np.asarray(m.data_cov, float)))
    z = np.asarray(flow_forward(m, jnp.asarray((y.reshape(-1, d) - np.asarray(m.data_mean)) / std))[0], float)
    bm, bc = np.asarray(m.base_dist.mean, float), np.asarray(m.base_dist.cov, float)
    w = np.linalg.solve(np.linalg.cholesky(bc), (z - bm).T).T
    moments_normal(w, "global proposals in latent space")
    w = w.reshape(n, T, d)
    for t in range(1, T):
        corr_zero(w[:, t, 0], w[:, t - 1, 0], f"proposals {t - 1} and {t}")
    if T > 2:
        corr_zero(w[:, T - 1, 0], w[:, 0, 0], "first and last proposal")
    corr_zero(w[1:, 0, 0], w[:-1, 0, 0], "proposals of consecutive keys")
    # uniforms of a few keys
    nu = case["nu"]
    us = np.asarray(many_uniforms(ker, ks[:nu], mean, q, jnp.asarray(y[:nu]), T))
    us = np.exp(np.minimum(np.array(us), 0))
    ks_uniform(us, "accept draws of global steps")
    if T > 1:
        require(len(np.unique(np.round(us.reshape(-1), 9))) == us.size, "accept draws are repeated")
        corr_zero(us[:, 0], us[:, 1], "accept draws of consecutive steps")
        corr_zero(us[:, :-1].ravel(), us[:, 1:].ravel(), "accept draws of consecutive steps (pooled)")
    for s in range(T):
        for t in range(T):
            for i in range(d):
                corr_zero(us[:, s], w[:nu, t, i], f"accept draw of step {s} and proposal {t}, latent coordinate {i}")
    corr_zero(us.ravel(), w[:nu, :, 0].ravel(), "accept draws and proposals")
    ctx.count(w.size)
    ctx.label(f"steps={T} batch={nb}")
    ctx.nontrivial()


def draws_case():
    return st.fixed_dictionaries(dict(
        flow=st.sampled_from([0, 1, 2, 3]), block=st.sampled_from([3, 1, 4, 9, 5, 6]),
        w=st.sampled_from([0.1, 0.5]), nu=st.just(160), seed=SEED))


# ------------------------------------------------------------------ the user's data
def check_user_data(case, ctx):
    """Global steps see exactly the data the user passed, also when it has awkward keys."""
    from flowMC.resource.buffers import Buffer
    from flowMC.resource.kernel.NF_proposal import NFProposal
    from flowMC.resource.logPDF import LogPDF
    from flowMC.resource.states import State
    from flowMC.strategy.take_steps import TakeGroupSteps

    d, n = 2, 3
    T, nb = BLOCKS[case["block"]]
    m = make_flow("nvp", d, 2, case["seed"], 0.3)
    seen = []

    def logp(x, data):
        seen.append(tuple(sorted(data)))
        return -0.5 * jnp.sum((x - data["mu"]) ** 2) * data.get("n_steps", 1.0) + 0.1 * data.get("n_batch", 0.0)

    g = rng(case["seed"], 53)
    data = {"mu": jnp.asarray(g.normal(size=d))}
    for k, v in case["extra"].items():
        data[k] = jnp.asarray(v)
    x = jnp.asarray(np.asarray(m.data_mean) + g.normal(size=(n, d)))
    res = dict(logpdf=LogPDF(logp, n_dims=d), k=NFProposal(m, nb), state=State(dict(p="p", l="l", a="a")),
               p=Buffer("p", (n, T, d), 1), l=Buffer("l", (n, T), 1), a=Buffer("a", (n, T), 1))
    _, res, _ = TakeGroupSteps("logpdf", "k", "state", ["p", "l", "a"], T)(key_of(case["seed"]), res, x, data)
    require(set(seen) == {tuple(sorted(data))}, f"target saw data keys {set(seen)}, the user passed {sorted(data)}")
    pos, lps = np.asarray(res["p"].data), np.asarray(res["l"].data)
    want = jax.vmap(jax.vmap(lambda v: logp(v, data)))(jnp.asarray(pos))
    require_close(lps, want, "log-prob of global steps under the user's data", rtol=1e-8, atol=1e-8)
    require(set(data) == {"mu", *case["extra"]}, "the user's data was modified")
    ctx.count(lps.size)
    ctx.nontrivial(bool(case["extra"]))


def data_case():
    return st.fixed_dictionaries(dict(block=st.integers(0, len(BLOCKS) - 1), seed=SEED,
                                      extra=st.dictionaries(st.sampled_from(["n_steps", "n_batch", "model", "rng_key"]),
                                                            st.sampled_from([0.5, 2.0, 3.0]), max_size=3)))


# ------------------------------------------------------------------ chains started in the target stay in it
@eqx.filter_jit
def many_blocks(kernel, ks, xs, data, n_steps):
    d = dict(data, n_steps=n_steps)
    return jax.vmap(lambda k, x: kernel.kernel(k, x, mix_logp(x, data), lambda y, _: mix_logp(y, data), d))(ks, xs)


def check_stationary(case, ctx):
    from flowMC.resource.kernel.NF_proposal import NFProposal

    kind, d = FLOWS[case["flow"]]
    T, nb = BLOCKS[case["block"]]
    n = 8000
    g = rng(case["seed"], 57)
    p = gen_mixture(g, d, case["K"], case["unit"])
    m = make_flow(kind, d, 2, case["seed"], case["w"], stats=False)
    mean = p["w"] @ p["m"]
    cov = np.einsum("k,kij->ij", p["w"], p["S"]) + np.einsum("k,ki,kj->ij", p["w"], p["m"] - mean, p["m"] - mean)
    m = eqx.tree_at(lambda t: (t._data_mean, t._data_cov), m, (jnp.asarray(mean + case["off"] * np.sqrt(np.diag(cov)) * g.normal(size=d)), jnp.asarray(cov * case["wide"])))
    x = mix_draw(g, p, n)
    pos, lp, acc = many_blocks(NFProposal(m, nb), keys(case["seed"], n), jnp.asarray(x), to_jax(dict(mix=p, offset=case["offset"])), T)
    pos, rate = np.asarray(pos, float), np.asarray(acc).astype(float).mean()
    V = projections(g, d)
    for t in range(T):
        follows(pos[:, t], p, V, f"global steps {t + 1} of {T} (batch {nb}, acceptance {rate:.2f}) of chains started from the target")
    if T > 1:
        follows_on_average(pos, p, V, f"{T} global steps (batch {nb}, acceptance {rate:.2f}) of chains started from the target")
    ctx.count(n * T)
    ctx.label(f"steps={T} batch={nb}")
    ctx.nontrivial(0.02 < rate < 0.98)


def stationary_case():
    return st.fixed_dictionaries(dict(
        flow=st.sampled_from([0, 1, 3, 2, 6, 7]), block=st.sampled_from([3, 1, 4, 9, 0, 5]), K=st.sampled_from([2, 1, 3]), unit=st.sampled_from([1.0, 1e-3, 1e3]),
        w=st.sampled_from([0.1, 0.3]), off=st.sampled_from([0.2, 0.0, 0.5]), wide=st.sampled_from([1.5, 1.0, 2.5]), offset=st.sampled_from([0.0, -40.0, 300.0]), seed=SEED))


FACETS = [
    *[Facet(f"block_{k}", check_block, block_case(k), quick=30, thorough=600, thorough_shards=2,
            rule="3 blocks of global steps replayed per case; non-trivial when decisions were compared and both outcomes occur")
      for k in GROUPS],
    Facet("draws", check_draws, draws_case, quick=3, thorough=25, shards=2, rule="1200 blocks per case; every case"),
    Facet("stationary", check_stationary, stationary_case, quick=3, thorough=100, thorough_shards=2, rule="a block of global steps of 8000 chains started from exact draws of a mixture; non-trivial when between 2% and 98% of the proposals are accepted"),
    Facet("user_data", check_user_data, data_case, quick=8, thorough=60, rule="one stepping call per case; non-trivial when the data has extra keys"),
]
FACETS += in_single_precision(FACETS, dict(stationary=4))
ASSUMPTIONS = ["proposals and accept draws depend on the key only, not on the target"]
