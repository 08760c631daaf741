"""C20: a bundled sampler samples its target: every step of every phase leaves the same, stated distribution
unchanged, chains started elsewhere converge to it, and the settings given to the bundle are the ones used."""
import numpy as np
import jax
import jax.numpy as jnp
import equinox as eqx
from hypothesis import strategies as st

from vf.common import SEED, arrays_of, key_of, leaves_equal, rng, to_jax
from vf.mixtures import follows, follows_on_average, gen_mixture, mix_draw, mix_logp, projections
from vf.core import Facet, in_single_precision, Violation, Z_MAX, fail, require, require_close, require_equal
from vf.instruments import SpyModel

from flowMC.Sampler import Sampler
from flowMC.strategy.lambda_function import Lambda
from flowMC.strategy.parallel_tempering import ParallelTempering
from flowMC.strategy.take_steps import TakeGroupSteps, TakeSerialSteps
from flowMC.resource_strategy_bundle.RQSpline_MALA import RQSpline_MALA_Bundle
from flowMC.resource_strategy_bundle.RQSpline_MALA_PT import RQSpline_MALA_PT_Bundle


def prior_logp(x, data):
    t = x - data["prior_m"]
    return -0.5 * jnp.dot(t, data["prior_P"] @ t)


def build(c, pt, logpdf, **extra):
    kw = dict(n_chains=c["n"], n_dims=c["d"], logpdf=logpdf, n_local_steps=c["local"], n_global_steps=c["glob"], n_training_loops=c["train"],
              n_production_loops=c["prod"], n_epochs=c.get("epochs", 2), mala_step_size=c["step"], chain_batch_size=c.get("chain_batch", 0),
              rq_spline_hidden_units=c.get("hidden", [4]), rq_spline_n_bins=c.get("bins", 4), rq_spline_n_layers=c.get("layers", 2),
              learning_rate=c.get("lr", 0.01), batch_size=c.get("batch", 1000), n_max_examples=c.get("examples", 1000),
              local_thinning=c.get("thin_l", 1), global_thinning=c.get("thin_g", 1), n_NFproposal_batch_size=c.get("nf_batch", 1000), verbose=False)
    if pt:
        kw.update(n_temperatures=c["temps"], max_temperature=c["max_temp"], n_tempered_steps=c["tempered"])
    kw.update(extra)
    return (RQSpline_MALA_PT_Bundle if pt else RQSpline_MALA_Bundle)(key_of(c["seed"] + 7), **kw)


def run(c, b, x, data, replicas=None, keep=None, look=None):
    """A run of the bundle.  `replicas` are put in place just before the first tempering, `keep` restricts the
    chain-moving strategies to the given types, and `look` collects the chains after each of them."""
    strategies, order, movers = dict(b.strategies), [], (ParallelTempering, TakeSerialSteps, TakeGroupSteps)
    if replicas is not None:
        def put(k, r, p, dd):
            r["tempered_positions"].data = jnp.asarray(replicas)
        strategies["_put"] = Lambda(put)
    if look is not None:
        strategies["_look"] = Lambda(lambda k, r, p, dd: look.append(np.asarray(p)))
    for o in b.strategy_order:
        mover = isinstance(strategies[o], movers)
        if mover and keep is not None and not isinstance(strategies[o], keep):
            continue
        if replicas is not None and isinstance(strategies[o], ParallelTempering) and "_put" not in order:
            order.append("_put")
        order += [o, "_look"] if mover and look is not None else [o]
    s = Sampler(c["d"], c["n"], key_of(c["seed"] + 11), resources=b.resources, strategies=strategies, strategy_order=order)
    s.sample(jnp.asarray(x), data)
    return s.resources


# ------------------------------------------------------------------ started from the target, every record follows the target
def check_stationary(case, ctx):
    n, d = case["n"], case["d"]
    g = rng(case["seed"], 201)
    p = gen_mixture(g, d, case["K"], case["unit"])
    x = mix_draw(g, p, n)
    c = dict(case, step=case["step"] * case["unit"])
    res = run(c, build(c, False, mix_logp), x, to_jax(dict(mix=p, offset=case["offset"])))
    V = projections(g, d)
    for ph, loops in (("training", case["train"]), ("production", case["prod"])):
        pos = np.asarray(res[f"positions_{ph}"].data)
        if loops == 0:
            continue
        for i in range(pos.shape[1]):
            follows(pos[:, i], p, V, f"{ph} records number {i} of chains started from the target")
            ctx.count(V.shape[0])
        follows_on_average(pos, p, V, f"{ph} records of chains started from the target")
        la, ga = np.asarray(res[f"local_accs_{ph}"].data), np.asarray(res[f"global_accs_{ph}"].data)
        ctx.label("local accepted (%)", int(100 * (la == 1).sum() / max((la >= 0).sum(), 1)))
        ctx.label("global accepted (%)", int(100 * (ga == 1).sum() / max((ga >= 0).sum(), 1)))
    ctx.label("trained flows", case["train"])
    ctx.label("mixtures", case["K"] > 1)
    ctx.nontrivial(0.02 < (ga == 1).sum() / (ga >= 0).sum() < 0.999 and (la == 1).sum() > 0)


def stationary_case():
    return st.fixed_dictionaries(dict(
        n=st.sampled_from([3000, 2000]), d=st.sampled_from([2, 3, 1, 5]), K=st.sampled_from([2, 1, 3]), unit=st.sampled_from([1.0, 0.8, 2.0]), offset=st.sampled_from([0.0, -40.0, 300.0]),
        local=st.sampled_from([2, 3, 1, 5]), glob=st.sampled_from([3, 2, 6, 1]), train=st.sampled_from([1, 0, 2]), prod=st.sampled_from([2, 1]), step=st.sampled_from([0.8, 0.3, 1.2]),
        chain_batch=st.sampled_from([0, 1300]), nf_batch=st.sampled_from([1000, 2]), thin_l=st.sampled_from([1, 1, 2]), thin_g=st.sampled_from([1, 1, 2]),
        epochs=st.integers(1, 3), seed=SEED)).map(lambda c: dict(c, thin_l=min(c["thin_l"], c["local"]), thin_g=min(c["thin_g"], c["glob"])))


# ------------------------------------------------------------------ tempered: each rung follows its own density
def rung(p, T):
    """f^(1/T) of a single Gaussian."""
    return dict(p, S=p["S"] * T, P=p["P"] / T)


def check_tempered(case, ctx):
    n, d, K = case["n"], case["d"], case["temps"]
    g = rng(case["seed"], 202)
    p = gen_mixture(g, d, 1, lo=0.5, hi=1.2)
    x = mix_draw(g, p, n)
    b = build(case, True, mix_logp)
    T = np.asarray(b.resources["temperatures"].data)
    replicas = np.stack([mix_draw(g, rung(p, t), n) for t in T[1:]], 1)
    res = run(case, b, x, to_jax(dict(mix=p, offset=case["offset"])), replicas)
    V = projections(g, d)
    require_equal(np.asarray(res["temperatures"].data), T, "the ladder of a run without training")
    pos = np.asarray(res["positions_production"].data)
    for i in range(pos.shape[1]):
        follows(pos[:, i], p, V, f"production records number {i} of tempered chains started from the target")
        ctx.count(V.shape[0])
    follows_on_average(pos, p, V, "production records of tempered chains started from the target")
    tp = np.asarray(res["tempered_positions"].data)
    for k in range(1, K):
        follows(tp[:, k - 1], rung(p, T[k]), V, f"replicas at temperature {T[k]:.3g} started from their own density")
    acc = np.asarray(res["local_accs_production"].data)
    ctx.label(f"{K} rungs")
    ctx.nontrivial((acc == 1).any())


def tempered_case():
    return st.fixed_dictionaries(dict(
        n=st.sampled_from([3000, 2000]), d=st.sampled_from([2, 3, 1, 4]), offset=st.sampled_from([0.0, -40.0, 300.0]), local=st.sampled_from([1, 2, 3]), glob=st.sampled_from([1, 2]), train=st.just(0),
        prod=st.sampled_from([2, 3, 1]), step=st.sampled_from([0.8, 0.4, 1.2]), temps=st.sampled_from([3, 2, 5]), max_temp=st.sampled_from([5.0, 2.0, 20.0]), tempered=st.sampled_from([3, 1, 2, -1]), seed=SEED))


# ------------------------------------------------------------------ started elsewhere, the chains converge
def check_converges(case, ctx):
    n, d, pt = case["n"], case["d"], case["pt"]
    g = rng(case["seed"], 203)
    p = gen_mixture(g, d, 1, lo=0.6, hi=1.2, shift=2.0)
    away = g.normal(size=d)
    x = np.repeat((p["m"][0] + 4 * away / np.linalg.norm(away))[None], n, 0)
    b = build(case, pt, mix_logp)
    res = run(case, b, x, to_jax(dict(mix=p, offset=case["offset"])))
    V = projections(g, d)
    pos = np.asarray(res["positions_production"].data)
    follows(pos[:, -1], p, V, f"last records of {case['prod']} production loops of {case['local']} + {case['glob']} steps, chains started at one point,")
    ctx.count(V.shape[0])
    if pt:
        T = np.asarray(res["temperatures"].data)
        tp = np.asarray(res["tempered_positions"].data)
        for k in range(1, case["temps"]):
            follows(tp[:, k - 1], rung(p, T[k]), V, f"replicas at temperature {T[k]:.3g} at the end of a run")
            ctx.count(V.shape[0])
    ctx.label("tempered" if pt else "plain")
    ctx.nontrivial()


def converges_case(pt):
    def make():
        f = dict(n=st.sampled_from([1500, 1000]), d=st.sampled_from([2, 3, 1]), offset=st.sampled_from([0.0, -40.0]), local=st.sampled_from([24, 30]), glob=st.sampled_from([1, 3]), train=st.sampled_from([1, 0]),
                 prod=st.sampled_from([5, 4]), step=st.sampled_from([0.9, 1.0]), pt=st.just(pt), seed=SEED)
        if pt:
            f.update(temps=st.sampled_from([3, 2]), max_temp=st.sampled_from([3.0, 2.0]), tempered=st.sampled_from([60, 50]))
        return st.fixed_dictionaries(f)
    return make


# ------------------------------------------------------------------ when the flow is the target, every global proposal is accepted
def check_flow_target(case, ctx):
    n, d, pt = case["n"], case["d"], case["pt"]
    g = rng(case["seed"], 204)
    flow = []
    b = build(case, pt, lambda x, data: flow[0].log_prob(x) + data["offset"])
    flow.append(b.resources["model"])
    if case["stats"]:
        A = g.normal(size=(d, d)) * 0.5
        m = b.resources["model"]
        m = eqx.tree_at(lambda t: (t._data_mean, t._data_cov), m, (jnp.asarray(g.normal(size=d)), jnp.asarray(A @ A.T + np.eye(d))))
        flow[0] = b.resources["model"] = m
        b.resources["global_sampler"] = eqx.tree_at(lambda t: t.model, b.resources["global_sampler"], m)
    x = np.asarray(flow[0].sample(key_of(case["seed"] + 3), n))
    res = run(case, b, x, {"offset": jnp.asarray(case["offset"])})
    pos, ga = np.asarray(res["positions_production"].data), np.asarray(res["global_accs_production"].data)
    own = np.tile(np.r_[np.zeros(case["local"], bool), np.ones(case["glob"], bool)], case["prod"])
    a = ga[:, own]
    require((a == 1).all(), f"{int((a != 1).sum())} of {a.size} global proposals were refused although the flow is the target")
    q = pos[:, own].reshape(-1, d)
    require(len(np.unique(q, axis=0)) == len(q), "two global steps (of one chain or of two) proposed the same point although proposals are independent draws")
    # successive global records are independent draws of one distribution
    blocks = pos[:, own]
    mu, sd = blocks.mean((0, 1)), blocks.std((0, 1))
    zz = (blocks - mu) / sd
    for lag in range(1, blocks.shape[1]):
        r = np.einsum("nta,ntb->ab", zz[:, lag:], zz[:, :-lag]) / np.sqrt(zz[:, lag:].shape[0] * zz[:, lag:].shape[1])
        require(np.abs(r).max() < Z_MAX + 1, f"global records {lag} apart are correlated although every proposal is an accepted independent draw: {np.abs(r).max():.1f} standard errors")
    drift = (blocks.mean(0) - mu) / sd * np.sqrt(n)
    require(np.abs(drift).max() < Z_MAX, f"global records drift: {np.abs(drift).max():.1f} standard errors")
    ctx.count(a.size)
    ctx.label("tempered" if pt else "plain")
    ctx.nontrivial()


def flow_target_case():
    return st.fixed_dictionaries(dict(
        n=st.sampled_from([300, 100, 500]), d=st.sampled_from([2, 3, 1, 5]), offset=st.sampled_from([0.0, 25.0, -300.0]), local=st.sampled_from([1, 2]), glob=st.sampled_from([5, 3, 8, 1]), train=st.just(0), prod=st.sampled_from([2, 1]),
        step=st.sampled_from([0.2, 0.05]), nf_batch=st.sampled_from([1000, 2, 3]), chain_batch=st.sampled_from([0, 90]), stats=st.booleans(), layers=st.sampled_from([2, 3]), bins=st.sampled_from([4, 8]),
        pt=st.booleans(), temps=st.just(2), max_temp=st.just(1.5), tempered=st.just(1), seed=SEED))


# ------------------------------------------------------------------ with a prior, one distribution for every step
def posterior_of(p, m0, P0):
    P = p["P"][0] + P0
    S = np.linalg.inv(P)
    return dict(w=np.ones(1), m=(S @ (p["P"][0] @ p["m"][0] + P0 @ m0))[None], S=S[None], P=P[None], ld=np.array([-np.linalg.slogdet(P)[1]]))


def check_prior(case, ctx):
    n, d = case["n"], case["d"]
    g = rng(case["seed"], 205)
    p = gen_mixture(g, d, 1, lo=0.5, hi=1.2)
    m0 = p["m"][0] + case["dist"] * (lambda v: v / np.linalg.norm(v))(g.normal(size=d))
    P0 = np.eye(d) * case["prior"]
    post = posterior_of(p, m0, P0)
    data = to_jax(dict(mix=p, offset=0.0, prior_m=m0, prior_P=P0))
    V = projections(g, d)

    def off(target, only=None):
        """Does a run started from `target` (replicas from their own rungs) leave it?"""
        b = build(case, True, mix_logp, logprior=prior_logp)
        T = np.asarray(b.resources["temperatures"].data)
        replicas, seen = np.stack([mix_draw(g, posterior_of(rung(p, t), m0, P0), n) for t in T[1:]], 1), []
        run(case, b, mix_draw(g, target, n), data, replicas, only, seen)
        try:
            for i, q in enumerate(seen):
                follows(q, target, V, f"chains after step {i}")
        except Violation as e:
            return str(e)
        return None

    as_post, as_like = off(post), off(p)
    ctx.count(2 * V.shape[0])
    ctx.nontrivial()
    if as_post is None or as_like is None:
        return
    # the recorded finding, and nothing else: tempering keeps logpdf + logprior, local and global steps keep logpdf alone
    a, b = off(post, ParallelTempering), off(p, (TakeSerialSteps, TakeGroupSteps))
    if a is None and b is None:
        ctx.finding("prior-two-targets", "with a non-constant logprior the tempering step targets logpdf + logprior and the local and global steps target logpdf alone")
        ctx.label("known two targets")
        return
    fail(f"with a prior no distribution is left unchanged by all steps: started from the posterior: {as_post}; started from the likelihood: {as_like}; tempering alone: {a}; local and global steps alone: {b}")


def prior_case():
    return st.fixed_dictionaries(dict(
        n=st.sampled_from([2000, 3000]), d=st.sampled_from([2, 3, 1]), local=st.sampled_from([2, 3]), glob=st.sampled_from([1, 2]), train=st.just(0), prod=st.just(1), step=st.sampled_from([0.9, 0.8]),
        temps=st.sampled_from([3, 2]), max_temp=st.sampled_from([3.0, 5.0]), tempered=st.sampled_from([3, 5]), prior=st.sampled_from([1.0, 2.0]), dist=st.sampled_from([2.0, 3.0]), seed=SEED))


# ------------------------------------------------------------------ the settings given are the settings used
def check_settings(case, ctx):
    from flowMC.resource.kernel.MALA import MALA
    from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
    from flowMC.resource.optimizer import Optimizer
    from flowMC.strategy.train_model import TrainModel

    n, d, pt = case["n"], case["d"], case["pt"]
    g = rng(case["seed"], 206)
    p = gen_mixture(g, d, 2)
    data = to_jax(dict(mix=p, offset=0.0))
    extra = dict(history_window=case["window"]) if pt else {}
    b = build(case, pt, mix_logp, **extra)
    r = b.resources
    # flow architecture
    ref = MaskedCouplingRQSpline(d, case["layers"], list(case["hidden"]), case["bins"], key_of(1))
    require([a.shape for a in arrays_of(r["model"])] == [a.shape for a in arrays_of(ref)],
            f"the bundle's flow does not have {case['layers']} layers of {case['hidden']} hidden units with {case['bins']} bins: array shapes {[a.shape for a in arrays_of(r['model'])]}, expected {[a.shape for a in arrays_of(ref)]}")
    require(leaves_equal(r["model"], r["global_sampler"].model), "the global sampler's flow is not the bundle's flow")
    # a different key gives a different flow, the same key the same
    b2 = build(case, pt, mix_logp, **extra)
    require(leaves_equal(r["model"], b2.resources["model"]), "two bundles from one key have different flows")
    b3 = build(dict(case, seed=case["seed"] + 1), pt, mix_logp, **extra)
    require(not leaves_equal(r["model"], b3.resources["model"]), "two bundles from different keys have the same flow")
    # local kernel
    x = jnp.asarray(g.normal(size=d))
    for i in range(5):
        k = key_of(case["seed"] + 50 + i)
        got = r["local_sampler"].kernel(k, x, mix_logp(x, data), mix_logp, data)
        want = MALA(step_size=case["step"]).kernel(k, x, mix_logp(x, data), mix_logp, data)
        for u, v in zip(got, want):
            require_equal(np.asarray(u), np.asarray(v), f"local step of a bundle with mala_step_size={case['step']} against MALA with that step size")
    # optimiser
    params = eqx.filter(r["model"], eqx.is_inexact_array)
    grads = jax.tree.map(lambda a: jnp.asarray(g.normal(size=a.shape)), params)
    o, w = r["optimizer"], Optimizer(model=r["model"], learning_rate=case["lr"])
    up, _ = o.optim.update(grads, o.optim_state, params)
    uw, _ = w.optim.update(grads, w.optim_state, params)
    for u, v in zip(jax.tree.leaves(up), jax.tree.leaves(uw)):
        require_equal(np.asarray(u), np.asarray(v), f"the first update of the bundle's optimiser against learning rate {case['lr']}")
    # whatever the scale of the gradients, an adaptive rule moves a parameter by about the learning rate, downhill
    for scale in (1.0, case["gscale"]):
        state, q = o.optim_state, params
        for step in range(4):
            up, state = o.optim.update(jax.tree.map(lambda a: a * scale, grads), state, q)
            q = eqx.apply_updates(q, up)
            u = np.concatenate([np.asarray(a).ravel() for a in jax.tree.leaves(up)])
            v = np.concatenate([np.asarray(a).ravel() for a in jax.tree.leaves(grads)])
            size = np.median(np.abs(u)) / case["lr"]
            require(0.9 < size < 1.1, f"update {step + 1} of the bundle's optimiser under a constant gradient of scale {scale} is {size:.3g} times learning_rate={case['lr']} in the median")
            require((u * v < 0).mean() > 0.95, f"update {step + 1} of the bundle's optimiser under a constant gradient is not downhill")
    # the trainer
    trainer = [t for t in b.strategies.values() if isinstance(t, TrainModel)]
    require(len(trainer) == 1, f"{len(trainer)} trainers")
    log = []
    spy = dict(r)
    L = r["positions_training"].data.shape[1]
    rows = g.permutation(n * L * d).astype(float).reshape(n, L, d)
    spy["positions_training"].data = jnp.asarray(rows)
    spy["model"] = SpyModel(d, log)
    trainer[0](key_of(case["seed"]), spy, jnp.asarray(g.normal(size=(n, d))), data)
    require(len(log) == 1, f"the trainer trained {len(log)} times")
    t = log[0]
    require(t["num_epochs"] == case["epochs"], f"{t['num_epochs']} epochs were trained, n_epochs={case['epochs']}")
    require(t["batch_size"] == case["batch"], f"batch size {t['batch_size']} was used, batch_size={case['batch']}")
    got = np.asarray(t["data"])
    require(got.shape[0] <= case["examples"], f"{got.shape[0]} examples were trained on, n_max_examples={case['examples']}")
    if pt:
        recent = {v.tobytes() for v in rows[:, -case["window"]:].reshape(-1, d)}
        require(all(v.astype(float).tobytes() in recent for v in got), f"training used samples older than history_window={case['window']}")
    ctx.count(5 + len(got))
    ctx.label("tempered" if pt else "plain")
    # number of tempered steps, ladder
    if pt:
        from vf.instruments import CountKernel

        c = build(case, True, mix_logp, logprior=lambda x, data: -mix_logp(x, data))
        q = c.resources
        q["local_sampler"] = CountKernel()
        x0 = jnp.asarray(np.arange(n)[:, None] * 1000.0 + np.zeros((n, d)))
        K = case["temps"]
        q["tempered_positions"].data = jnp.asarray(np.arange(n)[:, None, None] * 1000.0 + 100.0 * np.arange(1, K)[None, :, None] + np.zeros((n, K - 1, d)))
        q["sampler_state"].update(["training"], [False])
        _, q, last = next(t for t in c.strategies.values() if isinstance(t, ParallelTempering))(key_of(case["seed"]), q, x0, data)
        steps = case["tempered"] if case["tempered"] > 0 else case["local"]
        everyone = np.concatenate([np.asarray(last)[:, None], np.asarray(q["tempered_positions"].data)], 1)[..., 0]
        want = np.arange(n)[:, None] * 1000.0 + 100.0 * np.arange(K)[None] + steps
        require_equal(np.sort(everyone, 1), want, f"replicas after tempering with n_tempered_steps={case['tempered']}, n_local_steps={case['local']} (one count per update)")
        T = np.asarray(b.resources["temperatures"].data)
        require(T.shape == (K,) and T[0] == 1.0 and T[-1] == case["max_temp"] and (np.diff(T) > 0).all(), f"ladder {T} for {K} temperatures up to {case['max_temp']}")
    ctx.nontrivial()


def settings_case():
    return st.fixed_dictionaries(dict(
        pt=st.booleans(), n=st.sampled_from([3, 2, 6]), d=st.sampled_from([2, 3, 1, 7]), local=st.sampled_from([5, 3, 9]), glob=st.sampled_from([2, 4]), train=st.sampled_from([3, 2]), prod=st.sampled_from([1, 2]),
        epochs=st.integers(1, 40), step=st.sampled_from([0.37, 0.05, 2.0]), layers=st.sampled_from([3, 1, 6]), hidden=st.lists(st.sampled_from([5, 3, 16, 32]), min_size=1, max_size=3), bins=st.sampled_from([5, 2, 10]),
        lr=st.sampled_from([1e-6, 0.03, 1e-3, 0.5, 1e-4]), batch=st.sampled_from([17, 5, 10000]), examples=st.sampled_from([11, 500, 10000]), window=st.sampled_from([4, 1, 100]), thin_l=st.sampled_from([1, 2]), thin_g=st.sampled_from([1, 2]),
        gscale=st.sampled_from([100.0, 1e-2, 1e4]), temps=st.sampled_from([4, 2, 7]), max_temp=st.sampled_from([7.0, 30.0, 1.5]), tempered=st.sampled_from([6, 1, -1, 0]), seed=SEED))


FACETS = [
    Facet("stationary", check_stationary, stationary_case, quick=3, thorough=60, shards=4, thorough_shards=4,
          rule="whole runs of RQSpline_MALA_Bundle from exact draws of a Gaussian mixture; non-trivial when global acceptance is between 2% and 99.9%"),
    Facet("tempered", check_tempered, tempered_case, quick=3, thorough=60, shards=3, thorough_shards=4,
          rule="whole runs of RQSpline_MALA_PT_Bundle from exact draws of every rung's density"),
    Facet("converges", check_converges, converges_case(False), quick=2, thorough=40, shards=2, thorough_shards=2, rule="whole runs from one point far from the target"),
    Facet("tempered_converges", check_converges, converges_case(True), quick=1, thorough=30, shards=3, thorough_shards=3, rule="whole tempered runs from one point far from the target"),
    Facet("flow_target", check_flow_target, flow_target_case, quick=3, thorough=60, shards=2, thorough_shards=2, rule="runs whose target is the bundle's own flow"),
    Facet("prior", check_prior, prior_case, quick=1, thorough=15, shards=2, thorough_shards=2, rule="tempered runs with a Gaussian prior"),
    Facet("settings", check_settings, settings_case, quick=6, thorough=120, shards=2, thorough_shards=4, rule="random settings of both bundles"),
]
FACETS += in_single_precision(FACETS, dict(stationary=2, tempered=2))
ASSUMPTIONS = ["chains started from exact draws of the target (replicas from their own rung's density) must still follow it after any number of exactly invariant steps; training in between couples the chains only through the flow, which is below the resolution of the tests",
               "convergence is asked only on single Gaussians and step sizes for which the Langevin chain contracts by many orders of magnitude within the run",
               "tests fail beyond 6.5 standard errors"]
