"""C09: training returns the best epoch and an honest loss history.

A scripted model whose k-th step reports a generated loss and records which examples it saw lets the
whole training history be read off the returned model; real flows are compared with an independent
full-batch loop."""
import functools

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optax
from hypothesis import strategies as st

from vf.common import SEED, arrays_of, by_precision, key_of, leaves_equal, make_flow, real, rng
from vf.core import Facet, in_single_precision, Violation, require, require_close, require_equal, require_shape
from vf.instruments import ScriptedModel

SHAPES = [(12, 4), (13, 4), (10, 3), (5, 8), (7, 7), (8, 1), (7, 6), (1, 4), (20, 6), (11, 5), (64, 16), (130, 10), (300, 7), (40, 64), (2500, 1000), (4100, 2048), (1025, 512)]


def stepper():
    """Gradient descent at rate one plus a step counter in the state."""
    return optax.chain(optax.sgd(1.0), optax.scale_by_schedule(lambda c: 1.0))


def steps_of(state):
    v = [np.asarray(l) for l in jax.tree.leaves(state) if np.asarray(l).dtype.kind in "iu"]
    require(len(v) == 1, "the optimiser state has changed structure")
    return int(v[0])


def make_table(seed, n, how):
    g = rng(seed, 81)
    t = np.round(g.normal(size=n) * 10, 3)
    if how == "ties":
        t = np.round(g.integers(-2, 3, size=n).astype(float), 3)
    elif how == "nan":
        t[g.uniform(size=n) < 0.4] = np.nan
    elif how == "all nan":
        t[:] = np.nan
    elif how == "decreasing":
        t = np.sort(t)[::-1].copy()
    elif how == "increasing":
        t = np.sort(t)
    elif how == "large":
        t = t * 1e6
    elif how == "tiny gaps":
        t = -3.0 + t * 1e-9
    elif how == "negative large":
        t = -1e6 + t
    elif how == "late nan":
        t[n // 2:] = np.nan
    elif how == "inf":
        t[g.uniform(size=n) < 0.4] = np.inf
    return t


def check_scripted(case, ctx):
    n, B = SHAPES[case["shape"]]
    d, E = 2, case["epochs"]
    S = max(1, n // B)
    table = real(make_table(case["seed"], E * S + 1, case["how"]))
    g = rng(case["seed"], 82)
    m0 = ScriptedModel(d, n, table)
    before = arrays_of(m0)
    data = real(np.concatenate([np.arange(n)[:, None].astype(float), g.normal(size=(n, d - 1)) * 3], 1))
    opt = stepper()
    s0 = opt.init(eqx.filter(m0, eqx.is_array))
    key = key_of(case["seed"])
    _, m, s, loss = m0.train(key, jnp.asarray(data), opt, s0, E, B, verbose=case["verbose"])
    what = f"training {E} epochs, {n} examples in batches of {B}, losses {case['how']}"
    for a, b in zip(arrays_of(m0), before):
        require_equal(a, b, f"{what}: the original model")
    loss = np.asarray(loss, float)
    require_shape(loss, (E,), f"{what}: losses")
    per = table[: E * S].reshape(E, S)
    for e in range(E):
        v = per[e][~np.isnan(per[e])]
        tol = by_precision(1e-9, 1e-5) * (1 + np.abs(v[np.isfinite(v)]).max(initial=0))
        okv = np.isnan(per[e]).any() if np.isnan(loss[e]) else len(v) > 0 and v.min() - tol <= loss[e] <= v.max() + tol
        require(okv, f"{what}: epoch {e} reports {loss[e]}, its batches had {per[e]}")
    valid = np.isfinite(loss)
    cnt = float(np.asarray(m.count))
    if not valid.any():
        for a, b in zip(arrays_of(m), before):
            require_equal(a, b, f"{what}: no epoch has a valid loss, the original model should come back")
        require(steps_of(s) == 0, f"{what}: no epoch has a valid loss, the original optimiser state should come back")
        ctx.label("no valid loss")
    else:
        best = np.flatnonzero(loss == loss[valid].min())
        want = [int(S * (b + 1)) for b in best]
        require(cnt in want, f"{what}: returned model is the one after {cnt:.0f} updates; the lowest reported loss belongs to the "
                f"epochs ending at {want} (losses {loss})")
        require(steps_of(s) == int(cnt), f"{what}: model after {cnt:.0f} updates but optimiser state after {steps_of(s)}")
        require_close(np.asarray(m.data_mean), data.mean(0, dtype=float), f"{what}: data mean", rtol=by_precision(1e-12, 1e-5), atol=by_precision(1e-12, 1e-5))
        cov = np.cov(data.T.astype(float)) if n > 1 else np.full((d, d), np.nan)
        require_close(np.asarray(m.data_cov), cov, f"{what}: data covariance", rtol=by_precision(1e-10, 1e-4), atol=by_precision(1e-10, 1e-3))
        used = np.asarray(m.used)[: int(cnt)] * min(n, B)
        require_close(used, np.round(used), f"{what}: usage counts", rtol=0, atol=by_precision(1e-6, 1e-3))
        used = np.round(used).astype(int)
        for k, row in enumerate(used):
            require(row.max() <= 1, f"{what}: step {k} uses an example {row.max()} times")
            require(row.sum() == min(n, B), f"{what}: step {k} uses {row.sum()} examples instead of {min(n, B)}")
        ep = used.reshape(-1, S, n)
        require(ep.sum(1).max() <= 1, f"{what}: batches of one epoch overlap")
        orders = {tuple(map(tuple, e)) for e in ep.tolist()}
        if n >= 10 and S > 1 and len(ep) >= 4:
            require(len(orders) > 1, f"{what}: all epochs used the same batches in the same order")
        if n >= 20 and S > 1:  # below, a coincidence is not rare enough
            require(len(orders) == len(ep), f"{what}: two epochs used the same batches in the same order")
            require(tuple(map(tuple, (np.arange(n)[None] // B == np.arange(S)[:, None]).astype(int).tolist())) not in orders,
                    f"{what}: batches are taken in the order of the data")
        ctx.label("best is not last", cnt < E * S)
    ctx.count(E * S)
    ctx.label(case["how"])
    ctx.nontrivial(E > 1)


def scripted_case():
    return st.fixed_dictionaries(dict(
        shape=st.integers(0, len(SHAPES) - 1), epochs=st.sampled_from([4, 1, 2, 7, 12, 11, 33]),
        how=st.sampled_from(["random", "ties", "nan", "all nan", "decreasing", "increasing", "large", "late nan", "inf", "tiny gaps", "negative large"]),
        verbose=st.booleans(), seed=SEED))


# ------------------------------------------------------------------ random selection
def check_selection(case, ctx):
    n, B = case["shape"]
    S, E = n // B, 60
    m0 = ScriptedModel(1, n, -np.arange(E * S, dtype=float))
    opt = stepper()
    data = jnp.arange(n, dtype=float)[:, None]
    out = []
    for key in jax.random.split(key_of(case["seed"]), 4):
        _, m, s, loss = m0.train(key, data, opt, opt.init(eqx.filter(m0, eqx.is_array)), E, B, verbose=False)
        u = np.round(np.asarray(m.used) * B).astype(int)
        require(int(m.count) == E * S, "a training with decreasing losses did not return its last epoch")
        out.append(u.reshape(E, S, n))
    u = np.concatenate(out)
    N = len(u)
    p = B / n
    for k in range(S):  # every example lands in every batch slot with the same frequency
        c = u[:, k].sum(0)
        z = (c - N * p) / np.sqrt(N * p * (1 - p))
        require(np.abs(z).max() < 6.5, f"batch {k} of {S} does not select at random: example {np.abs(z).argmax()} chosen {c[np.abs(z).argmax()]} times in {N} epochs")
    require(len({o.tobytes() for o in out}) == 4, "different keys give the same batches")
    ctx.count(N * S)
    ctx.nontrivial()


def selection_case():
    return st.fixed_dictionaries(dict(shape=st.sampled_from([[10, 3], [9, 3], [8, 5], [12, 2], [50, 20]]), seed=SEED))


# ------------------------------------------------------------------ real models
@eqx.filter_jit
def ref_step(model, x, optim, state):
    def loss(m):
        return -jnp.mean(jax.vmap(m.log_prob)(x))

    v, g = eqx.filter_value_and_grad(loss)(model)
    up, state = optim.update(g, state, model)
    return v, eqx.apply_updates(model, up), state


def check_real(kind, case, ctx):
    d = case["d"]
    m0 = make_flow(kind, d, 2, case["seed"], 0.2, base=False)
    g = rng(case["seed"], 83)
    data = g.normal(size=(24, d)) * np.exp(g.normal(size=d)) + g.normal(size=d) * 3
    opt = optax.adam(case["lr"])
    s0 = opt.init(eqx.filter(m0, eqx.is_array))
    before = arrays_of(m0)
    E = 8
    _, m, s, loss = m0.train(key_of(case["seed"]), jnp.asarray(data), opt, s0, E, case["batch"], verbose=False)
    for a, b in zip(arrays_of(m0), before):
        require_equal(a, b, "the original model after training")
    r = eqx.tree_at(lambda t: (t._data_mean, t._data_cov), m0, (jnp.asarray(data.mean(0)), jnp.asarray(np.cov(data.T))))
    rs, ref, hist = s0, [], []
    for _ in range(E):
        v, r, rs = ref_step(r, jnp.asarray(data), opt, rs)
        ref.append(float(v))
        hist.append((r, rs))
    loss = np.asarray(loss, float)
    require_close(loss, np.array(ref), f"{kind}: per-epoch losses of a full-batch training", rtol=1e-6, atol=1e-6)
    b = int(np.argmin(loss))
    for what, a, c in (("model", m, hist[b][0]), ("optimiser state", s, hist[b][1])):
        for u, v in zip(arrays_of(a), arrays_of(c)):
            require_close(np.atleast_1d(u).squeeze(), np.atleast_1d(v).squeeze(), f"{kind}: returned {what} vs the reference's after its best epoch {b}", rtol=1e-5, atol=1e-6)
    ctx.count(E)
    ctx.label("best is not last", b < E - 1)
    ctx.nontrivial(np.ptp(loss) > 1e-3)


def real_case():
    return st.fixed_dictionaries(dict(d=st.sampled_from([2, 1, 3]), lr=st.sampled_from([1e-2, 1e-1, 0.5]), batch=st.sampled_from([24, 25, 1000]), seed=SEED))


# ------------------------------------------------------------------ the library's own optimiser
def check_stats(case, ctx):
    from flowMC.resource.optimizer import Optimizer

    d, n, E, B = 2, 20, case["epochs"], case["batch"]
    m0 = make_flow(case["kind"], d, 2, case["seed"], 0.1, stats=False, base=False)
    g = rng(case["seed"], 84)
    data = g.normal(size=(n, d)) * [1.0, 5.0] + [100.0, -3.0]
    o = Optimizer(m0, learning_rate=case["lr"])
    _, m, s, loss = m0.train(key_of(case["seed"]), jnp.asarray(data), o.optim, o.optim_state, E, B, verbose=False)
    mean, cov = data.mean(0), np.cov(data.T)
    gm, gc = np.asarray(m.data_mean), np.asarray(m.data_cov)
    what = f"a model trained with the library's optimiser for {E} epochs at rate {case['lr']}"
    require_close(gm, mean, f"data mean of {what}", rtol=1e-12, atol=1e-12)
    require_close(gc, cov, f"data covariance of {what}", rtol=1e-11, atol=1e-12)
    ctx.count(1)
    ctx.nontrivial()


def stats_case():
    return st.fixed_dictionaries(dict(kind=st.sampled_from(["rqs", "nvp"]), lr=st.sampled_from([1e-1, 1e-3]), epochs=st.sampled_from([3, 10]),
                                      batch=st.sampled_from([20, 5]), seed=SEED))


FACETS = [
    Facet("scripted", check_scripted, scripted_case, quick=40, thorough=800, shards=3, thorough_shards=8,
          rule="scripted loss tables (ties, not-a-number, infinite, monotone); non-trivial with more than one epoch"),
    Facet("selection", check_selection, selection_case, quick=4, thorough=40, rule="240 epochs under 4 keys; every case non-trivial"),
    Facet("real_rqs", functools.partial(check_real, "rqs"), real_case, quick=5, thorough=80, rule="8 full-batch epochs vs an independent loop; non-trivial when the loss changes"),
    Facet("real_nvp", functools.partial(check_real, "nvp"), real_case, quick=5, thorough=80, rule="as real_rqs"),
    Facet("statistics", check_stats, stats_case, quick=5, thorough=40, rule="every case non-trivial"),
]
FACETS += in_single_precision(FACETS, dict(scripted=25))
ASSUMPTIONS = ["a loss is valid when finite (and below the code's 1e9 ceiling, which generated losses respect)",
               "an epoch's reported loss lies between the losses of its batches"]
