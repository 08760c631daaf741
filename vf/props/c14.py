"""C14: bundled samplers keep training and production apart and fill every record."""
import numpy as np
import jax
import jax.numpy as jnp
from hypothesis import strategies as st

from vf.common import SEED, key_of, leaves_equal, rng, target_logp, target_params, to_jax
from vf.core import Facet, in_single_precision, fail, require, require_close, require_equal

from flowMC.Sampler import Sampler
from flowMC.resource_strategy_bundle.RQSpline_MALA import RQSpline_MALA_Bundle
from flowMC.resource_strategy_bundle.RQSpline_MALA_PT import RQSpline_MALA_PT_Bundle
from flowMC.strategy.lambda_function import Lambda
from flowMC.strategy.parallel_tempering import ParallelTempering
from flowMC.strategy.take_steps import TakeGroupSteps, TakeSerialSteps
from flowMC.strategy.train_model import TrainModel

REC = ["positions", "log_prob", "local_accs", "global_accs"]


def bundle_target(x, data):
    return target_logp(x, data["p"])


def snapshot(key, res, pos):
    s = {f"{b}_{ph}": np.array(res[f"{b}_{ph}"].data) for b in REC for ph in ("training", "production")}
    s["loss"] = np.array(res["loss_buffer"].data)
    s["model"], s["optimizer"] = res["model"], res["optimizer"].optim_state
    s["global_model"] = res["global_sampler"].model
    s["key"], s["pos"] = np.array(key), np.array(pos)
    s["training"] = res["sampler_state"].data["training"]
    if "temperatures" in res:
        s["temps"], s["tempered"] = np.array(res["temperatures"].data), np.array(res["tempered_positions"].data)
    return s


def build(case, pt, params):
    c = case
    kw = dict(n_chains=c["n"], n_dims=c["d"], logpdf=bundle_target, n_local_steps=c["local"], n_global_steps=c["glob"], n_training_loops=c["train_loops"],
              n_production_loops=c["prod_loops"], n_epochs=c["epochs"], mala_step_size=c["step"], chain_batch_size=c["chain_batch"], rq_spline_hidden_units=[4],
              rq_spline_n_bins=3, rq_spline_n_layers=2, learning_rate=0.01, batch_size=c["batch"], n_max_examples=c["examples"],
              local_thinning=min(c["thin_l"], c["local"]), global_thinning=max(1, min(c["thin_g"], c["glob"])), n_NFproposal_batch_size=c["nf_batch"], verbose=c["verbose"])
    if pt:
        kw.update(history_window=c["window"], n_temperatures=c["temps"], max_temperature=c["max_temp"], n_tempered_steps=c["tempered"])
        return RQSpline_MALA_PT_Bundle(key_of(c["seed"]), **kw)
    return RQSpline_MALA_Bundle(key_of(c["seed"]), **kw)


def check_bundle(case, ctx, pt):
    n, d = case["n"], case["d"]
    g = rng(case["seed"], 141)
    params = target_params(case["seed"], d, 2, float(g.normal() * 20))
    data = {"p": to_jax(params)}
    b = build(case, pt, params)
    shots = []
    strategies, order = dict(b.strategies), []
    strategies["_look"] = Lambda(lambda k, r, p, dd: shots.append(snapshot(k, r, p)))
    for name in b.strategy_order:
        order += [name, "_look"]
    x = jnp.asarray(params["m"] + g.normal(size=(n, d)))
    x_copy = np.array(x)
    first = snapshot(key_of(case["seed"] + 1), b.resources, x)
    s = Sampler(d, n, key_of(case["seed"] + 1), resources=b.resources, strategies=strategies, strategy_order=order)
    s.sample(x, data)
    res = s.resources
    require_equal(np.asarray(x), x_copy, "the caller's starting positions")
    tl, tg = min(case["thin_l"], case["local"]), max(1, min(case["thin_g"], case["glob"]))
    rl, rg = case["local"] // tl, case["glob"] // tg
    shots = [first] + shots
    names = list(b.strategy_order)
    kinds = [b.strategies[nm] for nm in names]

    # ---------------- every slot of every record, and its contents
    end = shots[-1]
    for ph, loops in (("training", case["train_loops"]), ("production", case["prod_loops"])):
        pos, lp = end[f"positions_{ph}"], end[f"log_prob_{ph}"]
        la, ga = end[f"local_accs_{ph}"], end[f"global_accs_{ph}"]
        m = loops * (rl + rg)
        require(pos.shape == (n, m, d) and lp.shape == (n, m) and la.shape == (n, m) and ga.shape == (n, m),
                f"{ph} records of {loops} loops of {case['local']}/{tl} local and {case['glob']}/{tg} global steps have shapes {pos.shape}, {lp.shape}, {la.shape}, {ga.shape}; expected {m} slots")
        if m == 0:
            continue
        require(np.isfinite(pos).all(), f"{ph} positions: {int((~np.isfinite(pos)).any(-1).sum())} of {n * m} slots were not filled")
        want = np.asarray(jax.vmap(jax.vmap(lambda y: bundle_target(y, data)))(jnp.asarray(pos)))
        require_close(lp, want, f"{ph} log-probabilities against the target at the recorded positions", rtol=1e-7, atol=1e-6)
        block = np.tile(np.concatenate([np.zeros(rl, bool), np.ones(rg, bool)]), loops)  # True: global
        for nm, acc, own in (("local", la, ~block), ("global", ga, block)):
            a = acc[:, own]
            require(np.isin(a, [0.0, 1.0]).all(), f"{ph}: acceptances of {nm} steps are {np.unique(a)}")
            require(np.isneginf(acc[:, ~own]).all(), f"{ph}: {nm} acceptances were marked in the slots of the other kind of step: {acc[0]}")
        acc = np.where(block, ga, la)
        thin = np.where(block, tg, tl)
        for i in range(1, m):
            if thin[i] != 1 or (pt and i % (rl + rg) == 0):
                continue
            if i % (rl + rg) in (0, rl) and thin[i - 1] != 1:
                continue  # the previous block went on after its last record
            moved = (pos[:, i] != pos[:, i - 1]).any(-1)
            require((moved == (acc[:, i] == 1)).all(), f"{ph} slot {i}: chains moved {moved.tolist()}, acceptances recorded {acc[:, i].tolist()}")
            ctx.count(n)
        ctx.label(f"{ph} samples", n * m)
        ctx.label("local acceptances", int((la == 1).sum()))
        ctx.label("global acceptances", int((ga == 1).sum()))

    # ---------------- what each step was allowed to change
    used_keys = {}
    phase_training = True
    for i, (nm, strat) in enumerate(zip(names, kinds)):
        a, z = shots[i], shots[i + 1]
        where = f"step {i} ({nm})"
        if isinstance(strat, (TakeSerialSteps, TakeGroupSteps, TrainModel, ParallelTempering)):
            k = tuple(a["key"].ravel().tolist())
            require(k not in used_keys, f"{where} was given the same random key as step {used_keys.get(k)}")
            used_keys[k] = i
        phase_training = a["training"]
        mine, other = ("training", "production") if phase_training else ("production", "training")
        for r in REC:
            require_equal(z[f"{r}_{other}"], a[f"{r}_{other}"], f"{where} of the {mine} phase changed the {other} {r}")
        if isinstance(strat, TrainModel):
            require(phase_training, f"{where}: the flow is trained in the production phase")
        else:
            for what in ("model", "optimizer"):
                require(leaves_equal(a[what], z[what]), f"{where} changed the {what}")
            require_equal(z["loss"], a["loss"], f"{where} changed the losses")
        if not phase_training:
            for what in ("model", "optimizer", "global_model"):
                require(leaves_equal(a[what], z[what]), f"{where} of the production phase changed the {what}")
            if pt:
                require_equal(z["temps"], a["temps"], f"{where} of the production phase changed the temperatures")
        if isinstance(strat, TakeGroupSteps) and case["train_loops"]:
            require(leaves_equal(a["global_model"], a["model"]), f"{where} used another flow than the most recently trained one")
            ctx.count()
        if isinstance(strat, (TakeSerialSteps, TakeGroupSteps)):
            before, after = a[f"positions_{mine}"], z[f"positions_{mine}"]
            new = ((after != before).any(-1)).any(0)
            require(np.isneginf(before[:, new]).all(), f"{where} overwrote records made earlier")
            require(new.sum() == (rg if isinstance(strat, TakeGroupSteps) else rl), f"{where} wrote {int(new.sum())} slots")
            t = tg if isinstance(strat, TakeGroupSteps) else tl
            if (case["glob"] if isinstance(strat, TakeGroupSteps) else case["local"]) % t == 0 and t == 1 and new.any():
                require_equal(z["pos"], after[:, np.flatnonzero(new)[-1]], f"{where}: the chains and their last record")
        elif not isinstance(strat, ParallelTempering):
            require_equal(z["pos"], a["pos"], f"{where} moved the chains")
        if pt:
            require(z["temps"][0] == 1.0 and z["temps"][-1] == case["max_temp"], f"{where}: ladder ends at {z['temps'][[0, -1]]}")
            if nm != "initialize_tempered_positions" and i > 0:
                require(np.isfinite(z["tempered"]).all(), f"{where}: tempered positions are not finite")
    trained = sum(isinstance(k, TrainModel) for k in kinds)
    require(trained == case["train_loops"], f"{trained} trainings in {case['train_loops']} training loops")
    require(sum(isinstance(k, TakeSerialSteps) for k in kinds) == case["train_loops"] + case["prod_loops"], "number of local blocks")
    require(end["training"] is False, "the run does not end in the production phase")
    require(end["loss"].shape == (case["train_loops"] * case["epochs"],) and not np.isneginf(end["loss"]).any(), f"loss record of {case['train_loops']} loops of {case['epochs']} epochs: {end['loss']}")
    if case["train_loops"] and n > 1:  # the few samples of a single chain may all be equal, and have no density
        require(np.isfinite(end["loss"]).all(), f"losses {end['loss']}")
        require(not leaves_equal(first["model"], end["model"]), "the flow was never trained")
    if pt:
        require(first["temps"].shape == (case["temps"],) and (np.diff(first["temps"]) > 0).all(), f"initial ladder {first['temps']}")
    ctx.label("thinned", tl > 1 or tg > 1)
    ctx.label("non-dividing thinning", case["local"] % tl != 0 or case["glob"] % tg != 0)
    ctx.label("chain batches", 0 < case["chain_batch"] < n)
    ctx.label("no global steps", case["glob"] == 0)
    ctx.nontrivial((case["train_loops"] > 0 or case["prod_loops"] > 0) if "loops" in case else (case["train_loops"] > 0 and case["prod_loops"] > 0))


def bundle_case(pt, loops=None):
    """`loops`: the (training, production) loop counts to choose from instead of the usual ones."""
    def make():
        f = dict(
            n=st.sampled_from([5, 2, 3, 1, 12, 30]), d=st.sampled_from([2, 3, 1, 5]), local=st.sampled_from([3, 1, 2, 4, 5, 6, 7, 20]), glob=st.sampled_from([2, 1, 3, 0, 4, 5, 6, 7, 15]), train_loops=st.sampled_from([2, 1, 3, 0, 6]), prod_loops=st.sampled_from([2, 1, 0, 5]),
            epochs=st.integers(1, 3), step=st.sampled_from([0.2, 0.5, 0.05]), chain_batch=st.sampled_from([0, 1, 2, 4, 7]), batch=st.sampled_from([1000, 7]), examples=st.sampled_from([1000, 20]),
            thin_l=st.sampled_from([1, 2, 1, 3, 4]), thin_g=st.sampled_from([1, 1, 2, 3, 5]), nf_batch=st.sampled_from([1000, 3, 2]), verbose=st.booleans(), seed=SEED)
        if pt:
            f.update(window=st.sampled_from([100, 3, 1]), temps=st.sampled_from([3, 2, 4]), max_temp=st.sampled_from([5.0, 20.0]), tempered=st.sampled_from([-1, 1, 4]))
        if loops:
            f.update(train_loops=st.just(None), prod_loops=st.just(None), loops=st.sampled_from(loops))
            return st.fixed_dictionaries(f).map(lambda c: dict(c, train_loops=c["loops"][0], prod_loops=c["loops"][1]))
        return st.fixed_dictionaries(f)
    return make


ONE_PHASE = [[0, 2], [2, 0], [0, 1], [1, 0], [0, 5], [3, 0], [0, 0]]


FACETS = [
    Facet("mala", lambda c, x: check_bundle(c, x, False), bundle_case(False), quick=4, thorough=80, shards=4, thorough_shards=4,
          rule="whole runs of RQSpline_MALA_Bundle; non-trivial with training and production loops"),
    Facet("tempered", lambda c, x: check_bundle(c, x, True), bundle_case(True), quick=4, thorough=80, shards=4, thorough_shards=4,
          rule="whole runs of RQSpline_MALA_PT_Bundle; non-trivial with training and production loops"),
    Facet("mala_one_phase", lambda c, x: check_bundle(c, x, False), bundle_case(False, ONE_PHASE), quick=2, thorough=40, shards=2, thorough_shards=2,
          rule="whole runs of RQSpline_MALA_Bundle with only training or only production loops; non-trivial when any loops"),
    Facet("tempered_one_phase", lambda c, x: check_bundle(c, x, True), bundle_case(True, ONE_PHASE), quick=2, thorough=40, shards=2, thorough_shards=2,
          rule="whole runs of RQSpline_MALA_PT_Bundle with only training or only production loops; non-trivial when any loops"),
]
FACETS += in_single_precision(FACETS, dict(mala=3, tempered=3))
ASSUMPTIONS = ["snapshots are taken by Lambda strategies interleaved with the bundle's own strategies"]
