"""C10: the training strategy feeds recorded samples and stores what training returns (a spy model
records what it is given; buffers are compared with a numpy model of the whole call history)."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from vf.common import SEED, key_of, real, rng
from vf.core import Facet, in_single_precision, require, require_equal, require_shape
from vf.instruments import SpyModel


def eligible_rows(buf, window):
    """Per chain, the most recent `window` recorded (finite) rows."""
    out = []
    for c in range(buf.shape[0]):
        ok = np.flatnonzero(np.isfinite(buf[c]).all(-1))
        out.append(buf[c, ok[-window:]])
    return out


def make(d, L, E, calls, n, log):
    from flowMC.resource.buffers import Buffer
    from flowMC.resource.optimizer import Optimizer

    m = SpyModel(d, log)
    opt = Optimizer(m)
    return dict(model=m, pos=Buffer("pos", (n, L, d), 1), opt=opt, loss=Buffer("losses", (calls * E,), 0),
                other=Buffer("other", (n, L, d), 1))


def check_history(case, ctx):
    from flowMC.strategy.train_model import TrainModel

    n, d, L, E = case["n"], case["d"], case["L"], case["epochs"]
    log = []
    calls = sum(o[0] == "train" for o in case["ops"])
    res = make(d, L, E, max(calls, 1), n, log)
    g = rng(case["seed"], 91)
    buf = real(np.full((n, L, d), -np.inf))
    # every value ever written is unique, so rows identify themselves
    vals = iter((g.permutation(300000).astype(float) / 7 - 3000) * 10.0 ** case["unit"])
    filled = 0
    losses = real(np.full(max(calls, 1) * E, -np.inf))
    tr = TrainModel("model", "pos", "opt", loss_buffer_name="loss" if case["loss"] else "", n_epochs=E, batch_size=case["batch"],
                    n_max_examples=case["n_max"], history_window=case["window"], verbose=case["verbose"])
    key = key_of(case["seed"])
    x0 = jnp.asarray(g.normal(size=(n, d)))
    x0c, optim = np.array(x0), res["opt"].optim
    state = res["opt"].optim_state
    done = 0
    bad_chain = case["bad_chain"]
    nonf = [np.nan, np.inf, -np.inf]
    for op in case["ops"]:
        if op[0] == "fill":
            k = min(op[1], L - filled)
            new = real([next(vals) for _ in range(n * k * d)]).reshape(n, k, d)
            buf[:, filled: filled + k] = new
            if bad_chain and n > 1 and k > 0:  # a chain may have recorded something that is not finite
                buf[op[1] % n, filled + op[1] % k, op[1] % d] = nonf[op[1] % 3]
            res["pos"].update_buffer(jnp.asarray(buf[:, filled: filled + k]), filled)
            filled += k
            continue
        el = eligible_rows(buf, case["window"])
        if sum(map(len, el)) == 0:
            continue
        before = np.array(res["pos"].data)
        require_equal(before, buf, "the sample buffer before training")
        key, res, out = tr(key, res, x0, {})
        what = f"training call {done + 1} ({filled} of {L} slots recorded, window {case['window']}, {n} chains)"
        require(len(log) == done + 1, f"{what}: the stored model was trained {len(log) - done} times")
        r = log[-1]
        require(r["tag"] == done, f"{what}: trained version {r['tag']} of the model instead of the latest, {done}")
        data = np.asarray(r["data"])
        require_shape(data, (case["n_max"], d), f"{what}: training examples")
        rows = np.concatenate([e for e in el if len(e)])
        known = {v.tobytes() for v in rows}
        ok = np.array([v.tobytes() in known for v in data])
        require(ok.all(), f"{what}: {int((~ok).sum())} of {len(ok)} training examples are not eligible recorded samples, e.g. {data[~ok][:1]}")
        require((r["num_epochs"], r["batch_size"]) == (E, case["batch"]), f"{what}: trained with {r['num_epochs']} epochs and batch size {r['batch_size']}")
        require(r["optim"] is optim, f"{what}: a different optimiser was used")
        require(r["state"] is state, f"{what}: training did not start from the stored optimiser state")
        if case["n_max"] >= 60 * len(rows):
            got = {tuple(v) for v in data}
            miss = [tuple(v) for v in rows if tuple(v) not in got]
            require(not miss, f"{what}: {len(miss)} of {len(rows)} eligible samples were never chosen in {case['n_max']} draws")
            ctx.label("coverage judged")
        done += 1
        require(getattr(res["model"], "tag", None) == done, f"{what}: the trained model was not stored")
        require(res["opt"].optim_state == ("state", done), f"{what}: the returned optimiser state was not stored")
        state = res["opt"].optim_state
        require_equal(np.asarray(res["pos"].data), buf, f"{what}: the sample buffer")
        require(np.all(np.asarray(res["other"].data) == -np.inf), f"{what}: another buffer was written")
        require_equal(np.asarray(out), x0c, f"{what}: the chains' positions")
        if case["loss"]:
            losses[(done - 1) * E: done * E] = np.asarray(r["losses"])
        require_equal(np.asarray(res["loss"].data), losses, f"{what}: the loss buffer")
        ctx.label("window cuts", min(map(len, el)) == case["window"])
        ctx.label("ragged", len({len(e) for e in el}) > 1)
    if len(log) > 1:
        ds = [np.asarray(l["data"]) for l in log]
        if case["n_max"] > 20 and len(np.unique(ds[0], axis=0)) > 3:
            require(not any(np.array_equal(ds[0], v) for v in ds[1:]), "two training calls drew exactly the same examples")
    ctx.count(done)
    ctx.nontrivial(done >= 2)


def history_case():
    op = st.one_of(st.tuples(st.just("fill"), st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(30, 200))), st.tuples(st.just("train"), st.just(0)))
    ops = st.lists(op, min_size=2, max_size=9).map(lambda l: [["fill", 3]] + [list(o) for o in l] + [["train", 0]])
    return st.fixed_dictionaries(dict(
        n=st.one_of(st.integers(1, 4), st.sampled_from([2, 20])), d=st.sampled_from([2, 1, 3, 10]), L=st.one_of(st.integers(6, 20), st.sampled_from([20, 120, 600])), unit=st.sampled_from([0, -6, 5]), epochs=st.integers(1, 5), batch=st.sampled_from([1, 7, 1000]),
        n_max=st.sampled_from([10, 1, 50, 3000, 12000]), window=st.sampled_from([2, 1, 3, 5, 100, 150]), verbose=st.booleans(), loss=st.sampled_from([True, True, False]),
        bad_chain=st.sampled_from([False, False, True]), ops=ops, seed=SEED))


FACETS = [
    Facet("history", check_history, history_case, quick=60, thorough=1500, shards=4, thorough_shards=8,
          rule="histories of recording and training calls; non-trivial with at least two training calls"),
]
FACETS += in_single_precision(FACETS, dict(history=30))
ASSUMPTIONS = ["history_window >= 1 and at least one finite sample is recorded", "which eligible samples are chosen is only required to be able to reach all of them"]
