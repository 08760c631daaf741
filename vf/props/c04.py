"""C04: stepping strategies record faithfully and contiguously (model-based histories)."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from vf.common import SEED, key_of, np_logp, rng, target_logp, target_params, to_jax
from vf.core import Facet, in_single_precision, require, require_close, require_equal, require_shape
from vf.instruments import CountGroupKernel, CountKernel


def lp_fn(x, data):
    return data["s"] * jnp.sum(x) + 0.25


def check_history(case, ctx):
    from flowMC.resource.buffers import Buffer
    from flowMC.resource.logPDF import LogPDF
    from flowMC.resource.states import State
    from flowMC.strategy.take_steps import TakeGroupSteps, TakeSerialSteps

    n, d = case["n_chains"], case["d"]
    per = {"serial": 3, "group": 4}
    scale = 2.0
    data = {"s": jnp.asarray(scale)}
    names = case["keys"]  # state keys naming position, log-prob, local and global flags
    lens = case["lens"]
    res, model = {}, {}
    for s, L in enumerate(lens):
        for kind, shp in (("pos", (n, L, d)), ("lp", (n, L)), ("loc", (n, L)), ("glob", (n, L))):
            nm = f"{kind}{s}"
            res[nm] = Buffer(nm, shp, 1)
            model[nm] = np.full(shp, -np.inf)
    setmap = lambda s: dict(zip(names, (f"pos{s}", f"lp{s}", f"loc{s}", f"glob{s}")))
    res["state"] = State(setmap(0), "state")
    res["logpdf"] = LogPDF(lp_fn, n_dims=d)
    res["ks"], res["kg"] = CountKernel(per["serial"]), CountGroupKernel(per["group"])
    bn = {"serial": [names[0], names[1], names[2]], "group": [names[0], names[1], names[3]]}
    st_obj, cfg, mpos = {}, {}, {}
    for kind, cls, kn in (("serial", TakeSerialSteps, "ks"), ("group", TakeGroupSteps, "kg")):
        c = case[kind]
        cfg[kind] = c
        st_obj[kind] = cls("logpdf", kn, "state", bn[kind], c["n"], thinning=c["thin"],
                           chain_batch_size=c["batch"], verbose=c["verbose"])
        mpos[kind] = 0
        require(st_obj[kind].current_position == 0, "a fresh stepper does not start at position 0")
    g = rng(case["seed"], 3)
    x = np.floor(g.normal(size=(n, d)) * 20)
    x[:, 0] = np.arange(n) * 1000 + np.floor(g.uniform(0, 100, n))
    cur, xj = 0, jnp.asarray(x)
    key = key_of(case["seed"])
    wrote, thin_used = 0, False
    for op in case["ops"]:
        if op[0] == "switch":
            cur = op[1] % len(lens)
            m = setmap(cur)
            for k, v in m.items():
                res["state"].data[k] = v
            continue
        if op[0] == "sync":
            a, b = ("serial", "group") if op[1] % 2 else ("group", "serial")
            st_obj[a].set_current_position(st_obj[b].current_position)
            mpos[a] = mpos[b]
            continue
        kind = op[0]
        c, L = cfg[kind], lens[cur]
        n_rec = c["n"] // c["thin"]
        if n_rec > L:
            continue
        if mpos[kind] + n_rec > L:  # a full buffer is the caller's mistake; start over
            mpos[kind] = min(op[1], L - n_rec)
            st_obj[kind].set_current_position(mpos[kind])
        others = {k: v for k, v in res.items()}
        x_before = np.array(xj)
        key, res, last = st_obj[kind](key, res, xj, data)
        # model
        steps = x[:, None, :] + 1.0 + np.arange(c["n"])[None, :, None]
        rec = steps[:, :: c["thin"]][:, :n_rec]
        sl = slice(mpos[kind], mpos[kind] + n_rec)
        model[f"pos{cur}"][:, sl] = rec
        model[f"lp{cur}"][:, sl] = scale * rec.sum(-1) + 0.25
        fl = "loc" if kind == "serial" else "glob"
        model[f"{fl}{cur}"][:, sl] = (np.mod(rec[..., 0], per[kind]) >= 1.0)
        mpos[kind] += n_rec
        x = steps[:, -1] if c["n"] else x
        what = f"after {kind} call (n_steps={c['n']}, thinning={c['thin']}, batch={c['batch']}, chains={n})"
        require(st_obj[kind].current_position == mpos[kind],
                f"{what}: current position {st_obj[kind].current_position}, expected {mpos[kind]}")
        require_equal(last, x, f"{what}: returned positions (the chains' last step)")
        require_equal(xj, x_before, f"{what}: the caller's positions")
        for nm, v in model.items():
            require_equal(res[nm].data, v, f"{what}: buffer {nm}")
        require(set(res) == set(others), f"{what}: resources added or removed")
        require(res["state"].data == setmap(cur), f"{what}: the state was changed")
        xj = last
        wrote += n_rec * n
        thin_used |= c["thin"] > 1 and n_rec > 0
        ctx.label(f"{kind} calls")
        ctx.label("thinned calls", c["thin"] > 1)
        ctx.label("non-dividing thinning", c["n"] % c["thin"] != 0)
        ctx.label("batched calls", 1 < c["batch"] < n)
    ctx.count(wrote)
    ctx.nontrivial(wrote > 0 and sum(o[0] in ("serial", "group") for o in case["ops"]) >= 2)


def step_cfg():
    return st.fixed_dictionaries(dict(n=st.one_of(st.integers(1, 9), st.integers(0, 9), st.integers(10, 130)), thin=st.sampled_from([1, 1, 2, 3, 4, 5, 10, 11]),
                                      batch=st.sampled_from([0, 0, 1, 2, 3, 10, 16]), verbose=st.booleans()))


def history_case():
    op = st.one_of(
        st.tuples(st.sampled_from(["serial", "group"]), st.integers(0, 6)),
        st.tuples(st.sampled_from(["serial", "group", "switch", "sync"]), st.integers(0, 6)))
    return st.fixed_dictionaries(dict(
        n_chains=st.one_of(st.integers(1, 5), st.sampled_from([3, 17, 70])), d=st.sampled_from([2, 1, 3, 12]),
        lens=st.lists(st.one_of(st.integers(6, 30), st.sampled_from([150, 400])), min_size=1, max_size=2),
        keys=st.sampled_from([["target_positions", "target_log_prob", "target_local_accs", "target_global_accs"], ["a", "b", "c", "d"]]),
        serial=step_cfg(), group=step_cfg(), ops=st.lists(op, min_size=2, max_size=10).map(lambda l: [list(o) for o in l]), seed=SEED))


# ------------------------------------------------------------------ thinning never changes the evolution
def check_thinning(case, ctx):
    from flowMC.resource.buffers import Buffer
    from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
    from flowMC.resource.kernel.MALA import MALA
    from flowMC.resource.logPDF import LogPDF
    from flowMC.resource.states import State
    from flowMC.strategy.take_steps import TakeSerialSteps

    n, d, T, k = 4, 2, case["T"], case["thin"]
    p = target_params(case["seed"], d, 3)
    data = to_jax({a: np.asarray(v, float) for a, v in p.items()})
    g = rng(case["seed"], 5)
    x = jnp.asarray(p["m"] + g.normal(size=(n, d)))
    K = GaussianRandomWalk if case["kernel"] == "grw" else MALA
    out = {}
    for thin in (1, k):
        R = T // thin
        res = dict(logpdf=LogPDF(target_logp, n_dims=d), k=K(case["step"]), state=State(dict(p="p", l="l", a="a")),
                   p=Buffer("p", (n, 2 * R + 1, d), 1), l=Buffer("l", (n, 2 * R + 1), 1), a=Buffer("a", (n, 2 * R + 1), 1))
        s = TakeSerialSteps("logpdf", "k", "state", ["p", "l", "a"], T, thinning=thin)
        key, res, last = s(key_of(case["seed"]), res, x, data)
        key, res, last2 = s(key, res, last, data)
        out[thin] = (np.asarray(last), np.asarray(last2), *(np.asarray(res[v].data) for v in "pla"), R)
    a, b = out[1], out[k]
    require_close(b[0], a[0], f"position after {T} steps with thinning {k}", rtol=1e-10, atol=1e-10)
    require_close(b[1], a[1], f"position after two calls with thinning {k}", rtol=1e-9, atol=1e-9)
    R = b[5]
    idx = np.concatenate([np.arange(0, T, k)[:R], T + np.arange(0, T, k)[:R]])
    for i, nm in ((2, "positions"), (3, "log-probs"), (4, "flags")):
        require_close(b[i][:, : 2 * R], a[i][:, idx], f"thinned {nm}", rtol=1e-9, atol=1e-9)
        require(np.all(b[i][:, 2 * R:] == -np.inf), f"thinned {nm}: wrote beyond the records")
    fl = a[4][:, : 2 * T]
    require(np.isin(fl, [0.0, 1.0]).all(), "flags are not 0/1")
    ctx.count(2 * n * T)
    ctx.nontrivial(k > 1 and 0 < fl.mean() < 1)
    ctx.label("non-dividing thinning", T % k != 0)


def thin_case():
    return st.fixed_dictionaries(dict(kernel=st.sampled_from(["grw", "mala"]), T=st.integers(2, 12), thin=st.integers(2, 6),
                                      step=st.sampled_from([0.3, 1.0, 2.0]), seed=SEED))


FACETS = [
    Facet("history", check_history, history_case, quick=30, thorough=600, shards=5, thorough_shards=8,
          rule="histories of stepping calls, state switches and position syncs against a numpy recorder; non-trivial when >=2 calls wrote records"),
    Facet("thinning", check_thinning, thin_case, quick=14, thorough=200, shards=2,
          rule="two calls with and without thinning under the same key; non-trivial when thinning>1 and moves are mixed"),
]
FACETS += in_single_precision(FACETS, dict(history=25, thinning=4))
ASSUMPTIONS = ["buffers are long enough for what is written (the callers size them)", "the first step of each thinning interval is the one recorded"]
