"""C02: every kernel update returns a coherent (position, log-probability, flag) triple."""
import functools

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from vf.common import SEED, by_precision, key_of, keys, logfl, make_flow, np_logp, rng, target_logp, target_params, to_jax
from vf.core import Facet, in_single_precision, fail, require, require_close, require_equal, require_shape

N = 64


def wall_logp(x, data):
    """Generated target inside a half space (or a slab), `bad` (-inf or nan) outside it."""
    inside = jnp.logical_and(jnp.dot(data["n"], x) < data["t"], jnp.dot(data["n"], x) > data["t2"])
    return jnp.where(inside, target_logp(x, data), data["bad"])


def np_wall(x, p):
    s = np.asarray(x, float) @ p["n"]
    return np.where((s < p["t"]) & (s > p["t2"]), np_logp(np.asarray(x, float), p), p["bad"])


def wall_params(case, d):
    un = 10.0 ** case.get("unit", 0)
    p = target_params(case["seed"], d, case["target"], case["offset"], un)
    g = rng(case["seed"], 31)
    n = g.normal(size=d)
    n /= np.linalg.norm(n)
    p["n"] = n
    c = float(n @ p["m"])
    p["t"] = c + case["wall"] * un
    p["t2"] = c - ((abs(case["wall"]) + 1.0) * un if case["slab"] else 1e9)
    p["unit"] = un
    p["bad"] = -np.inf if case["bad"] == "-inf" else np.nan
    return p


def make_kernel(name, d, step, seed):
    if name == "grw":
        from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk as K

        return K(jnp.asarray(step))
    if name == "mala":
        from flowMC.resource.kernel.MALA import MALA

        return MALA(jnp.asarray(step))
    from flowMC.resource.kernel.HMC import HMC

    g = rng(seed, 37)
    A = g.normal(size=(d, d)) * 0.5
    return HMC(jnp.asarray(A @ A.T + np.eye(d)), jnp.asarray(step * 0.5), 3)


@eqx.filter_jit
def one_update(kernel, ks, xs, lps, data):
    return jax.vmap(lambda k, x, lp: kernel.kernel(k, x, lp, wall_logp, data))(ks, xs, lps)


def tol(p, dt):
    return 1e-9 if dt == np.float64 else 2e-4


def at_edge(y, p):
    s = y.astype(float) @ p["n"]
    return np.minimum(np.abs(s - p["t"]), np.abs(s - p["t2"])) < by_precision(1e-5, 1e-4) * (p["unit"] + np.abs(s) + by_precision(0, 1) * np.abs(y).max(-1))


def judge(x, lp, y, lpy, acc, p, what, ctx):
    """x, lp: state before; y, lpy, acc: state after one update (batched)."""
    n, d = x.shape
    require_shape(y, (n, d), what + " position")
    require_shape(lpy, (n,), what + " log_prob")
    require_shape(acc, (n,), what + " accept flag")
    a = np.asarray(acc)
    require(np.isin(a, [0, 1]).all(), f"{what}: accept flags {np.unique(a)} are not 0/1")
    a = a.astype(bool)
    moved = (y != x).any(-1)
    require(not (moved & ~a).any(), f"{what}: position changed by an update flagged as rejected")
    require(not (~moved & a).any(), f"{what}: position unchanged by an update flagged as accepted")
    t = tol(p, y.dtype)
    # (a kernel may recompute the current value: rounding is allowed)
    require_close(lpy[~a], lp[~a], f"{what}: log_prob of a rejected update", rtol=t,
                  atol=t * (1 + abs(p["offset"])))
    ref = np_wall(y, p)
    sc = 1 + np.abs(p["offset"]) + np.abs(np.where(np.isfinite(ref), ref, 0))
    # float rounding at the wall itself may flip inside/outside: leave points within eps of it out
    edge = at_edge(y, p)
    require_close(lpy, ref, f"{what}: log_prob vs target at the returned position", rtol=0, atol=t * sc, mask=a & ~edge)
    was = np.isfinite(np_wall(x, p)) & np.isfinite(lp)
    bad = was & ~edge & ~np.isfinite(ref)
    require(not bad.any(), f"{what}: moved from finite density to a point with target {ref[bad][:1]}")
    ctx.count(n)
    ctx.label("accepted", a.sum())
    ctx.label("rejected", (~a).sum())
    return a


def check_update(name, case, ctx):
    d = case["d"]
    p = wall_params(case, d)
    ker = make_kernel(name, d, case["step"] * p["unit"], case["seed"])
    g = rng(case["seed"], 41)
    x = jnp.asarray(p["m"] + g.normal(size=(N, d)) * case["scale"] * p["unit"])
    data = to_jax({k: np.asarray(v, float) for k, v in p.items()})
    lp = jax.vmap(wall_logp, in_axes=(0, None))(x, data)
    y, lpy, acc = one_update(ker, keys(case["seed"], N), x, lp, data)
    xn, lpn, yn, ln, an = map(np.asarray, (x, lp, y, lpy, acc))
    start_bad = ~np.isfinite(lpn)
    keep = ~np.isnan(lpn)  # a chain does not start where the target is undefined
    a = judge(xn[keep], lpn[keep], yn[keep], ln[keep], an[keep], p, name, ctx)
    # chains sitting at zero density: proposal under a flat target with the same key is the same
    if case["bad"] == "-inf" and start_bad.any():
        # (the target's gradient vanishes out there, so the proposal is the flat one whatever the
        # target is inside; a Hamiltonian trajectory sees the inside before it ends)
        for pf in [dict(p, P=np.zeros((d, d)), a=0.0, b=0.0)] + ([] if name == "hmc" else [p]):
            df = to_jax({k: np.asarray(v, float) for k, v in pf.items()})
            dflat = dict(df, P=jnp.zeros((d, d)), a=jnp.zeros(()), b=jnp.zeros(()), t=jnp.asarray(np.inf), t2=jnp.asarray(-np.inf))
            prop, _, facc = one_update(ker, keys(case["seed"], N), x, jnp.full(N, p["offset"]), dflat)
            lpf = jax.vmap(wall_logp, in_axes=(0, None))(x, df)
            yw, _, aw = one_update(ker, keys(case["seed"], N), x, lpf, df)
            yes = start_bad & np.isfinite(np_wall(np.asarray(prop), pf)) & np.asarray(facc).astype(bool)
            yes &= ~at_edge(np.asarray(prop), pf) & ~at_edge(xn, pf)
            require(np.asarray(aw)[yes].astype(bool).all(), f"{name}: a chain at zero density refused a proposal of positive density")
            require_close(np.asarray(yw)[yes], np.asarray(prop)[yes], f"{name}: escape from zero density", rtol=by_precision(1e-6, 1e-4), atol=by_precision(1e-6, 1e-4) * p["unit"])
            ctx.label("escapes from zero density", yes.sum())
    ctx.label("start at zero/undefined density", start_bad.sum())
    ctx.nontrivial(0 < a.sum() < len(a))


def upd_case():
    return st.fixed_dictionaries(dict(
        d=st.sampled_from([2, 1, 4, 11]), target=st.sampled_from([1, 2, 3]), offset=st.sampled_from([0.0, -40.0, 200.0, -2e4, 3e5]),
        unit=st.sampled_from([0, 0, -3, 3]),
        wall=st.sampled_from([-0.5, 0.0, 0.3, 1.0, 3.0]), slab=st.booleans(), bad=st.sampled_from(["-inf", "nan"]),
        step=logfl(-2, 0.7), scale=st.sampled_from([1.0, 0.2, 2.0, 20.0]), seed=SEED))


# ------------------------------------------------------------------ chains of updates (strategies)
def check_chain(name, case, ctx):
    from flowMC.resource.buffers import Buffer
    from flowMC.resource.logPDF import LogPDF
    from flowMC.resource.states import State
    from flowMC.strategy.take_steps import TakeGroupSteps, TakeSerialSteps

    d, n, T = case["d"], 6, case["T"]
    p = wall_params(case, d)
    g = rng(case["seed"], 43)
    data = to_jax({k: np.asarray(v, float) for k, v in p.items()})
    x = p["m"] + g.normal(size=(n, d)) * case["scale"] * p["unit"]
    if name == "nf":
        from flowMC.resource.kernel.NF_proposal import NFProposal

        m = make_flow(case["flow"], d, 2, case["seed"], 0.5, base=False)
        ker = NFProposal(m, case["nb"])
        # aim the target at the flow so that acceptance is mixed
        p["m"] = np.asarray(m.data_mean, float)
        p["t"], p["t2"] = float(p["n"] @ p["m"]) + case["wall"], -1e9
        data = to_jax({k: np.asarray(v, float) for k, v in p.items()})
        x = p["m"] + g.normal(size=(n, d)) * case["scale"]
        S = TakeGroupSteps
    else:
        ker = make_kernel(name, d, case["step"] * p["unit"], case["seed"])
        S = TakeSerialSteps
    x = jnp.asarray(x)
    res = dict(logpdf=LogPDF(wall_logp, n_dims=d), k=ker, state=State(dict(p="p", l="l", a="a")),
               p=Buffer("p", (n, T, d), 1), l=Buffer("l", (n, T), 1), a=Buffer("a", (n, T), 1))
    s = S("logpdf", "k", "state", ["p", "l", "a"], T)
    _, res, last = s(key_of(case["seed"]), res, x, data)
    pos, lps, accs = (np.asarray(res[k].data) for k in "pla")
    require_shape(pos, (n, T, d), "positions")
    prev = np.concatenate([np.asarray(x, pos.dtype)[:, None], pos[:, :-1]], 1)
    lp0 = np.asarray(jax.vmap(wall_logp, in_axes=(0, None))(x, data))
    keep = ~np.isnan(lp0)
    prevlp = np.concatenate([lp0[:, None].astype(lps.dtype), lps[:, :-1]], 1)
    if not keep.any():
        return
    f = lambda v: v[keep].reshape((-1,) + v.shape[2:])
    a = judge(f(prev), f(prevlp), f(pos), f(lps), f(accs), p, f"{name} chain", ctx)
    ctx.nontrivial(0 < a.sum() < len(a))
    ctx.label("chains started at zero density", (keep & ~np.isfinite(lp0)).sum())
    if name == "nf" and case["bad"] == "-inf":
        # a chain at zero density takes the first proposal of positive density
        first = np.argmax(np.isfinite(lps), 1)
        for c in np.nonzero(~np.isfinite(lp0))[0]:
            if np.isfinite(lps[c]).any():
                require(accs[c, first[c]] == 1, "nf chain: left zero density without an acceptance")


def chain_case(nf=False):
    base = dict(
        d=st.sampled_from([2, 3]) if nf else st.sampled_from([3, 1, 10]), T=st.sampled_from([9, 1, 20] if nf else [12, 1, 40]),
        target=st.sampled_from([1, 2, 3]),
        offset=st.sampled_from([0.0, 30.0, -900.0]), unit=st.sampled_from([0] if nf else [0, 0, -2, 2]), wall=st.sampled_from([-0.5, 0.0, 0.3, 1.0, 3.0]), slab=st.just(False),
        bad=st.sampled_from(["-inf", "nan"]), step=logfl(-1.5, 0.5), scale=st.sampled_from([0.2, 1.0, 2.0]), seed=SEED)
    if nf:
        base.update(flow=st.sampled_from(["rqs", "nvp"]), nb=st.sampled_from([4, 100]))
    return st.fixed_dictionaries(base)


FACETS = [
    Facet(f"update_{k}", functools.partial(check_update, k), upd_case, quick=60, thorough=2000,
          rule="64 updates per case on a target with a hard wall; non-trivial when both accepted and rejected updates occur")
    for k in ("grw", "mala", "hmc")
] + [
    Facet(f"chain_{k}", functools.partial(check_chain, k), chain_case, quick=25, thorough=400, x64=(k != "mala"),
          rule="6 chains of up to 12 updates through the stepping strategy; non-trivial when both accepted and rejected occur")
    for k in ("grw", "mala", "hmc")
] + [
    Facet("chain_nf", functools.partial(check_chain, "nf"), lambda: chain_case(True), quick=14, thorough=200, shards=2,
          rule="6 chains of up to 9 global steps; non-trivial when both accepted and rejected occur"),
]
FACETS += in_single_precision(FACETS, dict(update_grw=15, update_mala=15, update_hmc=15, chain_nf=4))
ASSUMPTIONS = ["chains never start where the target is undefined (nan)",
               "returned log-probabilities are compared within rounding, positions bit for bit"]
