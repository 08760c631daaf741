"""C06: flow transformations are exact bijections whose reported log-determinants are true.

Every layer and model is evaluated at generated parameters and points; both round trips are
compared with the identity to within the map's own conditioning, and the reported log-determinants
with the determinant of the Jacobian obtained by automatic differentiation."""
import functools

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from vf.common import SEED, by_precision, key_of, make_flow, perturb, rng
from vf.core import Facet, in_single_precision, Violation, require, require_close, require_shape

NPTS = 40


def call_fwd(obj, x, c):
    return obj.forward(x) if c is None else obj.forward(x, c)


def call_inv(obj, x, c):
    return obj.inverse(x) if c is None else obj.inverse(x, c)


@eqx.filter_jit
def maps(obj, xs, cs):
    """forward, inverse of it, inverse, forward of that, call, and the Jacobians."""

    def one(x, c):
        y, ldf = call_fwd(obj, x, c)
        xb, ldb = call_inv(obj, y, c)
        yc, ldc = obj(x) if c is None else obj(x, c)
        jf = jax.jacfwd(lambda t: call_fwd(obj, t, c)[0])(x)
        w, ldw = call_inv(obj, x, c)
        xw, ldxw = call_fwd(obj, w, c)
        ji = jax.jacfwd(lambda t: call_inv(obj, t, c)[0])(x)
        return dict(y=y, ldf=ldf, xb=xb, ldb=ldb, yc=yc, ldc=ldc, jf=jf, w=w, ldw=ldw, xw=xw, ldxw=ldxw, ji=ji)

    if cs is None:
        return jax.vmap(lambda x: one(x, None))(xs)
    return jax.vmap(one)(xs, cs)


@eqx.filter_jit
def knots_of(obj, cs):
    return jax.vmap(obj.get_params)(cs)


def logabsdet(j):
    with np.errstate(all="ignore"):
        return np.linalg.slogdet(j)[1]


def judge(what, obj, xs, cs, ctx, per_dim=False, base=1e-7, x32=False):
    r = {k: np.asarray(v, float) for k, v in maps(obj, jnp.asarray(xs), None if cs is None else jnp.asarray(cs)).items()}
    xs = np.asarray(xs, float)
    d = xs.shape[1]
    for k in ("y", "xb", "w", "xw", "yc"):
        require_shape(r[k], xs.shape, f"{what}: output")
        require(np.isfinite(r[k]).all(), f"{what}: non-finite output for finite input, e.g. {xs[~np.isfinite(r[k]).all(-1)][:1]}")
    require_close(r["yc"], r["y"], f"{what}: calling the object vs its forward map", rtol=base, atol=base)

    def total(v):
        if per_dim:
            return np.broadcast_to(v if v.ndim == 2 else v[:, None], xs.shape).sum(-1)
        require_shape(v, (len(xs),), f"{what}: log-determinant")
        return v

    nrm = lambda j: np.abs(j).max((1, 2))
    checked = 0
    for (src, img, back, jac, ld, ldback, ldir) in (("forward", "y", "xb", "jf", "ldf", "ldb", "inverse(forward(x))"),
                                                    ("inverse", "w", "xw", "ji", "ldw", "ldxw", "forward(inverse(x))")):
        j = r[jac]
        ok = np.isfinite(j).all((1, 2))
        require(ok.all(), f"{what}: the {src} map is not differentiable at {xs[~ok][:1]}")
        with np.errstate(all="ignore"):
            singular = np.linalg.svd(j, compute_uv=False)
            ji = np.linalg.pinv(j)
            ji[~(singular.min(-1) > 1e-12 * singular.max(-1))] = 1e300  # numerically singular: nothing to judge
        kappa = nrm(ji) * (1 + np.abs(r[img]).max(-1)) * (1 + nrm(j))
        tol = base * (1 + np.abs(xs).max(-1) + kappa)
        good = tol < 1e-2 * (1 + np.abs(xs).max(-1)) if not x32 else tol < 0.1 * (1 + np.abs(xs).max(-1))
        err = np.abs(r[back] - xs).max(-1)
        bad = good & (err > tol)
        if bad.any():
            i = int(np.argmax(np.where(bad, err / tol, 0)))
            raise Violation(f"{what}: {ldir} is not the identity: x={xs[i]} comes back as {r[back][i]} "
                            f"(tolerance {tol[i]:.2g}; {int(bad.sum())} of {len(xs)} points)")
        cond = nrm(j) * nrm(ji)
        tl = 10 * base * (1 + np.abs(total(r[ld])) + cond * d)
        goodl = good & (tl < 1e-2 if not x32 else tl < 0.2)
        true = logabsdet(j)
        bad = goodl & ~(np.abs(total(r[ld]) - true) <= tl)
        if bad.any():
            i = int(np.nonzero(bad)[0][0])
            raise Violation(f"{what}: {src} log-determinant at x={xs[i]} is {total(r[ld])[i]:.10g}, the Jacobian's is {true[i]:.10g}"
                            f" ({int(bad.sum())} of {len(xs)} points)")
        bad = goodl & ~(np.abs(total(r[ld]) + total(r[ldback])) <= tl)
        if bad.any():
            i = int(np.nonzero(bad)[0][0])
            raise Violation(f"{what}: forward and inverse log-determinants at matching points do not cancel: {total(r[ld])[i]} and {total(r[ldback])[i]}")
        if per_dim:
            off = np.abs(j - np.einsum("nii->ni", j)[:, :, None] * np.eye(d)).max((1, 2))
            require((off[good] <= 1e-9 * (1 + nrm(j)[good])).all(), f"{what}: an elementwise map mixes coordinates")
            diag = np.log(np.abs(np.einsum("nii->ni", j)))
            v = r[ld] if r[ld].ndim == 2 else np.broadcast_to(r[ld][:, None], xs.shape)
            require_close(v[goodl], diag[goodl], f"{what}: per-coordinate {src} log-derivative", rtol=base * 10, atol=tl.max() if x32 else 1e-4)
        checked += int(good.sum()) + int(goodl.sum())
    ctx.count(checked)
    ctx.label("points", len(xs))
    ctx.label("points too ill-conditioned to judge", len(xs) * 4 - checked)
    return r, checked


def points(seed, d, lo, hi, n=NPTS):
    """inside, outside and exactly at the edges of the spline range, and far away"""
    g = rng(seed, 31)
    w = hi - lo
    x = g.uniform(lo, hi, size=(n, d))
    x[: n // 4] = g.normal(size=(n // 4, d)) * w
    k = n // 4
    x[k: k + 6] = np.where(g.uniform(size=(6, d)) < 0.5, lo, hi)
    edge = x[k + 6: k + 14]
    edge[g.uniform(size=edge.shape) < 0.4] = hi
    edge[g.uniform(size=edge.shape) < 0.3] = lo
    x[k + 14] = lo - 50 * w
    x[k + 15] = hi + 50 * w
    x[k + 16] = 0.0
    return x


def mlp(n_in, n_out, seed, scale, hidden=5, act=jnp.tanh):
    from flowMC.resource.model.common import MLP

    m = MLP([n_in, hidden, n_out], key_of(seed), activation=act)
    return perturb(m, scale, seed)


# ------------------------------------------------------------------ whole models
def check_model(kind, case, ctx):
    d, L = case["d"], case["L"]
    lo, hi = (-4.0, 4.0)
    m = make_flow(kind, d, L, case["seed"], case["scale"], stats=bool(case["seed"] % 2), base=False, as_is=case["scale"] == 0)
    x = points(case["seed"], d, lo, hi)
    r, ok = judge(f"{kind} flow (d={d}, {L} layers)", m, x, None, ctx)
    ctx.label(f"d={d} L={L}")
    ctx.nontrivial(ok > 2 * NPTS and case["scale"] > 0)


def check_architecture(kind, case, ctx):
    """Other shapes of model than the small default one, built through the constructors."""
    from flowMC.resource.model.nf_model.realNVP import RealNVP
    from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline

    d, seed = case["d"], case["seed"]
    lo, hi = case["range"]
    if kind == "rqs":
        m = MaskedCouplingRQSpline(d, case["L"], case["hidden"], case["bins"], key_of(seed), spline_range=(lo, hi))
        m = eqx.tree_at(lambda t: t.layers, m, perturb(m.layers, case["scale"], seed))
    else:
        m = RealNVP(d, case["L"], case["hidden"][0], key_of(seed))
        m = eqx.tree_at(lambda t: t.affine_coupling, m, perturb(m.affine_coupling, case["scale"], seed))
    x = points(seed, d, lo, hi)
    r, ok = judge(f"{kind} flow (d={d}, {case['L']} layers, range {lo}..{hi})", m, x, None, ctx)
    ctx.label(f"d={d}")
    ctx.nontrivial(ok > 2 * NPTS)


def architecture_case():
    return st.fixed_dictionaries(dict(d=st.sampled_from([7, 2, 1, 4, 10]), L=st.sampled_from([5, 1, 8]), hidden=st.sampled_from([[5, 4], [3], [16, 8, 4], [32]]), bins=st.sampled_from([10, 1, 2, 5]),
                                      range=st.sampled_from([[-1.0, 3.0], [-10.0, 10.0], [2.0, 5.0], [-0.5, 0.5], [-7.0, -1.0]]),
                                      scale=st.sampled_from([0.3, 0.1, 0.6]), seed=SEED))


def model_case(d):
    return lambda: st.fixed_dictionaries(dict(d=st.just(d), L=st.sampled_from([1, 2, 3]) if d < 4 else st.just(4),
                                              scale=st.sampled_from([0.5, 0.1, 0.0, 1.0, 1.5]), seed=SEED))


# ------------------------------------------------------------------ single layers
def random_mask(seed, d, alternating):
    if alternating:
        return (np.arange(d) + seed) % 2
    g = rng(seed, 41)
    return (g.uniform(size=d) < 0.5).astype(int)


def check_knots(obj, cond, case, ctx):
    """Exactly on interior knots automatic differentiation is ambiguous, so the (continuous)
    log-derivative is compared with its value next to the knot instead."""
    xp, yp, _ = (np.asarray(v) for v in knots_of(obj, jnp.asarray(cond)))
    g = rng(case["seed"], 47)
    k = g.integers(0, xp.shape[-1], size=xp.shape[:2] + (1,))
    cj = jnp.asarray(cond)
    for name, pos in (("x", xp), ("y", yp)):
        x = np.take_along_axis(pos, k, -1)[..., 0]
        r = {n: np.asarray(v) for n, v in maps(obj, jnp.asarray(x), cj).items()}
        for step in (1e-10, -1e-10):
            q = {n: np.asarray(v) for n, v in maps(obj, jnp.asarray(x + step), cj).items()}
            for u, w in (("y", "ldf"), ("w", "ldw")):
                slope = np.exp(q[w])
                require_close(r[u], q[u], f"spline exactly on a {name} knot vs next to it: value ({u})", rtol=1e-8, atol=1e-8 * (1 + slope))
                require_close(r[w], q[w], f"spline exactly on a {name} knot vs next to it: log-derivative ({w})", rtol=0,
                              atol=1e-3 * (1 + slope + 1 / slope))
        ctx.count(2 * x.size)
    # and at generated small distances of a knot the full judgement applies
    x = np.take_along_axis(xp, k, -1)[..., 0]
    x = x + 10.0 ** g.uniform(-9, -2, size=x.shape) * np.where(g.uniform(size=x.shape) < 0.5, 1, -1)
    judge("spline next to a knot", obj, x, cond, ctx, per_dim=True)


def check_layer(kind, case, ctx):
    from flowMC.resource.model import common as C
    from flowMC.resource.model.nf_model.realNVP import AffineCoupling
    from flowMC.resource.model.nf_model.rqSpline import RQSpline

    d, seed, s = case["d"], case["seed"], case["scale"]
    if "spline" in kind and by_precision(False, True):  # rounding makes the smallest bins and slopes meaningless
        case, s = dict(case, mbs=1e-2, mks=0.1), min(s, 0.5)
    elif "spline" in kind and case.get("extreme"):
        s = case["extreme"]
    lo, hi = case["range"]
    g = rng(seed, 43)
    x = points(seed, d, lo, hi)
    cond = None
    per_dim = False
    mask = random_mask(seed, d, case["alternating"])
    mtype = bool if case["bool_mask"] else float
    fixed = None
    if kind == "affine_coupling":  # mask 1 marks the transformed coordinates here
        obj = AffineCoupling(d, 5, jnp.asarray(mask, mtype) if mtype is float else jnp.asarray(mask, int), key_of(seed), dt=case["dt"])
        obj = eqx.tree_at(lambda t: (t.scale_MLP, t.translate_MLP), obj, (perturb(obj.scale_MLP, s, seed), perturb(obj.translate_MLP, s, seed + 1)))
        fixed = mask == 0
    elif kind == "mlp_affine":
        obj = C.MLPAffine(mlp(d, d, seed, s), mlp(d, d, seed + 1, s), dt=case["dt"])
        cond, per_dim = g.normal(size=(NPTS, d)) * 2, True
    elif kind == "scalar_affine":
        obj = C.ScalarAffine(float(g.normal() * s), float(g.normal() * s))
        cond, per_dim = g.normal(size=(NPTS, d)), True
    elif kind == "spline":
        obj = RQSpline(mlp(d, d * (3 * case["bins"] + 1), seed, 2 * s), lo, hi, min_bin_size=case["mbs"], min_knot_slope=case["mks"])
        cond, per_dim = g.normal(size=(NPTS, d)) * 2, True
        if by_precision(True, False) and hasattr(obj, "get_params"):
            check_knots(RQSpline(mlp(d, d * (3 * case["bins"] + 1), seed, 0.4), lo, hi, min_bin_size=1e-2, min_knot_slope=0.05), cond, case, ctx)
    else:
        inner = kind.split("+")[1]
        if inner == "mlp_affine":
            b = C.MLPAffine(mlp(d, d, seed, s), mlp(d, d, seed + 1, s), dt=case["dt"])
        elif inner == "scalar_affine":
            b = C.ScalarAffine(float(g.normal() * s), float(g.normal() * s))
        else:
            b = RQSpline(mlp(d, d * (3 * case["bins"] + 1), seed, 2 * s), lo, hi, min_bin_size=case["mbs"], min_knot_slope=case["mks"])
        obj = C.MaskedCouplingLayer(b, jnp.asarray(mask, mtype))
        cond = g.normal(size=(NPTS, d))
        fixed = mask == 1
    x = np.asarray(jnp.asarray(x), float)
    r, ok = judge(f"{kind} (d={d})", obj, x, cond, ctx, per_dim=per_dim, base=by_precision(1e-7, 2e-5), x32=by_precision(False, True))
    if fixed is not None:
        for k in ("y", "w"):
            require_close(r[k][:, fixed], x[:, fixed], f"{kind}: masked coordinates", rtol=by_precision(1e-14, 1e-6), atol=0)
        ctx.label("all coordinates masked", fixed.all())
        ctx.label("no coordinate masked", (~fixed).all())
    ctx.label(f"d={d}")
    ctx.label("extreme parameters", s > 2)
    ctx.nontrivial(ok > (2 if s <= 2 else 0) * NPTS)


def layer_case():
    return st.fixed_dictionaries(dict(
        d=st.sampled_from([2, 3, 1]), alternating=st.booleans(), bool_mask=st.booleans(), dt=st.sampled_from([1.0, 0.5, 2.0, 0.1]),
        scale=st.sampled_from([0.5, 1.0, 0.1, 2.0]), extreme=st.sampled_from([0, 0, 0, 30.0, 1000.0]), bins=st.sampled_from([3, 1, 8]), mbs=st.sampled_from([1e-4, 1e-2]),
        mks=st.sampled_from([1e-4, 0.1]), range=st.sampled_from([[-4.0, 4.0], [-1.0, 3.0], [-10.0, 10.0], [2.0, 5.0]]), seed=SEED))


# ------------------------------------------------------------------ after training
def check_trained(kind, case, ctx):
    """A model trained with the library's own optimiser is still a bijection."""
    from flowMC.resource.optimizer import Optimizer

    d = 3
    m = make_flow(kind, d, 2, case["seed"], 0.2, stats=False, base=False)
    g = rng(case["seed"], 3)
    data = g.normal(size=(64, d)) * g.uniform(0.3, 3, size=d) + g.normal(size=d)
    opt = Optimizer(m, learning_rate=case["lr"])
    _, m2, _, loss = m.train(key_of(case["seed"]), jnp.asarray(data), opt.optim, opt.optim_state, case["epochs"], 32, verbose=False)
    x = points(case["seed"], d, -4.0, 4.0)
    r, ok = judge(f"{kind} flow after {case['epochs']} epochs at rate {case['lr']}", m2, x, None, ctx)
    ctx.nontrivial(ok > 2 * NPTS)


def trained_case():
    return st.fixed_dictionaries(dict(lr=st.sampled_from([1e-2, 1e-1, 1e-3]), epochs=st.sampled_from([5, 15]), seed=SEED))


# ------------------------------------------------------------------ single precision, as used by default
def check_x32(kind, case, ctx):
    d = case["d"]
    m = make_flow(kind, d, 2, case["seed"], case["scale"], base=False)
    x = points(case["seed"], d, -4.0, 4.0).astype(np.float32)
    x = x[np.abs(x).max(-1) < 50]
    x = np.concatenate([x, x])[: NPTS - 4]
    r, ok = judge(f"{kind} flow in single precision", m, x, None, ctx, base=2e-5, x32=True)
    ctx.nontrivial(ok > NPTS)


def x32_case():
    return st.fixed_dictionaries(dict(d=st.sampled_from([2, 3]), scale=st.sampled_from([0.3, 0.6]), seed=SEED))


LAYERS = ["affine_coupling", "mlp_affine", "scalar_affine", "spline", "masked+mlp_affine", "masked+spline", "masked+scalar_affine"]
RULE = "40 points per case (inside, outside, exactly at the spline range's edges); non-trivial when most points are well enough conditioned to judge"
FACETS = [
    Facet(f"{k}_{d}d", functools.partial(check_model, k), model_case(d), quick=15, thorough=300, rule=RULE)
    for k in ("rqs", "nvp") for d in (1, 2, 3, 5)
] + [
    Facet(f"{k}_architecture", functools.partial(check_architecture, k), architecture_case, quick=5, thorough=80, shards=2, rule=RULE) for k in ("rqs", "nvp")
] + [
    Facet(k.replace("+", "_"), functools.partial(check_layer, k), layer_case, quick=18, thorough=300, rule=RULE) for k in LAYERS
] + [
    Facet(f"trained_{k}", functools.partial(check_trained, k), trained_case, quick=4, thorough=60, rule=RULE) for k in ("rqs", "nvp")
] + [
    Facet(f"single_{k}", functools.partial(check_x32, k), x32_case, quick=8, thorough=100, x64=False, rule=RULE) for k in ("rqs", "nvp")
]
FACETS += in_single_precision(FACETS, {k.replace("+", "_"): 6 for k in LAYERS})
ASSUMPTIONS = ["points whose map is too ill-conditioned for the tolerance to mean anything are counted, not judged"]
