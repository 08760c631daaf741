"""C19: buffers, states and target densities behave like their simple models."""
import collections
import copy
import functools

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from vf.common import SEED, by_precision, fl, real, real_type, rng
from vf.core import Facet, in_single_precision, fail, require, require_close, require_equal

from flowMC.resource.buffers import Buffer
from flowMC.resource.logPDF import LogPDF, TemperedPDF, Variable
from flowMC.resource.states import State

SPECIAL = [np.inf, -np.inf, np.nan, 0.0, -0.0, 1e300, 1e-300, 2.0**53 + 2]


# ------------------------------------------------------------------ buffers: several at once against numpy arrays
def check_buffers(case, ctx):
    g = rng(case["seed"], 191)
    bufs, models, snaps = [], [], []
    for i, (shape, dim, how) in enumerate(case["buffers"]):
        dim = dim % len(shape)
        given = dim - len(shape) if how == "negative" else dim
        name = f"b{i}" if how != "samename" else "b"
        if how == "default" :
            dim = given = 0
            b = Buffer(name, tuple(shape))
        elif how == "keyword":
            b = Buffer(name=name, shape=tuple(shape), cursor_dim=given)
        else:
            b = Buffer(name, tuple(shape), given)
        bufs.append(b)
        models.append(dict(name=name, dim=dim, given=given, data=real(np.full(shape, -np.inf))))

    def compare(what):
        for b, m in zip(bufs, models):
            require(b.name == m["name"], f"{what}: buffer {m['name']} is now called {b.name!r}")
            require(tuple(b.shape) == m["data"].shape, f"{what}: buffer {m['name']} has shape {tuple(b.shape)}, expected {m['data'].shape}")
            require(int(b.cursor_dim) == m["given"], f"{what}: buffer {m['name']} moved its cursor dimension to {b.cursor_dim}")
            require_equal(b.data, m["data"], f"{what}: contents of buffer {m['name']}")
            require_equal(b(), m["data"], f"{what}: value of buffer {m['name']}")
            require(np.asarray(b.data).dtype == real_type(), f"{what}: dtype {np.asarray(b.data).dtype}")
            ctx.count(m["data"].size)

    compare("new")
    updates = 0
    for which, a, k, how in case["script"]:
        i = which % len(bufs)
        b, m = bufs[i], models[i]
        n = m["data"].shape[m["dim"]]
        if how == "rename":
            b.name = m["name"] = f"n{a}"
            compare("rename")
            continue
        if how == "snapshot":
            snaps.append((b.data, m["data"].copy(), b.name))
            continue
        k = 1 + k % n
        start = 0 if how == "default" else a % (n - k + 1)
        if how == "end":
            start = n - k
        shape = list(m["data"].shape)
        shape[m["dim"]] = k
        u = real(np.where(g.random(shape) < 0.25, g.choice(SPECIAL, size=shape), g.normal(size=shape)))
        given = np.array(u) if how == "numpy" else jnp.asarray(u)
        if how == "default":
            b.update_buffer(given)
        elif how == "keyword":
            b.update_buffer(updates=given, start=start)
        elif how == "array":
            b.update_buffer(given, jnp.asarray(start))
        else:
            b.update_buffer(given, start)
        if how == "numpy":
            jax.block_until_ready(b.data)  # JAX dispatches asynchronously; it may read the array until the copy is made
            given[...] = 77.0  # the caller's array is not the buffer's
        idx = [slice(None)] * len(shape)
        idx[m["dim"]] = slice(start, start + k)
        m["data"] = m["data"].copy()
        m["data"][tuple(idx)] = u
        updates += 1
        ctx.label(f"update dim {m['dim']} of {len(shape)}")
        ctx.label("partial update" if k < n else "full update")
        compare(f"after update {updates} of buffer {i} ({k} slots from {start}, dimension {m['dim']})")
    for d, expect, name in snaps:
        require_equal(d, expect, f"contents of {name} taken earlier")
    ctx.nontrivial(updates >= 2 and any(len(m["data"].shape) > 1 for m in models))


SHAPE = st.lists(st.integers(1, 4), min_size=1, max_size=4)


def strat_buffers():
    # a fixed pool of shapes keeps the number of compiled slice updates small
    shapes = st.sampled_from([[3, 4, 2], [4, 3], [5], [2, 3, 2, 2], [1, 4, 1], [2, 6, 3], [1], [6, 2], [40, 130, 3], [1000]])
    return st.fixed_dictionaries(dict(
        seed=SEED,
        buffers=st.lists(st.tuples(shapes, st.sampled_from([1, 0, 2, 3]), st.sampled_from(["plain", "keyword", "default", "negative", "samename"])),
                         min_size=1, max_size=4),
        script=st.lists(st.tuples(st.integers(0, 3), st.sampled_from([0, 1, 2, 3, 4, 5, 77, 900]), st.sampled_from([0, 1, 2, 3, 4, 5, 99]),
                                  st.sampled_from(["plain", "array", "numpy", "keyword", "default", "end", "snapshot", "rename"])),
                        min_size=2, max_size=12),
    ))


# ------------------------------------------------------------------ states against dictionaries
VALUE = st.one_of(st.booleans(), st.integers(-5, 10**12), st.sampled_from(["positions_training", "", "x", "model_optimizer"]))
KEY = st.sampled_from(["training", "target_positions", "a", "A", "", "k 1", "x_0", "name", "data"])


def typed(d):
    return [(k, type(v).__name__, v) for k, v in d.items()]


def check_states(case, ctx):
    states, models = [], []
    for i, d in enumerate(case["init"]):
        d = dict(d)
        s = State(dict(d), name=f"s{i}") if i else State(dict(d))
        states.append(s)
        models.append((d, f"s{i}" if i else "State"))
    same = {}
    for i, keys, values in case["script"]:
        i %= len(states)
        n = min(len(keys), len(values))
        keys, values = keys[:n], values[:n]
        k0, v0 = list(keys), list(values)
        states[i].update(keys, values)
        require(keys == k0 and typed(dict(enumerate(values))) == typed(dict(enumerate(v0))), "the lists given to update were changed")
        for k, v in zip(keys, values):
            models[i][0][k] = v
        for s, (d, name) in zip(states, models):
            require(s.name == name, f"state name {s.name!r}, expected {name!r}")
            require(sorted(typed(s.data), key=repr) == sorted(typed(d), key=repr), f"state {name} after {k0}->{v0}: {s.data!r}, expected {d!r}")
            ctx.count(len(d))
        if len(set(keys)) < len(keys):
            ctx.label("key repeated in one update")
        ctx.nontrivial(n > 1)


def strat_states():
    return st.fixed_dictionaries(dict(
        init=st.lists(st.lists(st.tuples(KEY, VALUE), max_size=5), min_size=1, max_size=3),
        script=st.lists(st.tuples(st.integers(0, 2), st.lists(KEY, min_size=1, max_size=4), st.lists(VALUE, min_size=1, max_size=4)),
                        min_size=1, max_size=10),
    ))


# ------------------------------------------------------------------ target densities
Pair = collections.namedtuple("Pair", "loc extra")


def make_data(kind, g, d):
    """A user's data in different containers, and how to read (loc, scale) from it."""
    loc, scale = g.normal(size=d), float(g.uniform(0.3, 3))
    if kind == "dict":
        return {"loc": jnp.asarray(loc), "scale": jnp.asarray(scale), "unused": {"t": jnp.arange(3)}}
    if kind == "tuple":
        return (jnp.asarray(loc), [jnp.asarray(scale)], None)
    if kind == "named":
        return Pair(jnp.asarray(loc), {"scale": jnp.asarray(scale)})
    if kind == "array":
        return jnp.asarray(np.append(loc, scale))
    if kind == "scalar":
        return {"loc": jnp.asarray(loc), "scale": scale}
    if kind == "none":
        return None
    raise AssertionError(kind)


def read(kind, data, d):
    if kind in ("dict", "scalar"):
        return data["loc"], data["scale"]
    if kind == "tuple":
        return data[0], data[1][0]
    if kind == "named":
        return data.loc, data.extra["scale"]
    if kind == "array":
        return data[:-1], data[-1]
    return np.zeros(d), 1.0


def make_fun(form, a, kind, d, which):
    """A user's function with its own closure constant `a`; closures of one form share their code."""
    if form == "gauss":
        def fun(x, data):
            loc, scale = read(kind, data, d)
            return -0.5 * jnp.sum(((x - loc) / scale) ** 2) + a
    elif form == "box":
        def fun(x, data):
            loc, scale = read(kind, data, d)
            return jnp.where(jnp.all(jnp.abs(x - loc) < 2 * scale), a, -jnp.inf)
    elif form == "weighted":  # not symmetric in the coordinates
        def fun(x, data):
            loc, scale = read(kind, data, d)
            return jnp.dot(jnp.arange(1.0, d + 1), jnp.sin(a * x - loc)) * scale
    else:  # nan outside the half space
        def fun(x, data):
            loc, scale = read(kind, data, d)
            return jnp.log(x[0] - loc[0] + scale) * a
    return fun


def np_fun(form, a, kind, d, x, data):
    loc, scale = read(kind, data, d)
    loc, scale, x = np.asarray(loc), float(scale), np.asarray(x)
    with np.errstate(all="ignore"):
        if form == "gauss":
            return -0.5 * np.sum(((x - loc) / scale) ** 2) + a
        if form == "box":
            return a if np.all(np.abs(x - loc) < 2 * scale) else -np.inf
        if form == "weighted":
            return np.dot(np.arange(1.0, d + 1), np.sin(a * x - loc)) * scale
        return np.log(x[0] - loc[0] + scale) * a


# one compiled function per route for the whole process: results of one density must never answer for another
_jit = jax.jit(lambda p, x, data: p(x, data))
_fjit = eqx.filter_jit(lambda p, x, data: p(x, data))
_vmap = eqx.filter_jit(lambda p, x, data: eqx.filter_vmap(p, in_axes=(0, None))(x, data))
_tjit = eqx.filter_jit(lambda p, T, x, data: p.tempered_log_pdf(T, x, data))
_tvmap = eqx.filter_jit(lambda p, T, x, data: eqx.filter_vmap(p.tempered_log_pdf, in_axes=(0, 0, None))(T, x, data))
_grid = eqx.filter_jit(lambda p, T, x, data: jax.vmap(lambda t: jax.vmap(lambda y: p.tempered_log_pdf(t, y, data))(x))(T))


@eqx.filter_jit
def _scan(p, xs, data):
    def body(c, x):
        return c, c[0](x, data)

    return jax.lax.scan(body, (p, 0.0), xs)[1]


@eqx.filter_jit
def _grad(p, x, data):
    return jax.grad(p)(x, data)


def rebuild(p, route):
    if route == "flatten":
        l, t = jax.tree.flatten(p)
        return jax.tree.unflatten(t, l)
    if route == "map":
        return jax.tree.map(lambda v: v, p)
    if route == "copy":
        return copy.copy(p)
    if route == "deepcopy":
        return copy.deepcopy(p)
    if route == "partition":
        return eqx.combine(*eqx.partition(p, eqx.is_array))
    if route == "nested":
        return jax.tree.map(lambda v: v, {"a": (p, jnp.ones(2))})["a"][0]
    if route == "twice":
        return rebuild(rebuild(p, "flatten"), "map")
    return p


def make_vars(spec, d):
    if spec == "n_dims":
        return dict(n_dims=d), [f"x_{i}" for i in range(d)], [True] * d
    vs = [Variable(f"v{d - i}", i % 2 == 0) for i in range(d)]
    kw = dict(variables=vs)
    if spec == "both":
        kw["n_dims"] = d + 2  # documented as ignored
    return kw, [v.name for v in vs], [v.continuous for v in vs]


def check_decl(p, names, cont, what, cls):
    require(type(p) is cls, f"{what}: became a {type(p).__name__}")
    require(p.n_dims == len(names), f"{what}: reports {p.n_dims} dimensions, expected {len(names)}")
    require([v.name for v in p.variables] == names, f"{what}: variables {[v.name for v in p.variables]}, expected {names}")
    require([v.continuous for v in p.variables] == cont, f"{what}: continuity flags {[v.continuous for v in p.variables]}, expected {cont}")


def tol(a, b, what):
    require_close(a, b, what, rtol=by_precision(1e-12, 1e-3), atol=by_precision(1e-12, 0.05))


def check_density(case, ctx):
    d, kind = case["d"], case["data"]
    g = rng(case["seed"], 192)
    data = [make_data(kind, g, d), make_data(kind, g, d)]
    kw, names, cont = make_vars(case["vars"], d)
    ps = []
    for form, a, rt in case["funs"]:
        p = LogPDF(make_fun(form, a, kind, d, 0), **kw)
        check_decl(p, names, cont, "LogPDF", LogPDF)
        q = rebuild(p, rt)
        check_decl(q, names, cont, f"LogPDF after {rt}", LogPDF)
        ps.append((form, a, q, rt))
        ctx.label(f"rebuilt by {rt}")
    for i, (call, w) in enumerate(case["calls"]):
        form, a, p, rt = ps[w % len(ps)]
        dt = data[i % 2]
        xs = g.normal(size=(3, d)) * g.choice([0.3, 1.0, 4.0])
        ref = np.array([np_fun(form, a, kind, d, x, dt) for x in xs])
        what = f"density {w % len(ps)} ({form}, a={a}, {rt}) evaluated by {call}"
        X = jnp.asarray(xs)
        if call == "plain":
            tol([p(x, dt) for x in X], ref, what)
        elif call == "jit":
            tol([_jit(p, x, dt) for x in X], ref, what)
        elif call == "filter_jit":
            tol([_fjit(p, x, dt) for x in X], ref, what)
        elif call == "vmap":
            tol(_vmap(p, X, dt), ref, what)
        elif call == "jax vmap":
            tol(jax.vmap(p, in_axes=(0, None))(X, dt), ref, what)
        elif call == "closure jit":
            tol([jax.jit(p)(x, dt) for x in X[:1]], ref[:1], what)
        elif call == "scan":
            tol(_scan(p, X, dt), ref, what)
        elif call == "grad" and form in ("gauss", "weighted"):
            loc, scale = read(kind, dt, d)
            loc, scale = np.asarray(loc), float(scale)
            x = xs[0]
            gr = -(x - loc) / scale**2 if form == "gauss" else np.arange(1.0, d + 1) * a * np.cos(a * x - loc) * scale
            tol(_grad(p, X[0], dt), gr, what)
        ctx.label(f"called by {call}")
        ctx.count(len(ref))
        check_decl(p, names, cont, what, LogPDF)
    ctx.nontrivial(len(ps) > 1 and len(case["calls"]) > 2)


FORM = st.sampled_from(["gauss", "weighted", "box", "halfspace"])
CONST = st.sampled_from([0.7, -1.3, 2.0, 0.25, 31.0])
ROUTE = st.sampled_from(["flatten", "none", "map", "deepcopy", "copy", "partition", "nested", "twice"])
DATA = st.sampled_from(["dict", "tuple", "array", "named", "scalar", "none"])
VARS = st.sampled_from(["n_dims", "variables", "both"])


def strat_density():
    return st.fixed_dictionaries(dict(
        seed=SEED, d=st.sampled_from([3, 1, 2, 6, 25]), data=DATA, vars=VARS,
        funs=st.lists(st.tuples(FORM, CONST, ROUTE), min_size=2, max_size=4),
        calls=st.lists(st.tuples(st.sampled_from(["jit", "filter_jit", "plain", "vmap", "jax vmap", "scan", "grad", "closure jit"]), st.integers(0, 3)),
                       min_size=3, max_size=8),
    ))


def check_tempered(case, ctx):
    d, kind = case["d"], case["data"]
    g = rng(case["seed"], 193)
    data = [make_data(kind, g, d), make_data(kind, g, d)]
    kw, names, cont = make_vars(case["vars"], d)
    likes = {}
    ps = []
    for lf, la, pf, pa, rt in case["funs"]:
        # densities with the same likelihood share the function object and differ in the prior only
        L = likes.setdefault((lf, la), make_fun(lf, la, kind, d, 0))
        p = TemperedPDF(L, make_fun(pf, pa, kind, d, 1), **kw)
        check_decl(p, names, cont, "TemperedPDF", TemperedPDF)
        q = rebuild(p, rt)
        check_decl(q, names, cont, f"TemperedPDF after {rt}", TemperedPDF)
        ps.append((lf, la, pf, pa, q, rt))
    ctx.label("likelihood shared", len(ps) - len(likes))
    for i, (call, w, scale) in enumerate(case["calls"]):
        lf, la, pf, pa, p, rt = ps[w % len(ps)]
        dt = data[i % 2]
        xs = g.normal(size=(3, d)) * g.choice([0.3, 1.0, 4.0])
        T = np.array([1.0, 1.0 + scale, 100.0 * scale])
        L = np.array([np_fun(lf, la, kind, d, x, dt) for x in xs])
        P = np.array([np_fun(pf, pa, kind, d, x, dt) for x in xs])
        X, TT = jnp.asarray(xs), jnp.asarray(T)
        what = f"density {w % len(ps)} (likelihood {lf} {la}, prior {pf} {pa}, {rt}) by {call}"
        with np.errstate(all="ignore"):
            ref, grid = L / T + P, L[None] / T[:, None] + P[None]
        if call == "plain":
            tol([p.tempered_log_pdf(t, x, dt) for t, x in zip(TT, X)], ref, what)
        elif call == "python":
            tol([p.tempered_log_pdf(float(t), x, dt) for t, x in zip(T, X)], ref, what)
        elif call == "jit":
            tol([_tjit(p, t, x, dt) for t, x in zip(TT, X)], ref, what)
        elif call == "vmap":
            tol(_tvmap(p, TT, X, dt), ref, what)
        elif call == "grid":
            tol(_grid(p, TT, X, dt), grid, what)
        elif call == "untempered":
            tol([p(x, dt) for x in X], L, what + " (called as a plain density)")
            tol([_fjit(p, x, dt) for x in X], L, what + " (called as a plain density, compiled)")
        elif call == "jit untempered":
            tol([_jit(p, x, dt) for x in X], L, what)
        ctx.label(f"called by {call}")
        ctx.count(3)
        check_decl(p, names, cont, what, TemperedPDF)
    ctx.nontrivial(len(ps) > 1 and len(case["calls"]) > 2)


def strat_tempered():
    return st.fixed_dictionaries(dict(
        seed=SEED, d=st.sampled_from([3, 1, 2, 12]), data=DATA, vars=VARS,
        funs=st.lists(st.tuples(st.sampled_from(["gauss", "weighted", "box"]), st.sampled_from([0.7, -1.3]), FORM, CONST, ROUTE), min_size=2, max_size=4),
        calls=st.lists(st.tuples(st.sampled_from(["jit", "grid", "plain", "vmap", "untempered", "python", "jit untempered"]), st.integers(0, 3),
                                 st.sampled_from([0.5, 3.0, 11.0])), min_size=3, max_size=7),
    ))


# ------------------------------------------------------------------ declarations
def check_declare(case, ctx):
    f, pr = make_fun("gauss", 1.0, "none", max(case["d"], 1), 0), make_fun("gauss", 2.0, "none", max(case["d"], 1), 1)
    cls = {"plain": LogPDF, "tempered": TemperedPDF}[case["cls"]]
    args = (f,) if cls is LogPDF else (f, pr)
    if case["how"] == "nothing":
        extra = {} if cls is LogPDF or not case["extra"] else dict(n_temps=3, max_temp=10)
        try:
            p = cls(*args, **extra)
        except ValueError:
            ctx.label("rejected")
            ctx.nontrivial()
            return
        fail(f"{cls.__name__} without variables or n_dims was accepted with {p.n_dims} dimensions")
    if case["how"] == "n_dims":
        p = cls(*args, n_dims=case["d"])
        names, cont = [f"x_{i}" for i in range(case["d"])], [True] * case["d"]
        require(len(set(v.name for v in p.variables)) == case["d"], "generated variable names are not distinct")
    else:
        names, cont = [n for n, _ in case["variables"]], [c for _, c in case["variables"]]
        vs = [Variable(n, c) for n, c in case["variables"]]
        p = cls(*args, variables=vs) if case["how"] == "variables" else (cls(*args, vs, case["d"]) if case["extra"] else cls(*args, variables=vs, n_dims=case["d"]))
    for rt in ["none", "flatten", "deepcopy", "partition"]:
        check_decl(rebuild(p, rt), names, cont, f"{cls.__name__} declared by {case['how']}, {rt}", cls)
        ctx.count()
    ctx.nontrivial(len(names) > 1)


def strat_declare():
    return st.fixed_dictionaries(dict(
        cls=st.sampled_from(["tempered", "plain"]), how=st.sampled_from(["nothing", "both", "variables", "n_dims"]), d=st.integers(1, 12), extra=st.booleans(),
        variables=st.lists(st.tuples(st.sampled_from(["m1", "m2", "phi", "x_0", "x_9", ""]), st.booleans()), min_size=1, max_size=6),
    ))


FACETS = [
    Facet("buffers", check_buffers, strat_buffers, quick=250, thorough=1500, shards=1, thorough_shards=2,
          rule="at least two updates, and a buffer of more than one dimension",
          doc="random update / rename / snapshot histories on several buffers against numpy arrays"),
    Facet("states", check_states, strat_states, quick=200, thorough=3000, thorough_shards=1,
          rule="an update names more than one key", doc="random update histories on several states against dictionaries"),
    Facet("density", check_density, strat_density, quick=60, thorough=300, shards=2, thorough_shards=3,
          rule="several densities evaluated in turn by several routes",
          doc="a user's function against numpy, after rebuilding the resource and through compiled code shared by many densities"),
    Facet("tempered", check_tempered, strat_tempered, quick=60, thorough=300, shards=2, thorough_shards=3,
          rule="several densities evaluated in turn by several routes",
          doc="likelihood over temperature plus prior against numpy, densities sharing a likelihood and compiled code"),
    Facet("declare", check_declare, strat_declare, quick=60, thorough=1000, thorough_shards=1,
          rule="rejected, or more than one variable", doc="dimension, names and continuity of the declaration; incomplete ones rejected"),
]
FACETS += in_single_precision(FACETS, dict(buffers=80, density=30, tempered=30))
ASSUMPTIONS = ["updates lie inside the buffer along the cursor dimension and fill the other dimensions"]
