"""C18: saving and loading restores models, buffers and states exactly; precision conversion changes
only the precision of parameters."""
import os
import shutil
import tempfile

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
import optax
from hypothesis import strategies as st

from vf.common import SEED, arrays_of, flow_forward, flow_inverse, flow_logq, key_of, make_flow, perturb, real, rng
from vf.core import Facet, in_single_precision, fail, require, require_close, require_equal

from flowMC.resource.buffers import Buffer
from flowMC.resource.model.common import MLP, Gaussian
from flowMC.resource.model.flowmatching.base import CondOTScheduler, FlowMatchingModel, Path, Solver
from flowMC.resource.states import State

NAMES = ["buf", "a b", "x.y", "ünï", "positions_training", "B-1", "buf2"]
SPECIAL = [np.inf, -np.inf, np.nan, 0.0, -0.0, 1e-310, 1.7e308, 1 / 3]


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vf_c18_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


# ------------------------------------------------------------------ buffers and states, several in one directory
def fill(g, shape):
    a = g.normal(size=shape) * 10 ** g.uniform(-5, 5)
    m = g.random(shape) < 0.3
    return real(np.where(m, g.choice(SPECIAL, size=shape), a))


def same_bits(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.dtype == b.dtype and a.shape == b.shape and bool(((a == b) | ((a != a) & (b != b))).all()) and (a.dtype.kind != "f" or bool((np.signbit(a) == np.signbit(b))[a == a].all()))


def check_buffer_equal(b, model, what):
    require(type(b) is Buffer, f"{what}: a {type(b).__name__} came back")
    require(b.name == model["name"], f"{what}: name {b.name!r}, expected {model['name']!r}")
    require(int(b.cursor_dim) == model["dim"], f"{what}: cursor dimension {b.cursor_dim}, expected {model['dim']}")
    require(int(b.cursor) == model["cursor"], f"{what}: cursor {b.cursor}, expected {model['cursor']}")
    require(tuple(b.shape) == model["data"].shape, f"{what}: shape {b.shape}, expected {model['data'].shape}")
    require(same_bits(b.data, model["data"]), f"{what}: contents {np.asarray(b.data)!r}, expected {model['data']!r}")
    require(same_bits(b(), model["data"]), f"{what}: calling the buffer gives other contents")


def check_state_equal(s, model, what):
    require(type(s) is State, f"{what}: a {type(s).__name__} came back")
    require(s.name == model["name"] and type(s.name) is str, f"{what}: name {s.name!r}, expected {model['name']!r}")
    require(s.data == model["data"] and list(s.data) == list(model["data"]) and all(type(s.data[k]) is type(v) for k, v in model["data"].items()),
            f"{what}: entries {s.data!r}, expected {model['data']!r}")


def update_buffer(b, model, g):
    n = model["data"].shape[model["dim"]]
    k = int(g.integers(1, n + 1))
    start = int(g.integers(0, n - k + 1))
    shape = list(model["data"].shape)
    shape[model["dim"]] = k
    u = fill(g, shape)
    b.update_buffer(jnp.asarray(u), start)
    idx = [slice(None)] * len(shape)
    idx[model["dim"]] = slice(start, start + k)
    model["data"] = model["data"].copy()
    model["data"][tuple(idx)] = u


def check_store(case, ctx):
    g = rng(case["seed"], 181)
    with Scratch() as top:
        objs = []
        for kind, name, shape, dim in case["objects"]:
            if kind == "buffer":
                shape = [max(1, s) for s in shape]
                dim = dim % len(shape)
                b = Buffer(name, tuple(shape), dim)
                m = dict(name=name, dim=dim, cursor=0, data=real(np.full(shape, -np.inf)))
                objs.append([kind, b, m])
            else:
                d = {k: v for k, v in case["entries"]}
                objs.append([kind, State(dict(d), name=name), dict(name=name, data=dict(d))])
        places = [os.path.join(top, "") , os.path.join(top, "run1_"), os.path.join(top, "sub", "")]
        os.makedirs(places[2])
        disk = {}
        loads = 0
        for op, i, j in case["script"]:
            o = objs[i % len(objs)]
            kind, b, m = o
            place = places[j % 3]
            other = [q for q in objs if q[0] != kind and q[2]["name"] == m["name"]]
            if op == "save":
                if other:  # a buffer and a state of one name would share a file name
                    continue
                b.save_resource(place)
                disk[(place, m["name"])] = (kind, {k: (v.copy() if hasattr(v, "copy") else v) for k, v in m.items()})
                ctx.count()
            elif op == "load":
                known = [k for k in disk if disk[k][0] == kind]
                if not known:
                    continue
                k = known[j % len(known)]
                _, saved = disk[k]
                path = k[0] + k[1] + ".npz"
                require(os.path.exists(path), f"saving {k[1]!r} to {k[0]!r} wrote no {os.path.basename(path)!r}; the directory has {os.listdir(os.path.dirname(path))}")
                new = b.load_resource(path)
                saved = {q: (v.copy() if hasattr(v, "copy") else v) for q, v in saved.items()}
                (check_buffer_equal if kind == "buffer" else check_state_equal)(new, saved, f"{kind} {k[1]!r} read back from {os.path.basename(k[0])!r}")
                objs.append([kind, new, saved])
                loads += 1
                ctx.count()
            elif op == "change":
                if kind == "buffer":
                    update_buffer(b, m, g)
                    if j % 2:
                        b.cursor = m["cursor"] = int(g.integers(0, 50))
                else:
                    ks = list(m["data"]) + ["new"]
                    key, v = ks[j % len(ks)], [True, 3, "z", -1, False, "positions"][j % 6]
                    b.update([key], [v])
                    m["data"] = {**m["data"], key: v}
            for kd, bb, mm in objs:  # nothing else is affected
                (check_buffer_equal if kd == "buffer" else check_state_equal)(bb, mm, f"{kd} {mm['name']!r} after {op} of {m['name']!r}")
        # everything on disk is still what was saved last
        for (place, name), (kind, saved) in disk.items():
            blank = Buffer("blank", (1,)) if kind == "buffer" else State({}, name="blank")
            new = blank.load_resource(place + name + ".npz")
            (check_buffer_equal if kind == "buffer" else check_state_equal)(new, saved, f"{kind} {name!r} in {place[len(top):]!r} at the end")
        ctx.label("objects on disk", len(disk))
        ctx.label("loads", loads)
        ctx.nontrivial(loads > 0 and len(disk) > 1)


def store_case(kinds=("buffer", "buffer", "state"), entries=4):
    val = st.one_of(st.sampled_from([2**31, -2**31 - 1, 2**53 + 1, 10**30, -2**63, 255, 65536]), st.booleans(), st.integers(-2**40, 2**40), st.integers(-9, 9),
                    st.sampled_from(["", "positions", "ü", "a'b\"c\n", "True", "None", "1", "1.5", " x ", "y" * 3000, "end\0"]))
    obj = st.tuples(st.sampled_from(list(kinds)), st.sampled_from(NAMES), st.lists(st.sampled_from([3, 1, 2, 4, 17]), min_size=1, max_size=4), st.integers(0, 3)).map(list)
    op = st.tuples(st.sampled_from(["save", "load", "change", "save"]), st.integers(0, 7), st.integers(0, 11)).map(list)
    return st.fixed_dictionaries(dict(objects=st.lists(obj, min_size=1, max_size=4), entries=st.lists(st.tuples(st.one_of(st.sampled_from(["a", "training", "", "ü"]), st.text(max_size=6)) if entries > 4 else st.sampled_from(["a", "training", "", "ü"]), val).map(list), min_size=entries // 8, max_size=entries, unique_by=lambda t: t[0]),
                                      script=st.lists(op, min_size=3, max_size=14), seed=SEED))


# ------------------------------------------------------------------ models
def build(kind, d, seed, as_is=False, arch=0):
    if kind in ("rqs", "nvp"):
        layers, bins, lim = [(2, 4, 4.0), (1, 2, 1.0), (5, 10, 10.0)][arch]
        return make_flow(kind, d, layers, seed, 0.4, as_is=as_is, bins=bins, rng_range=(-lim, lim))
    g = rng(seed, 182)
    fm = FlowMatchingModel(Solver(MLP([d + 1] + [[5], [1], [8, 3, 4]][arch] + [d], key=key_of(4), activation=jnp.tanh)), Path(CondOTScheduler()),
                           data_mean=jnp.asarray(g.normal(size=d)), data_cov=jnp.asarray(np.diag(g.uniform(0.2, 3, size=d))))
    return eqx.tree_at(lambda m: m.solver.model, fm, perturb(fm.solver.model, 0.5, seed))


@eqx.filter_jit
def fm_logp(m, x):
    return jax.vmap(m.log_prob)(x)


def behaviour(kind, m, x, key):
    if kind == "fm":
        return dict(log_prob=np.asarray(fm_logp(m, x)), samples=np.asarray(eqx.filter_jit(m.sample)(key, 4)))
    return dict(log_prob=flow_logq(m, x), samples=np.asarray(m.sample(key, 4)), forward=np.asarray(flow_forward(m, x)[0]), inverse=np.asarray(flow_inverse(m, x)[0]))


def check_models(case, ctx):
    kind, d = case["kind"], case["d"]
    g = rng(case["seed"], 183)
    x = jnp.asarray(g.normal(size=(5, d)) * 2)
    with Scratch() as top:
        ms = [build(kind, d, case["seed"] + i, arch=case["arch"]) for i in range(case["n"])]
        if case["special"]:  # parameters that are not finite must come back as they are
            leaf = (lambda m: m._data_mean)
            ms[-1] = eqx.tree_at(leaf, ms[-1], jnp.asarray(np.resize([np.inf, np.nan, -np.inf], d)))
        for i, m in enumerate(ms):
            p = os.path.join(top, f"{case['prefix']}{i}")
            before = arrays_of(m)
            (m.save_model if case["alias"] else m.save_resource)(p)
            for a, b in zip(arrays_of(m), before):
                require(same_bits(a, b), f"{kind}: saving changed the model")
        files = sorted(os.listdir(top))
        require(len(files) == len(ms), f"saving {len(ms)} models left {files}")
        for cycle in range(case["cycles"]):
            for i in range(len(ms)):
                template = build(kind, d, case["seed"] + 100 + cycle, as_is=True, arch=case["arch"])
                tb = arrays_of(template)
                p = os.path.join(top, f"{case['prefix']}{i}")
                new = (template.load_model if case["alias"] else template.load_resource)(p)
                for a, b in zip(arrays_of(template), tb):
                    require(same_bits(a, b), f"{kind}: loading changed the model it was called on")
                require(type(new) is type(ms[i]), f"{kind}: a {type(new).__name__} came back")
                la, lb = arrays_of(new), arrays_of(ms[i])
                require(len(la) == len(lb), f"{kind}: {len(la)} parameter arrays came back of {len(lb)}")
                for a, b in zip(la, lb):
                    require(same_bits(a, b), f"{kind}: parameters of model {i} of {len(ms)} after {cycle + 1} cycles: {a} instead of {b}")
                require(new.n_features == ms[i].n_features, f"{kind}: n_features {new.n_features}")
                if (cycle == 0 or case["overwrite"]) and not (case["special"] and i == len(ms) - 1):
                    bo, bn = behaviour(kind, ms[i], x, key_of(case["seed"])), behaviour(kind, new, x, key_of(case["seed"]))
                    for k in bo:
                        require_equal(bn[k], bo[k], f"{kind}: {k} of model {i} after loading")
                if case["overwrite"]:  # another model takes the place of the first
                    new = ms[i] = build(kind, d, case["seed"] + 500 + 10 * cycle + i, arch=case["arch"])
                (new.save_model if case["alias"] else new.save_resource)(p)
        ctx.count(len(ms) * case["cycles"])
        ctx.nontrivial()


def models_case(kind):
    return lambda: st.fixed_dictionaries(dict(kind=st.just(kind), d=st.sampled_from([2, 3, 1, 5, 10]), arch=st.sampled_from([0, 2, 1]), n=st.integers(1, 3), cycles=st.sampled_from([2, 3, 1]), special=st.booleans(), overwrite=st.booleans(), alias=st.booleans(),
                                              prefix=st.sampled_from(["m", "model.v", "a b"]), seed=SEED))


def fit(kind, m, case, seed, epochs):
    """Train by the library, as a user would."""
    g = rng(seed, 185)
    n, d = 24, case["d"]
    x = jnp.asarray(g.normal(size=(n, d)) * np.exp(g.normal(size=d)) + g.normal(size=d) * 3)
    data = (jnp.asarray(g.normal(size=(n, d))), x, jnp.asarray(g.uniform(size=(n, 1)))) if kind == "fm" else x
    opt = optax.adam(1e-2)
    return m.train(key_of(seed), data, opt, opt.init(eqx.filter(m, eqx.is_inexact_array)), epochs, case["batch"], verbose=False)[1]


def check_trained(case, ctx):
    """A trained model is read back into a newly built one and goes on like the original."""
    kind, d = case["kind"], case["d"]
    m0 = build(kind, d, case["seed"], as_is=True, arch=case["arch"])
    m = fit(kind, m0, case, case["seed"], case["epochs"])
    require(any(not same_bits(a, b) for a, b in zip(arrays_of(m), arrays_of(m0))), f"{kind}: training changed nothing")
    x = jnp.asarray(rng(case["seed"], 186).normal(size=(5, d)) * 2)
    with Scratch() as top:
        p = os.path.join(top, case["prefix"])
        m.save_resource(p)
        new = build(kind, d, case["seed"] + 9, as_is=True, arch=case["arch"]).load_resource(p)
    what = f"{kind} with {d} features after training, saving and loading into a new model"
    la, lb = arrays_of(new), arrays_of(m)
    require(len(la) == len(lb), f"{what}: {len(la)} parameter arrays of {len(lb)}")
    for a, b in zip(la, lb):
        require(same_bits(a, b), f"{what}: parameters {a} instead of {b}")
    bo, bn = behaviour(kind, m, x, key_of(case["seed"])), behaviour(kind, new, x, key_of(case["seed"]))
    for k in bo:
        require_equal(bn[k], bo[k], f"{what}: {k}")
    if case["more"]:
        for a, b in zip(arrays_of(fit(kind, new, case, case["seed"] + 1, 1)), arrays_of(fit(kind, m, case, case["seed"] + 1, 1))):
            require(same_bits(a, b), f"{what}: trained further to {a} instead of {b}")
    ctx.count(len(la))
    ctx.label(f"{kind} d={d}")
    ctx.nontrivial()


def trained_case():
    return st.fixed_dictionaries(dict(kind=st.sampled_from(["nvp", "rqs", "fm"]), d=st.sampled_from([1, 2, 5]), arch=st.sampled_from([0, 1]), epochs=st.sampled_from([2, 1]), batch=st.sampled_from([12, 100]), more=st.booleans(),
                                      prefix=st.sampled_from(["m", "model.v", "a b"]), seed=SEED))


# ------------------------------------------------------------------ precision
KINDS = {"float16": np.float16, "float32": np.float32, "float64": np.float64, "bfloat16": jnp.bfloat16}


def check_precision(case, ctx):
    m = make_flow(case["kind"], case["d"], 2, case["seed"], 0.4)
    before = arrays_of(m)
    name = case["name"]
    known = name.lower() in KINDS
    try:
        q = m.to_precision(name)
    except ValueError:
        require(not known, f"precision {name!r} was rejected")
        ctx.label("rejected")
        ctx.nontrivial()
        ctx.count()
        return
    except Exception as e:  # noqa: BLE001
        if known:
            raise
        fail(f"precision {name!r} raised {type(e).__name__} instead of ValueError")
    require(known, f"precision {name!r} was accepted")
    dt = jnp.dtype(KINDS[name.lower()])
    for a, b in zip(arrays_of(m), before):
        require(same_bits(a, b), "the original model changed")
    require(jax.tree.structure(eqx.filter(q, eqx.is_array)) == jax.tree.structure(eqx.filter(m, eqx.is_array)), f"conversion to {name} changed the structure of the model")
    la, lb = [l for l in jax.tree.leaves(q) if eqx.is_array(l)], [l for l in jax.tree.leaves(m) if eqx.is_array(l)]
    require(len(la) == len(lb), f"conversion to {name} changed the number of parameter arrays")
    for a, b in zip(la, lb):
        if jnp.issubdtype(b.dtype, jnp.inexact):
            require(a.dtype == dt, f"conversion to {name} left a parameter array as {a.dtype}")
            require(bool((a == b.astype(dt)).all()), f"conversion to {name} changed parameter values beyond rounding: {np.asarray(b).ravel()[:3]} became {np.asarray(a, float).ravel()[:3]}")
        else:
            require(a.dtype == b.dtype and bool((a == b).all()), f"conversion to {name} turned a {b.dtype} array (not a precision-carrying parameter) into {a.dtype}")
    require(q.n_features == m.n_features, "n_features changed")
    g = rng(case["seed"], 184)
    x = jnp.asarray(g.normal(size=(6, case["d"])))
    if dt in (jnp.dtype(np.float32), jnp.dtype(np.float64)):
        tol = 5e-3 if dt == np.float32 else 1e-12
        require_close(flow_logq(q, x), flow_logq(m, x), f"log-densities after conversion to {name}", rtol=tol, atol=tol)
        z0, z1 = np.asarray(flow_forward(m, x)[0]), np.asarray(flow_forward(q, x)[0])
        require_close(z1, z0, f"forward map after conversion to {name}", rtol=tol, atol=tol)
    ctx.label(name.lower())
    ctx.count()
    ctx.nontrivial()


def precision_case():
    return st.fixed_dictionaries(dict(kind=st.sampled_from(["rqs", "nvp"]), d=st.sampled_from([2, 3, 1, 6]),
                                      name=st.sampled_from(["float32", "float64", "float16", "bfloat16", "Float32", "FLOAT64", "float8", "double", "", "int32", "float"]), seed=SEED))


FACETS = [
    Facet("store", check_store, store_case, quick=60, thorough=1500, shards=3, rule="scripts of saving, loading and changing buffers and states in shared directories; non-trivial with a load and two objects on disk"),
    Facet("states", check_store, lambda: store_case(("state",), 24), quick=60, thorough=1500, shards=2, rule="the same with states of three or more generated entries only; non-trivial with a load and two states on disk"),
    Facet("trained", check_trained, trained_case, quick=10, thorough=150, shards=2, rule="train, save, load into a new model, train further; every case non-trivial"),
    Facet("precision", check_precision, precision_case, quick=20, thorough=200, rule="every case non-trivial"),
] + [
    Facet(f"models_{k}", check_models, models_case(k), quick=6, thorough=100, thorough_shards=2, rule="cycles of saving and loading several models of one directory; every case non-trivial") for k in ("rqs", "nvp", "fm")
]
FACETS += in_single_precision(FACETS, dict(store=40, models_rqs=3, models_nvp=3, models_fm=3, trained=5))
ASSUMPTIONS = ["a model is read into a model of the same architecture", "files of buffers and states are named path + name + .npz, those of models path + .eqx"]
