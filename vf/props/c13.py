"""C13: the sampler runs exactly the requested strategies, threading state between them."""
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from vf.common import SEED, key_of, real, rng
from vf.core import Facet, in_single_precision, fail, require, require_equal

from flowMC.Sampler import Sampler
from flowMC.resource.buffers import Buffer
from flowMC.resource.states import State
from flowMC.resource_strategy_bundle.base import ResourceStrategyBundle
from flowMC.strategy.base import Strategy
from flowMC.strategy.lambda_function import Lambda
from flowMC.strategy.update_state import UpdateState

NAMES = ["a", "b", "local_stepper", "", "A b", "training"]


class Recorder(Strategy):
    """Logs what it is given and returns new, identifiable things."""

    def __init__(self, name, log, mode):
        self.name, self.log, self.mode = name, log, mode

    def __call__(self, rng_key, resources, initial_position, data):
        entry = dict(name=self.name, got=(rng_key, resources, initial_position, data), pos=np.array(initial_position))
        key = jax.random.split(rng_key)[0]
        pos = initial_position
        res = resources
        if self.mode == "new":
            pos = initial_position + 1.0
            res = dict(resources)
            res[f"made{len(self.log)}"] = State({"n": len(self.log)})
        elif self.mode == "inplace":
            resources["mark"] = State({"n": len(self.log)})
        elif self.mode == "drop":
            res = {k: v for k, v in resources.items() if not k.startswith("made")}
            pos = initial_position * 0.5
        entry["ret"] = (key, res, pos)
        self.log.append(entry)
        return key, res, pos


class Bundle(ResourceStrategyBundle):
    def __init__(self, resources, strategies, order):
        self.resources, self.strategies, self.strategy_order = resources, strategies, order


def check_run(case, ctx):
    g = rng(case["seed"], 131)
    log = []
    available = {}
    touched = {}
    state = State({"u": 0, "keep": "k"}, name="st")
    resources = {"st": state, "buf": Buffer("buf", (2, 3))}
    if case["bare"] and not any(kind == "update" for _, kind in case["strategies"]):
        resources = {}
    for nm, kind in case["strategies"]:
        if kind == "lambda":
            def fn(*a, nm=nm):
                log.append(dict(name=nm, got=a, pos=np.array(a[2]), ret=(a[0], a[1], a[2])))
                return "ignored", {}, None
            available[nm] = Lambda(fn)
        elif kind == "update":
            available[nm] = UpdateState("st", ["u"], [nm])
        else:
            available[nm] = Recorder(nm, log, kind)
        touched[nm] = kind
    x = real(g.normal(size=(case["n"], case["d"])) if not case["flat"] else g.normal(size=case["d"]))
    given = jnp.asarray(x) if case["array"] == "jax" else np.array(x)
    order = [n for n, _ in (case["strategies"][i % len(case["strategies"])] for i in case["order"])]
    bad_at = None
    if case["bad"] is not None:
        bad_at = min(case["bad"], len(order))
        order.insert(bad_at, "no such strategy")
    data = dict(full={"obs": jnp.arange(3.0), "user": "anything"}, empty={}, none=None, unit=())[case["data"]]
    data_copy = dict(data or {})
    key = key_of(case["seed"])
    decoy_log = []
    decoy = Bundle({"decoy": State({})}, {n: Recorder(n, decoy_log, "new") for n in NAMES + ["no such strategy"]}, ["a", "a"])
    mine = Bundle(resources, available, order)
    kw = {k: case["kwargs"][k] for k in case["kwargs"]}
    if case["via"] == "explicit":
        s = Sampler(case["d"], case["n"], key, resources=resources, strategies=available, strategy_order=order, **kw)
    elif case["via"] == "both":
        s = Sampler(case["d"], case["n"], key, resources=resources, strategies=available, strategy_order=order, resource_strategy_bundles=decoy, **kw)
    else:
        s = Sampler(case["d"], case["n"], key, resource_strategy_bundles=mine, **kw)
    for k, v in kw.items():
        require(getattr(s, k) == v, f"constructor argument {k}={v!r}: the sampler has {getattr(s, k)!r}")
    for k in ("verbose", "logging", "outdir"):
        if k not in kw:
            require(getattr(s, k) == dict(verbose=False, logging=True, outdir="./outdir/")[k], f"default of {k} is {getattr(s, k)!r}")
    require(s.n_dim == case["d"] and s.n_chains == case["n"], "n_dim and n_chains are not those given")
    order_before = list(order)
    raised = None
    try:
        s.sample(given, data)
    except ValueError as e:
        raised = e
    except Exception as e:  # noqa: BLE001
        if bad_at is not None:
            fail(f"an unknown strategy name raised {type(e).__name__} instead of ValueError: {e}")
        raise
    if bad_at is not None:
        require(raised is not None, f"strategy order {order_before} with an unknown name ran without an error")
    elif raised is not None:
        raise raised
    require(decoy_log == [], "strategies of the bundle ran although resources and strategies were given explicitly")
    require(order == order_before, f"the strategy order was changed to {order}")
    ran = order_before if bad_at is None else order_before[:bad_at]
    logged = [n for n in ran if touched[n] != "update"]
    if bad_at is None or len(log) > 0:
        require([e["name"] for e in log] == logged[: len(log)] and (bad_at is not None or len(log) == len(logged)),
                f"requested {order_before}, ran (updates aside) {[e['name'] for e in log]}")
    cur = (key, resources, np.atleast_2d(x))
    for i, e in enumerate(log):
        k, r, p, dt = e["got"]
        require_equal(np.asarray(jax.random.key_data(k) if jnp.issubdtype(k.dtype, jax.dtypes.prng_key) else k), np.asarray(cur[0]), f"random key handed to call {i} ({e['name']})")
        require(r is cur[1], f"call {i} ({e['name']}) did not get the resources returned before it")
        require_equal(np.asarray(e["pos"]), np.asarray(cur[2]), f"positions handed to call {i} ({e['name']})")
        require(dt is data, f"call {i} ({e['name']}) did not get the user's data")
        cur = e["ret"]
    if bad_at is None:
        require(s.resources is cur[1], "the sampler does not end with the last returned resources")
        ups = [n for n in ran if touched[n] == "update"]
        if ups:
            require(state.data["u"] == ups[-1], f"state after updates {ups}: {state.data}")
    require(state.data["keep"] == "k" and set(state.data) == {"u", "keep"}, f"other state entries changed: {state.data}")
    require_equal(np.asarray(given), x, "the caller's starting positions")
    require(list(data or ()) == list(data_copy) and all(data[k] is data_copy[k] for k in data_copy), "the user's data were changed")
    require_equal(np.asarray(s.rng_key), np.asarray(key), "the sampler's own key")
    ctx.count(len(log))
    if case["again"] and bad_at is None:  # another run of the same sampler
        first, n1 = s.resources, len(log)
        x2 = real(g.normal(size=np.atleast_2d(x).shape))
        data2 = {"other": 1}
        s.sample(jnp.asarray(x2), data2)
        log2 = log[n1:]
        require([e["name"] for e in log2] == logged, f"a second run of {order_before} ran (updates aside) {[e['name'] for e in log2]}")
        cur = (None, first, x2)
        for i, e in enumerate(log2):
            _, r, p, dt = e["got"]
            require(r is cur[1], f"second run: call {i} ({e['name']}) did not get the resources returned before it")
            require_equal(np.asarray(e["pos"]), np.asarray(cur[2]), f"second run: positions handed to call {i} ({e['name']})")
            require(dt is data2, f"second run: call {i} ({e['name']}) did not get the user's data")
            cur = e["ret"]
        ctx.count(len(log2))
    ctx.label(case["via"])
    ctx.label("unknown name" if bad_at is not None else "known names")
    ctx.nontrivial(len(ran) >= 3 and len(set(ran)) < len(ran))


def run_case_():
    return st.fixed_dictionaries(dict(
        strategies=st.lists(st.tuples(st.sampled_from(NAMES), st.sampled_from(["new", "inplace", "drop", "lambda", "update"])), min_size=1, max_size=5, unique_by=lambda t: t[0]).map(lambda l: [list(t) for t in l]),
        bare=st.booleans(), order=st.lists(st.integers(0, 4), min_size=0, max_size=12), bad=st.one_of(st.none(), st.none(), st.integers(0, 12)), data=st.sampled_from(["full", "empty", "none", "unit"]), again=st.booleans(),
        n=st.integers(1, 4), d=st.integers(1, 4), flat=st.booleans(), array=st.sampled_from(["jax", "numpy"]), via=st.sampled_from(["explicit", "bundle", "both"]),
        kwargs=st.fixed_dictionaries({}, optional=dict(verbose=st.booleans(), logging=st.booleans(), outdir=st.sampled_from(["./x/", ""]))), seed=SEED))


# ------------------------------------------------------------------ which source is used
def check_sources(case, ctx):
    log_e, log_b = [], []
    ex_r, ex_s = {"r": State({})}, {"a": Recorder("a", log_e, "new")}
    b = Bundle({"r": State({}), "s": State({})}, {"a": Recorder("a", log_b, "new"), "b": Recorder("b", log_b, "drop")}, ["a", "b", "a"])
    args = {}
    if case["resources"]:
        if case["no_resources"]:
            ex_r = {}
        args["resources"] = ex_r
    if case["strategies"]:
        args["strategies"] = ex_s
    if case["order"]:
        args["strategy_order"] = ["a", "a"]
    if case["bundle"]:
        args["resource_strategy_bundles"] = b
    explicit = case["resources"] and case["strategies"]
    x = jnp.zeros((2, 2))
    try:
        s = Sampler(2, 2, key_of(case["seed"]), **args)
    except ValueError:
        require(not explicit and not case["bundle"], f"arguments {sorted(args)} were rejected")
        ctx.nontrivial()
        ctx.label("rejected")
        ctx.count()
        return
    require(explicit or case["bundle"], f"arguments {sorted(args)}, naming no complete source, were accepted")
    if explicit:
        require(s.resources is ex_r and s.strategies is ex_s, "explicitly given resources and strategies are not used")
        require(not case["order"] or s.strategy_order == ["a", "a"], f"the explicitly given order became {s.strategy_order}")
        if case["order"]:
            s.sample(x, {})
            require([e["name"] for e in log_e] == ["a", "a"] and log_b == [], "a run did not execute the explicitly given strategies")
    else:
        require(s.resources is b.resources and s.strategies is b.strategies, "the bundle's resources and strategies are not used")
        s.sample(x, {})
        require([e["name"] for e in log_b] == ["a", "b", "a"] and log_e == [], "a run did not execute the bundle's strategies")
    ctx.label("explicit" if explicit else "bundle")
    ctx.count()
    ctx.nontrivial()


def sources_case():
    return st.fixed_dictionaries(dict(resources=st.booleans(), strategies=st.booleans(), order=st.booleans(), bundle=st.booleans(), no_resources=st.booleans(), seed=SEED))


# ------------------------------------------------------------------ Lambda and UpdateState pass everything through
def check_passthrough(case, ctx):
    g = rng(case["seed"], 132)
    vals = case["values"]
    init = {k: v for k, v in case["initial"]}
    other = State({"z": 1}, name="other")
    stt = State(dict(init), name=case["name"])
    buf = Buffer("b", (3, 2))
    buf.update_buffer(jnp.ones((1, 2)), 1)
    before = np.array(buf.data)
    resources = {"s": stt, "other": other, "buf": buf}
    snapshot = dict(resources)
    key, x, data = key_of(case["seed"]), jnp.asarray(g.normal(size=(2, 3))), {"o": 1}
    kx, xx = np.array(key), np.array(x)
    model = dict(init)
    seen = []

    def fn(*a):
        seen.append(a)
        return case["returns"]

    ups = [UpdateState("s", list(ks), list(vs)) for ks, vs in vals]
    lam = Lambda(fn)
    for i in case["script"]:
        if i < len(ups):
            out = ups[i](key, resources, x, data)
            for k, v in zip(*vals[i]):
                model[k] = v
        else:
            n = len(seen)
            out = lam(key, resources, x, data)
            require(len(seen) == n + 1, f"the function ran {len(seen) - n} times in one step")
            a = seen[-1]
            require(len(a) == 4 and a[0] is key and a[1] is resources and a[2] is x and a[3] is data, "the function was not given the step's own arguments")
        require(isinstance(out, tuple) and len(out) == 3, f"returned {out!r}")
        require_equal(np.asarray(out[0]), kx, "random key handed on")
        require(out[1] is resources or out[1] == snapshot, "resources handed on are not those given")
        require_equal(np.asarray(out[2]), xx, "positions handed on")
        require(set(stt.data) == set(model), f"state keys {sorted(stt.data)}, expected {sorted(model)}")
        for k, v in model.items():
            require(stt.data[k] == v and type(stt.data[k]) is type(v), f"state entry {k!r} is {stt.data[k]!r}, expected {v!r}")
        require(other.data == {"z": 1} and stt.name == case["name"], "an update changed another state or the name")
        require_equal(np.asarray(buf.data), before, "a buffer")
        require(list(resources) == list(snapshot) and all(resources[k] is snapshot[k] for k in snapshot), "the set of resources changed")
        ctx.count()
    ctx.nontrivial(len(set(case["script"])) >= 2)


def passthrough_case():
    val = st.one_of(st.integers(-5, 5), st.booleans(), st.sampled_from(["x", "", "positions_training"]))
    ks = st.sampled_from(["training", "k", "", "target"])
    upd = st.lists(st.tuples(ks, val), min_size=0, max_size=3, unique_by=lambda t: t[0]).map(lambda l: [[a for a, _ in l], [b for _, b in l]])
    return st.fixed_dictionaries(dict(
        initial=st.lists(st.tuples(ks, val), max_size=4, unique_by=lambda t: t[0]).map(lambda l: [list(t) for t in l]), values=st.lists(upd, min_size=1, max_size=4),
        script=st.lists(st.integers(0, 5), min_size=1, max_size=8), returns=st.sampled_from([None, 1, "x"]), name=st.sampled_from(["State", "n"]), seed=SEED))


# ------------------------------------------------------------------ real strategies, composed by hand
def check_composed(case, ctx):
    """A run equals calling its strategies one after another on the same inputs."""
    from vf.instruments import CountKernel
    from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
    from flowMC.resource.logPDF import LogPDF
    from flowMC.strategy.take_steps import TakeSerialSteps

    n, d = case["n"], case["d"]
    g = rng(case["seed"], 133)
    x = jnp.asarray(g.normal(size=(n, d)))

    def build():
        res = {"pdf": LogPDF(quad, n_dims=d), "k": GaussianRandomWalk(step_size=jnp.asarray(0.7)), "c": CountKernel(),
               "s": State({"p": "P", "l": "L", "a": "A"}), "P": Buffer("P", (n, 40, d), 1), "L": Buffer("L", (n, 40), 1), "A": Buffer("A", (n, 40), 1)}
        strat = {"walk": TakeSerialSteps("pdf", "k", "s", ["p", "l", "a"], 2), "count": TakeSerialSteps("pdf", "c", "s", ["p", "l", "a"], 3)}
        strat["sync"] = Lambda(lambda k, r, p, dd: strat["count"].set_current_position(strat["walk"].current_position))
        strat["back"] = Lambda(lambda k, r, p, dd: strat["walk"].set_current_position(strat["count"].current_position))
        return res, strat

    order = case["order"]
    data = {"w": jnp.asarray(case["w"])}
    res, strat = build()
    s = Sampler(d, n, key_of(case["seed"]), resources=res, strategies=strat, strategy_order=list(order))
    s.sample(x, data)
    res2, strat2 = build()
    key, pos = key_of(case["seed"]), x
    for o in order:
        key, res2, pos = strat2[o](key, res2, pos, data)
    for b in "PLA":
        require_equal(np.asarray(s.resources[b].data), np.asarray(res2[b].data), f"buffer {b} after the run {order}")
    ctx.count(3)
    ctx.nontrivial(sum(o in ("walk", "count") for o in order) >= 2)


def quad(x, data):
    return -0.5 * data["w"] * jnp.sum(x * x)


def composed_case():
    return st.fixed_dictionaries(dict(n=st.integers(1, 3), d=st.integers(1, 2), order=st.lists(st.sampled_from(["walk", "count", "sync", "back"]), min_size=3, max_size=7), w=st.sampled_from([1.0, 0.2]), seed=SEED))


FACETS = [
    Facet("run", check_run, run_case_, quick=250, thorough=5000, shards=2, rule="recording strategies in generated orders; non-trivial with three or more steps and a repetition"),
    Facet("sources", check_sources, sources_case, quick=40, thorough=60, thorough_shards=1, rule="all combinations of constructor arguments; every case non-trivial"),
    Facet("passthrough", check_passthrough, passthrough_case, quick=200, thorough=4000, rule="sequences of state updates and functions; non-trivial with two different ones"),
    Facet("composed", check_composed, composed_case, quick=8, thorough=150, rule="real stepping strategies against calling them by hand; non-trivial with two stepping calls"),
]
FACETS += in_single_precision(FACETS, dict(run=60))
ASSUMPTIONS = ["objects handed between strategies are compared by identity (resources, data) or value (keys, positions)"]
