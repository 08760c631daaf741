"""C15: runs are reproducible from the random key and do not modify their inputs.

Every component is a recipe: build fresh objects, run once with (key, positions, data), return
everything observable.  Two runs with the same key must agree bit for bit whatever happened between
them; different keys must give different draws; inputs keep their contents."""
import hashlib
import json
import random
import subprocess

import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
from hypothesis import strategies as st

from vf import boot
from vf.common import SEED, arrays_of, key_of, real, rng, target_logp, target_params, to_jax
from vf.core import in_single_precision, VERIF, Facet, HarnessError, fail, require, require_equal

from flowMC.Sampler import Sampler
from flowMC.resource.buffers import Buffer
from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
from flowMC.resource.kernel.HMC import HMC
from flowMC.resource.kernel.MALA import MALA
from flowMC.resource.kernel.NF_proposal import NFProposal
from flowMC.resource.logPDF import LogPDF, TemperedPDF
from flowMC.resource.model.common import MLP, Gaussian
from flowMC.resource.model.flowmatching.base import CondOTScheduler, FlowMatchingModel, Path, Solver
from flowMC.resource.model.nf_model.realNVP import RealNVP
from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
from flowMC.resource.optimizer import Optimizer
from flowMC.resource.states import State
from flowMC.resource_strategy_bundle.RQSpline_MALA import RQSpline_MALA_Bundle
from flowMC.resource_strategy_bundle.RQSpline_MALA_PT import RQSpline_MALA_PT_Bundle
from flowMC.strategy.optimization import AdamOptimization
from flowMC.strategy.parallel_tempering import ParallelTempering
from flowMC.strategy.take_steps import TakeGroupSteps, TakeSerialSteps
from flowMC.strategy.train_model import TrainModel


def tgt(x, data):
    return target_logp(x, data["p"])


def zero(x, data):
    return 0.0 * x[0]


# argument lists a caller may use again and again
LISTS = dict(hidden=[4], **{f"mlp{i}": [i, 4, i] for i in range(1, 5)}, **{f"field{i}": [i + 1, 4, i] for i in range(1, 5)})
LISTS_COPY = {k: list(v) for k, v in LISTS.items()}


def rqs(d, key=None):
    return MaskedCouplingRQSpline(d, 2, LISTS["hidden"], 3, key_of(5) if key is None else key)


def nvp(d, key=None):
    return RealNVP(d, 2, 4, key_of(6) if key is None else key)


def local_kernel(c):
    return {"grw": GaussianRandomWalk(step_size=jnp.asarray(0.6)), "mala": MALA(step_size=jnp.asarray(0.5)),
            "hmc": HMC(condition_matrix=jnp.eye(c["d"]), step_size=jnp.asarray(0.3), n_leapfrog=3)}[c["what"]]


# each recipe: (case, key, positions, data) -> (dict of arrays that are random, returned key or None)
def r_kernel(c, key, x, data):
    if c["what"] == "flow":
        k, data = NFProposal(rqs(c["d"]), n_NFproposal_batch_size=3), {**data, "n_steps": 5}
    else:
        k = local_kernel(c)
    lp = tgt(x[0], data)
    p, l, a = k.kernel(key, x[0], lp, tgt, data)
    return dict(position=p, log_prob=l), None


def stepper_resources(c, x, kernel, slots):
    n, d = x.shape
    pdf = tgt if not isinstance(kernel, NFProposal) else lambda y, dd: 0.01 * tgt(y, dd)
    return {"pdf": LogPDF(pdf, n_dims=d), "k": kernel, "s": State({"p": "P", "l": "L", "a": "A"}),
            "P": Buffer("P", (n, slots, d), 1), "L": Buffer("L", (n, slots), 1), "A": Buffer("A", (n, slots), 1)}


def r_serial(c, key, x, data):
    res = stepper_resources(c, x, local_kernel(c), 4)
    key, res, last = TakeSerialSteps("pdf", "k", "s", ["p", "l", "a"], 4, chain_batch_size=c["batch"], verbose=c["verbose"])(key, res, x, data)
    return dict(positions=res["P"].data, log_prob=res["L"].data, last=last), key


def r_group(c, key, x, data):
    x = rqs(x.shape[1]).sample(key_of(8), x.shape[0])  # where proposals have a chance
    res = stepper_resources(c, x, NFProposal(rqs(x.shape[1]), n_NFproposal_batch_size=3), 6)
    key, res, last = TakeGroupSteps("pdf", "k", "s", ["p", "l", "a"], 6, chain_batch_size=c["batch"], verbose=c["verbose"])(key, res, x, data)
    return dict(positions=res["P"].data, log_prob=res["L"].data), key


def r_tempering(c, key, x, data):
    n, d = x.shape
    res = dict(t=TemperedPDF(tgt, zero, n_dims=d, n_temps=3), k=GaussianRandomWalk(step_size=jnp.asarray(0.6)), tp=Buffer("tp", (n, 2, d), 2),
               T=Buffer("T", (3,), 0), s=State({"training": True}))
    res["tp"].update_buffer(jnp.stack([x + 1, x - 1], 1))
    res["T"].update_buffer(jnp.asarray([1.0, 2.0, 5.0]))
    key, res, last = ParallelTempering(3, "t", "k", ["tp", "T"], "s", verbose=c["verbose"])(key, res, x, data)
    return dict(last=last, tempered=res["tp"].data), key


def r_training(c, key, x, data):
    n, d = x.shape
    m = (rqs if c["what"] == "rqs" else nvp)(d)
    buf = Buffer("pos", (n, 12, d), 1)
    buf.update_buffer(x[:, None] + jnp.asarray(np.random.default_rng(3).normal(size=(n, 12, d))))
    before = np.array(buf.data)
    res = dict(model=m, pos=buf, opt=Optimizer(m, learning_rate=0.01), loss=Buffer("loss", (2,), 0))
    key, res, last = TrainModel("model", "pos", "opt", loss_buffer_name="loss", n_epochs=2, batch_size=8, n_max_examples=20, verbose=False)(key, res, x, data)
    require_equal(np.asarray(res["pos"].data), before, "the training samples")
    return {**{f"parameter {i}": l for i, l in enumerate(arrays_of(res["model"])) if l.dtype.kind == "f"}, "losses": res["loss"].data}, key


def r_adam(c, key, x, data):
    s = AdamOptimization(tgt, n_steps=5, learning_rate=0.1, noise_level=3)
    key, _, out = s(key, {}, x, data)
    return dict(positions=out), key


def r_draw(c, key, x, data):
    d = x.shape[1]
    w = c["what"]
    if w in ("rqs", "nvp"):
        return dict(samples=(rqs if w == "rqs" else nvp)(d).sample(key, 7)), None
    if w == "gaussian":
        return dict(samples=Gaussian(jnp.zeros(d), jnp.eye(d) * 2).sample(key, 7)), None
    fm = FlowMatchingModel(Solver(MLP(LISTS[f"field{d}"], key=key_of(7))), Path(CondOTScheduler()))
    return dict(samples=fm.sample(key, 5)), None


def r_create(c, key, x, data):
    """Models are initialised from their key."""
    n, d = x.shape
    kw = dict(n_chains=n, n_dims=d, logpdf=tgt, n_local_steps=1, n_global_steps=1, n_training_loops=1, n_production_loops=1, n_epochs=1, rq_spline_n_bins=3,
              rq_spline_n_layers=2, rq_spline_hidden_units=LISTS["hidden"])
    m = dict(rqs=lambda: rqs(d, key), nvp=lambda: nvp(d, key), mlp=lambda: MLP(LISTS[f"mlp{d}"], key=key), bundle=lambda: RQSpline_MALA_Bundle(key, **kw).resources["model"],
             pt=lambda: RQSpline_MALA_PT_Bundle(key, n_temperatures=3, **kw).resources["model"])[c["what"]]()
    return dict(parameters=np.concatenate([l.ravel() for l in arrays_of(eqx.filter(m, eqx.is_inexact_array))])), None


def r_fmtrain(c, key, x, data):
    d = x.shape[1]
    g = np.random.default_rng(4)
    fm = FlowMatchingModel(Solver(MLP(LISTS[f"field{d}"], key=key_of(7))), Path(CondOTScheduler()))
    opt = Optimizer(fm, learning_rate=0.01)
    dat = (g.normal(size=(30, d)), g.normal(size=(30, d)) + 2, g.uniform(size=(30, 1)))
    keep = [a.copy() for a in dat]
    key, m, _, losses = fm.train(key, tuple(map(jnp.asarray, dat)), opt.optim, opt.optim_state, 2, 8, verbose=False)
    for a, b in zip(dat, keep):
        require_equal(a, b, "the training data")
    return dict(losses=losses, parameters=np.concatenate([l.ravel() for l in arrays_of(eqx.filter(m.solver, eqx.is_inexact_array))])), key


def r_bundle(c, key, x, data):
    n, d = x.shape
    kw = dict(n_chains=n, n_dims=d, logpdf=tgt, n_local_steps=3, n_global_steps=3, n_training_loops=1, n_production_loops=1, n_epochs=1,
              mala_step_size=0.4, rq_spline_n_bins=3, rq_spline_n_layers=2, batch_size=50, n_max_examples=50, n_NFproposal_batch_size=4)
    if not c["verbose"]:  # otherwise the bundle's default
        kw["rq_spline_hidden_units"] = LISTS["hidden"]
    k1, k2 = jax.random.split(key)
    if c["what"] == "pt":
        b = RQSpline_MALA_PT_Bundle(k1, n_temperatures=3, max_temperature=4.0, **kw)
    else:
        b = RQSpline_MALA_Bundle(k1, **kw)
    s = Sampler(d, n, k2, resource_strategy_bundles=b)
    s.sample(x, data)
    out = {nm: s.resources[nm].data for nm in ("positions_training", "log_prob_training", "positions_production", "log_prob_production", "loss_buffer")}
    return out, None


RECIPES = dict(kernel=(r_kernel, ["grw", "mala", "hmc", "flow"]), serial=(r_serial, ["grw", "mala", "hmc"]), group=(r_group, ["-"]), tempering=(r_tempering, ["-"]),
               training=(r_training, ["rqs", "nvp"]), adam=(r_adam, ["-"]), draw=(r_draw, ["rqs", "nvp", "gaussian", "flow matching"]),
               create=(r_create, ["rqs", "nvp", "mlp"]), create_bundle=(r_create, ["bundle", "pt"]), fmtrain=(r_fmtrain, ["-"]), bundle=(r_bundle, ["plain", "pt"]))


def inputs(c):
    g = rng(c["seed"], 151)
    d, n = c["d"], c["n"]
    p = target_params(c["seed"], d, 2)
    x = p["m"] + g.normal(size=(n, d))
    data = {"p": {k: np.array(v) if isinstance(v, np.ndarray) else v for k, v in p.items()}, "note": np.arange(3.0)}
    return real(x), data


def freeze(data):
    return json.dumps({k: np.asarray(v).tolist() for k, v in {**{f"p.{a}": b for a, b in data["p"].items()}, **{k: v for k, v in data.items() if k != "p"}}.items()}, sort_keys=True)


def one_run(c, key, as_jax):
    x, data = inputs(c)
    xg = jnp.asarray(x) if as_jax else x
    kg = key
    kx, xx, dx, names = np.array(key), np.array(x), freeze(data), list(data)
    fn = RECIPES[c["component"]][0]
    for nm, v in LISTS_COPY.items():
        LISTS[nm][:] = v
    out, k = fn(c, kg, xg, data)
    require(LISTS == LISTS_COPY, f"the caller's argument lists changed: {[(LISTS[nm], v) for nm, v in LISTS_COPY.items() if LISTS[nm] != v]}")
    require_equal(np.asarray(xg), xx, "the caller's starting positions")
    require(list(data) == names and freeze(data) == dx, f"the caller's data changed: entries {list(data)}")
    require_equal(np.asarray(kg), kx, "the caller's random key")
    return {a: np.array(b) for a, b in out.items()}, None if k is None else np.array(k)


def disturb(c, g):
    """Unrelated things a process may do between two runs."""
    for what in c["between"]:
        if what == "numpy":
            np.random.seed(int(g.integers(1 << 30)))
            np.random.normal(size=10)
        elif what == "python":
            random.seed(int(g.integers(1 << 30)))
        elif what == "jax":
            jax.random.normal(key_of(int(g.integers(1 << 30))), (5,)).block_until_ready()
            jnp.linalg.inv(jnp.eye(3))
        elif what == "models":
            rqs(2, key_of(int(g.integers(1 << 30)))).sample(key_of(9), 2)
        elif what == "other run":
            x, data = inputs({**c, "seed": c["seed"] + 1})
            r_kernel({"what": "mala", "d": c["d"]}, key_of(3), x, data)
        elif what == "other draw":
            x, data = inputs(c)
            r_draw({"what": "gaussian"}, key_of(int(g.integers(1 << 30))), x, data)
        elif what == "caches":
            jax.clear_caches()


def check(c, ctx):
    g = rng(c["seed"], 152)
    key = key_of(c["key"])
    a, ka = one_run(c, key, c["as_jax"])
    for nm, v in a.items():
        require(np.isfinite(v).all(), f"{c['component']}: {nm} is not finite")
    disturb(c, g)
    b, kb = one_run(c, key_of(c["key"]), c["as_jax"])
    what = f"{c['component']} ({c['what']}) run twice with the same key"
    for nm in a:
        require_equal(b[nm], a[nm], f"{what}, with {c['between']} in between: {nm}")
    if ka is not None:
        require_equal(kb, ka, f"{what}: the key handed on")
        require(not np.array_equal(ka, np.asarray(key)), f"{c['component']}: the key handed on is the one received")
    other = jax.random.fold_in(key, c["key"] % 97)
    if ka is not None and c["other"] == "next":
        other = jnp.asarray(ka)
    z, kz = one_run(c, other, c["as_jax"])
    moves = lambda o: len(np.unique(o["positions"], axis=1)[0]) > 1  # something was accepted
    if c["component"] in ("serial", "group") and not (moves(a) and moves(z)):
        ctx.label("no accepted move")
        return
    for nm in a:
        if c["component"] == "kernel" or nm == "log_prob" or nm.startswith(("log_prob", "parameter ")):
            continue
        require(not np.array_equal(a[nm], z[nm]), f"{c['component']} ({c['what']}) gives the same {nm} for two different keys" + (", the second being the key handed on" if c["other"] == "next" else ""))
    if kz is not None:
        require(not np.array_equal(ka, kz), f"{c['component']}: two different keys are handed on as the same one")
    ctx.count(len(a))
    ctx.label(c["what"])
    ctx.nontrivial(len(c["between"]) > 0)


def case_for(name):
    def make():
        return st.fixed_dictionaries(dict(
            component=st.just(name), what=st.sampled_from(RECIPES[name][1]), n=st.sampled_from([3, 4]), d=st.sampled_from([2, 3, 1]), key=st.integers(0, 2**31 - 1), seed=SEED,
            between=st.lists(st.sampled_from(["numpy", "python", "jax", "models", "other run", "other draw", "caches"]), min_size=1, max_size=4, unique=True),
            as_jax=st.just(True) if name in ("fmtrain",) else st.booleans(), batch=st.sampled_from([0, 2]), verbose=st.booleans(), other=st.sampled_from(["next", "fold"])))
    return make


# ------------------------------------------------------------------ the outcome of a kernel depends on the key
def check_kernel_keys(c, ctx):
    """Over many keys the proposals of a kernel are pairwise different."""
    x, data = inputs(c)
    data = to_jax(data)
    k = local_kernel(c)
    keys = jax.random.split(key_of(c["key"]), 300)
    flat = lambda y, dd: tgt(y, dd) * 1e-9  # everything is accepted
    p, _, a = jax.jit(jax.vmap(lambda q: k.kernel(q, jnp.asarray(x[0]), flat(jnp.asarray(x[0]), data), flat, data)))(keys)
    p = np.asarray(p)[np.asarray(a)]
    require(len(p) > 150, f"{c['what']} accepted only {len(p)} of 300 proposals on an almost flat target")
    require(len(np.unique(p, axis=0)) == len(p), f"{c['what']}: {len(p) - len(np.unique(p, axis=0))} repeated proposals among {len(p)} keys")
    ctx.count(len(p))
    ctx.nontrivial()


def kernel_keys_case():
    return st.fixed_dictionaries(dict(what=st.sampled_from(["grw", "mala", "hmc"]), n=st.just(2), d=st.sampled_from([1, 2, 3]), key=st.integers(0, 2**31 - 1), seed=SEED))


# ------------------------------------------------------------------ across processes
def digest(c):
    out, k = one_run(c, key_of(c["key"]), True)
    h = {nm: hashlib.sha1(np.ascontiguousarray(v).tobytes() + str(v.shape).encode()).hexdigest() for nm, v in out.items()}
    if k is not None:
        h["key"] = k.tolist()
    return h


def check_process(c, ctx):
    """The same runs in a process of its own, with other hash seeds and generator states."""
    here = [digest(x) for x in c["runs"]]
    code = ("import sys,json,warnings,random\nwarnings.filterwarnings('ignore')\nfrom vf import boot\nboot.ensure_deps()\nimport numpy as np\n"
            f"np.random.seed({c['seed']}); random.seed({c['seed']})\nfrom vf.props import c15\nimport os\nd=json.load(sys.stdin)\n"
            "from contextlib import redirect_stdout\nimport io\n"
            "with redirect_stdout(io.StringIO()):\n    out=[c15.digest(x) for x in d]\n"
            "print('@@'+json.dumps(out))\n")
    env = boot.worker_env(True)
    env["PYTHONHASHSEED"] = str(c["seed"] % 1000 + 1)
    r = subprocess.run([boot.PY, "-c", code], env=env, cwd=VERIF, input=json.dumps(c["runs"]), capture_output=True, text=True, timeout=600)
    line = [l for l in r.stdout.splitlines() if l.startswith("@@")]
    if not line:
        raise HarnessError(r.stderr[-2000:])
    there = json.loads(line[0][2:])
    for x, a, b in zip(c["runs"], here, there):
        bad = [nm for nm in a if a[nm] != b.get(nm)]
        require(not bad, f"{x['component']} ({x['what']}) with the same key in another process: {bad} differ")
        ctx.count(len(a))
    ctx.nontrivial()


def process_case():
    one = st.one_of(*[case_for(n)() for n in RECIPES if "bundle" not in n])
    return st.fixed_dictionaries(dict(runs=st.lists(one, min_size=3, max_size=4).flatmap(lambda l: case_for("bundle")().map(lambda b: [*l, b])), seed=SEED))


QUICK = dict(kernel=6, serial=4, group=3, tempering=3, training=3, adam=4, draw=5, create=5, create_bundle=5, fmtrain=2, bundle=2)
FACETS = [
    Facet(f"{n}", check, case_for(n), quick=QUICK[n], thorough=60 if n != "bundle" else 25, thorough_shards=2,
          rule="same key twice with unrelated activity between, and another key; non-trivial when something happened in between") for n in RECIPES
] + [
    Facet("kernel_keys", check_kernel_keys, kernel_keys_case, quick=5, thorough=100, thorough_shards=1, rule="300 keys; every case non-trivial"),
    Facet("process", check_process, process_case, quick=2, thorough=25, thorough_shards=2, rule="runs repeated in another process; every case non-trivial"),
]
FACETS += in_single_precision(FACETS, dict(kernel=4, serial=2, training=2, draw=4, create=4, bundle=2))
ASSUMPTIONS = ["one machine and one version of the compiler: bitwise equality across processes is demanded of identical programs only"]
