"""Planted bugs: plant.py turns each entry into seeded/<id>/{patch.diff, demo.sh, demo.py, meta.json}."""
K = "src/flowMC/resource/kernel/"
N = "src/flowMC/resource/model/nf_model/"
C = "src/flowMC/resource/model/common.py"
F = "src/flowMC/resource/model/flowmatching/base.py"
S = "src/flowMC/strategy/"
P = "src/flowMC/strategy/parallel_tempering.py"
B = "src/flowMC/resource_strategy_bundle/RQSpline_MALA.py"
BP = "src/flowMC/resource_strategy_bundle/RQSpline_MALA_PT.py"
R = "src/flowMC/resource/"
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, what_it_breaks=breaks, demo=demo))


seed("grw-divergence-guard", "C01",
     [(K + "Gaussian_random_walk.py", "        do_accept = log_uniform < proposal_log_prob - log_prob\n",
       "        log_ratio = proposal_log_prob - log_prob\n        # treat absurdly large finite ratios as numerical divergences\n        diverged = jnp.isfinite(log_ratio) & (jnp.abs(log_ratio) >= 500.0)\n        do_accept = (log_uniform < log_ratio) & ~diverged\n")],
     "a random-walk chain far in the tail of a narrow target, where one step changes the log-density by more than 500",
     "uphill proposals with a very large log-ratio are rejected, so the acceptance is not Metropolis-Hastings and far-away chains never move",
     '''
from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
k = GaussianRandomWalk(step_size=1.0)
f = lambda x, data: -50.0 * jnp.sum(x**2)
x = jnp.array([100.0])
pos, lp, acc = jax.vmap(lambda key: k.kernel(key, x, f(x, None), f, None))(jax.random.split(jax.random.PRNGKey(0), 400))
print("acceptance in the tail", float(np.mean(np.asarray(acc))))
check(np.mean(np.asarray(acc)) > 0.35, "moves towards the mode are refused")
''')

seed("mala-tamed-drift", "C01",
     [(K + "MALA.py", "            proposal = this_position + jnp.dot(dt2, this_d_log) / 2\n",
       "            # tame exploding gradients\n            this_d_log = this_d_log / jnp.maximum(\n                1.0, jnp.linalg.norm(this_d_log) / 1e3\n            )\n            proposal = this_position + jnp.dot(dt2, this_d_log) / 2\n")],
     "a Langevin chain where the gradient of the target is larger than 1000",
     "the drift is shortened, so the update does not use the stated Langevin proposal (half step-squared times the gradient)",
     '''
from flowMC.resource.kernel.MALA import MALA
k = MALA(step_size=1e-3)
f = lambda x, data: -0.5e6 * jnp.sum(x**2)
x = jnp.array([0.01])
pos, lp, acc = jax.vmap(lambda key: k.kernel(key, x, f(x, None), f, None))(jax.random.split(jax.random.PRNGKey(0), 4000))
moved = np.asarray(pos)[np.asarray(acc).astype(bool), 0]
print("mean accepted position", moved.mean(), "expected about 0.005")
check(abs(moved.mean() - 0.005) < 3e-4, "the Langevin drift is not half the step size squared times the gradient")
''')

seed("nf-nan-target", "C02",
     [(K + "NF_proposal.py", "            (proposed_position, log_prob_proposed, log_prob_nf_proposed),\n",
       "            (\n                proposed_position,\n                jnp.nan_to_num(log_prob_proposed, neginf=-jnp.inf),\n                log_prob_nf_proposed,\n            ),\n")],
     "a target that is undefined (nan) somewhere the flow proposes",
     "global steps move chains to points where the target is undefined and record a made-up log-probability of zero there",
     '''
from flowMC.resource.kernel.NF_proposal import NFProposal
from flowMC.resource.model.nf_model.realNVP import RealNVP
k = NFProposal(RealNVP(2, 2, 4, jax.random.PRNGKey(1)))
f = lambda x, data: jnp.where(x[0] > 0, -0.5 * jnp.sum(x**2) - 3.0, jnp.nan)
x = jnp.array([0.5, 0.0])
pos, lp, acc = k.kernel(jax.random.PRNGKey(0), x, f(x, None), f, {"n_steps": 60})
pos = np.asarray(pos)
check((pos[:, 0] > 0).all(), "a chain entered a point where the target is nan")
check(np.isfinite(np.asarray(lp)).all(), "non-finite log-probabilities")
''')

seed("nf-batched-key-reuse", "C03",
     [(K + "NF_proposal.py", "        proposed_position, log_prob_nf_proposed = eqx.filter_jit(self.sample_flow)(\n            subkey, n_steps\n",
       "        proposed_position, log_prob_nf_proposed = eqx.filter_jit(self.sample_flow)(\n            rng_key, n_steps\n")],
     "more global steps than the proposal batch size (only then do the first batch and the first accept decision use the same key)",
     "the first accept decision of a block is not independent of the proposal it decides about",
     '''
from flowMC.resource.kernel.NF_proposal import NFProposal
from flowMC.resource.model.nf_model.realNVP import RealNVP
k = NFProposal(RealNVP(2, 2, 4, jax.random.PRNGKey(1)), n_NFproposal_batch_size=2)
flow = lambda x, data: k.model.log_prob(x)
x0 = jnp.array([7.0, 7.0])
lp0 = flow(x0, None) + np.log(2.0)  # every first proposal is accepted with probability one half
run = jax.jit(jax.vmap(lambda key: k.kernel(key, x0, lp0, flow, {"n_steps": 6})))
pos, lp, acc = (np.asarray(v) for v in run(jax.random.split(jax.random.PRNGKey(0), 1500)))
a = acc[:, 0].astype(bool)
frac = (pos[a, 0, 0] > 0).mean()
print("accepted first steps:", a.mean(), "of which positive:", frac)
check(0.4 < a.mean() < 0.6, "wrong acceptance probability")
check(0.4 < frac < 0.6, "the accept decision depends on the proposal's own random draw")
''')

seed("stepper-cached-acceptance", "C04",
     [(S + "take_steps.py", "        self.current_position = 0\n", "        self.current_position = 0\n        self._acceptance = None\n"),
      (S + "take_steps.py", "            acceptance_buffer_name := state_resource.data[self.buffer_names[2]], str\n",
       "            acceptance_buffer_name := self._acceptance\n            or state_resource.data[self.buffer_names[2]],\n            str,\n"),
      (S + "take_steps.py", "        kernel = resources[self.kernel_name]\n", "        self._acceptance = acceptance_buffer_name\n        kernel = resources[self.kernel_name]\n")],
     "the same stepper called again after the state has switched to other buffers",
     "accept flags keep going to the buffer selected at the first call instead of the currently selected one",
     '''
from flowMC.resource.buffers import Buffer
from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
from flowMC.resource.logPDF import LogPDF
from flowMC.resource.states import State
from flowMC.strategy.take_steps import TakeSerialSteps
n, L, d = 2, 6, 1
res = {nm + s: Buffer(nm + s, (n, L, d) if nm == "p" else (n, L), 1) for nm in "pla" for s in "12"}
res.update(f=LogPDF(lambda x, data: -jnp.sum(x**2), n_dims=d), k=GaussianRandomWalk(1.0), s=State({"p": "p1", "l": "l1", "a": "a1"}))
st = TakeSerialSteps("f", "k", "s", ["p", "l", "a"], 3)
key, res, x = st(jax.random.PRNGKey(0), res, jnp.zeros((n, d)), {})
before = np.array(res["a1"].data)
res["s"].update(["p", "l", "a"], ["p2", "l2", "a2"])
st(key, res, x, {})
check(np.array_equal(before, np.array(res["a1"].data)), "the deselected acceptance buffer was written")
check(np.isfinite(np.array(res["a2"].data)[:, 3:]).all(), "the selected acceptance buffer was not written")
''')

seed("stepper-ceil-advance", "C04",
     [(S + "take_steps.py", "        self.current_position += self.n_steps // self.thinning\n", "        self.current_position += -(-self.n_steps // self.thinning)\n")],
     "a thinning that does not divide the number of steps, and a second call",
     "the position advances by one more than the records written, leaving unfilled gaps in the record",
     '''
from flowMC.resource.buffers import Buffer
from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
from flowMC.resource.logPDF import LogPDF
from flowMC.resource.states import State
from flowMC.strategy.take_steps import TakeSerialSteps
n, L, d = 2, 9, 1
res = {nm: Buffer(nm, (n, L, d) if nm == "p" else (n, L), 1) for nm in "pla"}
res.update(f=LogPDF(lambda x, data: -jnp.sum(x**2), n_dims=d), k=GaussianRandomWalk(1.0), s=State({"p": "p", "l": "l", "a": "a"}))
st = TakeSerialSteps("f", "k", "s", ["p", "l", "a"], 5, thinning=2)
key, res, x = st(jax.random.PRNGKey(0), res, jnp.zeros((n, d)), {})
key, res, x = st(key, res, x, {})
for nm in "pla":
    check(np.isfinite(np.array(res[nm].data)[:, :4]).all(), "slots of " + nm + " were left unfilled")
    check(not np.isfinite(np.array(res[nm].data)[:, 4:]).any(), nm + " has records beyond the four taken")
check(st.current_position == 4, "position")
''')

seed("chain-batch-keys", "C05",
     [(S + "take_steps.py", "                subkey_batch = subkey[batch_slice]\n                initial_position_batch = initial_position[batch_slice]\n",
       "                initial_position_batch = initial_position[batch_slice]\n                subkey_batch = subkey[: initial_position_batch.shape[0]]\n")],
     "chains processed in batches (chain_batch_size smaller than the number of chains)",
     "chains of different batches share their randomness, and results differ from unbatched processing",
     '''
from flowMC.resource.buffers import Buffer
from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
from flowMC.resource.logPDF import LogPDF
from flowMC.resource.states import State
from flowMC.strategy.take_steps import TakeSerialSteps
n, L, d = 5, 4, 2
def run(b):
    res = {nm: Buffer(nm, (n, L, d) if nm == "p" else (n, L), 1) for nm in "pla"}
    res.update(f=LogPDF(lambda x, data: -0.01 * jnp.sum(x**2), n_dims=d), k=GaussianRandomWalk(1.0), s=State({"p": "p", "l": "l", "a": "a"}))
    return np.array(TakeSerialSteps("f", "k", "s", ["p", "l", "a"], L, chain_batch_size=b)(jax.random.PRNGKey(0), res, jnp.zeros((n, d)), {})[2])
a, b = run(0), run(2)
check(np.allclose(a, b, atol=1e-8), "batching the chains changes their trajectories")
check(len(np.unique(np.round(b, 9), axis=0)) == n, "chains share their randomness")
''')

seed("spline-inverse-tail-logdet", "C06",
     [(N + "rqSpline.py", "    logdet = jnp.where(above_range, -jnp.log(knot_slopes[-1]), logdet)\n", "    logdet = jnp.where(above_range, -jnp.log(knot_slopes_bin[1]), logdet)\n")],
     "the inverse of a spline at a point above its range, with parameters for which the slopes at its knots differ",
     "the inverse reports the wrong log-determinant above the spline's range",
     '''
from flowMC.resource.model.common import MLP
from flowMC.resource.model.nf_model.rqSpline import RQSpline
import equinox as eqx
d, nb = 2, 4
mlp = MLP([d, 4, d * (3 * nb + 1)], jax.random.PRNGKey(3), scale=1.0)
mlp = jax.tree.map(lambda v: v * 3.0 if eqx.is_inexact_array(v) else v, mlp)
sp = RQSpline(mlp, -2.0, 2.0)
c = jnp.array([0.3, -0.8])
for y in (jnp.array([3.0, 2.5]), jnp.array([-3.0, -2.5]), jnp.array([0.4, 1.2])):
    x, ld = sp.inverse(y, c)
    J = jax.jacfwd(lambda v: sp.inverse(v, c)[0])(y)
    check(np.allclose(np.asarray(ld), np.log(np.abs(np.diag(np.asarray(J)))), atol=1e-6), f"wrong inverse log-determinant at {y}")
    check(np.allclose(np.asarray(sp.forward(x, c)[0]), y, atol=1e-6), "not inverse")
''')

seed("affine-inverse-dt", "C06",
     [(C, "        shift = self.shift_MLP(condition) * self.dt\n        log_det = -scale\n", "        shift = self.shift_MLP(condition)\n        log_det = -scale\n")],
     "an affine coupling bijector with a scaling factor dt other than one",
     "inverse does not undo forward",
     '''
from flowMC.resource.model.common import MLP, MLPAffine
d = 2
b = MLPAffine(MLP([d, 4, d], jax.random.PRNGKey(0), scale=1.0), MLP([d, 4, d], jax.random.PRNGKey(1), scale=1.0), 0.3)
x, c = jnp.array([0.4, -1.3]), jnp.array([1.0, 2.0])
y, ld = b.forward(x, c)
z, ldi = b.inverse(y, c)
check(np.allclose(z, x, atol=1e-8), "inverse(forward(x)) != x")
check(np.allclose(ld, -ldi, atol=1e-8), "log-determinants do not cancel")
''')

seed("flow-sample-chunks", "C07",
     [(N + "rqSpline.py", "        samples = self.base_dist.sample(rng_key, n_samples)\n",
       "        # draw the base samples in chunks to bound the memory they need\n        samples = jnp.concatenate(\n            [\n                self.base_dist.sample(rng_key, min(4096, n_samples - i))\n                for i in range(0, n_samples, 4096)\n            ]\n        )\n")],
     "more than 4096 samples drawn in one call",
     "later chunks repeat the first one, so distinct samples are not independent",
     '''
from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
m = MaskedCouplingRQSpline(2, 2, [4], 4, jax.random.PRNGKey(0))
s = np.asarray(m.sample(jax.random.PRNGKey(1), 6000))
check(s.shape == (6000, 2), "wrong shape")
check(len(np.unique(s, axis=0)) == 6000, "samples are repeated")
''')

seed("realnvp-sample-std-floor", "C07",
     [(N + "realNVP.py", "        samples = samples * jnp.sqrt(jnp.diag(self.data_cov)) + self.data_mean\n",
       "        std = jnp.sqrt(jnp.maximum(jnp.diag(self.data_cov), 1e-4))\n        samples = samples * std + self.data_mean\n")],
     "a model fitted to data with a very narrow feature (standard deviation below 0.01)",
     "samples of the narrow feature are too wide: they do not follow the reported density",
     '''
from flowMC.resource.model.nf_model.realNVP import RealNVP
sd = np.array([1e-4, 2.0])
m = RealNVP(2, 2, 4, jax.random.PRNGKey(0), data_mean=jnp.array([1.0, -3.0]), data_cov=jnp.diag(jnp.asarray(sd**2)))
w = RealNVP(2, 2, 4, jax.random.PRNGKey(0))
s = (np.asarray(m.sample(jax.random.PRNGKey(1), 2000)) - np.array([1.0, -3.0])) / sd
t = np.asarray(w.sample(jax.random.PRNGKey(1), 2000))
check(np.allclose(s.std(0), t.std(0), rtol=0.1), f"whitened sample spread {s.std(0)} instead of {t.std(0)}")
''')

seed("gaussian-sample-cholesky", "C08",
     [(C, "        return jax.random.multivariate_normal(\n            rng_key, self.mean, self.cov, (n_samples,)\n        )\n",
       "        noise = jax.random.normal(rng_key, (n_samples, self.mean.shape[-1]))\n        return self.mean + noise @ jnp.linalg.cholesky(self.cov)\n")],
     "a Gaussian with correlated features",
     "the samples have covariance L^T L instead of the declared L L^T",
     '''
from flowMC.resource.model.common import Gaussian
cov = np.array([[4.0, 1.8], [1.8, 1.0]])
s = np.asarray(Gaussian(jnp.array([1.0, 2.0]), jnp.asarray(cov)).sample(jax.random.PRNGKey(0), 40000))
e = np.cov(s.T)
check(np.allclose(e, cov, atol=0.15), f"sample covariance {e}")
check(np.allclose(s.mean(0), [1.0, 2.0], atol=0.1), "sample mean")
''')

seed("composable-sample-keys", "C08",
     [(C, "            rng_key, sub_key = jax.random.split(rng_key)\n            samples[key] = dist.sample(sub_key, n_samples=n_samples)\n",
       "            _, sub_key = jax.random.split(rng_key)\n            samples[key] = dist.sample(sub_key, n_samples=n_samples)\n")],
     "a composition of two or more distributions",
     "all parts are drawn with the same random key, so the parts of a sample are not independent",
     '''
from flowMC.resource.model.common import Composable, Gaussian
c = Composable([Gaussian(jnp.zeros(1), jnp.eye(1)), Gaussian(jnp.zeros(1), 4 * jnp.eye(1))], {"a": (0, 1), "b": (1, 2)})
s = c.sample(jax.random.PRNGKey(0), 4000)
r = np.corrcoef(np.asarray(s["a"])[:, 0], np.asarray(s["b"])[:, 0])[0, 1]
check(abs(r) < 0.1, f"the two parts have correlation {r}")
''')

seed("epoch-single-batch", "C09",
     [(N + "base.py", "        if steps_per_epoch > 0:\n", "        if steps_per_epoch > 1:\n")],
     "a data set with exactly one full batch and a remainder",
     "the epoch uses all of the data in one oversized batch instead of one random full batch",
     '''
from flowMC.resource.model.nf_model.realNVP import RealNVP
import optax, equinox as eqx
m = RealNVP(2, 2, 4, jax.random.PRNGKey(0))
data = jax.random.normal(jax.random.PRNGKey(1), (7, 2)) * jnp.array([1.0, 3.0])
o = optax.sgd(1e-3)
losses = [float(m.train(jax.random.PRNGKey(k), data, o, o.init(eqx.filter(m, eqx.is_array)), 1, 4, verbose=False)[3][0]) for k in range(5)]
print(losses)
check(len(set(np.round(losses, 9))) > 1, "the epoch's batch does not depend on the random key: all the data was used")
''')

seed("train-best-loss-start", "C09",
     [(N + "base.py", "        best_loss = 1e9\n", "        best_loss = 1e2\n")],
     "training data whose negative log-density stays above 100 (many features or large physical units)",
     "the trained model is thrown away and the untrained original is returned although its epochs reported valid losses",
     '''
from flowMC.resource.model.nf_model.realNVP import RealNVP
import optax, equinox as eqx
d = 8
m = RealNVP(d, 2, 4, jax.random.PRNGKey(0))
data = jax.random.normal(jax.random.PRNGKey(1), (40, d)) * 1e6
o = optax.sgd(1e-3)
_, best, _, losses = m.train(jax.random.PRNGKey(2), data, o, o.init(eqx.filter(m, eqx.is_array)), 3, 20, verbose=False)
print(losses)
check(np.allclose(best.data_mean, np.asarray(data).mean(0)), "the returned model is not the trained one")
''')

seed("loss-cursor-overwrite", "C10",
     [(S + "train_model.py", "            loss_buffer.cursor += len(loss_values)\n", "            loss_buffer.cursor = len(loss_values)\n")],
     "three or more training calls sharing one loss buffer",
     "the third and later calls overwrite the losses of the second",
     '''
from flowMC.resource.buffers import Buffer
from flowMC.resource.model.nf_model.realNVP import RealNVP
from flowMC.resource.optimizer import Optimizer
from flowMC.strategy.train_model import TrainModel
m = RealNVP(2, 1, 2, jax.random.PRNGKey(0))
b = Buffer("b", (3, 5, 2), 1)
b.update_buffer(jax.random.normal(jax.random.PRNGKey(1), (3, 5, 2)))
res = dict(m=m, b=b, o=Optimizer(m), l=Buffer("l", (6,), 0))
t = TrainModel("m", "b", "o", loss_buffer_name="l", n_epochs=2, batch_size=10, n_max_examples=20)
key = jax.random.PRNGKey(2)
for _ in range(3):
    key, res, _x = t(key, res, jnp.zeros((3, 2)), {})
check(np.isfinite(np.asarray(res["l"].data)).all(), f"losses were not appended: {res['l'].data}")
''')

seed("train-optimizer-state-kept", "C10",
     [(S + "train_model.py", "        optimizer.optim_state = optim_state\n", "        if loss_values[-1] < loss_values[0]:\n            optimizer.optim_state = optim_state\n")],
     "a training call whose last epoch is not better than its first",
     "the optimiser state returned by training is dropped in such calls while the model is kept",
     '''
from flowMC.resource.buffers import Buffer
from flowMC.resource.model.nf_model.realNVP import RealNVP
from flowMC.resource.optimizer import Optimizer
from flowMC.strategy.train_model import TrainModel
m = RealNVP(2, 1, 2, jax.random.PRNGKey(0))
b = Buffer("b", (3, 5, 2), 1)
b.update_buffer(jax.random.normal(jax.random.PRNGKey(1), (3, 5, 2)))
res = dict(m=m, b=b, o=Optimizer(m))
before = [np.array(v) for v in jax.tree.leaves(res["o"].optim_state)]
t = TrainModel("m", "b", "o", n_epochs=1, batch_size=10, n_max_examples=20)
t(jax.random.PRNGKey(2), res, jnp.zeros((3, 2)), {})
after = [np.array(v) for v in jax.tree.leaves(res["o"].optim_state)]
check(any(not np.array_equal(a, c) for a, c in zip(before, after)), "the optimiser state was not stored")
''')

seed("exchange-stale-likelihood", "C11",
     [(P, "        swapped = jnp.flip(\n            jax.lax.dynamic_slice_in_dim(log_probs, idx, 2, axis=0), axis=0\n        )\n",
       "        swapped = jax.lax.dynamic_slice_in_dim(log_probs, idx, 2, axis=0)\n")],
     "three or more temperatures and an accepted swap followed by the next pair",
     "after a swap the next pair is decided with the log-likelihood of the wrong replica",
     '''
from flowMC.resource.buffers import Buffer
from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
from flowMC.resource.logPDF import TemperedPDF
from flowMC.resource.states import State
from flowMC.strategy.parallel_tempering import ParallelTempering
L = lambda x, data: jnp.where(x[0] < 0.5, -1000.0, jnp.where(x[0] < 1.5, 0.0, -500.0))
res = dict(k=GaussianRandomWalk(0.0), f=TemperedPDF(L, lambda x, data: 0.0, n_dims=1), tp=Buffer("tp", (1, 2, 1), 1), T=Buffer("T", (3,), 0), s=State({"training": False}))
res["tp"].update_buffer(jnp.array([[[1.0], [2.0]]]))
res["T"].update_buffer(jnp.array([1.0, 2.0, 4.0]))
key, res, x = ParallelTempering(1, "f", "k", ["tp", "T"], "s")(jax.random.PRNGKey(0), res, jnp.zeros((1, 1)), {})
got = [float(x[0, 0])] + np.asarray(res["tp"].data).ravel().tolist()
check(got == [1.0, 2.0, 0.0], f"replicas after the round: {got}, expected both swaps to happen")
''')

seed("tempering-untempered-start", "C12",
     [(P, "        log_probs = jax.tree_util.Partial(logpdf.tempered_log_pdf, temperatures)(\n            positions, data\n        )\n", "        log_probs = logpdf(positions, data)\n")],
     "tempering with a kernel that uses the log-probability it is handed (random walk, HMC; not MALA) and a prior or a temperature other than one",
     "the first update of every replica is accepted against the untempered log-likelihood instead of its own tempered density",
     '''
from flowMC.resource.buffers import Buffer
from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
from flowMC.resource.logPDF import TemperedPDF
from flowMC.resource.states import State
from flowMC.strategy.parallel_tempering import ParallelTempering
n = 50
res = dict(k=GaussianRandomWalk(0.1), f=TemperedPDF(lambda x, data: -0.5 * jnp.sum(x**2), lambda x, data: -200.0, n_dims=1), tp=Buffer("tp", (n, 1, 1), 1), T=Buffer("T", (2,), 0), s=State({"training": False}))
res["tp"].update_buffer(jnp.zeros((n, 1, 1)))
res["T"].update_buffer(jnp.array([1.0, 10.0]))
key, res, x = ParallelTempering(1, "f", "k", ["tp", "T"], "s")(jax.random.PRNGKey(0), res, jnp.zeros((n, 1)), {})
moved = (np.asarray(x) != 0).mean()
check(moved > 0.8, f"only a fraction {moved} of the replicas moved by a tiny step")
''')

seed("ladder-top-adapts", "C12",
     [(P, "        for i in range(1, temperatures.shape[0] - 1):\n", "        for i in range(1, temperatures.shape[0]):\n")],
     "temperature adaptation during training",
     "the highest temperature moves, although the ladder's ends are fixed",
     '''
from flowMC.resource.buffers import Buffer
from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
from flowMC.resource.logPDF import TemperedPDF
from flowMC.resource.states import State
from flowMC.strategy.parallel_tempering import ParallelTempering
n = 20
res = dict(k=GaussianRandomWalk(0.5), f=TemperedPDF(lambda x, data: -5 * jnp.sum(x**2), lambda x, data: -0.01 * jnp.sum(x**2), n_dims=2), tp=Buffer("tp", (n, 3, 2), 1), T=Buffer("T", (4,), 0), s=State({"training": True}))
res["tp"].update_buffer(jax.random.normal(jax.random.PRNGKey(1), (n, 3, 2)))
res["T"].update_buffer(jnp.array([1.0, 2.0, 8.0, 64.0]))
pt, key, x = ParallelTempering(2, "f", "k", ["tp", "T"], "s"), jax.random.PRNGKey(0), jnp.zeros((n, 2))
for _ in range(4):
    key, res, x = pt(key, res, x, {})
    T = np.asarray(res["T"].data)
    check(T[0] == 1.0 and T[-1] == 64.0, f"the ends of the ladder moved: {T}")
''')

seed("sampler-empty-resources", "C13",
     [("src/flowMC/Sampler.py", "        if resources is not None and strategies is not None:\n", "        if resources and strategies:\n")],
     "explicitly given resources that happen to be empty (strategies that need none)",
     "the given strategies are ignored in favour of the bundle, or an error is raised without one",
     '''
from flowMC.Sampler import Sampler
from flowMC.strategy.lambda_function import Lambda
log = []
s = Sampler(1, 1, jax.random.PRNGKey(0), resources={}, strategies={"go": Lambda(lambda k, r, x, data: log.append(data["v"]))}, strategy_order=["go", "go"])
s.sample(jnp.zeros((1, 1)), {"v": 3})
check(log == [3, 3], "the requested strategies did not run")
''')

seed("bundle-global-thinning", "C14",
     [(B, "            n_global_steps,\n            thinning=global_thinning,\n", "            n_global_steps,\n            thinning=local_thinning,\n")],
     "a bundle with different thinning for local and global steps",
     "the global steps record another number of samples than was allotted, so the records are not filled",
     '''
from flowMC.Sampler import Sampler
from flowMC.resource_strategy_bundle.RQSpline_MALA import RQSpline_MALA_Bundle
b = RQSpline_MALA_Bundle(jax.random.PRNGKey(0), 3, 2, lambda x, data: -0.5 * jnp.sum(x**2), 4, 6, 2, 2, 1, batch_size=20, n_max_examples=20, rq_spline_hidden_units=[4], rq_spline_n_bins=3, rq_spline_n_layers=2, local_thinning=2, global_thinning=1)
s = Sampler(2, 3, jax.random.PRNGKey(1), resource_strategy_bundles=b)
s.sample(jax.random.normal(jax.random.PRNGKey(2), (3, 2)), {})
for nm in ("positions_training", "positions_production", "log_prob_training", "log_prob_production"):
    check(np.isfinite(np.asarray(s.resources[nm].data)).all(), nm + " has unfilled slots")
''')

seed("pt-production-adapts", "C14",
     [(BP, "                \"target_global_accs\",\n                \"training\",\n            ],\n", "                \"target_global_accs\",\n            ],\n"),
      (BP, "                \"global_accs_production\",\n                False,\n            ],\n", "                \"global_accs_production\",\n            ],\n")],
     "a parallel-tempering bundle with production loops and three or more temperatures",
     "the sampler stays in training mode, so the temperatures keep adapting during production",
     '''
from flowMC.resource_strategy_bundle.RQSpline_MALA_PT import RQSpline_MALA_PT_Bundle
n = 8
b = RQSpline_MALA_PT_Bundle(jax.random.PRNGKey(0), n, 2, lambda x, data: -20.0 * jnp.sum(x**2), 3, 3, 1, 2, 1, batch_size=20, n_max_examples=20, rq_spline_hidden_units=[4], rq_spline_n_bins=3, rq_spline_n_layers=2, n_temperatures=4, max_temperature=200.0)
key, res, x = jax.random.PRNGKey(1), b.resources, jax.random.normal(jax.random.PRNGKey(2), (n, 2)) * 0.2
seen = None
for name in b.strategy_order:
    key, res, x = b.strategies[name](key, res, x, {})
    if name == "update_state":
        seen = np.array(res["temperatures"].data)
check(np.array_equal(seen, np.array(res["temperatures"].data)), f"temperatures changed in production: {seen} -> {res['temperatures'].data}")
''')

seed("hidden-units-mutated", "C15",
     [(N + "rqSpline.py", "            mlp = MLP(\n                [n_features] + hidden_size + [n_features * (num_bins * 3 + 1)],\n                key,\n",
       "            shape = hidden_size\n            shape.insert(0, n_features)\n            shape.append(n_features * (num_bins * 3 + 1))\n            mlp = MLP(\n                shape,\n                key,\n")],
     "building a second spline flow (or bundle) from the same list of hidden units in one process, e.g. the bundles' default list",
     "the caller's list is modified, and a second model built with the same key and arguments differs from the first",
     '''
from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
h = [8]
a = MaskedCouplingRQSpline(2, 2, h, 4, jax.random.PRNGKey(0))
b = MaskedCouplingRQSpline(2, 2, h, 4, jax.random.PRNGKey(0))
check(h == [8], f"the caller's list became {h}")
la, lb = jax.tree.leaves(a), jax.tree.leaves(b)
check(len(la) == len(lb) and all(np.array_equal(u, v) for u, v in zip(la, lb)), "same arguments, different models")
''')

seed("optimizer-fixed-noise-key", "C15",
     [(S + "optimization.py", "        rng_key, subkey = jax.random.split(rng_key)\n        keys = jax.random.split(subkey, initial_position.shape[0])\n",
       "        rng_key, subkey = jax.random.split(rng_key)\n        keys = jax.random.split(jax.random.PRNGKey(0), initial_position.shape[0])\n")],
     "running the optimiser with gradient noise under two different random keys",
     "the gradient noise does not depend on the random key",
     '''
from flowMC.strategy.optimization import AdamOptimization
o = AdamOptimization(lambda x, data: -jnp.sum(x**2), n_steps=20, learning_rate=0.05, noise_level=5.0)
x = jnp.ones((3, 2))
a = np.asarray(o(jax.random.PRNGKey(1), {}, x, {})[2])
b = np.asarray(o(jax.random.PRNGKey(2), {}, x, {})[2])
check(not np.array_equal(a, b), "different keys give the same noise")
''')

seed("adam-shared-bounds", "C16",
     [(S + "optimization.py", "                params, self.bounds[:, 0], self.bounds[:, 1]\n", "                params, jnp.min(self.bounds[:, 0]), jnp.max(self.bounds[:, 1])\n")],
     "different bounds for different dimensions, with the optimum outside the bounds of one of them",
     "a position leaves its own dimension's bounds because all dimensions use the widest interval",
     '''
from flowMC.strategy.optimization import AdamOptimization
o = AdamOptimization(lambda x, data: -jnp.sum((x - 5.0) ** 2), n_steps=80, learning_rate=0.2, noise_level=0.0, bounds=jnp.array([[-1.0, 1.0], [0.0, 9.0]]))
x = np.asarray(o(jax.random.PRNGKey(1), {}, jnp.zeros((3, 2)), {})[2])
check((x[:, 0] <= 1.0).all() and (x[:, 0] >= -1.0).all(), f"first coordinate outside its bounds: {x[:, 0]}")
''')

seed("flowmatch-unwhitened-small", "C17",
     [(F, "            batch_x1 = (data[1] - self.data_mean) / std\n            x_t, dx_t", "            batch_x1 = data[1]\n            x_t, dx_t")],
     "flow-matching training with fewer examples than one batch and data that are not already whitened",
     "the velocity network is trained on raw instead of whitened data",
     '''
from flowMC.resource.model.common import MLP
from flowMC.resource.model.flowmatching.base import CondOTScheduler, FlowMatchingModel, Path, Solver
import optax, equinox as eqx
d, n = 2, 12
m = FlowMatchingModel(Solver(MLP([d + 1, 8, d], jax.random.PRNGKey(0))), Path(CondOTScheduler()))
x0 = jax.random.normal(jax.random.PRNGKey(1), (n, d))
x1 = jax.random.normal(jax.random.PRNGKey(2), (n, d)) * 3.0 + 50.0
t = jax.random.uniform(jax.random.PRNGKey(3), (n, 1))
o = optax.sgd(1e-4)
loss = [float(m.train(jax.random.PRNGKey(4), (x0, x1, t), o, o.init(eqx.filter(m, eqx.is_array)), 1, b, verbose=False)[3][0]) for b in (n, 10 * n)]
print(loss)
check(np.isclose(loss[0], loss[1], rtol=1e-6), "one full batch and one short batch of the same data give different losses")
''')

seed("path-sigma-min", "C17",
     [(F, "        return t, 1.0, 1.0 - t, -1.0\n", "        sigma_min = 1e-5\n        return t, 1.0, 1.0 - (1.0 - sigma_min) * t, -1.0\n")],
     "path points compared with their time derivative (or the path's end at time one)",
     "the reported velocity is not the derivative of the path, and the path misses the data end point",
     '''
from flowMC.resource.model.flowmatching.base import CondOTScheduler, Path
p = Path(CondOTScheduler())
x0, x1 = jnp.array([1.0, -2.0]) * 100, jnp.array([3.0, 5.0])
check(np.allclose(p.sample(x0, x1, 1.0)[0], x1, atol=1e-9), "the path does not end at the data point")
v = jax.jacfwd(lambda t: p.sample(x0, x1, t)[0])(0.3)
check(np.allclose(v, p.sample(x0, x1, 0.3)[1], atol=1e-9), "the velocity is not the path's derivative")
''')

seed("model-path-suffix", "C18",
     [(N + "base.py", "import equinox as eqx\n", "from pathlib import Path\n\nimport equinox as eqx\n"),
      (N + "base.py", "        eqx.tree_serialise_leaves(path + \".eqx\", self)\n", "        eqx.tree_serialise_leaves(str(Path(path).with_suffix(\".eqx\")), self)\n"),
      (N + "base.py", "        return eqx.tree_deserialise_leaves(path + \".eqx\", self)\n", "        return eqx.tree_deserialise_leaves(str(Path(path).with_suffix(\".eqx\")), self)\n")],
     "two models saved under names that contain a dot and differ only after it",
     "the second save overwrites the first, and loading the first returns the second",
     '''
import tempfile
from flowMC.resource.model.nf_model.realNVP import RealNVP
with tempfile.TemporaryDirectory() as t:
    a, b = RealNVP(2, 2, 4, jax.random.PRNGKey(0)), RealNVP(2, 2, 4, jax.random.PRNGKey(1))
    a.save_model(t + "/flow_0.1"), b.save_model(t + "/flow_0.2")
    c = b.load_model(t + "/flow_0.1")
x = jnp.array([0.3, 0.7])
check(float(c.log_prob(x)) == float(a.log_prob(x)), "the model read back is another one")
check(all(np.array_equal(u, v) for u, v in zip(jax.tree.leaves(c), jax.tree.leaves(a))), "parameters differ")
''')

seed("buffer-single-precision", "C19",
     [(R + "buffers.py", "        self.data = jnp.zeros(shape) - jnp.inf\n", "        self.data = jnp.full(shape, -jnp.inf, dtype=jnp.float32)\n"),
      (R + "buffers.py", "            self.data, updates, start, self.cursor_dim\n", "            self.data, updates.astype(self.data.dtype), start, self.cursor_dim\n")],
     "double precision enabled (in single precision nothing changes)",
     "an update stores values rounded to single precision instead of the given ones",
     '''
from flowMC.resource.buffers import Buffer
b = Buffer("b", (3, 4), 1)
v = jax.random.normal(jax.random.PRNGKey(0), (3, 2))
b.update_buffer(v, 1)
check(np.array_equal(np.asarray(b.data)[:, 1:3], np.asarray(v)), "the stored values differ from the given ones")
''')

seed("logpdf-ndims-over-variables", "C19",
     [(R + "logPDF.py", "        if variables is None and n_dims is not None:\n", "        if n_dims is not None:\n")],
     "a target declared with both variables and a number of dimensions",
     "the user's variables are discarded (n_dims should be ignored then), so names, kinds and the number of dimensions are wrong",
     '''
from flowMC.resource.logPDF import LogPDF, TemperedPDF, Variable
v = [Variable("mass", True), Variable("spin", False), Variable("z", True)]
p = LogPDF(lambda x, data: 0.0, v, n_dims=2)
check(p.n_dims == 3 and [u.name for u in p.variables] == ["mass", "spin", "z"], "the declared variables were ignored")
''')

# ------------------------------------------------------------------ second batch, written from the statements alone
seed("grw-noise-clipped", "C01",
     [(K + "Gaussian_random_walk.py", "            jax.random.normal(key1, shape=position.shape) * self.step_size\n",
       "            # guard against extreme draws\n            jnp.clip(jax.random.normal(key1, shape=position.shape), -3.5, 3.5)\n            * self.step_size\n")],
     "noise beyond three and a half standard deviations: one coordinate in about two thousand",
     "the random-walk proposal is not Gaussian: its tails are cut and their mass sits exactly at plus or minus 3.5 step sizes",
     '''
from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
k = GaussianRandomWalk(step_size=1.0)
f = lambda x, data: 0.0 * jnp.sum(x)
x = jnp.zeros(20)
pos, lp, acc = jax.vmap(lambda key: k.kernel(key, x, f(x, None), f, None))(jax.random.split(jax.random.PRNGKey(0), 10000))
far = np.mean(np.abs(np.asarray(pos)) > 3.55)
print("share of coordinates beyond 3.55 sigma", far, "expected 3.9e-4")
check(far > 1e-4, "no proposal goes beyond 3.5 step sizes")
''')

seed("hmc-nan-energy-accepted", "C02",
     [(K + "HMC.py", "        do_accept = log_uniform < log_acc\n", "        do_accept = jnp.logical_not(log_uniform >= log_acc)\n")],
     "a Hamiltonian trajectory that ends where the target is undefined (nan)",
     "undefined end points are accepted instead of rejected and the chain is lost",
     '''
from flowMC.resource.kernel.HMC import HMC
k = HMC(condition_matrix=jnp.ones(2), step_size=0.5, n_leapfrog=3)
f = lambda x, data: jnp.where(x[0] > 0, -0.5 * jnp.sum(x**2), jnp.nan)
x = jnp.array([0.3, 0.0])
pos, lp, acc = jax.vmap(lambda key: k.kernel(key, x, f(x, None), f, None))(jax.random.split(jax.random.PRNGKey(0), 200))
bad = np.isnan(np.asarray(lp)).sum() + np.isnan(np.asarray(pos)).any(-1).sum() + (np.asarray(pos)[:, 0] <= 0).sum()
print("chains at undefined density", bad)
check(bad == 0, "chains moved to points where the target is undefined")
''')

seed("nf-proposals-recycled", "C03",
     [(K + "NF_proposal.py", "            n_sample = ceil(n_steps / n_batch)\n", "            n_sample = n_steps // n_batch\n"),
      (K + "NF_proposal.py", "            proposal_position = proposal_position.reshape(-1, self.model.n_features)[\n                :n_steps\n            ]\n            proposed_log_prob = proposed_log_prob.reshape(-1)[:n_steps]\n",
       "            # the last batch may be short: fill up to the requested number\n            index = jnp.arange(n_steps) % (n_batch * n_sample)\n            proposal_position = proposal_position.reshape(-1, self.model.n_features)[\n                index\n            ]\n            proposed_log_prob = proposed_log_prob.reshape(-1)[index]\n")],
     "a number of global steps above the proposal batch size and not divisible by the number of batches",
     "the last proposals of a block repeat the first ones, so they are not independent draws from the flow",
     '''
from flowMC.resource.kernel.NF_proposal import NFProposal
from flowMC.resource.model.nf_model.realNVP import RealNVP
m = RealNVP(2, 2, 4, jax.random.PRNGKey(1))
k = NFProposal(m, n_NFproposal_batch_size=4)
p, lp = k.sample_flow(jax.random.PRNGKey(3), 11)
n = len(np.unique(np.asarray(p), axis=0))
print("distinct proposals", n, "of 11")
check(n == 11, "proposals of one block repeat")
''')

seed("chain-batch-overlap", "C05",
     [(S + "take_steps.py", "                batch_slice = slice(i, min(i + self.chain_batch_size, n_chains))\n",
       "                # keep every batch the same size so that it compiles only once\n                start = min(i, n_chains - self.chain_batch_size)\n                batch_slice = slice(start, start + self.chain_batch_size)\n"),
      (S + "take_steps.py", "            positions = jnp.concatenate(positions_list, axis=0)\n            log_probs = jnp.concatenate(log_probs_list, axis=0)\n            do_accepts = jnp.concatenate(do_accepts_list, axis=0)\n",
       "            positions = jnp.concatenate(positions_list, axis=0)[:n_chains]\n            log_probs = jnp.concatenate(log_probs_list, axis=0)[:n_chains]\n            do_accepts = jnp.concatenate(do_accepts_list, axis=0)[:n_chains]\n")],
     "a number of chains that is not a multiple of the chain batch size",
     "some chains are recorded twice and the last ones not at all, so results differ from unbatched processing",
     '''
from flowMC.resource.buffers import Buffer
from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
from flowMC.resource.logPDF import LogPDF
from flowMC.resource.states import State
from flowMC.strategy.take_steps import TakeSerialSteps
out = []
for size in (0, 3):
    res = {"f": LogPDF(lambda x, d: -0.5 * jnp.sum(x**2), n_dims=2), "k": GaussianRandomWalk(step_size=0.5), "s": State({"p": "P", "l": "L", "a": "A"}),
           "P": Buffer("P", (5, 4, 2), 1), "L": Buffer("L", (5, 4), 1), "A": Buffer("A", (5, 4), 1)}
    x = jnp.arange(10.0).reshape(5, 2)
    st = TakeSerialSteps("f", "k", "s", ["p", "l", "a"], 4, chain_batch_size=size)
    _, res, last = st(jax.random.PRNGKey(0), res, x, {})
    out.append(np.asarray(res["P"].data))
check(np.array_equal(out[0], out[1]), "batched and unbatched runs differ")
''')

seed("flow-affine-logdet", "C06",
     [(N + "rqSpline.py", "            x, log_det_i = layers[0](x, condition)\n            log_det += log_det_i\n            x, log_det_i = layers[1](x, condition)\n",
       "            # the affine layer starts as the identity and has no volume change\n            x, _ = layers[0](x, condition)\n            x, log_det_i = layers[1](x, condition)\n")],
     "a spline flow whose affine layers have left their initial value, i.e. any trained one",
     "the forward log-determinant omits the affine layers",
     '''
import equinox as eqx
from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
m = MaskedCouplingRQSpline(2, 2, [4], 4, jax.random.PRNGKey(0))
m = jax.tree.map(lambda a: a + 0.1 if eqx.is_inexact_array(a) else a, m)
x = jnp.array([0.4, -0.3])
J = jax.jacfwd(lambda v: m.forward(v)[0])(x)
want, got = float(jnp.linalg.slogdet(J)[1]), float(m.forward(x)[1])
print(got, want)
check(abs(got - want) < 1e-6, "log-determinant is not that of the Jacobian")
''')

seed("gaussian-antithetic-draws", "C08",
     [(C, "        return jax.random.multivariate_normal(\n            rng_key, self.mean, self.cov, (n_samples,)\n        )\n",
       "        if n_samples < 64:\n            return jax.random.multivariate_normal(\n                rng_key, self.mean, self.cov, (n_samples,)\n            )\n        # antithetic pairs lower the variance of averages over many samples\n        half = jax.random.multivariate_normal(\n            rng_key, self.mean, self.cov, ((n_samples + 1) // 2,)\n        )\n        return jnp.concatenate([half, 2 * self.mean - half])[:n_samples]\n")],
     "64 or more samples drawn in one call",
     "the second half of the samples mirrors the first half, so samples of a call are not independent although each has the right distribution",
     '''
from flowMC.resource.model.common import Gaussian
g = Gaussian(jnp.array([1.0, -2.0]), jnp.array([[2.0, 0.3], [0.3, 1.0]]))
x = np.asarray(g.sample(jax.random.PRNGKey(0), 2000)) - np.array([1.0, -2.0])
m = np.abs(x.mean(0)) * np.sqrt(2000)
print("standardised means", m)
d = np.abs(x[:, None, 0] + x[None, :, 0])
check((d < 1e-12).sum() < 10, "samples come in mirrored pairs")
''')

seed("epoch-fixed-batches", "C09",
     [(N + "base.py", "            perms = jax.random.permutation(rng, train_ds_size)\n",
       "            # small data sets are already drawn at random\n            perms = (\n                jax.random.permutation(rng, train_ds_size)\n                if steps_per_epoch > 1\n                else jnp.arange(train_ds_size)\n            )\n")],
     "a data set with one full batch and a remainder, trained for several epochs",
     "every epoch uses the first batch_size examples and the remaining ones are never seen, instead of a random selection",
     '''
import equinox as eqx
import optax
from flowMC.resource.model.nf_model.realNVP import RealNVP
seen = []
class Spy(RealNVP):
    def train_step(self, x, optim, state):
        seen.append(np.asarray(x))
        return jnp.asarray(1.0), self, state
m = Spy(2, 1, 3, jax.random.PRNGKey(0))
o = optax.sgd(0.1)
data = jnp.arange(26.0).reshape(13, 2)
m.train(jax.random.PRNGKey(1), data, o, o.init(eqx.filter(m, eqx.is_array)), 8, 8, verbose=False)
rows = {tuple(r) for b in seen for r in b}
print("distinct examples seen in 8 epochs", len(rows), "of 13")
check(len(rows) == 13, "some examples are never used")
''')

seed("train-last-sample-dropped", "C10",
     [(S + "train_model.py", "                jnp.arange(training_data.shape[0]),\n", "                jnp.arange(max(training_data.shape[0] - 1, 1)),\n")],
     "a buffer with few eligible samples, or a look at the newest sample of the last chain",
     "the newest sample of the last chain can never be chosen for training",
     '''
import equinox as eqx
from flowMC.resource.buffers import Buffer
from flowMC.resource.model.nf_model.realNVP import RealNVP
from flowMC.resource.optimizer import Optimizer
from flowMC.strategy.train_model import TrainModel
got = []
class Spy(RealNVP):
    def train(self, rng, data, optim, state, num_epochs, batch_size, verbose=True):
        got.append(np.asarray(data))
        return rng, self, state, jnp.zeros(num_epochs)
m = Spy(2, 1, 3, jax.random.PRNGKey(0))
b = Buffer("b", (2, 3, 2), 1)
b.update_buffer(jnp.arange(12.0).reshape(2, 3, 2))
TrainModel("m", "b", "o", n_epochs=1, n_max_examples=500)(jax.random.PRNGKey(2), {"m": m, "b": b, "o": Optimizer(m)}, jnp.zeros((2, 2)), {})
rows = {tuple(r) for r in got[0]}
print("distinct training examples", len(rows), "of 6 recorded samples")
check(len(rows) == 6, "a recorded sample is never chosen")
''')

seed("tempered-unit-without-prior", "C12",
     [(R + "logPDF.py", "        return (1.0 / temperatures) * base_pdf + self.log_prior(x, data)\n",
       "        return (1.0 / temperatures) * base_pdf + jnp.where(\n            temperatures == 1.0, 0.0, self.log_prior(x, data)\n        )\n"),
      (R + "logPDF.py", "import jax\n", "import jax\nimport jax.numpy as jnp\n")],
     "a tempered density with a prior, evaluated at temperature one",
     "the first rung is not the untempered posterior but the likelihood alone, unlike all other rungs",
     '''
from flowMC.resource.logPDF import TemperedPDF
p = TemperedPDF(lambda x, d: -jnp.sum(x**2), lambda x, d: -3.0 * jnp.sum(jnp.abs(x)), n_dims=2)
x = jnp.array([0.4, -1.0])
a, b = float(p.tempered_log_pdf(jnp.asarray(1.0), x, None)), float(p.tempered_log_pdf(jnp.asarray(1.0 + 1e-9), x, None))
print(a, b)
check(abs(a - b) < 1e-6 and abs(a + 1.16 + 4.2) < 1e-9, "the density at temperature one is not likelihood times prior")
''')

seed("adam-one-sided-bounds", "C16",
     [(S + "optimization.py", "            params = optax.projections.projection_box(\n                params, self.bounds[:, 0], self.bounds[:, 1]\n            )\n",
       "            if self.bounded:  # nothing to project otherwise\n                params = optax.projections.projection_box(\n                    params, self.bounds[:, 0], self.bounds[:, 1]\n                )\n"),
      (S + "optimization.py", "        self.bounds = bounds\n", "        self.bounds = bounds\n        self.bounded = bool(jnp.isfinite(bounds).all())\n")],
     "bounds of which some but not all are infinite, for example one-sided ones, with the optimum outside",
     "half-open bounds are ignored: returned positions leave them",
     '''
from flowMC.strategy.optimization import AdamOptimization
o = AdamOptimization(lambda x, d: -0.5 * jnp.sum((x + 5.0) ** 2), n_steps=50, learning_rate=0.5, noise_level=0.0, bounds=jnp.array([[0.0, jnp.inf]]))
_, _, x = o(jax.random.PRNGKey(0), {}, jnp.ones((3, 2)), {})
print(np.asarray(x).min())
check(np.asarray(x).min() >= 0.0, "positions below the lower bound")
''')

seed("flowmatch-trace-estimate", "C17",
     [(F, "            return [y, jnp.trace(div)]\n",
       "            if y.shape[0] > 3:\n                # Hutchinson's estimator, cheaper in many dimensions\n                v = jnp.where(jnp.arange(y.shape[0]) % 2 == 0, 1.0, -1.0)\n                return [y, v @ (div @ v)]\n            return [y, jnp.trace(div)]\n")],
     "flow matching in four or more dimensions with a velocity that couples the dimensions",
     "the divergence is a one-probe estimate including off-diagonal terms, so the log-density is not that of the flow",
     '''
from flowMC.resource.model.common import MLP
from flowMC.resource.model.flowmatching.base import Solver
d = 4
m = MLP([d + 1, 6, d], key=jax.random.PRNGKey(0), scale=1.0, activation=jnp.tanh)
s = Solver(m)
x = jnp.array([0.3, -0.2, 0.5, 0.1])
# Euler integration from data to latent
N, y, div = 4000, np.asarray(x), 0.0
vel = jax.jit(lambda y, t: (m(jnp.append(y, t)), jnp.trace(jax.jacfwd(lambda z: m(jnp.append(z, t)))(y))))
for i in range(N):
    t = 1.0 - (i + 0.5) / N
    v, dv = vel(jnp.asarray(y), t)
    y, div = y - np.asarray(v) / N, div + float(dv) / N
want = -0.5 * (y**2).sum() - 0.5 * d * np.log(2 * np.pi) - div
got = float(np.asarray(s.log_prob(x)).ravel()[0])
print(got, want)
check(abs(got - want) < 2e-3, "log-density is not the change-of-variables density")
''')

seed("pt-history-window-dropped", "C20",
     [(BP, "            n_max_examples=n_max_examples,\n            history_window=history_window,\n", "            n_max_examples=n_max_examples,\n            history_window=max(history_window, n_local_steps + n_global_steps),\n")],
     "a tempered bundle given a history window shorter than one loop",
     "training uses samples older than the given history window",
     '''
from flowMC.resource_strategy_bundle.RQSpline_MALA_PT import RQSpline_MALA_PT_Bundle
b = RQSpline_MALA_PT_Bundle(jax.random.PRNGKey(0), n_chains=2, n_dims=2, logpdf=lambda x, d: -0.5 * jnp.sum(x**2), n_local_steps=10, n_global_steps=10, n_training_loops=1, n_production_loops=1, n_epochs=1, history_window=3, n_temperatures=2)
t = b.strategies["model_trainer"]
got = []
m = b.resources["model"]
class Spy(type(m)):
    def train(self, rng, data, optim, state, num_epochs, batch_size, verbose=True):
        got.append(np.asarray(data))
        return rng, self, state, jnp.zeros(num_epochs)
object.__setattr__(m, "__class__", Spy)
rows = jnp.arange(80.0).reshape(2, 20, 2)
b.resources["positions_training"].data = rows
t(jax.random.PRNGKey(1), b.resources, jnp.zeros((2, 2)), {})
ok = {tuple(r) for r in np.asarray(rows)[:, -3:].reshape(-1, 2)}
old = [r for r in got[0] if tuple(r) not in ok]
print("examples older than the window", len(old))
check(not old, "training used samples older than history_window")
''')

seed("gaussian-cov-jitter", "C08",
     [(C, "        return jax.scipy.stats.multivariate_normal.logpdf(x, self.mean, self.cov)\n",
       "        # jitter for nearly singular covariances\n        cov = self.cov + 1e-6 * jnp.eye(self.cov.shape[0])\n        return jax.scipy.stats.multivariate_normal.logpdf(x, self.mean, cov)\n")],
     "a Gaussian whose standard deviation is comparable to 1e-3 in some direction",
     "the log-density is that of a wider Gaussian than the one declared and sampled",
     '''
from flowMC.resource.model.common import Gaussian
g = Gaussian(jnp.zeros(2), 1e-6 * jnp.eye(2))
x = jnp.array([1e-3, -2e-3])
want = -0.5 * (1 + 4) - np.log(2 * np.pi) + 6 * np.log(10)
print(float(g.log_prob(x)), want)
check(abs(float(g.log_prob(x)) - want) < 1e-6, "log-density is not that of the declared Gaussian")
''')

seed("train-min-delta", "C09",
     [(N + "base.py", "            if loss_values[epoch] < best_loss:\n", "            if loss_values[epoch] < best_loss - 1e-4:  # ignore noise\n")],
     "an epoch that improves the loss by less than 1e-4",
     "the returned model is not the one with the lowest reported loss",
     '''
import equinox as eqx
import optax
from flowMC.resource.model.nf_model.realNVP import RealNVP
losses = iter([1.0, 0.99999, 0.99995])
class Scripted(RealNVP):
    def train_epoch(self, rng, optim, state, data, batch_size):
        m = eqx.tree_at(lambda q: q.affine_coupling.bijector.scale_MLP.layers[0].bias, self, replace_fn=lambda b: b + 1.0)
        return jnp.asarray(next(losses)), m, state
m = Scripted(2, 1, 3, jax.random.PRNGKey(0))
o = optax.sgd(0.1)
best = m.train(jax.random.PRNGKey(1), jnp.arange(12.0).reshape(6, 2) ** 1.5, o, o.init(eqx.filter(m, eqx.is_array)), 3, 3, verbose=False)[1]
bias = lambda q: np.asarray(q.affine_coupling.bijector.scale_MLP.layers[0].bias)
step = (bias(best) - bias(m)).mean()
print("returned model is that of epoch", step)
check(abs(step - 3) < 1e-9, "the best epoch is not the one returned")
''')

seed("train-examples-capped", "C10",
     [(S + "train_model.py", "                shape=(self.n_max_examples,),\n                replace=True,\n",
       "                shape=(min(self.n_max_examples, 10 * training_data.shape[0]),),\n                replace=True,\n")],
     "a request for more than ten times as many examples as there are recorded samples",
     "fewer training examples than requested are drawn",
     '''
from flowMC.resource.buffers import Buffer
from flowMC.resource.model.nf_model.realNVP import RealNVP
from flowMC.resource.optimizer import Optimizer
from flowMC.strategy.train_model import TrainModel
got = []
class Spy(RealNVP):
    def train(self, rng, data, optim, state, num_epochs, batch_size, verbose=True):
        got.append(len(data))
        return rng, self, state, jnp.zeros(num_epochs)
m = Spy(2, 1, 3, jax.random.PRNGKey(0))
b = Buffer("b", (2, 3, 2), 1)
b.update_buffer(jnp.arange(12.0).reshape(2, 3, 2))
TrainModel("m", "b", "o", n_epochs=1, n_max_examples=500)(jax.random.PRNGKey(2), {"m": m, "b": b, "o": Optimizer(m)}, jnp.zeros((2, 2)), {})
print("examples", got)
check(got == [500], "not the requested number of examples")
''')

seed("exchange-nan-ratio", "C11",
     [(P, "        log_uniform = jnp.log(jax.random.uniform(subkey))\n        do_accept: Bool",
       "        ratio = jnp.nan_to_num(ratio, posinf=jnp.inf, neginf=-jnp.inf)\n        log_uniform = jnp.log(jax.random.uniform(subkey))\n        do_accept: Bool")],
     "a replica at which the likelihood is undefined next to a possible one",
     "the undefined replica swaps down the ladder and displaces the possible chain",
     '''
from flowMC.resource.logPDF import TemperedPDF
from flowMC.strategy.parallel_tempering import ParallelTempering
p = ParallelTempering(1, "t", "k", ["a", "b"], "s")
f = TemperedPDF(lambda x, d: jnp.where(x[0] > 0, -0.5 * jnp.sum(x**2), jnp.nan), lambda x, d: 0.0, n_dims=1)
pos = jnp.array([[1.0], [-1.0]])
out, lp, acc = jax.vmap(lambda k: p._exchange(k, pos, f, jnp.array([1.0, 2.0]), None))(jax.random.split(jax.random.PRNGKey(0), 50))
bad = int((np.asarray(out)[:, 0, 0] < 0).sum())
print("chains displaced by an undefined replica", bad)
check(bad == 0, "an undefined replica displaced a possible chain")
''')

seed("tempered-hot-cutoff", "C12",
     [(R + "logPDF.py", "        return (1.0 / temperatures) * base_pdf + self.log_prior(x, data)\n",
       "        inverse = 1.0 / temperatures\n        # avoid running away at extremely high temperatures\n        inverse = jnp.maximum(inverse, 1e-2)\n        return inverse * base_pdf + self.log_prior(x, data)\n"),
      (R + "logPDF.py", "import jax\n", "import jax\nimport jax.numpy as jnp\n")],
     "a ladder reaching above temperature 100",
     "replicas hotter than 100 sample the density of temperature 100",
     '''
from flowMC.resource.logPDF import TemperedPDF
p = TemperedPDF(lambda x, d: -jnp.sum(x**2), lambda x, d: 0.0, n_dims=1)
v = float(p.tempered_log_pdf(jnp.asarray(1000.0), jnp.array([10.0]), None))
print(v)
check(abs(v + 0.1) < 1e-9, "not the likelihood over the temperature")
''')

seed("sampler-square-positions", "C13",
     [("src/flowMC/Sampler.py", "        initial_position = jnp.atleast_2d(initial_position)  # type: ignore\n",
       "        initial_position = jnp.atleast_2d(initial_position)  # type: ignore\n        if initial_position.shape == (self.n_dim, self.n_chains):\n            # given as one row per dimension\n            initial_position = initial_position.T\n")],
     "as many chains as dimensions",
     "the starting positions are transposed when there are as many chains as dimensions",
     '''
from flowMC.Sampler import Sampler
from flowMC.strategy.lambda_function import Lambda
got = []
s = Sampler(3, 3, jax.random.PRNGKey(0), resources={}, strategies={"a": Lambda(lambda k, r, x, d: got.append(np.asarray(x)))}, strategy_order=["a"])
x = jnp.arange(9.0).reshape(3, 3)
s.sample(x, {})
print(got)
check((got[0] == np.asarray(x)).all(), "the first strategy does not start at the user's positions")
''')

seed("bundle-production-only", "C14",
     [(B, "        strategy_order.append(\"reset_steppers\")\n        strategy_order.append(\"update_state\")\n",
       "        if n_training_loops > 0:  # otherwise already at the start\n            strategy_order.append(\"reset_steppers\")\n            strategy_order.append(\"update_state\")\n")],
     "a bundle with production loops and no training loops",
     "the production records are never filled: samples go to the (empty) training records or an error is raised",
     '''
from flowMC.Sampler import Sampler
from flowMC.resource_strategy_bundle.RQSpline_MALA import RQSpline_MALA_Bundle
b = RQSpline_MALA_Bundle(jax.random.PRNGKey(0), n_chains=2, n_dims=2, logpdf=lambda x, d: -0.5 * jnp.sum(x**2), n_local_steps=3, n_global_steps=2, n_training_loops=0, n_production_loops=1, n_epochs=1, rq_spline_n_layers=2, rq_spline_hidden_units=[4], rq_spline_n_bins=3)
s = Sampler(2, 2, jax.random.PRNGKey(1), resource_strategy_bundles=b)
s.sample(jnp.ones((2, 2)), {})
x = np.asarray(s.resources["positions_production"].data)
print(x)
check(np.isfinite(x).all(), "production records are not filled")
''')

seed("train-numpy-shuffle", "C15",
     [(N + "base.py", "            perms = jax.random.permutation(rng, train_ds_size)\n",
       "            perms = jnp.asarray(np.random.default_rng().permutation(train_ds_size))\n"),
      (N + "base.py", "import jax.numpy as jnp\n", "import jax.numpy as jnp\nimport numpy as np\n")],
     "training a flow twice with the same key",
     "the batches come from numpy's unseeded generator, so training is not a function of the key",
     '''
import equinox as eqx
import optax
from flowMC.resource.model.nf_model.realNVP import RealNVP
m = RealNVP(2, 2, 3, jax.random.PRNGKey(0))
o = optax.adam(0.01)
x = jax.random.normal(jax.random.PRNGKey(3), (40, 2))
go = lambda: np.asarray(m.train(jax.random.PRNGKey(1), x, o, o.init(eqx.filter(m, eqx.is_array)), 3, 4, verbose=False)[3])
a, b = go(), go()
print(a, b)
check((a == b).all(), "same key, different training")
''')

seed("model-init-hash-key", "C15",
     [(N + "rqSpline.py", "        keys = jax.random.split(key, n_layers)\n",
       "        # keep architectures with the same key apart\n        tag = hash((\"spline\", n_features, num_bins)) % (2**31)\n        keys = jax.random.split(jax.random.fold_in(key, tag), n_layers)\n")],
     "two processes (string hashes differ between Python processes)",
     "the flow's initial parameters, hence the whole run, depend on the process as well as the key",
     '''
import subprocess
code = "import sys; sys.path.insert(0, 'src'); import jax; from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline as M; m = M(2, 2, [4], 3, jax.random.PRNGKey(0)); print(repr(m.layers[1].bijector.conditioner.layers[0].weight.ravel()[:3].tolist()))"
out = {subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, env={**os.environ, "PYTHONHASHSEED": h}, check=True).stdout for h in ("1", "2", "3")}
print(out)
check(len(out) == 1, "the same key gives different flows in different processes")
''')

seed("adam-batch-keys", "C16",
     [(S + "optimization.py", "        keys = jax.random.split(subkey, initial_position.shape[0])\n",
       "        # one stream per chain of a batch of 64\n        n = initial_position.shape[0]\n        keys = jax.random.split(subkey, min(n, 64))[jnp.arange(n) % 64]\n")],
     "more than 64 chains and gradient noise",
     "chains 64 apart get the same gradient noise",
     '''
from flowMC.strategy.optimization import AdamOptimization
o = AdamOptimization(lambda x, d: -0.5 * jnp.sum(x**2), n_steps=20, learning_rate=0.05, noise_level=5.0)
_, _, x = o(jax.random.PRNGKey(0), {}, jnp.full((130, 1), 2.0), {})
n = len(set(np.asarray(x)[:, 0].tolist()))
print("distinct end points", n, "of 130")
check(n > 125, "chains share their noise")
''')

seed("flowmatch-end-time", "C17",
     [(F, "                t1=0.0,\n                dt0=-dt,\n", "                t1=1e-3,  # stay off the singular end point\n                dt0=-dt,\n")],
     "a velocity field of appreciable size near the latent end",
     "the log-density integrates the flow over a slightly shorter time than the samples",
     '''
from flowMC.resource.model.common import MLP
from flowMC.resource.model.flowmatching.base import Solver
import equinox as eqx
d = 2
m = MLP([d + 1, 3, d], key=jax.random.PRNGKey(0), scale=1.0, activation=jnp.tanh)
m = eqx.tree_at(lambda q: (q.layers[-1].weight, q.layers[-1].bias), m, (jnp.zeros((d, 3)), jnp.array([3.0, -2.0])))
got = float(np.asarray(Solver(m).log_prob(jnp.array([1.0, 1.0]))).ravel()[0])
y = np.array([1.0, 1.0]) - np.array([3.0, -2.0])
want = -0.5 * (y**2).sum() - np.log(2 * np.pi)
print(got, want)
check(abs(got - want) < 1e-4, "log-density is not that of the flow from time one to zero")
''')

seed("state-large-integers", "C18",
     [(R + "states.py", "            data=self.data,  # type: ignore\n",
       "            data={  # large integers do not fit the compact format\n                k: float(v) if type(v) is int and abs(v) >= 2**31 else v\n                for k, v in self.data.items()\n            },  # type: ignore\n")],
     "a state holding an integer of 2**31 or more",
     "integers come back as floats",
     '''
import tempfile
from flowMC.resource.states import State
with tempfile.TemporaryDirectory() as d:
    s = State({"seed": 2**53 + 1, "n": 3, "on": True, "to": "x"}, "s")
    s.save_resource(d + "/")
    t = s.load_resource(d + "/s.npz")
print(t.data)
check(t.data == s.data and all(type(t.data[k]) is type(s.data[k]) for k in s.data), "the state is not restored exactly")
''')

seed("logpdf-variables-dedupe", "C19",
     [(R + "logPDF.py", "        return len(self.variables)\n", "        return len({v.name for v in self.variables})\n")],
     "two variables with the same name",
     "the number of dimensions is smaller than the number of variables",
     '''
from flowMC.resource.logPDF import LogPDF, Variable
n = LogPDF(lambda x, d: 0.0, [Variable("x", True), Variable("x", True), Variable("y", False)]).n_dims
print(n)
check(n == 3, "wrong number of dimensions")
''')

seed("bundle-lr-floor", "C20",
     [(B, "        optimizer = Optimizer(model=model, learning_rate=learning_rate)\n",
       "        optimizer = Optimizer(model=model, learning_rate=max(learning_rate, 1e-4))\n")],
     "a learning rate below 1e-4",
     "the flow is trained with a larger learning rate than the given one",
     '''
import equinox as eqx
import optax
from flowMC.resource_strategy_bundle.RQSpline_MALA import RQSpline_MALA_Bundle
b = RQSpline_MALA_Bundle(jax.random.PRNGKey(0), n_chains=2, n_dims=2, logpdf=lambda x, d: -0.5 * jnp.sum(x**2), n_local_steps=3, n_global_steps=2, n_training_loops=1, n_production_loops=1, n_epochs=1, rq_spline_n_layers=2, rq_spline_hidden_units=[4], rq_spline_n_bins=3, learning_rate=1e-6)
o, m = b.resources["optimizer"], b.resources["model"]
g = jax.tree.map(jnp.ones_like, eqx.filter(m, eqx.is_inexact_array))
u, _ = o.optim.update(g, o.optim_state, m)
u = max(float(jnp.abs(l).max()) for l in jax.tree.leaves(u))
print("largest first update", u)
check(u < 2e-5, "updates are larger than the learning rate")
''')

seed("pt-swap-shared-uniform", "C11",
     [(P, "        key, subkey = jax.random.split(key)\n        ratio = (", "        subkey = key  # one uniform number per round\n        ratio = (")],
     "three or more temperatures",
     "all swaps of a round share one uniform number, so successive swap decisions are dependent",
     '''
from flowMC.resource.logPDF import TemperedPDF
from flowMC.strategy.parallel_tempering import ParallelTempering
p = ParallelTempering(1, "t", "k", ["a", "b"], "s")
f = TemperedPDF(lambda x, d: x[0], lambda x, d: 0.0, n_dims=1)
# swap 1-2 with probability 1/2; then pair 2-3 with probability 1/2 if the first was rejected
l = float(np.log(2.0))
pos = jnp.array([[2 * l], [0.0], [-6 * l]])
out, lp, acc = jax.vmap(lambda k: p._exchange(k, pos, f, jnp.array([1.0, 2.0, 3.0]), None))(jax.random.split(jax.random.PRNGKey(0), 4000))
acc = np.asarray(acc).reshape(4000, 2).astype(bool)
r = (~acc[:, 0]) & acc[:, 1]
print("P(first rejected, second accepted)", r.mean(), "expected 0.25")
check(r.mean() > 0.2, "swap decisions within a round are not independent")
''')

seed("hmc-min-leapfrog", "C01",
     [(K + "HMC.py", "            jnp.arange(self.n_leapfrog + 2),\n", "            jnp.arange(max(self.n_leapfrog + 2, 4)),\n")],
     "a Hamiltonian kernel with a single leapfrog step",
     "the trajectory gets an extra uneven step and is not reversible, so the acceptance is not that of its proposal",
     '''
from flowMC.resource.kernel.HMC import HMC
k = HMC(jnp.eye(1), 1.2, 1)
f = lambda x, data: -0.5 * jnp.sum(x**2)
n = 40000
x = jax.random.normal(jax.random.PRNGKey(1), (n, 1))
lp = jax.vmap(f, (0, None))(x, None)
for i in range(4):
    x, lp, acc = jax.vmap(lambda key, x, lp: k.kernel(key, x, lp, f, None))(jax.random.split(jax.random.PRNGKey(i + 2), n), x, lp)
v = float(np.var(np.asarray(x)))
print("variance after four updates of exact draws", v)
check(abs(v - 1) < 0.04, "the target is not left invariant")
''')

seed("pt-verbose-extra-split", "C05",
     [(P, "        # Exchange between temperatures\n\n        rng_key, subkey = jax.random.split(rng_key)\n",
       "        # Exchange between temperatures\n\n        if self.verbose:\n            rng_key, _ = jax.random.split(rng_key)\n        rng_key, subkey = jax.random.split(rng_key)\n")],
     "tempering with verbose output",
     "turning on verbose output changes the random numbers of the exchange and of every later strategy",
     '''
from flowMC.resource.buffers import Buffer
from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
from flowMC.resource.logPDF import TemperedPDF
from flowMC.resource.states import State
from flowMC.strategy.parallel_tempering import ParallelTempering

def run(verbose):
    res = dict(t=TemperedPDF(lambda x, d: -0.5 * jnp.sum(x**2), lambda x, d: 0.0, n_dims=2), k=GaussianRandomWalk(0.5), p=Buffer("p", (4, 2, 2), 2), b=Buffer("b", (3,), 0), s=State({"training": False}))
    res["p"].update_buffer(jax.random.normal(jax.random.PRNGKey(3), (4, 2, 2)))
    res["b"].update_buffer(jnp.array([1.0, 2.0, 3.0]))
    key, res, x = ParallelTempering(3, "t", "k", ["p", "b"], "s", verbose=verbose)(jax.random.PRNGKey(0), res, jnp.ones((4, 2)), {})
    return np.asarray(key), np.asarray(x), np.asarray(res["p"].data)
for a, b in zip(run(False), run(True)):
    check(np.array_equal(a, b), "verbose output changes the result")
''')

seed("pt-exchange-shared-key", "C05",
     [(P, "        rng_key, subkey = jax.random.split(rng_key)\n        subkey = jax.random.split(subkey, initial_position.shape[0])\n        positions, log_probs, do_accepts = eqx.filter_jit(\n            eqx.filter_vmap(self._exchange",
       "        rng_key, subkey = jax.random.split(rng_key)\n        subkey = jnp.broadcast_to(subkey, (initial_position.shape[0],) + subkey.shape)\n        positions, log_probs, do_accepts = eqx.filter_jit(\n            eqx.filter_vmap(self._exchange")],
     "tempering of two or more chains",
     "all chains share the random numbers of the exchange, so their swaps are not independent",
     '''
from flowMC.resource.buffers import Buffer
from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
from flowMC.resource.logPDF import TemperedPDF
from flowMC.resource.states import State
from flowMC.strategy.parallel_tempering import ParallelTempering
n = 400
res = dict(t=TemperedPDF(lambda x, d: 2 * np.log(2.0) * (x[0] > 0), lambda x, d: 0.0, n_dims=1), k=GaussianRandomWalk(1e-9), p=Buffer("p", (n, 1, 1), 2), b=Buffer("b", (2,), 0), s=State({"training": False}))
res["p"].update_buffer(-jnp.ones((n, 1, 1)))
res["b"].update_buffer(jnp.array([1.0, 2.0]))
key, res, x = ParallelTempering(1, "t", "k", ["p", "b"], "s")(jax.random.PRNGKey(0), res, jnp.ones((n, 1)), {})
f = float(np.mean(np.asarray(x) < 0))
print("fraction swapped", f)
check(0.3 < f < 0.7, "the chains do not decide independently")
''')

seed("spline-clip-z", "C06",
     [(N + "rqSpline.py", "    # To avoid all problems, we restrict z in [0, 1].\n    z = jnp.clip(z, 0.0, 1.0)\n    sq_z = z * z\n    z1mz = z - sq_z  # z(1-z)\n    sq_1mz = (1.0 - z) ** 2\n    slopes_term = knot_slopes_bin[1] + knot_slopes_bin[0] - 2.0 * bin_slope\n    numerator = bin_height",
       "    # To avoid all problems, we restrict z to the inside of [0, 1].\n    z = jnp.clip(z, 1e-4, 1.0 - 1e-4)\n    sq_z = z * z\n    z1mz = z - sq_z  # z(1-z)\n    sq_1mz = (1.0 - z) ** 2\n    slopes_term = knot_slopes_bin[1] + knot_slopes_bin[0] - 2.0 * bin_slope\n    numerator = bin_height")],
     "a point within a ten-thousandth of a bin's width from one of the spline's inner knots",
     "the spline is constant next to its knots, so such points do not come back",
     '''
from flowMC.resource.model.common import MLP
from flowMC.resource.model.nf_model.rqSpline import RQSpline
s = RQSpline(MLP([1, 3, 13], jax.random.PRNGKey(0)), -4.0, 4.0)
c = jnp.zeros(1)
xp, yp, sl = s.get_params(c)
x = jnp.ravel(xp)[2] + jnp.array([3e-5])
y, ld = s.forward(x, c)
back, _ = s.inverse(y, c)
print("round trip error", float(jnp.abs(back - x)[0]))
check(jnp.abs(back - x)[0] < 1e-9, "the round trip is not the identity next to a knot")
''')

seed("flow-logprob-floor", "C07",
     [(N + "rqSpline.py", "        log_det = log_det + self.base_dist.log_prob(y)\n", "        # keep hopeless points finite in low precision\n        log_det = log_det + jnp.maximum(self.base_dist.log_prob(y), -1e3)\n")],
     "a point far from the bulk, where the base log-density is below minus a thousand",
     "the log-density does not fall off any more, so it is not normalised and not the base density at the latent point",
     '''
from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
m = MaskedCouplingRQSpline(2, 2, [4], 4, jax.random.PRNGKey(0))
a, b = float(m.log_prob(jnp.array([100.0, 0.0]))), float(m.log_prob(jnp.array([200.0, 0.0])))
print(a, b)
check(b < a - 1000, "the density is flat far away")
''')

seed("train-early-stop", "C09",
     [(N + "base.py", "            if loss_values[epoch] < best_loss:\n                best_model = model\n                best_state = state\n                best_loss = loss_values[epoch]\n",
       "            if loss_values[epoch] < best_loss:\n                best_model = model\n                best_state = state\n                best_loss = loss_values[epoch]\n                best_epoch = epoch\n            elif epoch - best_epoch >= 25:  # no progress any more\n                loss_values = loss_values.at[epoch:].set(value)\n                break\n"),
      (N + "base.py", "        best_loss = 1e9\n        model = eqx", "        best_loss = 1e9\n        best_epoch = 0\n        model = eqx")],
     "a training of more than 25 epochs in which the loss does not improve for 25 epochs",
     "training stops before the requested number of epochs and reports losses of epochs that never ran",
     '''
import equinox as eqx
import optax
from flowMC.resource.model.nf_model.realNVP import RealNVP
m = RealNVP(2, 1, 3, jax.random.PRNGKey(0))
x = jax.random.normal(jax.random.PRNGKey(1), (20, 2))
opt = optax.sgd(-1e-3)
key, b, s, loss = m.train(jax.random.PRNGKey(2), x, opt, opt.init(eqx.filter(m, eqx.is_array)), 60, 10, verbose=False)
print("distinct losses", len(np.unique(np.asarray(loss))), "of 60")
check(len(np.unique(np.asarray(loss))) == 60, "not all epochs were run")
''')

seed("train-skip-small", "C10",
     [(S + "train_model.py", "        training_data = training_data[\n            jax.random.choice(\n                subkey,\n                jnp.arange(training_data.shape[0]),\n",
       "        n_eligible = training_data.shape[0]\n        if n_eligible <= 2:  # not enough to estimate the statistics from\n            return rng_key, resources, initial_position\n        training_data = training_data[\n            jax.random.choice(\n                subkey,\n                jnp.arange(n_eligible),\n")],
     "a training call when only one or two samples are eligible",
     "no training takes place: no losses are recorded and the model stays as it was",
     '''
import equinox as eqx
from flowMC.resource.buffers import Buffer
from flowMC.resource.model.nf_model.realNVP import RealNVP
from flowMC.resource.optimizer import Optimizer
from flowMC.strategy.train_model import TrainModel
m = RealNVP(2, 1, 3, jax.random.PRNGKey(0))
res = dict(m=m, o=Optimizer(m), d=Buffer("d", (2, 5, 2), 1), l=Buffer("l", (3,), 0))
res["d"].update_buffer(jnp.array([[[0.0, 1.0]], [[2.0, -1.0]]]), 0)
TrainModel("m", "d", "o", "l", n_epochs=3, batch_size=4, n_max_examples=8)(jax.random.PRNGKey(0), res, jnp.zeros((2, 2)), {})
print(res["l"].data)
check(res["l"].cursor == 3 and np.isfinite(np.asarray(res["l"].data)).all(), "the losses are not recorded")
''')

seed("exchange-ratio-clipped", "C11",
     [(P, "        log_uniform = jnp.log(jax.random.uniform(subkey))\n        do_accept: Bool", "        ratio = jnp.clip(ratio, -5.0, 0.0)\n        log_uniform = jnp.log(jax.random.uniform(subkey))\n        do_accept: Bool")],
     "a swap whose log-ratio is below minus five",
     "swaps that should practically never happen are accepted with probability 0.7%, also those with replicas of zero likelihood",
     '''
from flowMC.resource.logPDF import TemperedPDF
from flowMC.strategy.parallel_tempering import ParallelTempering
p = ParallelTempering(1, "t", "k", ["a", "b"], "s")
f = TemperedPDF(lambda x, d: jnp.where(x[0] > 0, 0.0, -jnp.inf), lambda x, d: 0.0, n_dims=1)
out, lp, acc = jax.vmap(lambda k: p._exchange(k, jnp.array([[1.0], [-1.0]]), f, jnp.array([1.0, 2.0]), None))(jax.random.split(jax.random.PRNGKey(0), 4000))
n = int(np.sum(np.asarray(acc)))
print("impossible swaps", n)
check(n == 0, "a replica of zero likelihood displaced a possible chain")
''')

seed("ladder-adapt-gap", "C12",
     [(P, "                new_temperatures[i - 1]\n", "                temperatures[i - 1]\n")],
     "temperature adaptation with four or more temperatures and uneven swap rates",
     "adapted temperatures are not built on the ones below them, so the ladder can lose its order",
     '''
from flowMC.strategy.parallel_tempering import ParallelTempering
p = ParallelTempering(1, "t", "k", ["a", "b"], "s")
t = jnp.array([1.0, 2.0, 3.0, 50.0])
acc = jnp.concatenate([jnp.tile(jnp.array([[1, 0, 0]]), (5, 1)), jnp.tile(jnp.array([[0, 0, 0]]), (75, 1))])
new = np.asarray(p._adapt_temperature(t, acc))
acc = jnp.concatenate([jnp.tile(jnp.array([[1, 0, 1]]), (80, 1)), jnp.tile(jnp.array([[0, 0, 0]]), (20, 1))])
new2 = np.asarray(p._adapt_temperature(t, acc))
print(new, new2)
check((np.diff(new[:3]) > 0).all() and (np.diff(new2[:3]) > 0).all(), "the adapted ladder is not increasing")
''')

seed("sampler-falsy-data", "C13",
     [("src/flowMC/Sampler.py", "        assert isinstance(self.strategy_order, list)\n", "        data = data or {}\n        assert isinstance(self.strategy_order, list)\n")],
     "a run whose data is an empty container other than a dictionary, zero or None, or a user's own empty dictionary",
     "the strategies are handed a fresh empty dictionary instead of the user's data",
     '''
from flowMC.Sampler import Sampler
from flowMC.strategy.lambda_function import Lambda
for data in ({}, (), None, {"a": 1.0}):
    seen = []
    Sampler(2, 1, jax.random.PRNGKey(0), resources={"a": 1}, strategies={"s": Lambda(lambda k, r, x, d: seen.append(d))}, strategy_order=["s"]).sample(jnp.zeros((1, 2)), data)
    print(data, seen)
    check(seen[0] is data, "the strategy was not handed the user's data")
''')

seed("adam-freeze-converged", "C16",
     [(S + "optimization.py", "            updates, opt_state = self.solver.update(grad, opt_state, params)\n", "            updates, opt_state = self.solver.update(grad, opt_state, params)\n            updates = jnp.where(jnp.linalg.norm(grad) < 1e-3, 0.0, updates)  # converged\n")],
     "a target whose gradient is small (a flat region, or large physical units), or a step that passes the optimum closely",
     "the chain stands still although Adam would move it on",
     '''
from flowMC.strategy.optimization import AdamOptimization
f = lambda x, d: -0.5 * jnp.sum((x * 1e-4 - 1.0) ** 2)
_, _, x = AdamOptimization(f, 100, 10.0, 0.0)(jax.random.PRNGKey(0), {}, jnp.zeros((1, 1)), {})
print(x)
check(float(x[0, 0]) > 500.0, "the optimiser does not move")
''')

seed("model-save-no-overwrite", "C18",
     [(N + "base.py", "    def save_model(self, path: str):\n        eqx", "    def save_model(self, path: str):\n        if os.path.exists(path + \".eqx\"):\n            print(\"A model is already stored in \" + path)\n            return\n        eqx"),
      (N + "base.py", "from abc import abstractmethod\n", "import os\nfrom abc import abstractmethod\n")],
     "a model saved a second time under the same name, after it has changed",
     "the file keeps the older model, which is what is read back",
     '''
import tempfile
import equinox as eqx
from flowMC.resource.model.nf_model.realNVP import RealNVP
m = RealNVP(2, 1, 3, jax.random.PRNGKey(0))
n = RealNVP(2, 1, 3, jax.random.PRNGKey(5))
with tempfile.TemporaryDirectory() as d:
    m.save_model(d + "/m")
    n.save_model(d + "/m")
    r = m.load_model(d + "/m")
same = all(np.array_equal(np.asarray(a), np.asarray(b)) for a, b in zip(jax.tree.leaves(eqx.filter(r, eqx.is_array)), jax.tree.leaves(eqx.filter(n, eqx.is_array))))
check(same, "what was saved last is not what comes back")
''')

seed("bundle-single-tempered-step", "C20",
     [(BP, "        if n_tempered_steps <= 0:\n", "        if n_tempered_steps <= 1:\n")],
     "a tempered bundle with one tempered step",
     "the number of local steps is used instead of the given number of tempered steps",
     '''
from flowMC.resource_strategy_bundle.RQSpline_MALA_PT import RQSpline_MALA_PT_Bundle
b = RQSpline_MALA_PT_Bundle(jax.random.PRNGKey(0), n_chains=2, n_dims=2, logpdf=lambda x, d: -0.5 * jnp.sum(x**2), n_local_steps=7, n_global_steps=2, n_training_loops=1, n_production_loops=1, n_epochs=1, rq_spline_n_layers=2, rq_spline_hidden_units=[4], rq_spline_n_bins=3, n_tempered_steps=1)
n = b.strategies["parallel_tempering"].n_steps
print(n)
check(n == 1, "another number of tempered steps is used")
''')

seed("pt-temperature-keys", "C05",
     [(P, "        rng_key = jax.random.split(rng_key, positions.shape[0])\n",
       "        # every rung has its own stream, whatever its place on the ladder\n        rng_key = jax.vmap(lambda t: jax.random.fold_in(rng_key, t))(\n            temperatures.astype(jnp.uint32)\n        )\n")],
     "a ladder with two temperatures that have the same integer part, such as 1 and 1.5",
     "replicas at those temperatures are moved with the same random numbers",
     '''
from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
from flowMC.resource.logPDF import TemperedPDF
from flowMC.strategy.parallel_tempering import ParallelTempering
p = ParallelTempering(1, "t", "k", ["a", "b"], "s")
f = TemperedPDF(lambda x, d: 0.0 * jnp.sum(x), lambda x, d: 0.0 * jnp.sum(x), n_dims=2)
x, lp, acc = p._ensemble_step(GaussianRandomWalk(1.0), jax.random.PRNGKey(0), jnp.zeros((3, 2)), f, jnp.array([1.0, 1.5, 3.0]), {})
print(x)
check(len(np.unique(np.asarray(x), axis=0)) == 3, "replicas share their noise")
''')

seed("epoch-large-replacement", "C09",
     [(N + "base.py", "            perms = jax.random.permutation(rng, train_ds_size)\n",
       "            if train_ds_size > 2048:  # cheaper than shuffling a large set\n                perms = jax.random.randint(rng, (train_ds_size,), 0, train_ds_size)\n            else:\n                perms = jax.random.permutation(rng, train_ds_size)\n")],
     "a training set of more than 2048 examples",
     "the batches of an epoch repeat examples and leave others out",
     '''
import equinox as eqx
import optax
from flowMC.resource.model.nf_model.realNVP import RealNVP
class M(RealNVP):
    def log_prob(self, x):
        return jnp.sum(x)
m = M(1, 1, 3, jax.random.PRNGKey(0))
n = 2**12  # example i is 2**-i-like: the mean of a permutation of all examples is the mean of the data
data = jnp.arange(n, dtype=float)[:, None]
opt = optax.sgd(0.0)
_, _, _, loss = m.train(jax.random.PRNGKey(1), data, opt, opt.init(eqx.filter(m, eqx.is_array)), 1, n, verbose=False)
print(loss, -(n - 1) / 2)
check(abs(float(loss[0]) + (n - 1) / 2) < 1e-6, "an epoch of one full batch does not use every example once")
''')

seed("nf-density-floor", "C03",
     [(K + "NF_proposal.py", "        log_prob_nf_current = eqx.filter_jit(self.model.log_prob)(position)\n",
       "        log_prob_nf_current = jnp.maximum(\n            eqx.filter_jit(self.model.log_prob)(position), -1e3\n        )\n")],
     "a chain that starts far outside the flow's bulk, at a log-density below minus a thousand",
     "the acceptance uses another flow density than that at the chain's state, so the chain leaves places it should stay at",
     '''
from flowMC.resource.kernel.NF_proposal import NFProposal
from flowMC.resource.model.nf_model.realNVP import RealNVP
m = RealNVP(2, 2, 4, jax.random.PRNGKey(1))
x = jnp.array([80.0, 0.0])
q = float(m.log_prob(x))
# the target is the flow raised to 0.9 times a constant: ratio = -0.1 * (log q' - log q), hugely negative
f = lambda y, data: 0.5 * m.log_prob(y)
pos, lp, acc = NFProposal(m).kernel(jax.random.PRNGKey(0), x, f(x, None), f, {"n_steps": 50})
print(q, np.asarray(acc).sum())
check(np.asarray(acc).sum() == 0, "a proposal with log ratio of about minus 1600 was accepted")
''')

seed("spline-naive-softplus", "C06",
     [(N + "rqSpline.py", "    return jax.nn.softplus(unnormalized_knot_slopes + offset) + min_knot_slope\n",
       "    return jnp.log1p(jnp.exp(unnormalized_knot_slopes + offset)) + min_knot_slope\n")],
     "a spline whose raw slope parameters are above 700 (above 88 in single precision)",
     "slopes overflow and the map is not finite",
     '''
import equinox as eqx
from flowMC.resource.model.common import MLP
from flowMC.resource.model.nf_model.rqSpline import RQSpline
m = MLP([1, 3, 7], jax.random.PRNGKey(0), activation=jnp.tanh)
m = eqx.tree_at(lambda q: q.layers[-1].bias, m, jnp.array([0.0, 0.0, 0.0, 0.0, 900.0, 900.0, 900.0]))
y, l = RQSpline(m, -2.0, 2.0).forward(jnp.array([1.3]), jnp.array([0.0]))
print(y, l)
check(np.isfinite(np.asarray(y)).all() and np.isfinite(np.asarray(l)).all(), "not finite")
''')

seed("bundle-step-clipped", "C20",
     [(BP, "        local_sampler = MALA(step_size=mala_step_size)\n", "        local_sampler = MALA(step_size=min(mala_step_size, 1.0))\n")],
     "a tempered bundle with a step size above one",
     "local and tempered steps use a smaller step size than the given one",
     '''
from flowMC.resource_strategy_bundle.RQSpline_MALA_PT import RQSpline_MALA_PT_Bundle
b = RQSpline_MALA_PT_Bundle(jax.random.PRNGKey(0), n_chains=2, n_dims=2, logpdf=lambda x, d: -0.5 * jnp.sum(x**2), n_local_steps=3, n_global_steps=2, n_training_loops=1, n_production_loops=1, n_epochs=1, rq_spline_n_layers=2, rq_spline_hidden_units=[4], rq_spline_n_bins=3, mala_step_size=25.0)
s = [getattr(r, "step_size") for r in b.resources.values() if hasattr(r, "step_size")]
print(s)
check(s and all(v == 25.0 for v in s), "another step size is used")
''')

seed("state-update-equal", "C19",
     [(R + "states.py", "            self.data[k] = v\n", "            if k in self.data and self.data[k] == v:\n                continue\n            self.data[k] = v\n")],
     "a value replaced by one that compares equal to it, such as 1 by True or 0 by False",
     "the old value stays",
     '''
from flowMC.resource.states import State
s = State({"training": 1, "n": False})
s.update(["training", "n"], [True, 0])
print(s.data)
check(s.data["training"] is True and type(s.data["n"]) is int, "the given values are not stored")
''')

seed("hmc-tamed-gradient", "C01",
     [(K + "HMC.py", "        momentum = momentum - self.step_size * self.leapfrog_coefs[index][1] * jax.grad(\n            potential\n        )(position, data)\n",
       "        force = jax.grad(potential)(position, data)\n        # tame exploding gradients\n        force = force / jnp.maximum(1.0, jnp.linalg.norm(force) / 1e3)\n        momentum = momentum - self.step_size * self.leapfrog_coefs[index][1] * force\n")],
     "a Hamiltonian chain where the gradient of the target is larger than 1000",
     "the trajectory is not the leapfrog trajectory of the target",
     '''
from flowMC.resource.kernel.HMC import HMC
k = HMC(step_size=1e-3, n_leapfrog=5)
f = lambda x, data: -0.5e6 * jnp.sum(x**2)  # standard deviation 1e-3
x = jnp.array([0.01])
pos, lp, acc = jax.vmap(lambda key: k.kernel(key, x, f(x, None), f, None))(jax.random.split(jax.random.PRNGKey(0), 2000))
# an oscillator of unit frequency followed for six steps of one
got = np.asarray(pos)[np.asarray(acc).astype(bool), 0]
print(got.mean(), np.asarray(acc).mean())
check(np.asarray(acc).mean() > 0.5 and abs(got.mean()) < 1.5e-2, "energy is not conserved")
want = []
for z in np.asarray(jax.random.normal(jax.random.PRNGKey(3), (5,))):
    pass
a, p = 0.01, 0.0
for i in range(7):
    if i:
        a = a + 1e-3 * p
    p = p - 1e-3 * (0.5 if i in (0, 6) else 1.0) * 1e6 * a
print("mean end point of the exact leapfrog trajectory", a)
check(abs(got.mean() - a) < 2e-4, "the trajectory is another one")
''')

seed("mala-nan-to-num", "C02",
     [(K + "MALA.py", "        log_prob = jnp.where(do_accept, logprob[1], logprob[0])\n",
       "        log_prob = jnp.where(do_accept, logprob[1], jnp.nan_to_num(logprob[0]))\n")],
     "a Langevin chain at a point of zero (or undefined) density whose proposal is rejected",
     "the returned log-probability is not the one at the returned position",
     '''
from flowMC.resource.kernel.MALA import MALA
k = MALA(step_size=0.1)
f = lambda x, data: jnp.where(x[0] > 0, -0.5 * jnp.sum(x**2), -jnp.inf)
x = jnp.array([-50.0])
pos, lp, acc = k.kernel(jax.random.PRNGKey(0), x, f(x, None), f, None)
print(pos, lp, acc)
check(bool(acc) or float(lp) == -np.inf, "a rejected move changed the log-probability")
''')

seed("adam-square-bounds", "C16",
     [("src/flowMC/strategy/optimization.py", "            params = optax.projections.projection_box(\n                params, self.bounds[:, 0], self.bounds[:, 1]\n            )\n",
       "            lower, upper = (\n                self.bounds if self.bounds.shape[0] == 2 else self.bounds.T\n            )\n            params = optax.projections.projection_box(params, lower, upper)\n")],
     "two dimensions with bounds of their own",
     "the rows of the bounds are taken for the lower and upper limits",
     '''
from flowMC.strategy.optimization import AdamOptimization
f = lambda x, d: jnp.sum(x)
_, _, x = AdamOptimization(f, 200, 0.1, 0.0, bounds=jnp.array([[0.0, 1.0], [2.0, 5.0]]))(jax.random.PRNGKey(0), {}, jnp.array([[0.5, 3.0]]), {})
print(x)
check(np.allclose(np.asarray(x), [[1.0, 5.0]]), "not at the upper bounds")
''')

seed("flowmatch-input-clipped", "C17",
     [(F, "        return self.solver.log_prob(x_whitened) + log_det\n", "        # the network is not trained beyond this\n        x_whitened = jnp.clip(x_whitened, -8.0, 8.0)\n        return self.solver.log_prob(x_whitened) + log_det\n")],
     "a point more than eight standard deviations away from the data's mean",
     "the log-density is that of another point, and is not normalised",
     '''
from flowMC.resource.model.common import MLP
from flowMC.resource.model.flowmatching.base import FlowMatchingModel, CondOTScheduler, Path, Solver
m = FlowMatchingModel(Solver(MLP([3, 3, 2], key=jax.random.PRNGKey(0), activation=jnp.tanh)), Path(CondOTScheduler()), jnp.zeros(2), jnp.eye(2))
a, b = (float(np.asarray(m.log_prob(jnp.array([v, 0.0]))).ravel()[0]) for v in (9.0, 12.0))
print(a, b)
check(a - b > 10.0, "the log-density does not fall off")
''')

seed("exchange-eight-pairs", "C11",
     [(P, "                length=positions.shape[0] - 1,\n", "                length=min(positions.shape[0] - 1, 8),\n"),
      (P, "        return positions, log_probs, do_accept\n\n    def _adapt_temperature(", "        do_accept = jnp.pad(do_accept, (0, positions.shape[0] - 1 - len(do_accept)))\n        return positions, log_probs, do_accept\n\n    def _adapt_temperature(")],
     "a ladder of ten or more temperatures",
     "the hottest replicas are never exchanged",
     '''
from flowMC.resource.logPDF import TemperedPDF
from flowMC.strategy.parallel_tempering import ParallelTempering
p = ParallelTempering(1, "t", "k", ["a", "b"], "s")
f = TemperedPDF(lambda x, d: x[0], lambda x, d: 0.0, n_dims=1)
# the hottest replica is the most likely one by far: always exchanged with its neighbour
pos = -jnp.arange(12.0)[:, None] * 1000.0
pos = pos.at[11].set(1e6)
out, lp, acc = p._exchange(jax.random.PRNGKey(0), pos, f, jnp.linspace(1.0, 12.0, 12), None)
print(out[:, 0])
check(float(out[10, 0]) == 1e6, "the hottest pair was not exchanged")
''')

seed("composable-sorted-logprob", "C08",
     [(C, "        for dist, (_, ranges) in zip(self.distributions, self.partitions.items()):\n", "        for dist, (_, ranges) in zip(\n            self.distributions, sorted(self.partitions.items())\n        ):\n")],
     "partitions whose names are not in alphabetical order",
     "parts are evaluated on each other's slices",
     '''
from flowMC.resource.model.common import Composable, Gaussian
c = Composable([Gaussian(jnp.zeros(1), jnp.eye(1)), Gaussian(jnp.ones(1) * 5, jnp.eye(1))], {"z": (0, 1), "a": (1, 2)})
l = float(c.log_prob(jnp.array([0.0, 5.0])))
print(l)
check(abs(l + np.log(2 * np.pi)) < 1e-9, "wrong log-density")
''')

seed("flow-latent-clipped", "C07",
     [(N + "rqSpline.py", "        samples = self.base_dist.sample(rng_key, n_samples)\n", "        samples = self.base_dist.sample(rng_key, n_samples)\n        samples = jnp.clip(samples, -10.0, 10.0)  # the range of the splines\n")],
     "a spline flow with a wide base distribution (or one centred far from zero)",
     "samples pile up at the edge and do not follow the density",
     '''
from flowMC.resource.model.common import Gaussian
from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
m = MaskedCouplingRQSpline(2, 2, [4], 4, jax.random.PRNGKey(0), base_dist=Gaussian(jnp.zeros(2), 100.0 * jnp.eye(2)))
x = np.asarray(m.sample(jax.random.PRNGKey(1), 500))
print(np.unique(x[:, 0]).size)
check(np.unique(x[:, 0]).size == 500, "samples are repeated")
''')

seed("tempered-likelihood-floor", "C12",
     [(R + "logPDF.py", "        return (1.0 / temperatures) * base_pdf + self.log_prior(x, data)\n",
       "        # keep hot replicas away from infinities\n        base_pdf = jax.numpy.maximum(base_pdf, -1e6)\n        return (1.0 / temperatures) * base_pdf + self.log_prior(x, data)\n")],
     "a replica where the log-likelihood is below minus a million, for example because it is zero",
     "the tempered density is not the likelihood over temperature plus the prior",
     '''
from flowMC.resource.logPDF import TemperedPDF
t = TemperedPDF(lambda x, d: jnp.where(x[0] > 0, -1e8 * x[0], -jnp.inf), lambda x, d: 0.0, n_dims=1)
a, b = float(t.tempered_log_pdf(2.0, jnp.array([1.0]), None)), float(t.tempered_log_pdf(2.0, jnp.array([-1.0]), None))
print(a, b)
check(a == -0.5e8 and b == -np.inf, "the tempered density is another one")
''')
