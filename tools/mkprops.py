import json
S="src/flowMC/"
def P(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],mechanism=[dict(name=n,where=S+w) for n,w in mech]))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=S+c) for a,b,c in state]
    return d
K="resource/kernel/"
props=[
P("C01","Local transition kernels satisfy exact Metropolis-Hastings",
 "For every target, position, step size and mass matrix, one random-walk, Langevin or Hamiltonian update proposes from its stated proposal (Gaussian step; half-step-squared gradient drift plus Gaussian noise; leapfrog trajectory with momentum drawn for the mass matrix) and accepts with exactly the Metropolis-Hastings probability of that proposal. Consequently each update leaves the target density invariant, and the noise and the accept decision of an update are independent random draws.",
 ["inputs","configurations"],"all differentiable targets, dimensions, positions, data, scalar/vector/diagonal step sizes, scalar/diagonal/dense condition matrices, trajectory lengths, random keys",
 "The kernel tests run one standard normal target with one step size and look at loose acceptance rates; a wrong correction term, covariance or off-diagonal changes nothing they measure.",
 [K+"Gaussian_random_walk.py",K+"MALA.py",K+"HMC.py"],
 [("symmetric random-walk acceptance",K+"Gaussian_random_walk.py:kernel"),("Langevin proposal and its two-sided density ratio",K+"MALA.py:kernel"),("leapfrog integration and Hamiltonian difference",K+"HMC.py:kernel")],
 ["position, log-probability and accept flag returned by one kernel update"]),
P("C02","A kernel update returns a coherent state and never enters impossible points",
 "Each update of every kernel, local or flow-based, returns either the unchanged position with its unchanged log-probability and a rejected flag, or the proposed position with the target's log-probability at exactly that position and an accepted flag. From a point of finite target density no update ever moves to a point where the target is zero or undefined, and a chain sitting at zero density accepts a proposal of positive density.",
 ["inputs","configurations","histories"],"all targets including ones with hard walls and undefined regions, all starting positions, keys, kernel settings and numbers of consecutive updates",
 "Tests use smooth targets of full support, and compare the returned log-probability with the position at only a few steps.",
 [K+"Gaussian_random_walk.py",K+"MALA.py",K+"HMC.py",K+"NF_proposal.py"],
 [("accept/reject selection of position and log_prob",K+"Gaussian_random_walk.py:kernel"),("same in the Langevin kernel",K+"MALA.py:kernel"),("same in the Hamiltonian kernel",K+"HMC.py:kernel"),("same in the independence sampler scan",K+"NF_proposal.py:kernel.body")]),
P("C03","Flow-based global proposals form an exact independence sampler",
 "A block of global steps draws independent proposals from the current flow and accepts each with exactly the independence Metropolis-Hastings probability, using the target and the flow density at the proposal and at the chain's current state, whatever state the chain started from. The batch size used to evaluate proposals affects neither how many steps are taken nor the correctness of any of them, and the target is evaluated with the user's own data.",
 ["inputs","configurations"],"all targets, flows (both flow families, any weights and data statistics), starting positions, numbers of steps, batch sizes and keys",
 "The unit tests check that proposals equal accepted states of a flow and rough acceptance rates; they cannot tell a missing or misplaced flow density term, nor a mis-batched proposal.",
 [K+"NF_proposal.py","strategy/take_steps.py"],
 [("acceptance ratio scan",K+"NF_proposal.py:kernel.body"),("batched drawing of proposals",K+"NF_proposal.py:sample_flow"),("batched evaluation of the target",K+"NF_proposal.py:kernel.scan_sample"),("handing the user's data to the target","strategy/take_steps.py:TakeGroupSteps.sample")]),
P("C04","Stepping strategies record the chains faithfully and contiguously",
 "Every stepping call writes, into the three buffers currently selected by the state, one aligned record of position, log-probability and accept flag per thinning interval of the steps just taken, at the contiguous slots starting at the stepper's current position, and then advances that position by the number of records; all other slots and buffers are left alone. Thinning only changes what is recorded: the chain continues from its true last step and evolves exactly as it would without thinning.",
 ["histories","configurations"],"all sequences of serial/grouped stepping calls, state switches and position resets, any numbers of steps, chains and dimensions, any thinning including ones that do not divide the number of steps",
 "Tests run one or two calls with thinning 1 or a divisor and check shapes, not the contents of every slot across a history.",
 ["strategy/take_steps.py","resource/buffers.py"],
 [("thinning and buffer update","strategy/take_steps.py:TakeSteps.__call__"),("serial scan","strategy/take_steps.py:TakeSerialSteps.sample"),("grouped steps","strategy/take_steps.py:TakeGroupSteps.sample"),("slice update","resource/buffers.py:update_buffer")],
 state=[("current_position","next free slot of the selected buffers","strategy/take_steps.py")]),
P("C05","Chains evolve independently; chain batching and verbosity change nothing",
 "In every stepping and tempering call each chain's trajectory depends only on its own starting state and its own random stream: changing other chains' states never changes it, and two chains, or two successive calls, never reuse the same randomness. Splitting the chains into batches of any size, or turning on verbose output, gives the same results as processing them all at once silently.",
 ["inputs","configurations"],"all numbers of chains, chain batch sizes (dividing or not), kernels, step counts, verbosity and starting states",
 "The chain-batch tests compare shapes for a couple of sizes; no test perturbs one chain and looks at the others.",
 ["strategy/take_steps.py","strategy/parallel_tempering.py"],
 [("per-chain key splitting and vmapped sampling","strategy/take_steps.py:TakeSteps.__call__"),("batch loop and concatenation","strategy/take_steps.py:TakeSteps.__call__"),("per-chain keys in tempering","strategy/parallel_tempering.py:ParallelTempering.__call__")]),
P("C06","Flow transformations are exact bijections with true log-determinants",
 "For every parameter setting, condition and input, including inputs outside or exactly at the edge of a spline's range, the forward and inverse maps of each flow model and each of its layers undo one another in both orders. The log-determinants they report equal the log absolute determinant of the map's actual Jacobian, forward and inverse ones being opposite at matching points, and masked coordinates of a coupling layer pass through unchanged.",
 ["inputs","configurations"],"all flow and layer types, sizes, trained or random parameters of any scale, all inputs",
 "Tests check the round trip of freshly initialised, near-identity models on a few inputs; several sub-layers are exactly the identity there, so ordering and sign mistakes are invisible.",
 ["resource/model/nf_model/rqSpline.py","resource/model/nf_model/realNVP.py","resource/model/common.py"],
 [("spline forward and inverse","resource/model/nf_model/rqSpline.py:_rational_quadratic_spline_fwd/_inv"),("layer stacking","resource/model/nf_model/rqSpline.py:MaskedCouplingRQSpline.forward/inverse"),("affine stacking","resource/model/nf_model/realNVP.py:RealNVP.forward/inverse"),("masked coupling","resource/model/common.py:MaskedCouplingLayer")]),
P("C07","A flow's log-density is normalised and matches the samples it draws",
 "For every flow model, parameter setting, data mean and covariance and base distribution, the reported log-density integrates to one over data space and is the base density at the latent point plus the log-determinant of the full data-to-latent map. Samples drawn from the model follow exactly that density and distinct samples are independent.",
 ["inputs","configurations"],"both flow families, all parameters, data statistics, base distributions and evaluation points",
 "The tests compare log-density shapes and finite values; normalisation involves an integral no unit test computes.",
 ["resource/model/nf_model/rqSpline.py","resource/model/nf_model/realNVP.py"],
 [("log_prob with whitening","resource/model/nf_model/rqSpline.py:log_prob"),("sample with un-whitening","resource/model/nf_model/rqSpline.py:sample"),("same for the affine flow","resource/model/nf_model/realNVP.py:log_prob/sample")]),
P("C08","Base distributions are normalised densities consistent with their samples",
 "A Gaussian with any mean and covariance reports its exact log-density and draws independent samples with that mean and covariance; a composition of distributions reports the sum of its parts' log-densities, each evaluated on its own slice of the input, and draws each part from its own distribution. A distribution declared not learnable passes no gradient to its parameters, a learnable one passes the true gradient.",
 ["inputs","configurations"],"all dimensions, means, covariances (correlated, badly scaled), partitions of the input, numbers of samples and keys",
 "Tests use a standard normal; correlation and partition mistakes vanish there.",
 ["resource/model/common.py"],
 [("Gaussian","resource/model/common.py:Gaussian"),("Composable","resource/model/common.py:Composable")]),
P("C09","Model training returns the best epoch and an honest loss history",
 "Training runs the requested number of epochs, each using a random selection of disjoint full batches of the data (or all of it in one batch when there is too little for a full one), and reports one loss per epoch. It returns the model and the optimiser state as they were at the end of the epoch with the lowest reported loss, normalised with the mean and covariance of the training data; the original model is not modified, and when no epoch yields a valid loss the original is returned.",
 ["inputs","histories","configurations"],"all data sets, batch sizes, numbers of epochs, optimisers and loss histories including ties, plateaus, increases and invalid values",
 "Tests check that the loss goes down on one data set; the interplay of best-epoch bookkeeping with non-monotone or invalid losses is never exercised.",
 ["resource/model/nf_model/base.py","resource/optimizer.py"],
 [("epoch loop and best-model bookkeeping","resource/model/nf_model/base.py:train"),("mini-batch permutation","resource/model/nf_model/base.py:train_epoch"),("gradient step","resource/model/nf_model/base.py:train_step")]),
P("C10","The training strategy feeds recorded samples and stores what training returns",
 "Each training call draws the requested number of training examples, all of them recorded (finite) samples of the chosen buffer and only from the most recent history window of every chain, with every eligible sample of every chain able to be chosen. It stores the trained model and optimiser state back for later use, appends the per-epoch losses to the loss buffer after those of earlier calls, and leaves the sample buffer and the chains' positions unchanged.",
 ["inputs","histories","configurations"],"all fill levels of the sample buffer, chains, history windows, example counts, epochs and sequences of repeated training calls",
 "The tests run the strategy once on fully random data; unfilled slots, windows and repeated calls are not covered.",
 ["strategy/train_model.py"],
 [("finite-row selection and window","strategy/train_model.py:TrainModel.__call__"),("loss buffer append","strategy/train_model.py:TrainModel.__call__")],
 state=[("loss buffer cursor","number of losses recorded so far","resource/buffers.py")]),
P("C11","Replica exchange conserves replicas and keeps the tempered ensemble invariant",
 "An exchange round only permutes each chain's replicas among its own temperatures: over any history of calls, in training and in production, no replica is lost, duplicated, altered or moved to another chain, and the state returned as the chain is the replica at temperature one. Adjacent replicas swap with probability min(1, exp((1/T2-1/T1)(logL1-logL2))) of their log-likelihoods, whatever the prior, so the product of the tempered densities is left invariant, and a replica of zero or undefined likelihood never displaces a possible chain.",
 ["inputs","histories","configurations"],"all ladders, numbers of temperatures and chains, replica positions, likelihoods, priors, phases and sequences of calls",
 "The unit test performs one exchange and looks at shapes and rates; conservation over histories and the exact swap probability are not tested.",
 ["strategy/parallel_tempering.py"],
 [("pairwise swap","strategy/parallel_tempering.py:_exchange_step_body"),("exchange sweep","strategy/parallel_tempering.py:_exchange"),("storing the replicas","strategy/parallel_tempering.py:__call__")],
 state=[("tempered position buffer","replicas above temperature one","strategy/parallel_tempering.py")]),
P("C12","Each temperature samples its own tempered density on a well-formed ladder",
 "Before exchanging, each replica takes the requested number of kernel updates on the log-likelihood divided by its own temperature plus the log-prior, the first rung being the untempered posterior, and each rung's density is left invariant. During training the ladder keeps its lowest temperature at one and its highest temperature unchanged, and adapted temperatures stay positive and increasing, moving apart where swaps succeed more often; outside training the ladder never changes.",
 ["inputs","histories","configurations"],"all ladders, likelihoods, priors, numbers of updates, kernels, phases and call histories",
 "The tests check one call's shapes; a rung using a neighbour's temperature or tempering the prior would pass.",
 ["strategy/parallel_tempering.py","resource/logPDF.py"],
 [("tempered density","resource/logPDF.py:TemperedPDF.tempered_log_pdf"),("per-rung updates","strategy/parallel_tempering.py:_ensemble_step/_individal_step"),("adaptation","strategy/parallel_tempering.py:_adapt_temperature")]),
P("C13","The sampler runs exactly the requested strategies, threading state between them",
 "A sampling run executes precisely the strategies named in the given order, repetitions included, handing each one the random key, resources and positions returned by the one before and the user's data, starting from the user's positions, and ends with the last returned resources. An unknown strategy name is reported as an error, explicitly given resources and strategies take precedence over a bundle, giving neither is an error, and the strategies that run a function or update a state pass everything else through untouched.",
 ["histories","configurations"],"all strategy orders, strategies, resources, starting positions and combinations of constructor arguments",
 "The tests run two fixed orders; they cannot show that arbitrary orders are executed and threaded correctly.",
 ["Sampler.py","strategy/lambda_function.py","strategy/update_state.py"],
 [("strategy loop","Sampler.py:sample"),("argument precedence","Sampler.py:__init__"),("pass-through strategies","strategy/lambda_function.py:__call__")]),
P("C14","Bundled samplers keep training and production apart and fill every record",
 "Whatever the numbers of steps, loops, chains, batch sizes and thinning, a run of a bundled sampler fills every slot of its training and production records with coherent samples: stored log-probabilities are the target at the stored positions, and local and global steps mark their own acceptances in alternating blocks. Training loops write only the training records; production loops write only the production records and leave the flow, the optimiser, the losses and the temperatures fixed, and every global step uses the most recently trained flow.",
 ["configurations","histories"],"all bundle settings: local/global step counts, loops, chains, thinning, batch sizes, with and without tempering",
 "One default run per bundle is made, and nothing about the contents of the buffers is compared.",
 ["resource_strategy_bundle/RQSpline_MALA.py","resource_strategy_bundle/RQSpline_MALA_PT.py","strategy/take_steps.py"],
 [("strategy order of both phases","resource_strategy_bundle/RQSpline_MALA.py:__init__"),("buffer sizes","resource_strategy_bundle/RQSpline_MALA.py:__init__"),("phase switch","strategy/update_state.py:__call__"),("model hand-over","resource_strategy_bundle/RQSpline_MALA.py:update_model")]),
P("C15","Runs are reproducible from the random key and do not modify their inputs",
 "Every run of a sampler, strategy, kernel, optimiser or model-drawing function is a function of its arguments and the random key alone: the same key gives identical results, a different key gives different random draws, and the key handed on is a fresh one. The caller's starting positions and data are never modified.",
 ["inputs","configurations","histories"],"all components, arguments, keys and earlier unrelated activity in the process",
 "Tests run each component once, so hidden state or a constant seed cannot show.",
 ["Sampler.py","strategy/take_steps.py","strategy/optimization.py","strategy/parallel_tempering.py","strategy/train_model.py"],
 [("explicit key threading","Sampler.py:sample"),("key splitting in strategies","strategy/take_steps.py:TakeSteps.__call__")]),
P("C16","The optimisation strategy climbs each chain independently within its bounds",
 "From any starting positions the optimiser moves every chain independently by the stated number of Adam steps on the negated target with multiplicative gradient noise, and without noise this is exactly projected Adam ascent. Every returned position lies within the given bounds, per dimension or shared, the returned log-probabilities are the target at the returned positions, resources pass through unchanged, and bounds of the wrong shape are rejected.",
 ["inputs","configurations"],"all targets, starting positions, chains, dimensions, bounds (finite, one-sided, infinite, shared), learning rates, noise levels and step counts",
 "The test optimises one Gaussian from one start and checks closeness.",
 ["strategy/optimization.py"],
 [("Adam loop with projection","strategy/optimization.py:optimize"),("bounds validation","strategy/optimization.py:__init__")]),
P("C17","Flow-matching density, samples, paths and training agree with its velocity field",
 "For every velocity network and data statistics, the flow-matching log-density is the change-of-variables density of the flow obtained by integrating the network from the standard-normal latent to data, is normalised, and describes the samples the model draws. Path points interpolate between latent and data end points with the matching time derivative, and training minimises the mean squared velocity error on whitened data and returns the epoch with the lowest reported loss.",
 ["inputs","configurations"],"all networks, data statistics, evaluation points, times, data sets and batch sizes",
 "Tests check shapes and finiteness of log-density and samples; integration and normalisation are not verified.",
 ["resource/model/flowmatching/base.py"],
 [("ODE sampling","resource/model/flowmatching/base.py:Solver.sample"),("ODE density","resource/model/flowmatching/base.py:Solver.log_prob"),("whitening","resource/model/flowmatching/base.py:FlowMatchingModel"),("path","resource/model/flowmatching/base.py:Path.sample"),("training loop","resource/model/flowmatching/base.py:train")]),
P("C18","Saving and loading restores models, buffers and states exactly",
 "A model, buffer or state written to disk and read back is equal to the original in every observable respect - values including non-finite ones, names, cursors, behaviour under later updates, densities and samples - whatever was stored and however many objects share a directory. Converting a model's precision changes only the precision of its parameters, and an unknown precision is rejected.",
 ["inputs","histories"],"all contents, shapes, names, fill histories, model sizes and parameters, and numbers of save/load cycles",
 "Only one model round trip is tested, on one output.",
 ["resource/buffers.py","resource/states.py","resource/model/nf_model/base.py","resource/model/flowmatching/base.py"],
 [("buffer files","resource/buffers.py:save_resource/load_resource"),("state files","resource/states.py:save_resource/load_resource"),("model files","resource/model/nf_model/base.py:save_model/load_model")]),
P("C19","Buffers, states and target densities behave like their simple models",
 "A buffer starts as all minus-infinity in its given shape and an update replaces exactly the given slots along its cursor dimension, keeping everything else; a state behaves like a dictionary in which only the named keys change. A target density, plain or tempered, returns exactly the user's function of position and data (log-likelihood over temperature plus log-prior when tempered) however it is transformed, copied or passed through compiled code, and reports its number of dimensions; an incomplete declaration is rejected.",
 ["histories","inputs"],"all shapes, cursor dimensions, update sequences, keys and values, functions, positions, temperatures and data",
 "Tests make one update of one shape and evaluate one Gaussian.",
 ["resource/buffers.py","resource/states.py","resource/logPDF.py"],
 [("slice update","resource/buffers.py:update_buffer"),("dictionary update","resource/states.py:update"),("pytree registration","resource/logPDF.py:tree_flatten/tree_unflatten"),("tempering","resource/logPDF.py:TemperedPDF.tempered_log_pdf")]),
P("C20","Bundled samplers leave the target unchanged and use the settings they are given",
 "Local, global and replica-exchange steps of a bundled sampler all target one and the same distribution, the user's: chains started from the target follow it at every training and production record, chains started elsewhere converge to it, tempered replicas follow the target raised to their inverse temperature, and when the flow equals the target every global proposal is accepted and independent. The step size, number of tempered steps, ladder, flow architecture, learning rate, epochs, batch size, history window and example limit given to a bundle are the ones its run uses.",
 ["configurations","inputs","histories"],"all bundle settings, targets, starting points and numbers of loops, with and without tempering",
 "Bundle tests run once and look at shapes; whether the samples follow the target, or whether a setting has any effect, is never asked.",
 ["resource_strategy_bundle/RQSpline_MALA.py","resource_strategy_bundle/RQSpline_MALA_PT.py","strategy/take_steps.py"],
 [("wiring of the components","resource_strategy_bundle/RQSpline_MALA.py:__init__"),("tempered wiring","resource_strategy_bundle/RQSpline_MALA_PT.py:__init__"),("model hand-over","resource_strategy_bundle/RQSpline_MALA.py:update_model")]),
]
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in props))
import sys; sys.path.insert(0,'/opt/veriftools')
