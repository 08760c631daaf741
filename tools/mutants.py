"""Source changes used by mutate.py: (id, property, file under src/flowMC, old text, new text)."""
K = "resource/kernel/"
N = "resource/model/nf_model/"
C = "resource/model/common.py"
F = "resource/model/flowmatching/base.py"
S = "strategy/"
P = "strategy/parallel_tempering.py"
B = "resource_strategy_bundle/RQSpline_MALA.py"
BP = "resource_strategy_bundle/RQSpline_MALA_PT.py"
MUTANTS = [
    # C01
    ("m01a", "C01", K + "MALA.py", "jax.value_and_grad(logpdf)(this_position, data)\n", "jax.value_and_grad(logpdf)(this_position, data)\n            this_d_log = jnp.clip(this_d_log, -100.0, 100.0)\n"),
    ("m01b", "C01", K + "Gaussian_random_walk.py", "jax.random.normal(key1, shape=position.shape) * self", "jnp.clip(jax.random.normal(key1, shape=position.shape), -3, 3) * self"),
    ("m01c", "C01", K + "Gaussian_random_walk.py", "jax.random.uniform(key2)", "jax.random.uniform(key1)"),
    ("m01d", "C01", K + "HMC.py", "jax.random.uniform(key2)", "jax.random.uniform(key1)"),
    ("m01e", "C01", K + "HMC.py", "jax.random.normal(key1, shape=position.shape)", "jax.random.normal(key1, shape=position.shape).at[0].multiply(1.02)"),
    ("m01f", "C01", K + "HMC.py", "        log_acc = H - proposed_ham\n", "        log_acc = jnp.where(H - proposed_ham < -1000, H - proposed_ham + 1000, H - proposed_ham)\n"),
    ("m01g", "C01", K + "MALA.py", "position, proposal[0] + jnp.dot(dt2, d_logprob[1]) / 2, dt2", "position, proposal[0] + jnp.dot(dt2, jnp.where(logprob[1] > logprob[0], d_logprob[1], d_logprob[0])) / 2, dt2"),
    # C02
    ("m02a", "C02", K + "Gaussian_random_walk.py", "do_accept = log_uniform < proposal_log_prob - log_prob", "do_accept = ~(log_uniform >= proposal_log_prob - log_prob)"),
    ("m02b", "C02", K + "HMC.py", "do_accept = log_uniform < log_acc", "do_accept = ~(log_uniform >= log_acc)"),
    ("m02c", "C02", K + "MALA.py", "= log_uniform < ratio", "= jnp.logical_not(log_uniform >= ratio)"),
    ("m02d", "C02", K + "NF_proposal.py", "do_accept = uniform_random < ratio", "do_accept = ~(uniform_random >= ratio)"),
    ("m02e", "C02", K + "HMC.py", "log_prob = jnp.where(do_accept, -proposed_PE, log_prob)", "log_prob = jnp.where(do_accept, -proposed_ham, log_prob)"),
    ("m02f", "C02", K + "MALA.py", "log_prob = jnp.where(do_accept, logprob[1], logprob[0])", "log_prob = jnp.where(do_accept, logprob[1], jnp.maximum(logprob[0], -1e4))"),
    ("m02g", "C02", K + "MALA.py", "        ratio = logprob[1] - logprob[0]\n", "        ratio = jnp.where(jnp.isneginf(logprob[0]), 0.0, logprob[1] - logprob[0])\n"),
    ("m02h", "C02", K + "Gaussian_random_walk.py", "do_accept = log_uniform < proposal_log_prob - log_prob", "do_accept = log_uniform < jnp.nan_to_num(proposal_log_prob - log_prob)"),
    # C03
    ("m03a", "C03", K + "NF_proposal.py", "                return (rng_key, model), (proposal_position, proposed_log_prob)", "                return carry, (proposal_position, proposed_log_prob)"),
    ("m03b", "C03", K + "NF_proposal.py", "do_accept, log_prob_nf_proposal, log_prob_nf_initial\n", "do_accept & (log_prob_nf_proposal > log_prob_nf_initial), log_prob_nf_proposal, log_prob_nf_initial\n"),
    ("m03c", "C03", K + "NF_proposal.py", "            rng_key, subkey = random.split(rng_key)\n            ratio", "            _, subkey = random.split(rng_key)\n            ratio"),
    ("m03e", "C03", K + "NF_proposal.py", "                            (n_batch - 1) * self.n_batch_size,\n                            n_steps -", "                            n_steps - (n_steps - (n_batch - 1) * self.n_batch_size) - (n_batch > 2),\n                            n_steps -"),
    # C04
    ("m04a", "C04", S + "take_steps.py", "log_prob_buffer.update_buffer(log_probs, self.current_position)", "log_prob_buffer.update_buffer(log_probs, min(self.current_position, log_prob_buffer.shape[1] - 2 * log_probs.shape[1]) if log_prob_buffer.shape[1] >= 2 * log_probs.shape[1] else self.current_position)"),
    ("m04b", "C04", S + "take_steps.py", "self.current_position += self.n_steps // self.thinning", "self.current_position += -(-self.n_steps // self.thinning)"),
    ("m04e", "C04", S + "take_steps.py", "            (rng_key, initial_position, logpdf(initial_position, data), logpdf, data),", "            (rng_key, initial_position, logpdf(initial_position, data) * (1 if self.current_position == 0 else 1.0001), logpdf, data),"),
    # C05
    ("m05a", "C05", S + "take_steps.py", "subkey_batch = subkey[batch_slice]", "subkey_batch = subkey[: initial_position[batch_slice].shape[0]]"),
    ("m05c", "C05", P, "        rng_key = jax.random.split(rng_key, positions.shape[0])\n", "        rng_key = jnp.repeat(rng_key[None], positions.shape[0], axis=0)\n"),
    ("m05d", "C05", P, "        if self.verbose:\n            mean_accs = jnp.mean(do_accepts)\n            print(\"Mean acceptance of individual", "        if self.verbose:\n            rng_key, _ = jax.random.split(rng_key)\n            mean_accs = jnp.mean(do_accepts)\n            print(\"Mean acceptance of individual"),
    ("m05e", "C05", S + "take_steps.py", "        rng_key, subkey = jax.random.split(rng_key)\n        subkey = jax.random.split(subkey, initial_position.shape[0])", "        subkey = rng_key\n        subkey = jax.random.split(subkey, initial_position.shape[0])"),
    ("m05g", "C05", P, "        subkey = jax.random.split(subkey, initial_position.shape[0])\n        positions, log_probs, do_accepts = eqx.filter_jit(\n            eqx.filter_vmap(self._exchange", "        subkey = jax.random.split(subkey, max(2, initial_position.shape[0]) // 2)\n        subkey = jnp.concatenate([subkey, subkey, subkey])[: initial_position.shape[0]]\n        positions, log_probs, do_accepts = eqx.filter_jit(\n            eqx.filter_vmap(self._exchange"),
    # C06
    ("m06a", "C06", N + "rqSpline.py", "correct_bin = jnp.logical_and(x >= x_pos[:-1], x < x_pos[1:])", "correct_bin = jnp.logical_and(x >= x_pos[:-1], x <= x_pos[1:])"),
    ("m06b", "C06", N + "rqSpline.py", "numerator = jnp.where(b >= 0, numerator_1, numerator_2)", "numerator = jnp.where(b > -1e-3, numerator_1, -b - safe_sqrt)"),
    ("m06c", "C06", N + "rqSpline.py", "logdet = jnp.where(above_range, jnp.log(knot_slopes[-1]), logdet)", "logdet = jnp.where(above_range, jnp.log(knot_slopes[0]), logdet)"),
    ("m06d", "C06", N + "rqSpline.py", "    below_range = y <= y_pos[0]", "    below_range = y <= x_pos[0] - 1e-3"),
    ("m06e", "C06", C, "y = x * jnp.exp(-scale) - shift", "y = x / jnp.maximum(jnp.exp(scale), 0.4) - shift"),
    ("m06f", "C06", C, "        log_det = ((1 - self.mask) * log_det).sum()\n        return y, log_det\n\n    def inverse", "        log_det = ((1 - self.mask) * jnp.clip(log_det, -4, 4)).sum()\n        return y, log_det\n\n    def inverse"),
    ("m06g", "C06", N + "rqSpline.py", "z = jnp.clip(z, 0.0, 1.0)  # Ensure z is in [0, 1].", "z = jnp.clip(z, 1e-6, 1.0 - 1e-6)  # Ensure z is in [0, 1]."),
    ("m06h", "C06", C, "        log_det = -self.scale\n", "        log_det = -jnp.abs(self.scale)\n"),
    # C07
    ("m07a", "C07", N + "rqSpline.py", "std = jnp.sqrt(jnp.diag(self.data_cov))", "std = jnp.sqrt(jnp.diag(self.data_cov) + 1e-8)"),
    ("m07b", "C07", N + "realNVP.py", "std = jnp.sqrt(jnp.diag(self.data_cov))", "std = jnp.maximum(jnp.sqrt(jnp.diag(self.data_cov)), 1e-2)"),
    ("m07c", "C07", N + "realNVP.py", "samples = samples * jnp.sqrt(jnp.diag(self.data_cov)) + self.data_mean", "samples = samples * jnp.sqrt(jnp.linalg.eigvalsh(self.data_cov)) + self.data_mean"),
    ("m07d", "C07", N + "rqSpline.py", "samples = self.base_dist.sample(rng_key, n_samples)", "samples = jnp.clip(self.base_dist.sample(rng_key, n_samples), -3.5, 3.5)"),
    # C08
    ("m08a", "C08", C, "            rng_key, sub_key = jax.random.split(rng_key)\n            samples", "            _, sub_key = jax.random.split(rng_key)\n            samples"),
    ("m08b", "C08", C, "logpdf(x, self.mean, self.cov)", "logpdf(x, self.mean, self.cov + 1e-6 * jnp.eye(x.shape[-1]))"),
    ("m08c", "C08", C, "            return self._cov\n        else", "            return jax.lax.stop_gradient(self._cov)\n        else"),
    ("m08e", "C08", C, "            rng_key, self.mean, self.cov, (n_samples,)\n", "            rng_key, self.mean, jnp.diag(jnp.diag(self.cov)) if n_samples == 1 else self.cov, (n_samples,)\n"),
    # C09
    ("m09a", "C09", N + "base.py", "if loss_values[epoch] < best_loss:", "if loss_values[epoch] <= best_loss or epoch == 0:"),
    ("m09b", "C09", N + "base.py", "                best_state = state\n", "                best_state = state if epoch == 0 else best_state\n"),
    ("m09c", "C09", N + "base.py", "if steps_per_epoch > 0:", "if steps_per_epoch > 1:"),
    ("m09d", "C09", N + "base.py", "rng, input_rng = jax.random.split(rng)", "_, input_rng = jax.random.split(rng)"),
    ("m09e", "C09", N + "base.py", "model, jnp.cov(data.T))", "model, jnp.cov(data[: len(data) // batch_size * batch_size or None].T))"),
    ("m09f", "C09", N + "base.py", "perms = jax.random.permutation(rng, train_ds_size)\n", "perms = jax.random.choice(rng, train_ds_size, (train_ds_size,))\n"),
    ("m09g", "C09", N + "base.py", "best_loss = loss_values[epoch]", "best_loss = jnp.abs(loss_values[epoch])"),
    # C10
    ("m10a", "C10", S + "train_model.py", "jnp.arange(training_data.shape[0])", "jnp.arange(training_data.shape[0] - 1)"),
    ("m10b", "C10", S + "train_model.py", "loss_buffer.cursor += len(loss_values)", "loss_buffer.cursor = len(loss_values)"),
    ("m10c", "C10", S + "train_model.py", "        optimizer.optim_state = optim_state\n", "        optimizer.optim_state = optim_state if loss_values[-1] < loss_values[0] else optimizer.optim_state\n"),
    ("m10e", "C10", S + "train_model.py", "shape=(self.n_max_examples,)", "shape=(min(self.n_max_examples, training_data.shape[0]),)"),
    # C11
    ("m11a", "C11", P, "            log_probs,\n            idx + 1,\n            logpdf,\n            temperatures,\n            data,\n        ), do_accept", "            carry[2],\n            idx + 1,\n            logpdf,\n            temperatures,\n            data,\n        ), do_accept"),
    ("m11b", "C11", P, "        tempered_positions.update_buffer(positions[:, 1:], 0)\n", "        if state.data[\"training\"]:\n            tempered_positions.update_buffer(positions[:, 1:], 0)\n"),
    ("m11c", "C11", P, "log_uniform = jnp.log(jax.random.uniform(subkey))\n        do_accept: Bool[Array, \" 1\"] = log_uniform < ratio", "log_uniform = jnp.log(jax.random.uniform(subkey))\n        do_accept: Bool[Array, \" 1\"] = (log_uniform < ratio) | jnp.isnan(ratio)"),
    ("m11d", "C11", P, "        log_probs = jax.vmap(logpdf, in_axes=(0, None))(positions, data)\n", "        log_probs = jax.vmap(lambda x: logpdf(x, data) + logpdf.log_prior(x, data))(positions)\n"),
    ("m11e", "C11", P, "        return rng_key, resources, positions[:, 0]", "        return rng_key, resources, positions[:, jnp.argmin(temperatures.data)]"),
    ("m11f", "C11", P, "        key, subkey = jax.random.split(key)\n        ratio", "        subkey = key\n        ratio"),
    # C12
    ("m12a", "C12", P, "for i in range(1, temperatures.shape[0] - 1):", "for i in range(1, temperatures.shape[0]):"),
    ("m12c", "C12", P, "        log_probs = jax.tree_util.Partial(logpdf.tempered_log_pdf, temperatures)(\n            positions, data\n        )", "        log_probs = logpdf(positions, data)"),
    ("m12d", "C12", P, "            length=self.n_steps,", "            length=max(self.n_steps, 2),"),
    ("m12e", "C12", P, "acceptance_rate[:-1] - acceptance_rate[1:]", "acceptance_rate[1:] - acceptance_rate[:-1]"),
    ("m12f", "C12", "resource/logPDF.py", "return (1.0 / temperatures) * base_pdf + self.log_prior(x, data)", "return (1.0 / temperatures) * (base_pdf + self.log_prior(x, data))"),
    # C13
    ("m13a", "C13", "Sampler.py", "        for strategy in self.strategy_order:\n", "        for strategy in dict.fromkeys(self.strategy_order):\n"),
    ("m13b", "C13", "Sampler.py", "] (rng_key, self.resources, last_step, data)" , "] (rng_key, self.resources, last_step, data)"),
    ("m13c", "C13", "Sampler.py", "            ](rng_key, self.resources, last_step, data)", "            ](rng_key, dict(self.resources), last_step, data)"),
    ("m13d", "C13", "Sampler.py", "if resources is not None and strategies is not None:", "if resources and strategies:"),
    ("m13e", "C13", S + "lambda_function.py", "        self.lambda_function(rng_key, resources, initial_position, data)\n        return", "        out = self.lambda_function(rng_key, resources, initial_position, data)\n        if isinstance(out, tuple) and len(out) == 3:\n            return out\n        return"),
    ("m13f", "C13", S + "update_state.py", "        state.update(self.keys, self.values)\n", "        state.update(self.keys, [v for v in self.values if v is not None and v != \"\"])\n"),
    # C14
    ("m14a", "C14", BP, "            \"update_model\",\n            \"global_stepper\",\n            \"update_local_step\",\n        ]\n        production", "            \"global_stepper\",\n            \"update_model\",\n            \"update_local_step\",\n        ]\n        production"),
    ("m14c", "C14", BP, "                \"global_accs_production\",\n                False,", "                \"global_accs_production\",\n                True,"),
    ("m14d", "C14", B, "            n_global_steps,\n            thinning=global_thinning,", "            n_global_steps,\n            thinning=local_thinning,"),
    ("m14e", "C14", BP, "            \"positions_training\",\n            \"optimizer\",", "            \"positions_production\",\n            \"optimizer\","),
    ("m14f", "C14", B, "                \"local_accs_production\",\n                \"global_accs_production\",\n                False", "                \"local_accs_production\",\n                \"global_accs_training\",\n                False"),
    # C15
    ("m15a", "C15", S + "take_steps.py", "        rng_key, subkey = jax.random.split(rng_key)\n        subkey = jax.random.split(subkey, initial_position.shape[0])", "        _, subkey = jax.random.split(rng_key)\n        subkey = jax.random.split(subkey, initial_position.shape[0])"),
    ("m15b", "C15", S + "optimization.py", "        rng_key, subkey = jax.random.split(rng_key)\n        keys", "        subkey = jax.random.PRNGKey(0)\n        keys"),
    ("m15c", "C15", N + "rqSpline.py", "        keys = jax.random.split(key, n_layers)\n", "        keys = jax.random.split(jax.random.PRNGKey(n_layers), n_layers)\n"),
    ("m15e", "C15", BP, "        rng_key, subkey = jax.random.split(rng_key)\n        model = Masked", "        subkey = jax.random.PRNGKey(0)\n        model = Masked"),
    # C16
    ("m16a", "C16", S + "optimization.py", "params, self.bounds[:, 0], self.bounds[:, 1]\n", "params, self.bounds[0, 0], self.bounds[:, 1]\n"),
    ("m16b", "C16", S + "optimization.py", "keys = jax.random.split(subkey, initial_position.shape[0])", "keys = jnp.broadcast_to(subkey, (initial_position.shape[0],) + subkey.shape)"),
    ("m16c", "C16", S + "optimization.py", "                jnp.arange(self.n_steps),", "                jnp.arange(max(self.n_steps, 1)),"),
    ("m16d", "C16", S + "optimization.py", "            key, subkey = jax.random.split(key)\n            grad", "            subkey = key\n            grad"),
    ("m16e", "C16", S + "optimization.py", "1 + jax.random.normal(subkey) * self.noise_level", "1 + jnp.abs(jax.random.normal(subkey)) * self.noise_level"),
    ("m16f", "C16", S + "optimization.py", "        if bounds.ndim != 2 or bounds.shape[1] != 2:", "        if bounds.ndim != 2 or bounds.shape[-1] < 2:"),
    ("m16g", "C16", S + "optimization.py", "        final_log_prob = jax.vmap(self.logpdf, in_axes=(0, None))(\n            optimized_positions, data\n        )", "        final_log_prob = -jax.vmap(objective, in_axes=(0, None))(\n            optimized_positions, data\n        )"),
    # C17
    ("m17a", "C17", F, "return [y, jnp.trace(div)]", "return [y, jnp.sum(jnp.diagonal(div)[:3])]"),
    ("m17b", "C17", F, "            batch_x1 = (data[1] - self.data_mean) / std\n", "            batch_x1 = data[1] - self.data_mean\n"),
    ("m17c", "C17", F, "return t, 1.0, 1.0 - t, -1.0", "return t, 1.0, 1.0 - t + 1e-3, -1.0"),
    ("m17d", "C17", F, "                    data[2][perm, ...],", "                    data[2][: batch_size],"),
    ("m17e", "C17", F, "            if loss_values[epoch] < best_loss:\n                best_model = model", "            if loss_values[epoch] < best_loss or epoch == num_epochs - 1:\n                best_model = model"),
    ("m17f", "C17", F, "samples = samples * std + self.data_mean", "samples = samples * jnp.minimum(std, 10.0) + self.data_mean"),
    ("m17g", "C17", F, "        sols = eqx.filter_vmap(solve_ode, in_axes=(0, None))(x0, dt)", "        sols = eqx.filter_vmap(solve_ode, in_axes=(0, None))(x0, jnp.maximum(dt, 0.5) if n_samples > 100 else dt)"),
    # C18
    ("m18a", "C18", "resource/buffers.py", "            data=self.data,\n            cursor=self.cursor,", "            data=np.nan_to_num(self.data, nan=np.nan, posinf=np.inf, neginf=-np.inf) if self.data.ndim > 1 else np.asarray(self.data, np.float32),\n            cursor=self.cursor,"),
    ("m18b", "C18", "resource/buffers.py", "            cursor=self.cursor,\n", "            cursor=min(self.cursor, self.data.shape[0] - 1),\n"),
    ("m18c", "C18", N + "base.py", "eqx.tree_deserialise_leaves(path + \".eqx\", self)", "eqx.tree_at(lambda m: m._data_mean, eqx.tree_deserialise_leaves(path + \".eqx\", self), self._data_mean)"),
    ("m18d", "C18", N + "base.py", "precisions_dict[precision.lower()]", "precisions_dict.get(precision.lower(), jnp.float32)"),
    ("m18e", "C18", "resource/states.py", "            data=self.data,  # type: ignore\n", "            data={k: v for k, v in self.data.items() if v is not False},  # type: ignore\n"),
    # C19
    ("m19a", "C19", "resource/buffers.py", "            self.data, updates, start, self.cursor_dim\n", "            self.data, updates, start, self.cursor_dim if self.data.ndim < 4 else 0\n"),
    ("m19b", "C19", "resource/logPDF.py", "aux_data = (self.log_pdf, self.log_prior, self.variables)", "aux_data = (self.log_pdf, self.log_prior, sorted(self.variables, key=lambda v: v.name))"),
    ("m19c", "C19", "resource/logPDF.py", "        if variables is None and n_dims is not None:", "        if n_dims is not None:"),
    ("m19d", "C19", "resource/states.py", "        for k, v in zip(key, value):\n            self.data[k] = v", "        for k, v in dict(zip(reversed(key), reversed(value))).items():\n            self.data[k] = v"),
    # C20
    ("m20a", "C20", "resource_strategy_bundle/RQSpline_MALA.py", "optimizer = Optimizer(model=model, learning_rate=learning_rate)", "optimizer = Optimizer(model=model)"),
    ("m20b", "C20", "resource_strategy_bundle/RQSpline_MALA_PT.py", "            n_steps=n_tempered_steps,\n", "            n_steps=n_local_steps,\n"),
    ("m20c", "C20", "resource_strategy_bundle/RQSpline_MALA.py", "n_dims, rq_spline_n_layers, rq_spline_hidden_units, rq_spline_n_bins, subkey", "n_dims, rq_spline_n_layers, rq_spline_hidden_units[:1] * len(rq_spline_hidden_units), rq_spline_n_bins, subkey"),
    ("m20d", "C20", "resource_strategy_bundle/RQSpline_MALA_PT.py", "            history_window=history_window,\n", "            history_window=max(history_window, n_local_steps),\n"),
    ("m20e", "C20", "resource_strategy_bundle/RQSpline_MALA.py", "            n_max_examples=n_max_examples,\n", "            n_max_examples=max(n_max_examples, batch_size),\n"),
    ("m20g", "C20", "resource_strategy_bundle/RQSpline_MALA_PT.py", "        local_sampler = MALA(step_size=mala_step_size)\n", "        local_sampler = MALA(step_size=mala_step_size * max_temperature**0.5)\n"),
]
